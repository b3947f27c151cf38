PROPERTY = 'C26'
NEEDS = 'an event of a RAT file with more than four triggered events'
BREAKS = 'the later triggered events are left out'
EDITS = [
    ('echidna/core/fill_spectrum.py',
     """        for ievent in range(0, ds.GetEVCount()):
            ev = ds.GetEV(ievent)
            fill_kwargs = {}""",
     """        for ievent in range(0, min(ds.GetEVCount(), 4)):
            ev = ds.GetEV(ievent)
            fill_kwargs = {}"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


import demo_rat
demo_rat.install()
from echidna.core import fill_spectrum
config = SpectraConfig("config", collections.OrderedDict(
    energy_reco=SpectraParameter("energy_reco", 0., 10., 10)))
evs = [{"fitted": True, "energy": 0.5 + i, "energy_valid": True, "position": [0., 0., 0.], "position_valid": True} for i in range(7)]
demo_rat.FILES["f"] = [{"particles": [[0., 0., 0.]], "deposit": 3.5, "quenched": 3.5, "evs": evs[:n]} for n in (1, 0, 7, 3)]
spectrum = fill_spectrum.fill_from_root("f", "spec", config)
check(spectrum.sum() == 11., "%s of 11 triggered events are filled" % spectrum.sum())
'''
