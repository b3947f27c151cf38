PROPERTY = 'C25'
NEEDS = 'an outer radius given for the reconstructed signed radius'
BREAKS = 'the radius of the acrylic vessel is used instead'
EDITS = [
    ('echidna/core/dsextract.py',
     """        return ZRadial3ExtractMC(**kwdict)
    elif dimension == "zradial3_reco":
        if "outer_radius" in kwargs:
            kwdict["outer_radius"] = kwargs["outer_radius"]
""",
     """        return ZRadial3ExtractMC(**kwdict)
    elif dimension == "zradial3_reco":
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core import dsextract


class Entry(object):
    posx, posy, posz = 0., 0., -3000.
    scintFit = 1


extractor = dsextract.function_factory("zradial3_reco", outer_radius=6000.)
value = extractor.get_value_ntuple(Entry())
check(numpy.isclose(value, -0.125), "value: %s" % value)
'''
