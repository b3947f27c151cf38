PROPERTY = 'C01'
NEEDS = 'a spectrum whose dimensions are not in alphabetical order in its config'
BREAKS = 'the bins of different dimensions are mixed up when it is filled'
EDITS = [
    ('echidna/core/spectra.py',
     """                raise ValueError("%s out of range: %s" % (v, kwargs[v]))
        bins = []
        for v in self._config.get_pars():
""",
     """                raise ValueError("%s out of range: %s" % (v, kwargs[v]))
        bins = []
        for v in sorted(kwargs):
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


spectrum = make([("radial_mc", 0., 3., 3), ("energy_mc", 0., 3., 3)],
                numpy.zeros((3, 3)))
spectrum.fill(radial_mc=0.5, energy_mc=2.5)
check(spectrum._data[0, 2] == 1., "contents: %s" % spectrum._data.tolist())
'''
