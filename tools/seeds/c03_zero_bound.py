PROPERTY = 'C03'
NEEDS = 'a spectrum with a negative lower bound, shrunk to a bound which is exactly zero'
BREAKS = 'the bound is taken not to be given'
EDITS = [
    ('echidna/core/spectra.py',
     """            if "%s_low" % par_name not in kwargs:
""",
     """            if not kwargs.get(kw_low):
"""),
    ('echidna/core/spectra.py',
     """            if "%s_high" % par_name not in kwargs:
""",
     """            if not kwargs.get(kw_high):
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

spectrum = make([("energy_mc", -4., 4., 8)], range(8))
spectrum.shrink(energy_mc_low=0.)
check(spectrum.get_config().get_par("energy_mc").get_low() == 0.,
      "the lower bound is %s"
      % spectrum.get_config().get_par("energy_mc").get_low())
check(spectrum.sum() == 22., "the sum is %s" % spectrum.sum())
'''
