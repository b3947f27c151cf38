PROPERTY = "C03"
NEEDS = ("an upper bound given a rounding error above a bin edge, so that the "
         "correction for floating point errors acts on it")
BREAKS = ("the upper bound of the dimension keeps the value before the "
          "correction: bounds and bin width no longer describe the contents")
EDITS = [("echidna/core/spectra.py", """                if (new_high - kwargs[kw_high]) > 0.0:
                    high_bin -= 1
                    new_high = par.round(par._low + high_bin * par.get_width())
""", """                if (new_high - kwargs[kw_high]) > 0.0:
                    high_bin -= 1
""")]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter
pars = collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 1., 10))
spectrum = Spectra("spec", 10., SpectraConfig("config", pars))
for i in range(10):
    spectrum.fill(energy_mc=0.05 + 0.1 * i)
spectrum.shrink(energy_mc_high=0.1 + 0.1 + 0.1 + 1.e-9)
par = spectrum.get_config().get_par("energy_mc")
check(spectrum.get_data().shape == (3,), "3 bins are kept")
check(abs(par.get_high() - 0.3) < 1e-6, "upper bound is %s" % par.get_high())
check(abs(par.get_width() - 0.1) < 1e-6, "bin width is %s" % par.get_width())
'''
