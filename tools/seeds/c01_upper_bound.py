PROPERTY = "C01"
NEEDS = ("a dimension whose upper bound is zero or below (less than the bin "
         "width), and a value between the two")
BREAKS = ("a value above the upper bound is not rejected but filled into the "
          "last bin")
EDITS = [("echidna/core/spectra.py", """            if not self._config.get_par(v)._low <= kwargs[v] < \\
                    self._config.get_par(v)._high:
""", """            if not self._config.get_par(v)._low <= kwargs[v] < \\
                    max(self._config.get_par(v)._high,
                        self._config.get_par(v).get_width()):
""")]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter
pars = collections.OrderedDict([
    ("energy_mc", SpectraParameter("energy_mc", -1., 0., 2)),
    ("radial_mc", SpectraParameter("radial_mc", 0., 100., 2))])
spectrum = Spectra("spec", 10., SpectraConfig("config", pars))
try:
    spectrum.fill(radial_mc=1., energy_mc=0.25)
except ValueError:
    pass
check(spectrum.sum() == 0., "a value out of range is filled")
'''
