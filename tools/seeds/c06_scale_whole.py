PROPERTY = "C06"
NEEDS = ("two scalings in a row, the first to a number of decays which is "
         "not whole")
BREAKS = ("the number of decays is remembered as a whole number, so the next "
          "scaling multiplies by the wrong ratio")
EDITS = [("echidna/core/spectra.py",
          "        self._num_decays = float(num_decays)\n\n    def set_back",
          "        self._num_decays = float(int(num_decays) or num_decays)\n\n"
          "    def set_back")]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter
pars = collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 1., 10))
spectrum = Spectra("spec", 10., SpectraConfig("config", pars))
for i in range(10):
    spectrum.fill(energy_mc=0.05 + 0.1 * i)
spectrum.scale(2.5)
spectrum.scale(10.)
check(numpy.allclose(spectrum.get_data(), 1.), "scaling there and back gives "
      "%s" % spectrum.get_data())
'''
