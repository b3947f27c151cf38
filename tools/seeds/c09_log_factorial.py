PROPERTY = 'C09'
NEEDS = 'a smearer which is used, given another light yield and used again'
BREAKS = 'the factorials remembered are those of the first light yield, so the weights are wrong'
EDITS = [("echidna/core/smear.py",
          '        if photons not in self._log_factorial:\n            self._log_factorial[photons] = (\n                numpy.sum(numpy.log(numpy.arange(1, (photons+1)))))\n        log_pois = (photons*numpy.log(expected) -\n                    self._log_factorial[photons] -\n                    expected)\n        return numpy.exp(log_pois)\n\n    def calc_smear_ly(',
          '        if x not in self._log_factorial:\n            self._log_factorial[x] = (\n                numpy.sum(numpy.log(numpy.arange(1, (photons+1)))))\n        log_pois = (photons*numpy.log(expected) -\n                    self._log_factorial[x] -\n                    expected)\n        return numpy.exp(log_pois)\n\n    def calc_smear_ly(')]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.smear import EnergySmearLY
spectrum = make([("energy_mc", 1., 3., 20)], [0.] * 10 + [1.] + [0.] * 9)
used = EnergySmearLY()
used.set_resolution(200.)
used.weighted_smear(spectrum)
fresh = EnergySmearLY()
used.set_resolution(100.)
fresh.set_resolution(100.)
check(numpy.allclose(used.weighted_smear(spectrum).get_data(),
                     fresh.weighted_smear(spectrum).get_data()),
      "another result than that of a new smearer")
'''
