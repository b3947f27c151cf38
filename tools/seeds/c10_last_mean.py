PROPERTY = 'C10'
NEEDS = 'a spectrum of several dimensions, the energy not the last of them'
BREAKS = 'the random energies are thrown around the bin centre of the last dimension'
EDITS = [
    ('echidna/core/smear.py',
     """        smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
        smeared_spec._data = numpy.zeros(spectrum._data.shape)
        for bin in itertools.product(*bins):
            entries = int(spectrum._data[bin])
            if entries:
                data = {}
                for i in range(len(bin)):
                    mean = self.get_bin_mean(lows[i], bin[i], widths[i])
                    if i == idx:
                        mean_e = mean
                        sigma = self.get_sigma(mean)
                    else:
                        data[par_names[i]] = mean
                for i in range(entries):
                    if self._poisson_smear is True:
                        photons = (numpy.fabs
                                   (numpy.random.poisson(mean_e *
""",
     """        smeared_spec._name = spectrum._name + "_ly" + str(self._light_yield)
        smeared_spec._data = numpy.zeros(spectrum._data.shape)
        for bin in itertools.product(*bins):
            entries = int(spectrum._data[bin])
            if entries:
                data = {}
                for i in range(len(bin)):
                    mean = self.get_bin_mean(lows[i], bin[i], widths[i])
                    if i == idx:
                        mean_e = mean
                        sigma = self.get_sigma(mean)
                    else:
                        data[par_names[i]] = mean
                for i in range(entries):
                    if self._poisson_smear is True:
                        photons = (numpy.fabs
                                   (numpy.random.poisson(mean *
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.smear import EnergySmearLY
data = numpy.zeros((20, 2))
data[10, 1] = 20
spectrum = make([("energy_mc", 1., 3., 20), ("radial_mc", 0., 8., 2)], data)
smearer = EnergySmearLY()
smearer.set_resolution(1.e6)
smeared = smearer.random_smear(spectrum).get_data()
check(smeared[9:12, 1].sum() == 20, "only %s of 20 counts stay near their "
      "energy with a resolution of 0.1%%" % smeared[9:12, 1].sum())
'''
