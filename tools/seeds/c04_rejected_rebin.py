PROPERTY = 'C04'
NEEDS = 'a rebin of several dimensions of which a later one is not a divisor'
BREAKS = 'a rejected rebin leaves the new number of bins of the earlier dimensions behind'
EDITS = [
    ('echidna/core/spectra.py',
     """                                 % (self._config.get_par(v)._bins,
                                    new_bins[i], v))
""",
     """                                 % (self._config.get_par(v)._bins,
                                    new_bins[i], v))
            self._config.get_par(v)._bins = int(new_bins[i])
"""),
    ('echidna/core/spectra.py',
     """        for i, v in enumerate(self._config.get_pars()):
            self._config.get_par(v)._bins = new_bins[i]

""",
     """
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


spectrum = make([("energy_mc", 0., 10., 4), ("radial_mc", 0., 6., 6)],
                numpy.ones((4, 6)))
try:
    spectrum.rebin((2, 4))
except ValueError:
    pass
check(spectrum.get_config().get_shape() == (4, 6),
      "config has shape %s" % (spectrum.get_config().get_shape(),))
'''
