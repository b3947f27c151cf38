PROPERTY = 'C06'
NEEDS = 'scaling to a number of decays which differs by less than one part in 1e5'
BREAKS = 'nothing is scaled'
EDITS = [
    ('echidna/core/spectra.py',
     """        self._data = numpy.multiply(self._data, num_decays / self._num_decays)
""",
     """        factor = num_decays / self._num_decays
        if not numpy.isclose(factor, 1.):
            self._data = numpy.multiply(self._data, factor)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

spectrum = make([("energy_mc", 0., 10., 5)], [0., 0., 1.e6, 0., 0.], 1.e6)
spectrum.scale(1.e6 + 5)
check(spectrum.get_num_decays() == 1.e6 + 5, "it represents %s decays"
      % spectrum.get_num_decays())
check(abs(spectrum.sum() - (1.e6 + 5)) < 0.1, "the sum is %s"
      % spectrum.sum())
'''
