PROPERTY = 'C05'
NEEDS = 'a surface of a spectrum of at least three dimensions, asked for in the other order than that of the spectrum'
BREAKS = 'the axes of the surface are swapped'
EDITS = [
    ('echidna/core/spectra.py',
     """        projection = copy.copy(self._data)
        # Sum over the last axes first, so the remaining indices stay valid
        for i_axis in reversed(range(len(self._config.get_pars()))):
            if i_axis != axis1""",
     """        projection = self._data if axis1 < axis2 or self._data.ndim < 3 else \
            self._data.swapaxes(axis1, axis2)
        # Sum over the last axes first, so the remaining indices stay valid
        for i_axis in reversed(range(len(self._config.get_pars()))):
            if i_axis != axis1"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

data = numpy.arange(24.).reshape(2, 3, 4)
spectrum = make([("energy_mc", 0., 2., 2), ("radial_mc", 0., 3., 3),
                 ("time_mc", 0., 4., 4)], data)
surface = spectrum.surface("time_mc", "energy_mc")
check(surface.shape == (2, 4), "its shape is %s" % (surface.shape,))
check(numpy.array_equal(surface, data.sum(1)), "it is %s" % surface)
'''
