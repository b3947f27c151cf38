PROPERTY = 'C08'
NEEDS = 'a spectrum with small contents (a rate scaled to a small number of decays)'
BREAKS = 'bins in which the interpolated areas are small are left empty'
EDITS = [
    ('echidna/core/scale.py',
     """            if area1 == 0. and area2 == 0.:
""",
     """            if numpy.isclose(area1 + area2, 0.):
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.scale import Scale
shape = numpy.array([1., 2., 3., 5., 7., 5., 3., 2., 1., 1.])
scaler = Scale()
scaler.set_scale_factor(1.05)
whole = scaler.scale(make([("energy_mc", 0., 10., 10)], shape), "energy_mc")
small = scaler.scale(make([("energy_mc", 0., 10., 10)], shape * 1.e-9),
                     "energy_mc")
check(numpy.allclose(small._data * 1.e9, whole._data), "%s is not like %s"
      % (small._data * 1.e9, whole._data))
'''
