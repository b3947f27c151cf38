PROPERTY = 'C03'
NEEDS = 'a spectrum shrunk to a region of one dimension and then to a region of another'
BREAKS = 'the region of the first dimension is forgotten'
EDITS = [
    ('echidna/core/spectra.py',
     """        self._rois[dimension] = {"low": par._low,
                                 "high": par._high,
                                 "efficiency": efficiency}""",
     """        self._rois = {dimension: {"low": par._low,
                                  "high": par._high,
                                  "efficiency": efficiency}}"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


spectrum = make([("energy_mc", 0., 4., 4), ("radial_mc", 0., 3., 3)],
                numpy.ones((4, 3)))
spectrum.shrink_to_roi(1., 3., "energy_mc")
spectrum.shrink_to_roi(0., 2., "radial_mc")
try:
    roi = spectrum.get_roi("energy_mc")
except KeyError:
    check(False, "there is no region of energy_mc any more")
check(roi["low"] == 1. and roi["high"] == 3., "region: %s" % roi)
'''
