PROPERTY = 'C02'
NEEDS = 'a sum, then a fill or an addition in place, then another sum (or a cut, or a shrink_to_roi)'
BREAKS = 'the sum of the contents is kept, and stays what it was when the contents change in place'
EDITS = [
    ('echidna/core/spectra.py',
     """        return self._data.sum()
""",
     """        kept = self.__dict__.get("_sum")
        if kept is None or kept[0] is not self._data:
            kept = (self._data, self._data.sum())
            self._sum = kept
        return kept[1]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

spectrum = make([("energy_mc", 0., 10., 5)], [1., 2., 3., 4., 5.])
check(spectrum.sum() == 15., "the sum is %s" % spectrum.sum())
spectrum.fill(energy_mc=1., weight=5.)
check(spectrum.sum() == 20., "the sum is %s after filling" % spectrum.sum())
'''
