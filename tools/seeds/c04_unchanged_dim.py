PROPERTY = 'C04'
NEEDS = 'a spectrum of several dimensions of which one keeps its number of bins'
BREAKS = 'the contents get an additional axis'
EDITS = [
    ('echidna/core/spectra.py',
     """            self._data = self._data.sum(-1*(i+1))""",
     """            if flattened[-1 - 2*i] > 1:  # Otherwise nothing to sum
                self._data = self._data.sum(-1*(i+1))"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


spectrum = make([("energy_mc", 0., 4., 4), ("radial_mc", 0., 3., 3)],
                numpy.ones((4, 3)))
spectrum.rebin((2, 3))
check(spectrum._data.shape == (2, 3), "shape %s" % (spectrum._data.shape,))
'''
