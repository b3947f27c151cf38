PROPERTY = 'C11'
NEEDS = 'a range and number of bins for which the sum of the widths is rounded up'
BREAKS = 'there is one bin boundary too many'
EDITS = [
    ('echidna/core/parameter.py',
     """        return numpy.linspace(self._low, self._high, self._bins+1)
""",
     """        return numpy.arange(self._low, self._high + self.get_width(),
                            self.get_width())
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.parameter import SpectraParameter
for bins in range(1, 3000, 7):
    par = SpectraParameter("energy_mc", 0.1, 0.7, bins)
    edges = par.get_bin_boundaries()
    check(len(edges) == bins + 1,
          "%s bins have the edges %s" % (bins, edges))
'''
