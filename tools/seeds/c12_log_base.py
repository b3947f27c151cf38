PROPERTY = 'C12'
NEEDS = 'a logarithmic grid whose base is not e'
BREAKS = 'the values are not within the bounds of the parameter'
EDITS = [
    ('echidna/core/parameter.py',
     """                self._values = numpy.logspace(low, high, num=self._bins,
                                              base=numpy.e)
""",
     """                self._values = numpy.logspace(low, high, num=self._bins,
                                              base=self._base or numpy.e)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.parameter import RateParameter
par = RateParameter("rate", 10., None, 1., 100., 3, logscale=True, base=10.)
values = par.get_values()
check(numpy.allclose(values, [1., 10., 100.]), "the values are %s" % values)
'''
