PROPERTY = 'C05'
NEEDS = 'a projection onto all dimensions which is changed by its user afterwards'
BREAKS = "the projection is the spectrum's own array, so changing one changes the other"
EDITS = [
    ('echidna/core/spectra.py',
     """            return copy.copy(self._data)
        projection""",
     """            return self._data
        projection"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


spectrum = make([("energy_mc", 0., 10., 4)], numpy.ones(4))
projection = spectrum.nd_project(["energy_mc"])
projection += 5.
check(spectrum.sum() == 4., "the spectrum now contains %s" % spectrum.sum())
'''
