PROPERTY = 'C13'
NEEDS = 'pre-made spectra of values with more than four decimals'
BREAKS = 'the value in the name of the pre-made spectrum is rounded'
EDITS = [
    ('echidna/core/parameter.py',
     """            ext = 'rs'
        value_string = str(self._current_value)
""",
     """            ext = 'rs'
        value_string = "%s" % round(self._current_value, 4)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.parameter import ResolutionParameter
par = ResolutionParameter("energy_mc_resolution", 0.05, 0.01, 0.01, 0.1, 3,
                          "energy_mc")
par.set_current_value(0.05125125)
directory, name = par.get_pre_convolved("data/energy_mc/", "spec.hdf5")
check(name == "spec_0.05125125rs.hdf5", "the name is %s" % name)
'''
