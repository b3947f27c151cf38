PROPERTY = 'C09'
NEEDS = 'a light yield which is not a whole number'
BREAKS = 'the light yield is cut to a whole number'
EDITS = [
    ('echidna/core/smear.py',
     """            self._light_yield = float(light_yield)
""",
     """            self._light_yield = float(int(light_yield)) or light_yield
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.smear import EnergySmearLY
smearer = EnergySmearLY()
smearer.set_resolution(250.75)
check(smearer.get_resolution() == 250.75, "the light yield is %s"
      % smearer.get_resolution())
'''
