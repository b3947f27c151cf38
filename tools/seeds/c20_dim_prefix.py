PROPERTY = 'C20'
NEEDS = "a configuration with two dimensions of which one's name begins with that of the other"
BREAKS = 'get_dim_type gives the type of the other dimension'
EDITS = [
    ('echidna/core/config.py',
     """            if cur_dim[:-1] == dim:
""",
     """            if par.startswith(dim + "_"):
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

spectrum = make([("energy_alpha_reco", 0., 4., 4), ("energy_mc", 0., 4., 4)],
                numpy.ones((4, 4)))
found = spectrum.get_config().get_dim_type("energy")
check(found == "mc", "the type of energy is %s" % found)
'''
