PROPERTY = 'C15'
NEEDS = 'a named grid search whose name does not end in a number, reset twice, or one whose name does, reset once'
BREAKS = 'the number in the name is lost or the name is cut'
EDITS = [
    ('echidna/fit/minimise.py',
     """        if self._resets == 0:
            self._resets = 1""",
     """        if not self._name.split("_")[-1].isdigit():
            self._resets = 1"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig
from echidna.core.parameter import RateParameter
from echidna.fit.minimise import GridSearch
config = GlobalFitConfig("fit", collections.OrderedDict())
config.add_par(RateParameter("rate", 1., None, 0., 2., 3), "global")
spectra = make([("energy_mc", 0., 10., 10)], [0.] * 10).get_config()
for name in ("fit", "run_2015"):
    search = GridSearch(config, spectra, name=name)
    search.reset_grids()
    search.reset_grids()
    check(search.get_resets() == 2 and search._name == name + "_2", "after two resets %s is named %s, with %s resets" % (name, search._name, search.get_resets()))
'''
