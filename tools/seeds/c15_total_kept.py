PROPERTY = 'C15'
NEEDS = 'a penalty term changed after the statistics were asked for, with the same statistics'
BREAKS = 'the statistics keep the penalties they had when first asked for'
EDITS = [
    ('echidna/fit/minimise.py',
     """        combined = copy.copy(self._stats)
""",
     """        kept = getattr(self, "_kept", None)
        if kept is not None and numpy.array_equal(kept[0], self._stats):
            return kept[1].copy()
        combined = copy.copy(self._stats)
"""),
    ('echidna/fit/minimise.py',
     """        combined = combined + self._penalty_terms
        return combined""",
     """        combined = combined + self._penalty_terms
        self._kept = (self._stats.copy(), combined.copy())
        return combined"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig
from echidna.core.parameter import ScaleParameter
from echidna.fit.minimise import GridSearch
config = GlobalFitConfig("config", collections.OrderedDict())
config.add_par(ScaleParameter("energy_mc_scale", 1., None, 0.5, 1.5, 3, "energy_mc"), "global")
search = GridSearch(config, make([("energy_mc", 0., 1., 2)], [0., 0.]).get_config())
search.set_stats(numpy.array([3., 1., 2.]))
search.set_penalty_terms(numpy.array([0., 1., 2.]))
check(list(search.get_stats()) == [3., 2., 4.], "statistics %s" % search.get_stats())
search.set_penalty_term(5., (1,))
check(list(search.get_stats()) == [3., 6., 4.], "statistics %s after a penalty was changed" % search.get_stats())
'''
