PROPERTY = 'C19'
NEEDS = "two parameters of which one's name ends with that of the other"
BREAKS = 'the penalty terms of one parameter are given for another'
EDITS = [
    ('echidna/fit/fit_results.py',
     """        i = self._fit_config.get_index(par)
        return self._penalty_terms[scale_idx, i]
""",
     """        i = [name.endswith(par) for name in
             self._fit_config.get_pars()].index(True)
        return self._penalty_terms[scale_idx, i]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson, BakerCousinsChi
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum

from echidna.fit.fit_results import LimitResults
config = GlobalFitConfig("fit", collections.OrderedDict())
for name in ("other_energy_mc_shift", "energy_mc_shift"):
    config.add_par(ShiftParameter(name, 0., 1., -1., 1., 3, "energy_mc"),
                   "global")
signal = with_rate(make([("energy_mc", 0., 4., 4)], [1.] * 4), "s", [1., 2.],
                   1.)
results = LimitResults(config, signal.get_config(), signal.get_fit_config())
results.set_penalty_term(1, 3., "other_energy_mc_shift")
results.set_penalty_term(1, 5., "energy_mc_shift")
found = results.get_penalty_term(1, "energy_mc_shift")
check(found == 5., "the penalty term is %s" % found)
'''
