PROPERTY = 'C19'
NEEDS = 'a penalty term of zero set where there was another one'
BREAKS = 'the earlier penalty term stays'
EDITS = [
    ('echidna/fit/fit_results.py',
     '        self._penalty_terms[scale_idx][par_idx] = penalty_term\n',
     '        if penalty_term:\n            self._penalty_terms[scale_idx][par_idx] = penalty_term\n'),
]
DEMO = r'''
import collections
from echidna.core.config import GlobalFitConfig, SpectraFitConfig, SpectraConfig
from echidna.core.parameter import RateParameter, SpectraParameter
from echidna.fit.fit_results import LimitResults
rate = RateParameter("rate", 1., None, 0., 2., 3)
config = GlobalFitConfig("fit", collections.OrderedDict())
config.add_par(rate, "spectra")
signal = SpectraConfig("signal", collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 1., 3)))
limit = SpectraFitConfig("limit", collections.OrderedDict(rate=rate), "signal")
results = LimitResults(config, signal, limit)
results.set_penalty_term(1, 4., "rate")
results.set_penalty_term(1, 0., "rate")
check(results.get_penalty_term(1, "rate") == 0., "it is %s" % results.get_penalty_term(1, "rate"))
'''
