PROPERTY = 'C23'
NEEDS = 'limit results whose best fits are all negative (shifts)'
BREAKS = 'the best fits are not stored'
EDITS = [
    ('echidna/output/store.py',
     """        if limit_results._best_fits.any():""",
     """        if limit_results._best_fits.max() > 0.:"""),
]
DEMO = '''
import collections
from echidna.core.config import (SpectraConfig, GlobalFitConfig,
                                 SpectraFitConfig)
from echidna.core.parameter import (SpectraParameter, RateParameter,
                                    ShiftParameter)
from echidna.fit.fit_results import LimitResults
from echidna.output import store
fit_config = GlobalFitConfig("fit", collections.OrderedDict())
fit_config.add_par(ShiftParameter("energy_mc_shift", 0., 1., -1., 1., 3,
                                  "energy_mc"), "global")
spectra_config = SpectraConfig("spectra", collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 1., 2)))
limit_config = SpectraFitConfig("limit", collections.OrderedDict(
    rate=RateParameter("rate", 1., None, 0., 2., 3)), "signal")
results = LimitResults(fit_config, spectra_config, limit_config, "limit")
for i in range(3):
    results.set_best_fit(i, -0.25 * i - 0.25, "energy_mc_shift")
store.dump_limit_results(scratch + "/limit.hdf5", results)
loaded = store.load_limit_results(scratch + "/limit.hdf5")
check(loaded.get_best_fit(1, "energy_mc_shift") == -0.5, "loaded %s"
      % loaded.get_best_fits("energy_mc_shift"))
'''
