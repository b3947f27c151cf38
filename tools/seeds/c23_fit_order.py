PROPERTY = 'C23'
NEEDS = 'limit results with more than ten scalings, of which each fit is kept'
BREAKS = 'the fits are read in the alphabetical order of their numbers'
EDITS = [
    ('echidna/output/store.py',
     """                sub_group_name = group_name+"/"+str(i)
                sub_group = file_[sub_group_name]
""",
     """                sub_group_name = sorted(
                    key for key in group.keys() if key.isdigit())[i]
                sub_group = group[sub_group_name]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson, BakerCousinsChi
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum

from echidna.fit.minimise import GridSearch
from echidna.fit.fit_results import LimitResults
from echidna.output import store
config = GlobalFitConfig("fit", collections.OrderedDict())
config.add_par(ShiftParameter("energy_mc_shift", 0., 1., -1., 1., 3,
                              "energy_mc"), "global")
rates = [float(i) for i in range(1, 13)]
signal = with_rate(make([("energy_mc", 0., 4., 4)], [1.] * 4), "s", rates, 1.)
results = LimitResults(config, signal.get_config(), signal.get_fit_config(),
                       "results")
for i in range(12):
    results._stats[i] = i
    search = GridSearch(config, signal.get_config(), "fit")
    search._stats = numpy.ones(3) * i
    results.set_fit_result(i, search)
import os
path = os.path.join(scratch, "results.hdf5")
store.dump_limit_results(path, results)
loaded = store.load_limit_results(path)
for i in range(12):
    check(loaded._fit_results[i]._stats[0] == i, "fit %s is that of %s"
          % (i, loaded._fit_results[i]._stats[0]))
'''
