PROPERTY = 'C18'
NEEDS = 'a limit with a systematic applied to all spectra'
BREAKS = 'the convolved signal keeps the scaling at which it was first tested'
EDITS = [
    ('echidna/fit/fit.py',
     """                signal.rebin(self._data._data.shape)
                signal.scale(num_decays)
""",
     """                signal.rebin(self._data._data.shape)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum


axes = [("energy_mc", 0., 8., 8)]
config = GlobalFitConfig("fit", collections.OrderedDict())
config.add_par(ShiftParameter("energy_mc_shift", 0., 1., -1., 1., 3,
                              "energy_mc"), "global")
data = make(axes, [10.] * 8, 80.)
background = make(axes, [10.] * 8, 80.)
signal = with_rate(make(axes, [0., 0., 1., 5., 3., 1., 0., 0.]), "signal",
                   [1., 2., 3., 4., 5., 6., 7., 8., 9.], 1.)
fit = Fit({"energy": (0., 8.)}, Pearson(), fit_config=config, data=data,
          floating_backgrounds=[background])
limit = Limit(signal, fit)
try:
    limit.get_limit(limit=0.5, store_limit=False)
except Exception:
    pass
stats = limit._limit_results.get_full_stats()
check(stats[-1] > stats[0] * 4, "the statistics are %s" % stats)
'''
