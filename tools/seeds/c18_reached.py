PROPERTY = 'C18'
NEEDS = 'a statistic which is exactly the one of the confidence limit'
BREAKS = 'get_array_limit takes a scaling which reaches but does not exceed the limit'
EDITS = [
    ('echidna/limit/limit.py',
     """            if entry > limit:
                return counts[i]
""",
     """            if entry >= limit:
                return counts[i]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson, BakerCousinsChi
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum

axes = [("energy_mc", 0., 4., 4)]
signal = with_rate(make(axes, [0., 1., 1., 0.]), "signal",
                   [1., 2., 3., 4.], 1.)
background = with_rate(make(axes, [10.] * 4, 40.), "b", [30., 40., 50.], 40.)
fit = Fit({"energy": (0., 4.)}, Pearson(), data=make(axes, [10.] * 4, 40.),
          floating_backgrounds=[background])
limit = Limit(signal, fit).get_array_limit(numpy.array([0.5, 2., 2.5, 4.]),
                                           limit=2.)
check(limit == 3., "the limit is %s" % limit)
'''
