PROPERTY = 'C18'
NEEDS = 'signal scalings below one'
BREAKS = 'scalings between zero and one are tested without the signal'
EDITS = [
    ('echidna/limit/limit.py',
     """            if not numpy.isclose(scale, 0.):
                if self._fitter""",
     """            if int(scale):
                if self._fitter"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum


axes = [("energy_mc", 0., 4., 4)]
data = make(axes, [10.] * 4, 40.)
background = make(axes, [10.] * 4, 40.)
signal = with_rate(make(axes, [1., 2., 3., 4.]), "signal",
                   [0., 0.25, 0.5, 0.75, 1.], 0.)
fit = Fit({"energy": (0., 4.)}, Pearson(), data=data,
          fixed_backgrounds={background: 40.})
limit = Limit(signal, fit)
found = limit.get_limit(limit=1e-6, store_limit=False)
check(found == 0.25, "the limit is %s" % found)
'''
