PROPERTY = 'C16'
NEEDS = 'a fit which was already run, then a new region of interest to which its spectra were not shrunk'
BREAKS = 'the fit is run although its spectra do not have the region of interest'
EDITS = [
    ('echidna/fit/fit.py',
     """        self._checked = False  # Must redo checks for a new roi
""",
     """        # The spectra are shrunk to a new roi by shrink_all
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson, BakerCousinsChi
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum

background = with_rate(make([("energy_mc", 0., 8., 8)], [1.] * 8, 8.), "b",
                       [8., 80., 152.], 80.)
fit = Fit({"energy": (0., 8.)}, Pearson(),
          data=make([("energy_mc", 0., 8., 8)], [10.] * 8),
          floating_backgrounds=[background])
fit.fit()
fit.set_roi({"energy": (2., 6.)})
try:
    fit.fit()
except ValueError:
    pass
else:
    check(False, "spectra outside the region of interest are accepted")
'''
