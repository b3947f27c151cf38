PROPERTY = 'C16'
NEEDS = 'data which is replaced by data of another dimension type'
BREAKS = 'the data is still projected onto the dimensions of the first data'
EDITS = [
    ('echidna/fit/fit.py',
     """        self._data_pars = self.get_roi_pars(data)
""",
     """        if not self.__dict__.get("_data_pars"):
            self._data_pars = self.get_roi_pars(data)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson, BakerCousinsChi
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum

background = with_rate(make([("energy_mc", 0., 8., 8)], [1.] * 8, 8.), "b",
                       [8., 80., 152.], 80.)
fit = Fit({"energy": (0., 8.)}, Pearson(),
          data=make([("energy_mc", 0., 8., 8)], [10.] * 8),
          floating_backgrounds=[background])
fit.fit()
fit.set_data(make([("energy_reco", 0., 8., 8)], [19.] * 8))
fit.fit()
best = fit.get_minimiser().get_summary()["b_rate"]["best_fit"]
check(abs(best - 152.) < 1e-6, "the best fit is %s" % best)
'''
