PROPERTY = 'C16'
NEEDS = 'another test statistic set on a fit which was made with one, with floating backgrounds'
BREAKS = 'values come from the statistic the fit was made with'
EDITS = [
    ('echidna/fit/fit.py',
     """        self.set_test_statistic(test_statistic)
""",
     """        self.set_test_statistic(test_statistic)
        self._compute = test_statistic.compute_statistic
"""),
    ('echidna/fit/fit.py',
     """        test_statistic = self._test_statistic.compute_statistic(
            observed.ravel(), expected.ravel())""",
     """        test_statistic = self._compute(observed.ravel(), expected.ravel())"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import RateParameter, ShiftParameter
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum


axes = [("energy_mc", 0., 10., 10)]

from echidna.fit.test_statistic import Neyman


def prepare(statistic):
    background = with_rate(make(axes, range(1, 11)), "B8", [10., 20., 30.], 20.)
    return Fit({"energy": (0., 10.)}, statistic, data=make(axes, [3.] * 10),
               floating_backgrounds=[background])


wanted = prepare(Neyman())
wanted.fit()
changed = prepare(Pearson())
changed.fit()
changed.set_test_statistic(Neyman())
changed.get_minimiser().reset_grids()
changed.fit()
check(numpy.allclose(changed.get_minimiser().get_stats(), wanted.get_minimiser().get_stats()),
      "statistics %s after setting another, %s wanted" % (changed.get_minimiser().get_stats(), wanted.get_minimiser().get_stats()))
'''
