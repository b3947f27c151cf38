PROPERTY = 'C16'
NEEDS = 'a global systematic with neighbouring values which agree in their first four digits'
BREAKS = 'the spectra convolved for one value are used for the next values too'
EDITS = [("echidna/fit/fit.py",
          '            cur_val += parameter._name + str(parameter._current_value) + "_"',
          '            cur_val += "%s%.4g_" % (parameter._name,\n                                    parameter._current_value)')]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum


shift = ShiftParameter("energy_mc_shift", 0.25002, None, 0.25001, 0.25003, 3,
                       "energy_mc")
config = GlobalFitConfig("fit", collections.OrderedDict())
config.add_par(shift, "global")
axes = [("energy_mc", 0., 40., 40)]
background = make(axes, range(10, 50))
background._fit_config = None
fit = Fit({"energy": (5., 35.)}, Pearson(), fit_config=config,
          data=make(axes, [5.] * 40), floating_backgrounds=[background])
fit.fit()
stats = fit.get_minimiser().get_stats()
other = Fit({"energy": (5., 35.)}, Pearson(), fit_config=config,
            data=make(axes, [5.] * 40), floating_backgrounds=[background])
alone = sum(other._funct(0.25003))
check(numpy.isclose(stats[2], alone, rtol=1e-10), "the statistic at 0.25003 is "
      "%.12g in the scan, %.12g alone" % (stats[2], alone))
'''
