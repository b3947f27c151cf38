PROPERTY = 'C16'
NEEDS = 'several spectra appended to the fixed background in one call'
BREAKS = 'only one of them is part of it'
EDITS = [
    ('echidna/fit/fit.py',
     """            spectrum.scale(scaling)
            self._fixed_background.add(spectrum)""",
     """            spectrum.scale(scaling)
        self._fixed_background.add(spectrum)"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import RateParameter, ShiftParameter
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum


axes = [("energy_mc", 0., 10., 10)]

first, second, third = [make(axes, [float(i)] * 10) for i in (1, 2, 3)]
fit = Fit({"energy": (0., 10.)}, Pearson(), data=make(axes, [3.] * 10), fixed_backgrounds={first: 10.})
fit.append_fixed_background(collections.OrderedDict([(second, 10.), (third, 10.)]))
check(abs(fit.get_fixed_background().sum() - 60.) < 1e-9, "%s counts in the fixed background" % fit.get_fixed_background().sum())
'''
