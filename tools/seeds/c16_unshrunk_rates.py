PROPERTY = 'C16'
NEEDS = 'floating backgrounds set without shrinking them, after the data, on spectra already cut to the region'
BREAKS = 'their rate parameters are not part of the fit'
EDITS = [
    ('echidna/fit/fit.py',
     """            if background.get_fit_config():
                self.check_fit_config(background)
                # Spectrum has""",
     """            if background.get_fit_config() and shrink:
                self.check_fit_config(background)
                # Spectrum has"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import RateParameter, ShiftParameter
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum


axes = [("energy_mc", 0., 10., 10)]

def prepare(data):
    spectrum = make(axes, data)
    spectrum.shrink(energy_mc_low=2., energy_mc_high=8.)
    return spectrum


results = []
for shrink in (True, False):
    background = with_rate(prepare(range(1, 11)), "B8", [0., 10., 20., 30.], 20.)
    fit = Fit({"energy": (2., 8.)}, Pearson(), data=prepare([3.] * 10))
    fit.set_floating_backgrounds([background], shrink=shrink)
    results.append(list(fit.get_fit_config().get_pars()))
check(results[0] == results[1] == ["B8_rate"], "parameters of the fit: %s with shrinking, %s without" % tuple(results))
'''
