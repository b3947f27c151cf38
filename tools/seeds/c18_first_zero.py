PROPERTY = 'C18'
NEEDS = 'a second limit with other data'
BREAKS = 'the statistic without signal is that of the first limit'
EDITS = [
    ('echidna/limit/limit.py',
     """            self._fitter.remove_signal()
            fit_stats = self._fitter.fit()
            if type(fit_stats) is tuple:
                fit_stats = fit_stats[0]
            min_stat = copy.copy(fit_stats)
""",
     """            self._fitter.remove_signal()
            if getattr(self, "_stat_zero", None) is None:
                fit_stats = self._fitter.fit()
                if type(fit_stats) is tuple:
                    fit_stats = fit_stats[0]
                self._stat_zero = fit_stats
            min_stat = copy.copy(self._stat_zero)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import SpectraFitConfig
from echidna.core.parameter import RateParameter
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson
from echidna.limit.limit import Limit

import contextlib
import io

axes = [("energy_mc", 0., 4., 4)]


def prepare(contents):
    signal = make(axes, [0., 5., 5., 0.])
    signal._name = "signal"
    signal.set_fit_config(SpectraFitConfig("config", collections.OrderedDict(
        rate=RateParameter("rate", 0., None, 1., 31., 16)), "signal"))
    fixed = make(axes, [10., 10., 10., 10.], 40.)
    fitter = Fit({"energy": (0., 4.)}, Pearson(), data=make(axes, contents), fixed_backgrounds={fixed: 40.})
    return Limit(signal, fitter), fitter


def found(limit):
    with contextlib.redirect_stdout(io.StringIO()):
        return limit.get_limit(store_limit=False)


wanted = found(prepare([10., 9., 11., 10.])[0])
limit, fitter = prepare([10., 2., 18., 10.])
found(limit)
fitter.set_data(make(axes, [10., 9., 11., 10.]))
second = found(limit)
check(abs(second - wanted) < 1e-9, "limit %s with other data set, %s wanted" % (second, wanted))
'''
