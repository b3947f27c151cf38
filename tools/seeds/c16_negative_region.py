PROPERTY = 'C16'
NEEDS = 'a region of interest which reaches further below zero than above it'
BREAKS = 'its bounds are exchanged'
EDITS = [
    ('echidna/fit/fit.py',
     """            if roi[dim][0] > roi[dim][1]:  # Make sure low is first""",
     """            if abs(roi[dim][0]) > abs(roi[dim][1]):  # Make sure low is first"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import SpectraFitConfig
from echidna.core.parameter import RateParameter
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson

AXES = [("zradial3_mc", -1., 1., 8)]
background = make(AXES, [1.] * 8, 8.)
background.set_background_name("b")
background.set_fit_config(SpectraFitConfig("config", collections.OrderedDict(
    rate=RateParameter("rate", 80., None, 8., 152., 3)), "b"))
try:
    fit = Fit({"zradial3": (-1., 0.5)}, Pearson(),
              data=make(AXES, [10.] * 8), floating_backgrounds=[background])
    stat = fit.fit()
except Exception as error:
    check(False, "the fit is refused: %s" % error)
check(tuple(fit.get_roi()["zradial3"]) == (-1., 0.5), "region: %s"
      % (fit.get_roi(),))
'''
