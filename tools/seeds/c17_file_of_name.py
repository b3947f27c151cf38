PROPERTY = 'C17'
NEEDS = 'a spectrum whose file is not called like the spectrum'
BREAKS = 'the pre-made spectrum is looked for by the name of the spectrum'
EDITS = [
    ('echidna/fit/fit.py',
     """        filename = os.path.basename(spectrum._location)
""",
     """        filename = spectrum.get_name() + ".hdf5"
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import (RateParameter, ShiftParameter,
                                    ScaleParameter)
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson, BakerCousinsChi
from echidna.limit.limit import Limit


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum

import os
from echidna.output import store
config = GlobalFitConfig("fit", collections.OrderedDict())
shift = ShiftParameter("energy_mc_shift", 0., 1., -1., 1., 3, "energy_mc")
config.add_par(shift, "global")
base = make([("energy_mc", 0., 8., 8)], [0., 0., 1., 2., 1., 0., 0., 0.])
base.set_background_name("b")
path = os.path.join(scratch, "stored_as.hdf5")
store.dump(path, base)
os.makedirs(os.path.join(scratch, "energy_mc", "shift"))
for value in ("-1", "0", "1"):
    store.dump(os.path.join(scratch, "energy_mc", "shift",
                            "stored_as_%ssh.hdf5" % value), base)
background = with_rate(store.load(path), "b", [5., 10., 15.], 10.)
background._location = path
fit = Fit({"energy": (0., 8.)}, Pearson(), fit_config=config,
          data=make([("energy_mc", 0., 8., 8)], [1.] * 8),
          floating_backgrounds=[background], use_pre_made=True)
try:
    fit.fit()
except (IOError, OSError, KeyError) as error:
    check(False, "the pre-made spectra are not found: %s" % error)
'''
