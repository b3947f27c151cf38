PROPERTY = 'C17'
NEEDS = 'a base directory with a folder named like part of a dimension (energy_mc_old)'
BREAKS = 'the folder of the dimension is left out of the place of the pre-made spectra'
EDITS = [
    ('echidna/fit/fit.py',
     """            if dim not in directory.split('/'):""",
     """            if dim not in directory:"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import GlobalFitConfig, SpectraFitConfig
from echidna.core.parameter import RateParameter, ShiftParameter
from echidna.fit.fit import Fit
from echidna.fit.test_statistic import Pearson


def with_rate(spectrum, name, rates, prior, sigma=None):
    spectrum._name = name
    spectrum.set_background_name(name)
    pars = collections.OrderedDict(rate=RateParameter(
        "rate", prior, sigma, min(rates), max(rates), len(rates)))
    spectrum.set_fit_config(SpectraFitConfig("config", pars, name))
    return spectrum


axes = [("energy_mc", 0., 10., 10)]

import os
from echidna.output import store
shift = ShiftParameter("energy_mc_shift", 0.25, None, 0.25, 0.5, 2, "energy_mc")
config = GlobalFitConfig("fit", collections.OrderedDict())
config.add_par(shift, "global")
stats = []
spectrum = make(axes, range(10, 20))
spectrum.set_background_name("B8")
where = scratch + "/energy_mc_2015"
os.makedirs(where + "/energy_mc/shift")
store.dump(where + "/spec.hdf5", spectrum)
for value in (0.25, 0.5):
    shift.set_current_value(value)
    store.dump(where + "/energy_mc/shift/spec_%ssh.hdf5" % value, shift.apply_to(spectrum))
for pre_made in (False, True):
    fit = Fit({"energy": (0., 10.)}, Pearson(), fit_config=config, use_pre_made=pre_made,
              data=make(axes, [5.] * 10), floating_backgrounds=[store.load(where + "/spec.hdf5")])
    try:
        fit.fit()
    except Exception as detail:
        check(False, "%s: %s" % (type(detail).__name__, detail))
    stats.append(fit.get_minimiser().get_stats())
check(numpy.allclose(*stats), "statistics %s with pre-made spectra, %s without" % (stats[1], stats[0]))
'''
