PROPERTY = 'C17'
NEEDS = 'two spectra whose pre-made spectra have the same file names in different directories'
BREAKS = 'the second spectrum gets the pre-made spectra of the first'
EDITS = [
    ('echidna/fit/fit.py',
     '        spectrum = store.load(directory + filename)\n',
     '        loaded = self.__dict__.setdefault("_loaded", {})\n        if filename not in loaded:\n            loaded[filename] = store.load(directory + filename)\n        spectrum = copy.copy(loaded[filename])\n'),
]
DEMO = r'''
import collections
import copy
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("B8_mc", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum



import os
from echidna.core.config import GlobalFitConfig
from echidna.core.parameter import ShiftParameter
from echidna.fit.fit import Fit
from echidna.output import store
from echidna.fit.test_statistic import Pearson
shift = ShiftParameter("energy_mc_shift", 0.25, None, 0.25, 0.5, 2, "energy_mc")
config = GlobalFitConfig("fit", collections.OrderedDict())
config.add_par(shift, "global")
axes = [("energy_mc", 0., 10., 10)]
spectra = []
for i, data in enumerate((range(10, 20), range(40, 20, -2))):
    spectrum = make(axes, data)
    where = "%s/%d" % (scratch, i)
    os.makedirs(where + "/energy_mc/shift")
    store.dump(where + "/spec.hdf5", spectrum)
    for value in (0.25, 0.5):
        shift.set_current_value(value)
        store.dump(where + "/energy_mc/shift/spec_%ssh.hdf5" % value, shift.apply_to(spectrum))
    spectra.append(where + "/spec.hdf5")
stats = []
for pre_made in (False, True):
    fit = Fit({"energy": (0., 10.)}, Pearson(), fit_config=config, use_pre_made=pre_made,
              data=make(axes, [5.] * 10), floating_backgrounds=[store.load(path) for path in spectra])
    fit.fit()
    stats.append(fit.get_minimiser().get_stats())
check(numpy.allclose(*stats), "statistics %s with pre-made spectra, %s without" % (stats[1], stats[0]))
'''
