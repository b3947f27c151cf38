PROPERTY = 'C22'
NEEDS = 'a group of a file with several spectra which is overwritten'
BREAKS = 'overwriting one group removes the others from the file'
EDITS = [
    ('echidna/output/store.py',
     """            del file_[group_name]
""",
     """            for group_name_ in list(file_.keys()):
                if group_name_.startswith(group_name):
                    del file_[group_name_]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.output import store
axes = [("energy_mc", 0., 4., 4)]
path = scratch + "/file.hdf5"
one, two = make(axes, [1.] * 4), make(axes, [2.] * 4)
for spectrum in (one, two):
    spectrum.set_background_name("background")
store.dump(path, one, group_name="bkg")
store.dump(path, two, append=True, group_name="bkg_2")
store.dump(path, two, append=True, overwrite=True, group_name="bkg")
try:
    spectrum = store.load(path, group_name="bkg_2")
except Exception as detail:
    check(False, "the other group is gone (%s)" % detail)
check(spectrum.sum() == 8., "the other group contains %s" % spectrum.sum())
'''
