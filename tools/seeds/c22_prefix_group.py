PROPERTY = 'C22'
NEEDS = 'a group which is overwritten in a file with another group whose name begins with its name'
BREAKS = 'both groups are removed'
EDITS = [
    ('echidna/output/store.py',
     """            del file_[group_name]
""",
     """            for key in list(file_.keys()):
                if key.startswith(group_name):
                    del file_[key]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

import os
from echidna.output import store
path = os.path.join(scratch, "spectra.hdf5")
spectrum = make([("energy_mc", 0., 4., 4)], [1.] * 4)
spectrum.set_background_name("b")
store.dump(path, spectrum, group_name="b")
store.dump(path, spectrum, append=True, group_name="b_reco")
store.dump(path, spectrum, append=True, overwrite=True, group_name="b")
try:
    found = store.load(path, group_name="b_reco").sum()
except Exception as error:
    check(False, "the other group cannot be read: %r" % error)
check(found == 4., "the other group contains %s" % found)
'''
