PROPERTY = 'C27'
NEEDS = 'a file to be rebinned whose name, or directory, contains a dot'
BREAKS = 'the name of the file which is written is cut at the first dot'
EDITS = [
    ('echidna/scripts/rebin.py',
     """    filename = args.input[args.input.rfind("/")+1:args.input.rfind(".")]""",
     """    filename = args.input[args.input.rfind("/")+1:].split(".")[0]"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


import runpy
from echidna.output import store
spectrum = make([("energy_mc", 0., 4., 4)], [1.] * 4)
spectrum.set_background_name("background")
store.dump(scratch + "/Te_0.5.hdf5", spectrum)
path = os.path.join(os.getcwd(), "echidna/scripts/rebin.py")
from demo_loader import run_script
run_script(path, ["-i", scratch + "/Te_0.5.hdf5", "-b", "2"])
check(os.path.exists(scratch + "/Te_0.5_rebin.hdf5"), "written: %s"
      % os.listdir(scratch))
'''
