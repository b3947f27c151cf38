PROPERTY = 'C07'
NEEDS = 'a shift by less than a bin of a spectrum with an empty bin next to a filled one'
BREAKS = 'a bin which should get counts of one of the two bins it covers, the other being empty, gets none'
EDITS = [('echidna/core/shift.py',
 "            if unshifted_sum1 <= 0. and unshifted_sum2 <= 0.:\n",
 "            if unshifted_sum1 <= 0. or unshifted_sum2 <= 0.:\n")]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.shift import Shift
spectrum = make([("energy_mc", 0., 10., 10)], [0., 0., 4., 0., 0., 0., 4., 5., 6., 0.])
shifter = Shift()
shifter.set_shift(0.25)
data = shifter.shift(spectrum, "energy_mc").get_data()
check(data[3] > 0. and data[9] > 0., "shifted to %s" % data)
'''
