PROPERTY = 'C07'
NEEDS = 'a shift by whole bins of a spectrum with less than one count in some bins, as after scaling to an activity'
BREAKS = 'bins with less than one count are lost in the shift'
EDITS = [('echidna/core/shift.py',
 "            if unshifted_sum > 0.:\n",
 "            if unshifted_sum >= 1.:\n")]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.shift import Shift
spectrum = make([("energy_mc", 0., 10., 10)], [0., 1., 2., 3., .5, .25, 1., 1.5, 0., 0.])
shifter = Shift()
shifter.set_shift(2.)
data = shifter.shift(spectrum, "energy_mc").get_data()
check(numpy.allclose(data, [0., 0., 0., 1., 2., 3., .5, .25, 1., 1.5]), "shifted to %s" % data)
'''
