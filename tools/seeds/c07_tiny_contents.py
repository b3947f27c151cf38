PROPERTY = 'C07'
NEEDS = 'a shift by whole bins of small contents'
BREAKS = 'contents below 1e-6 are lost'
EDITS = [
    ('echidna/core/shift.py',
     """            if unshifted_sum > 0.:
""",
     """            if round(unshifted_sum, 6) > 0.:
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.shift import Shift
shifter = Shift()
shifter.set_shift(1.)
shifted = shifter.shift(make([("energy_mc", 0., 5., 5)],
                             [1.e-8, 2.e-8, 0., 0., 0.]), "energy_mc")
check(abs(shifted.sum() - 3.e-8) < 1.e-12, "the sum is %s" % shifted.sum())
'''
