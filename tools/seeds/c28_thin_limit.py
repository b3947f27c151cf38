PROPERTY = 'C28'
NEEDS = 'a spectrum whose type is neither background nor signal'
BREAKS = 'spectra which are neither background nor signal are not in the sum'
EDITS = [
    ('echidna/output/plot.py',
     """        summed_total = summed_total + spectra.project(dimension)
""",
     """        if value.get("type") in ("background", "signal"):
            summed_total = summed_total + spectra.project(dimension)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

import sys
from unittest import mock
for name in ("matplotlib", "matplotlib.pyplot", "matplotlib.ticker",
             "matplotlib.colors"):
    sys.modules[name] = mock.MagicMock()
from echidna.output import plot
plt = plot.plt
axes = [("energy_mc", 0., 4., 4)]
plot.spectral_plot(collections.OrderedDict([
    (1, {"spectra": make(axes, [1., 2., 3., 4.]), "type": "background"}),
    (2, {"spectra": make(axes, [1., 1., 1., 1.]), "type": "data"})]),
    "energy_mc", show_plot=False)
drawn = [call for call in plt.figure().add_subplot().hist.call_args_list
         if call[1].get("label") == "Sum"]
check(len(drawn) == 1, "the sum is drawn %s times" % len(drawn))
drawn = drawn[0][1]["weights"]
check(numpy.array_equal(drawn, [2., 3., 4., 5.]), "the sum is %s" % drawn)
'''
