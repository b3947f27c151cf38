PROPERTY = 'C06'
NEEDS = 'a spectrum which was filled from files is added to one without raw events'
BREAKS = 'the raw events of the added spectrum are lost'
EDITS = [
    ('echidna/core/spectra.py',
     """        self._raw_events += spectrum._raw_events
""",
     """        if self._raw_events:  # Otherwise not filled from files
            self._raw_events += spectrum._raw_events
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


first = make([("energy_mc", 0., 4., 4)], [1., 2., 3., 4.])
second = make([("energy_mc", 0., 4., 4)], [1., 1., 1., 1.])
second._raw_events = 4
first.add(second)
check(first._raw_events == 4, "%s raw events" % first._raw_events)
'''
