PROPERTY = 'C26'
NEEDS = 'an ntuple read with the BiPo cut, with an entry which did not trigger after an event'
BREAKS = 'events followed by an entry which did not trigger are lost'
EDITS = [
    ('echidna/core/fill_spectrum.py',
     '        if check_next and entry.evIndex < 1:\n',
     '        if check_next and entry.evIndex == 0:\n'),
]
DEMO = r'''
import collections
import demo_rat
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter
demo_rat.install()
from echidna.core import fill_spectrum
config = SpectraConfig("config", collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 10., 10)))

entry = {"mcPos": [0., 0., 0.], "pos": [0., 0., 0.], "scintFit": 1, "energy": 1., "mc": 1, "mcEdep": 1., "mcEdepQuenched": 1., "evIndex": 0}
demo_rat.FILES["f"] = [entry, dict(entry, evIndex=-1), entry, dict(entry, evIndex=1), entry]
spectrum = fill_spectrum.fill_from_ntuple("f", "spec", config, bipo=True)
check(spectrum.sum() == 2., "%s events are filled instead of two" % spectrum.sum())
'''
