PROPERTY = 'C26'
NEEDS = 'the BiPo cut with events which did not trigger, read from a RAT file for a spectrum of mc dimensions'
BREAKS = 'events which did not trigger are filled in spite of the cut'
EDITS = [
    ('echidna/core/fill_spectrum.py',
     '        fill_kwargs = {}\n        if bipo and ds.GetEVCount() != 1:\n',
     '        fill_kwargs = {}\n        if bipo and ds.GetEVCount() > 1:\n'),
]
DEMO = r'''
import collections
import demo_rat
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter
demo_rat.install()
from echidna.core import fill_spectrum
config = SpectraConfig("config", collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 10., 10)))

event = {"particles": [[0., 0., 0.]], "deposit": 3.5, "quenched": 3.5, "evs": []}
ev = {"fitted": True, "energy": 1., "energy_valid": True, "position": [0., 0., 0.], "position_valid": True}
demo_rat.FILES["f"] = [event, dict(event, evs=[ev]), dict(event, evs=[ev, ev])]
spectrum = fill_spectrum.fill_from_root("f", "spec", config, bipo=True)
check(spectrum.sum() == 1., "%s of the three events are filled" % spectrum.sum())
'''
