PROPERTY = 'C20'
NEEDS = 'global parameters of two dimensions in alternating order'
BREAKS = 'a dimension which comes up again loses the parameters it had before in what dump returns'
EDITS = [
    ('echidna/core/config.py',
     '        for par in self.get_global_pars():\n            dimension = par.get_dimension()\n',
     '        last = None\n        for par in self.get_global_pars():\n            dimension = par.get_dimension()\n'),
    ('echidna/core/config.py',
     '            if dimension not in global_fit_config[main_key].keys():\n                global_fit_config[main_key][dimension] = OrderedDict()\n',
     '            if dimension != last:\n                global_fit_config[main_key][dimension] = OrderedDict()\n                last = dimension\n'),
]
DEMO = r'''
import collections
from echidna.core.config import GlobalFitConfig
from echidna.core.parameter import ScaleParameter, ShiftParameter
config = GlobalFitConfig("config", collections.OrderedDict())
names = ["energy_mc_shift", "radial_mc_shift", "energy_mc_scale"]
for name in names:
    kind = ScaleParameter if name.endswith("scale") else ShiftParameter
    config.add_par(kind(name, 1., None, 0.5, 1.5, 3, name[:9].rstrip("_")), "global")
loaded = GlobalFitConfig.load(*config.dump())
check(sorted(loaded.get_pars()) == sorted(names), "loaded: %s" % list(loaded.get_pars()))
'''
