PROPERTY = 'C20'
NEEDS = 'a parameter added to a global config which has one of that name of the other kind'
BREAKS = 'the new parameter is listed among those of the kind of the replaced one'
EDITS = [
    ('echidna/core/config.py',
     "        self._parameters[par._name] = {'par': par, 'type': par_type}\n",
     "        entry = self._parameters.setdefault(par._name, {'type': par_type})\n        entry['par'] = par\n"),
]
DEMO = r'''
import collections
from echidna.core.config import GlobalFitConfig
from echidna.core.parameter import RateParameter, ShiftParameter
config = GlobalFitConfig("config", collections.OrderedDict())
config.add_par(ShiftParameter("energy_mc_rate", 0., None, -1., 1., 3, "energy_mc"), "global")
new = RateParameter("energy_mc_rate", 1., None, 0., 2., 3)
config.add_par(new, "spectra")
check(config.get_spectra_pars() == [new] and config.get_global_pars() == [], "the spectral parameter is listed as %s" % config._parameters)
'''
