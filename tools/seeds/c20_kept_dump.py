PROPERTY = 'C20'
NEEDS = 'rates dumped, fitted, and dumped again'
BREAKS = 'the second dictionary has the results of the first'
EDITS = [
    ('echidna/core/config.py',
     """        # Spectral fit parameters
        main_key = "spectral_fit_parameters"
        spectral_fit_config = OrderedDict()
        spectral_fit_config[main_key] = OrderedDict()

        for parameter in self.get_pars():
            par = self.get_par(parameter)

            # Get parameter dict from par
            spectral_fit_config[main_key][parameter] = par.to_dict(basic)

        return spectral_fit_config

    def dump_to_file(self, path="", spectral_fname=None, basic=False):""",
     """        # Spectral fit parameters
        main_key = "spectral_fit_parameters"
        known = getattr(self, "_known", None)
        if known is None:
            known = self._known = {}
        spectral_fit_config = OrderedDict()
        spectral_fit_config[main_key] = OrderedDict()

        for parameter in self.get_pars():
            par = self.get_par(parameter)

            # Get parameter dict from par
            if (par, basic) not in known:
                known[(par, basic)] = par.to_dict(basic)
            spectral_fit_config[main_key][parameter] = known[(par, basic)]

        return spectral_fit_config

    def dump_to_file(self, path="", spectral_fname=None, basic=False):"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.config import SpectraFitConfig
from echidna.core.parameter import RateParameter
rate = RateParameter("rate", 1., None, 0., 2., 3)
config = SpectraFitConfig("config", collections.OrderedDict(rate=rate), "B8")
config.dump()
rate.set_best_fit(1.5)
loaded = SpectraFitConfig.load(config.dump(), "B8")
try:
    found = loaded.get_par("rate").get_best_fit()
except ValueError:
    found = None
check(found == 1.5, "best fit %s after dumping twice" % found)
'''
