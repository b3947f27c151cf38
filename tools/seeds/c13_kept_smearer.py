PROPERTY = 'C13'
NEEDS = 'a light yield applied again after its value changed'
BREAKS = 'a resolution parameter smears with the value it was first applied with'
EDITS = [
    ('echidna/core/parameter.py',
     """        if cur_value > 10.:
            smearer = smear.EnergySmearLY()
        else:
            smearer = smear.EnergySmearRes()
        smearer.set_resolution(self._current_value)
""",
     """        smearer = getattr(self, "_smearer", None)
        kind = (smear.EnergySmearLY if cur_value > 10.
                else smear.EnergySmearRes)
        if not isinstance(smearer, kind):
            smearer = kind()
            smearer.set_resolution(self._current_value)
            self._smearer = smearer
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum


from echidna.core.parameter import ResolutionParameter


def new():
    return ResolutionParameter("energy_mc_resolution", 200., None, 100., 300., 3, "energy_mc")


spectrum = make([("energy_mc", 0., 10., 40)], [1000.] * 20 + [0.] * 20)
used = new()
for value in (100., 0.05, 300., 200.):
    used.set_current_value(value)
    fresh = new()
    fresh.set_current_value(value)
    got, wanted = used.apply_to(spectrum).get_data(), fresh.apply_to(spectrum).get_data()
    check(numpy.allclose(got, wanted), "%s after other values: %s, %s wanted" % (value, got, wanted))
'''
