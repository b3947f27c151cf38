PROPERTY = "C08"
NEEDS = ("a spectrum of several dimensions whose contents are distributed "
         "differently over the other dimensions in neighbouring bins, one of "
         "which is empty")
BREAKS = ("a bin which gets its contents from one filled and one empty bin "
          "only takes the share of the filled one, changing the shape")
EDITS = [("echidna/core/scale.py", """                fill_cmd = ("scaled_spec._data" + cur_slice + "+= old_data1 * "
                            "(y / unscaled_sum1)")
""", """                fill_cmd = ("scaled_spec._data" + cur_slice + "+= old_data1 * "
                            "scale1 * (y / unscaled_sum1)")
""")]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.scale import Scale
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter
pars = collections.OrderedDict([
    ("energy_mc", SpectraParameter("energy_mc", 0., 8., 8)),
    ("radial_mc", SpectraParameter("radial_mc", 0., 2., 2))])
spectrum = Spectra("spec", 10., SpectraConfig("config", pars))
for i, n in enumerate([0, 0, 8, 6, 0, 0, 0, 0]):
    for j in range(n):
        spectrum.fill(energy_mc=i + 0.5, radial_mc=0.5 + (i == 3))
scaler = Scale()
scaler.set_scale_factor(1.2)
scaled = scaler.scale(spectrum, "energy_mc")
y = spectrum.interpolate1d("energy_mc")
got = scaled.project("energy_mc")[2:5]
shape = numpy.array([float(y((i + 0.5) / 1.2)) for i in (2, 3, 4)])
check(numpy.allclose(got / got[0], shape / shape[0], rtol=1e-4),
      "%s instead of %s" % (got / got[0], shape / shape[0]))
'''
