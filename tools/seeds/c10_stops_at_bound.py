PROPERTY = 'C10'
NEEDS = 'entries near the edge of a spectrum, of which one is smeared out of it before others'
BREAKS = 'the entries of the bin which follow one smeared out of the spectrum are lost'
EDITS = [
    ('echidna/core/smear.py',
     """                for i in range(entries):
                    data[par] = numpy.fabs(numpy.random.normal(mean_r, sigma))
                    try:
                        smeared_spec.fill(**data)
                    except ValueError:
                        print "WARNING: Smeared radius out of bounds. Skipping"
""",
     """                try:
                    for i in range(entries):
                        data[par] = numpy.fabs(
                            numpy.random.normal(mean_r, sigma))
                        smeared_spec.fill(**data)
                except ValueError:
                    print "WARNING: Smeared radius out of bounds. Skipping"
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.smear import RadialSmear
smearer = RadialSmear()
smearer.set_resolution(300.)
spectrum = make([("radial_mc", 0., 1000., 10)], [0.] * 8 + [2000., 0.])
numpy.random.seed(1)
smeared = smearer.random_smear(spectrum, "radial_mc")
check(smeared.sum() > 1000., "%s of 2000 entries are left" % smeared.sum())
'''
