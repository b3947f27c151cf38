PROPERTY = 'C24'
NEEDS = 'counts to an effective mass, for a number of atoms which is not that of the detector'
BREAKS = 'the number of atoms given is not used'
EDITS = [
    ('echidna/calc/decay.py',
     """        half_life = self.counts_to_half_life(counts, n_atoms, livetime)
""",
     """        half_life = self.counts_to_half_life(counts, livetime=livetime)
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.calc.decay import DBIsotope
isotope = DBIsotope("Te130", 129.906229, 127.6, 0.3408, 3.69e-14, 4.03)
mass = isotope.counts_to_eff_mass(30., n_atoms=1.e27)
counts = isotope.eff_mass_to_counts(mass, n_atoms=1.e27)
check(abs(counts - 30.) < 1.e-6, "30 counts come back as %s" % counts)
'''
