PROPERTY = 'C24'
NEEDS = 'a conversion given its own number of atoms'
BREAKS = 'the number of atoms which was given is used one way only'
EDITS = [
    ('echidna/calc/decay.py',
     """        half_life = self.eff_mass_to_half_life(eff_mass)
        return self.half_life_to_counts(half_life, n_atoms, livetime)""",
     """        half_life = self.eff_mass_to_half_life(eff_mass)
        return self.half_life_to_counts(half_life, livetime=livetime)"""),
]
DEMO = '''
from echidna.calc.decay import DBIsotope
isotope = DBIsotope("Te130", 129.9, 127.6, 0.34, 3.69e-14, 4.03)
counts = isotope.eff_mass_to_counts(0.1, n_atoms=1e26, livetime=2.)
mass = isotope.counts_to_eff_mass(counts, n_atoms=1e26, livetime=2.)
check(numpy.isclose(mass, 0.1), "there and back gives %s" % mass)
'''
