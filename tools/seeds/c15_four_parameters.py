PROPERTY = 'C15'
NEEDS = 'four or more parameters, minimised without numpy'
BREAKS = 'the coordinates of the minimum are those of another place'
EDITS = [
    ('echidna/fit/minimise.py',
     """        new_coords = new_coords.ravel()
        multiplier = 0  # to calculate indices
        product = 1  # product of dimensions
        for dim in new_coords.shape:
            product *= dim
            multiplier += len(coords) / product
""",
     """        multiplier = len(coords) / len(new_coords)  # to calculate indices
        new_coords = new_coords.ravel()
        multiplier = min(multiplier, len(coords) - 1)
"""),
    ('echidna/fit/minimise.py',
     """        indices = [i * multiplier + j for i, j in enumerate(new_coords)]
""",
     """        indices = [int(i * multiplier + j) % len(coords)
                   for i, j in enumerate(new_coords)]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

from echidna.core.config import GlobalFitConfig
from echidna.core.parameter import ShiftParameter
from echidna.fit.minimise import GridSearch
config = GlobalFitConfig("fit", collections.OrderedDict())
for name in "abcd":
    config.add_par(ShiftParameter(name, 0., 1., 0., 1., 2, "energy_mc"),
                   "global")
spectra = make([("energy_mc", 0., 4., 4)], [1.] * 4).get_config()
search = GridSearch(config, spectra, "fit", use_numpy=False)
for place in numpy.ndindex(2, 2, 2, 2):
    array = numpy.random.RandomState(sum(place)).uniform(1., 2., (2, 2, 2, 2))
    array[place] = 0.
    value, found = search.find_minimum(array)
    check(tuple(int(i) for i in found) == place, "the minimum at %s is at %s"
          % (place, found))
'''
