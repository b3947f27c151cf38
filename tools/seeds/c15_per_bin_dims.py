PROPERTY = 'C15'
NEEDS = 'statistics per bin with more than one spectral dimension'
BREAKS = 'only the last spectral dimension is summed before the penalty terms are added'
EDITS = [
    ('echidna/fit/minimise.py',
     """            # Collapse by summing over spectral dimensions
            for dim_size in self._spectra_config.get_shape():
                combined = numpy.sum(combined, axis=-1)  # always last axis

        # Add penalties
        combined = combined + self._penalty_terms[indices]
""",
     """            # Collapse by summing over spectral dimensions
            combined = numpy.sum(combined, axis=-1)  # always last axis

        # Add penalties
        combined = combined + self._penalty_terms[indices]
"""),
]
DEMO = '''
import collections
from echidna.core.config import SpectraConfig, GlobalFitConfig
from echidna.core.parameter import SpectraParameter, RateParameter
from echidna.fit.minimise import GridSearch
fit_config = GlobalFitConfig("fit", collections.OrderedDict())
fit_config.add_par(RateParameter("rate", 1., None, 0., 2., 3), "spectra")
spectra_config = SpectraConfig("spectra", collections.OrderedDict([
    ("energy_mc", SpectraParameter("energy_mc", 0., 1., 2)),
    ("radial_mc", SpectraParameter("radial_mc", 0., 1., 2))]))
grid = GridSearch(fit_config, spectra_config, per_bin=True)
grid.set_stats(numpy.ones((3, 2, 2)))
check(numpy.shape(grid.get_stat((1,))) == () and grid.get_stat((1,)) == 4.,
      "get_stat gives %s" % grid.get_stat((1,)))
'''
