PROPERTY = 'C11'
NEEDS = 'bounds changed without the number of bins after the edges were asked for'
BREAKS = 'the edges stay those of the old bounds'
EDITS = [
    ('echidna/core/parameter.py',
     '        return numpy.linspace(self._low, self._high, self._bins+1)\n',
     '        edges = self.__dict__.get("_edges")\n        if edges is None or len(edges) != self._bins + 1:\n            edges = numpy.linspace(self._low, self._high, self._bins+1)\n            self._edges = edges\n        return edges\n'),
]
DEMO = r'''
from echidna.core.parameter import SpectraParameter
par = SpectraParameter("energy_mc", 0., 4., 4)
par.get_bin_boundaries()
par.set_par(low=2., high=6.)
check(par.get_bin_boundaries()[0] == 2., "edges: %s" % par.get_bin_boundaries())
'''
