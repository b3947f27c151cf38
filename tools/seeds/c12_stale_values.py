PROPERTY = 'C12'
NEEDS = 'an update of the prior of a parameter whose values were already asked for (logscale_deviation)'
BREAKS = 'the values keep being centred on the previous prior'
EDITS = [
    ('echidna/core/parameter.py',
     """        self._logger.warning("Setting _values and _bin_boundaries to None")
        self._values = None
        self._bin_boundaries = None
""",
     """        if set(kwargs).isdisjoint(["prior", "sigma", "dimension"]):
            self._logger.warning("Setting _values and _bin_boundaries to None")
            self._values = None
            self._bin_boundaries = None
"""),
]
DEMO = '''
from echidna.core.parameter import RateParameter
par = RateParameter("rate", 10., 1., 0., 20., 11, logscale_deviation=True)
par.get_values()
par.set_par(prior=5.)
check(numpy.isclose(par.get_values(), 5.).any(), "prior 5 is not in %s"
      % par.get_values())
'''
