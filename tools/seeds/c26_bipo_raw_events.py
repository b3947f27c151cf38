PROPERTY = 'C26'
NEEDS = 'a bipo cut on a file with events outside the bounds of the spectrum'
BREAKS = 'events which are not filled are counted as raw events'
EDITS = [
    ('echidna/core/fill_spectrum.py',
     """                spectrum.fill(**fill_kwargs)
                spectrum._raw_events += 1
            except ValueError:
                pass
        # Reset kwargs
""",
     """                spectrum._raw_events += 1
                spectrum.fill(**fill_kwargs)
            except ValueError:
                pass
        # Reset kwargs
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

import demo_rat
demo_rat.install()
from echidna.core import fill_spectrum
config = SpectraConfig("config", collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 10., 10)))
entry = {"mcPos": [0., 0., 0.], "pos": [0., 0., 0.], "scintFit": 1,
         "energy": 1., "mc": 1, "mcEdep": 1., "mcEdepQuenched": 1.,
         "evIndex": 0}
demo_rat.FILES["f"] = [entry, dict(entry, mcEdepQuenched=20.), entry]
spectrum = fill_spectrum.fill_from_ntuple("f", "spec", config, bipo=True)
check(spectrum._raw_events == 2, "%s events are counted, two are filled"
      % spectrum._raw_events)
'''
