PROPERTY = 'C21'
NEEDS = 'a configuration file which is read, written again and read again'
BREAKS = 'the configuration first read from a file is given again'
EDITS = [
    ('echidna/core/config.py',
     """        with open(filename, 'r') as stream:
            config = yaml_loader.ordered_load(stream)
""",
     """        read = cls.__dict__.get("_read")
        if read is None:
            cls._read = read = {}
        if filename not in read:
            with open(filename, 'r') as stream:
                read[filename] = yaml_loader.ordered_load(stream)
        config = read[filename]
"""),
]
DEMO = '''
import collections
from echidna.core.spectra import Spectra
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter


def make(axes, data, decays=10.):
    pars = collections.OrderedDict(
        (name, SpectraParameter(name, low, high, bins))
        for name, low, high, bins in axes)
    spectrum = Spectra("spec", decays, SpectraConfig("config", pars))
    spectrum._data = numpy.array(data, dtype=float)
    return spectrum

import os
path = scratch + "/"
make([("energy_mc", 0., 4., 4)], [1.] * 4).get_config().dump_to_file(
    path=path, filename="config.yml")
SpectraConfig.load_from_file(path + "config.yml")
make([("energy_mc", 0., 4., 8)], [1.] * 8).get_config().dump_to_file(
    path=path, filename="config.yml")
config = SpectraConfig.load_from_file(path + "config.yml")
check(config.get_par("energy_mc").get_bins() == 8, "there are %s bins"
      % config.get_par("energy_mc").get_bins())
'''
