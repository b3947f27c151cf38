PROPERTY = 'C21'
NEEDS = 'a file of a spectra config with a dot in its name, loaded by a blank name'
BREAKS = 'the config is named after only the first part of the name of the file'
EDITS = [
    ('echidna/core/config.py',
     '            name = filename[filename.rfind("/")+1:filename.rfind(".")]\n        return cls.load(config, name)\n',
     '            name = filename.split("/")[-1].split(".")[0]\n        return cls.load(config, name)\n'),
]
DEMO = r'''
import collections
from echidna.core.config import SpectraConfig
from echidna.core.parameter import SpectraParameter
config = SpectraConfig("config", collections.OrderedDict(
    energy_mc=SpectraParameter("energy_mc", 0., 1., 3)))
config.dump_to_file(scratch + "/", "version_1.2.yml")
name = SpectraConfig.load_from_file(scratch + "/version_1.2.yml", "").get_name()
check(name == "version_1.2", "it is named %s" % name)
'''
