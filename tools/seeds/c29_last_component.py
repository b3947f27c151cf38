PROPERTY = 'C29'
NEEDS = 'a logger whose last component is that of another logger'
BREAKS = 'the message is formatted like those of the other logger'
EDITS = [
    ('echidna/utilities.py',
     """            if logger.name in self._formatters:
                formatter = self._formatters[logger.name]
""",
     """            if logger.name.split(".")[-1] in self._formatters:
                formatter = self._formatters[logger.name.split(".")[-1]]
"""),
]
DEMO = '''
from echidna.utilities import DispatchingFormatter


class Formatter(object):
    def __init__(self, name):
        self.name = name

    def format(self, record):
        return self.name


formatter = DispatchingFormatter({"extra": Formatter("extra")},
                                 Formatter("default"))
for name, expected in (("extra", "extra"), ("extra.more", "extra"),
                       ("more", "default"), ("more.extra", "default")):
    logging.getLogger(name)
    record = logging.LogRecord(name, 20, "file", 1, "message", (), None)
    found = formatter.format(record)
    check(found == expected, "%s is formatted as %s" % (name, found))
'''
