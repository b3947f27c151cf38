""" C29 - messages reach the log file and the terminal as they are set. """
import contextlib
import io
import logging
import os
import socket
import sys
import time
import warnings

from hypothesis import strategies as st

from vlib.common import *  # noqa
from vlib.runner import Prop

prop = Prop("C29")
LEVELS = {"debug": 10, "info": 20, "warning": 30}
NAMES = st.sampled_from(["fit", "Config", "extra", "extra.more", "extras",
                         "not.extra", "extra.more.still", "a.b", "a"])


@contextlib.contextmanager
def fresh(profile):
    """ Logging as at the start of a process; yields what is printed. """
    import echidna.settings as settings
    import echidna.utilities as utilities
    root = logging.getLogger()
    saved = (root.handlers, root.level, logging.root.manager.disable,
             sys.stderr, sys.stdout, dict(settings.user_profile))
    utilities.logger_set = False
    root.handlers = []
    root.setLevel(logging.WARNING)
    logging.disable(logging.NOTSET)
    terminal = io.StringIO()
    sys.stderr = sys.stdout = terminal
    settings.user_profile.update(profile)
    try:
        with warnings.catch_warnings():
            warnings.resetwarnings()
            warnings.simplefilter("always")
            yield utilities, terminal
    finally:
        for handler in root.handlers:
            handler.close()
        logging.captureWarnings(False)
        root.handlers, level, disable, sys.stderr, sys.stdout, old = saved
        root.setLevel(level)
        logging.disable(disable)
        settings.user_profile.update(old)
        utilities.logger_set = False


def call_from(script, function, **kwargs):
    """ Calls the function from a file of that name. """
    space = {"function": function, "kwargs": kwargs}
    exec(compile("result = function(**kwargs)", script, "exec"), space)
    return space["result"]


@st.composite
def sessions(draw):
    steps = []
    for number in range(draw(st.integers(1, 8))):
        kind = draw(st.sampled_from(["log", "log", "log", "start", "warn",
                                     "returned"]))
        steps.append({"kind": kind, "name": draw(NAMES), "level": draw(
            st.sampled_from([10, 20, 30, 40, 50])),
            "text": "message %d %s" % (number, draw(st.sampled_from(
                ["", "with 100%", "a/b", u"[x]", "%s"])))})
    return {"mode": draw(st.sampled_from(["normal", "normal", "cautious"])),
            "level": draw(st.sampled_from(sorted(LEVELS))),
            "capture": draw(st.booleans()), "short": draw(st.booleans()),
            "script_name": draw(st.booleans()),
            "defaults": draw(st.booleans()),
            "script": draw(st.sampled_from(
                ["limit.py", "/a/b/limit.py", "dir.d/my.script.py",
                 "./fit_2.pyc"])),
            "slash": draw(st.booleans()),
            "missing": draw(st.integers(0, 9)) == 0, "steps": steps}


@prop.facet(sessions(), quick=600, rule="messages of different loggers and "
            "levels")
def session(case, rec):
    folder = rec.tmp() + "/logs/"
    os.mkdir(folder)
    module = case["script"].split("/")[-1].rsplit(".", 1)[0]
    kwargs = {"capture_warnings": case["capture"],
              "short_name": case["short"],
              "script_name": case["script_name"]}
    wanted = dict(kwargs)
    if case["defaults"]:
        kwargs = dict((k, v) for k, v in kwargs.items()
                      if v != {"capture_warnings": True, "short_name": False,
                               "script_name": True}[k])
    where = folder + ("nowhere/" if case["missing"] else "")
    if not case["slash"]:
        where = where[:-1]
    with fresh({"mode": case["mode"], "log_level": case["level"],
                "log_save_path": where}) as (utilities, terminal):
        start = utilities.start_logging
        if case["missing"]:
            raises(rec, IOError, lambda: call_from(case["script"], start,
                                                   **kwargs),
                   "logging to a directory which does not exist")
            rec.check(os.listdir(folder) == [], "files were written: %s",
                      os.listdir(folder))
            return
        logger = call_from(case["script"], start, **kwargs)
        rec.check(logger.name == module, "the logger is called %s, not %s",
                  logger.name, module)
        name = "echidna" + ("." + module if wanted["script_name"] else "")
        if not wanted["short_name"]:
            name += ".%s.%d" % (socket.gethostname(), os.getpid())
        name += ".log"
        found = os.listdir(folder)
        if wanted["short_name"] and wanted["script_name"] and \
                found == ["echidna.log"]:
            name = found[0]     # the documentation allows either
        rec.check(found == [name] and os.listdir(folder + "..") == ["logs"],
                  "the log files are %s instead of %s", found, name)
        said, shown = [], []
        warned = False
        for step in case["steps"]:
            text, level = step["text"], step["level"]
            if step["kind"] == "start":
                other = call_from("other.py", start, **kwargs)
                rec.check(other.name == "other", "the logger of other.py is "
                          "%s", other.name)
                rec.label("started again")
                continue
            if step["kind"] == "warn":
                try:
                    warnings.warn(text)
                    raised = False
                except UserWarning:
                    raised = True
                rec.check(raised == (case["mode"] == "cautious"),
                          "a warning was %s in %s mode", "raised" if raised
                          else "not raised", case["mode"])
                rec.label("warning")
                if raised:
                    continue
                warned = True
                said.append((30, text, None))
                if case["capture"]:
                    shown.append((30, text, None))
                continue
            used = logger if step["kind"] == "returned" else \
                logging.getLogger(step["name"])
            used.log(level, text)
            said.append((level, text, used.name))
            shown.append((level, text, used.name))
        for handler in logging.getLogger().handlers:
            handler.flush()
        with io.open(folder + name) as source:
            lines = source.read().split("\n")
        screen = terminal.getvalue().split("\n")
        for level, text, source in said:
            # the file: everything
            found = [l for l in lines if l.endswith(": " + text) or (
                source is None and text in l)]
            in_file = source is not None or case["capture"]
            rec.check(len(found) == int(in_file), "%r is in the file %d "
                      "times: %s", text, len(found), lines)
            if source is not None:
                rec.check(logging.getLevelName(level) in found[0],
                          "the level of %r is not in the line %r", text,
                          found[0])
        for level, text, source in shown:
            # the terminal: what is important enough
            plain = source is not None and source.split(".")[0] == "extra"
            line = text if plain else "%-20s: %s" % (source, text)
            found = [l for l in screen if (
                text in l if source is None else l == line)]
            rec.check(len(found) == int(level >= LEVELS[case["level"]]),
                      "%r of %s (level %d) is on the terminal %d times for "
                      "level %s: %s", text, source, level, len(found),
                      case["level"], screen)
        rec.check(os.listdir(folder) == [name], "there are other files: %s",
                  os.listdir(folder))
        rec.hit(len(set(s[2] for s in said)) > 1 and
                len(set(s[0] for s in said)) > 1 or warned)


@prop.facet(st.fixed_dictionaries({
    "formatters": st.lists(st.sampled_from(
        ["a", "a.b", "a.b.c", "b", "root", "a.bc", "x"]), max_size=4,
        unique=True),
    "names": st.lists(st.sampled_from(
        ["a", "a.b", "a.b.c", "a.b.c.d.e", "a.bc", "b.a", "ab", "root", "",
         "c", "x.y"]), min_size=1, max_size=5)}), quick=450,
    rule="a message of a logger with a formatter for one above it")
def dispatch(case, rec):
    """ The formatter of the nearest logger above is used. """
    import echidna.utilities as utilities
    formatters = dict((name, logging.Formatter(name + "> %(message)s"))
                      for name in case["formatters"])
    tool = utilities.DispatchingFormatter(
        formatters, logging.Formatter("default> %(message)s"))
    for name in case["names"]:
        logger = logging.getLogger(name) if name else logging.getLogger()
        record = logger.makeRecord(logger.name, 20, "file", 1, "text", (),
                                   None)
        parts = [] if logger.name == "root" else logger.name.split(".")
        above = [".".join(parts[:i]) for i in range(len(parts), 0, -1)]
        # loggers in between which nobody asked for are skipped
        above = [a for a in above if isinstance(
            logging.root.manager.loggerDict.get(a), logging.Logger)]
        wanted = [a for a in above + ["root"] if a in formatters]
        expected = "%s> text" % (wanted[0] if wanted else "default")
        rec.check(tool.format(record) == expected, "a message of %s is %r "
                  "instead of %r", name, tool.format(record), expected)
        rec.hit(bool(wanted) and wanted[0] != logger.name)


@prop.facet(st.fixed_dictionaries({
    "times": st.lists(st.floats(0., 1e6), min_size=2, max_size=2),
    "fails": st.booleans(), "size": st.integers(0, 40),
    "chars": st.one_of(st.none(), st.text("abcXYZ019_ ", min_size=1,
                                          max_size=8))}), quick=300,
    rule="every case")
def helpers(case, rec):
    import echidna.utilities as utilities
    from echidna.util.strings import id_generator
    clock = time.clock
    times = sorted(case["times"])
    ticks = list(times)
    time.clock = lambda: ticks.pop(0)
    try:
        with utilities.Timer() as timer:
            if case["fails"]:
                raise KeyError("from the timed block")
        rec.check(not case["fails"], "an exception was lost")
    except KeyError:
        rec.check(case["fails"], "unexpected KeyError")
    finally:
        time.clock = clock
    expect_close(rec, timer._interval, times[1] - times[0], "interval")
    chars = case["chars"]
    text = id_generator(case["size"]) if chars is None else \
        id_generator(case["size"], chars)
    allowed = chars or ("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
                        "0123456789")
    rec.check(len(text) == case["size"] and set(text) <= set(allowed),
              "id of %d characters of %r: %r", case["size"], chars, text)
    rec.check(len(id_generator()) == 4, "default size")
    rec.hit()
