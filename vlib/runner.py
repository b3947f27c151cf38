"""Runs the generated-input checks of one property and reports on them.

A *facet* is one executable statement of (part of) a property: a Hypothesis
strategy producing plain JSON-able cases, and a function judging one case
against an oracle.  Everything random lives in the strategies, so a run is a
function of the code and VERIF_SEED; a failure is shrunk by Hypothesis and
its minimal case becomes the replay file, which re-runs without Hypothesis.
"""
import argparse
import contextlib
import copy
import errno
import hashlib
import importlib
import io
import json
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

from vlib import loader  # noqa: E402


class Violation(Exception):
    """ The property does not hold for the case. """


class HarnessError(Exception):
    """ The check itself could not do its work. """


class Hang(BaseException):
    """ A case does not end; not an Exception, so that it is not shrunk. """


#: processor time one case may take; they take milliseconds
CASE_LIMIT = 120.


class Rec(object):
    """ What one case tells the runner about itself. """
    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self._tmp = None

    def label(self, *labels):
        self.labels.extend(labels)

    def hit(self, condition=True):
        """ Marks the case as non-trivial. """
        self.nontrivial = self.nontrivial or bool(condition)

    def fail(self, message, *args):
        raise Violation(message % args if args else message)

    def check(self, condition, message, *args):
        if not condition:
            self.fail(message, *args)

    def tmp(self):
        """ A scratch directory which goes away after the case. """
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="verif_case_")
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Facet(object):
    def __init__(self, name, strategy, judge, quick, thorough, rule):
        self.name, self.strategy, self.judge = name, strategy, judge
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Prop(object):
    def __init__(self, pid):
        self.pid = pid
        self.facets = []
        self.probes = []
        self.assumptions = []

    def facet(self, strategy, quick=300, thorough=None, rule=""):
        def decorate(judge):
            self.facets.append(Facet(judge.__name__, strategy, judge, quick,
                                     thorough or quick * 20,
                                     rule or (judge.__doc__ or "").strip()))
            return judge
        return decorate

    def probe(self, key, what):
        """ A fixed input which shows a recorded finding (if still there).

        The function returns True when the defect shows. """
        def decorate(func):
            self.probes.append((key, what, func))
            return func
        return decorate


def known_findings(pid):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as lines:
            for line in lines:
                if line.startswith("known: property=%s " % pid):
                    rest = line.split(None, 2)[2]
                    key, what = rest.split(None, 1)
                    keys[key.replace("key=", "")] = what.strip()
    return keys


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(loader.REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(out):
            yield


def seed_global(case):
    """ The code under test draws from numpy's/random's global generators in
    a few places: pin them to the case. """
    import numpy
    digest = hashlib.sha256(json.dumps(case, sort_keys=True).encode())
    value = int(digest.hexdigest()[:8], 16)
    numpy.random.seed(value)
    random.seed(value)


def out_of_time(*_):
    raise Hang()


def judge_case(facet, case):
    """ Runs one case. Raises Violation, HarnessError or Hang. """
    rec = Rec()
    case = copy.deepcopy(case)
    cwd = os.getcwd()
    signal.signal(signal.SIGVTALRM, out_of_time)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_LIMIT)
    try:
        with quiet():
            seed_global(case)
            facet.judge(case, rec)
    except (Violation, HarnessError):
        raise
    except SystemExit as exc:
        raise Violation("the code ended the program (%s) where it should "
                        "not" % exc) from exc
    except Exception as exc:
        if type(exc).__module__.startswith("hypothesis"):
            raise
        text = "".join(traceback.format_exception_only(type(exc), exc)).strip()
        if in_repo(exc.__traceback__):
            where = [f for f in traceback.extract_tb(exc.__traceback__)
                     if f.filename.startswith(loader.REPO + os.sep)][-1]
            raise Violation("the code raised an exception where it should "
                            "succeed: %s (%s:%s in %s)"
                            % (text, os.path.relpath(where.filename,
                                                     loader.REPO),
                               where.lineno, where.name)) from exc
        foreign = isinstance(exc, ImportError) and not str(
            exc.name).startswith("echidna")
        if foreign or isinstance(exc, MemoryError) or getattr(
                exc, "errno", None) in (errno.ENOSPC, errno.EMFILE,
                                        errno.ENOMEM, errno.EDQUOT):
            raise HarnessError("%s: %s\n%s" % (
                facet.name, text, traceback.format_exc())) from exc
        # The judge copes with anything the code returns where the property
        # holds, as every run on the unchanged tree shows.
        where = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation("what the code did or returned is not of the kind "
                        "which was expected: %s (%s:%s in %s)" % (
                            text, os.path.basename(where.filename),
                            where.lineno, where.name)) from exc
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(cwd)
        rec.close()
    return rec


def canonical(case):
    return json.dumps(case, sort_keys=True)


def run(prop, tier, seed, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    start = time.time()
    stats = {"evaluations": 0, "distinct": set(), "samples": [],
             "labels": {}, "facets": {}}
    failure = None
    error = None
    for number, facet in enumerate(prop.facets):
        entry = {"evaluations": 0, "distinct_nontrivial": 0,
                 "skipped_out_of_time": 0, "labels": {}}
        stats["facets"][facet.name] = entry
        last = {}

        def execute(case):
            if time.time() - start > budget:
                entry["skipped_out_of_time"] += 1
                return
            entry["evaluations"] += 1
            stats["evaluations"] += 1
            try:
                rec = judge_case(facet, case)
            except Violation as exc:
                last["case"], last["message"] = case, str(exc)
                raise
            except Hang:
                last["case"] = case
                raise
            for label in rec.labels:
                entry["labels"][label] = entry["labels"].get(label, 0) + 1
            if rec.nontrivial:
                key = hashlib.sha1((facet.name + canonical(case)).encode())\
                    .digest()
                if key not in stats["distinct"]:
                    stats["distinct"].add(key)
                    entry["distinct_nontrivial"] += 1
                    if entry["distinct_nontrivial"] in (3, 40):
                        stats["samples"].append({"facet": facet.name,
                                                 "case": case})

        examples = facet.thorough if tier == "thorough" else facet.quick
        test = hypothesis.given(facet.strategy)(execute)
        test = hypothesis.seed(seed * 1000 + number)(test)
        test = settings(
            max_examples=examples, database=None, deadline=None,
            derandomize=False, print_blob=False, report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow,
                                   HealthCheck.data_too_large,
                                   HealthCheck.large_base_example],
        )(test)
        try:
            test()
        except Violation:
            failure = (facet, last["case"], last["message"])
        except Hang:
            failure = (facet, last["case"], "the code does not end (within "
                       "%.0f s of processor time)" % CASE_LIMIT)
        except HarnessError as exc:
            error = str(exc)
        except Exception as exc:
            if last.get("case") is not None and \
                    type(exc).__name__ in ("Flaky", "FlakyFailure",
                                           "ExceptionGroup"):
                failure = (facet, last["case"], last["message"])
            else:
                error = "%s: %r\n%s" % (facet.name, exc,
                                        traceback.format_exc())
        if failure or error:
            break
    findings = []
    if failure is None and error is None:
        listed = known_findings(prop.pid)
        for key, what, func in prop.probes:
            try:
                with quiet():
                    shows = func()
            except Exception:
                error = "probe %s: %s" % (key, traceback.format_exc())
                break
            if shows and key in listed:
                findings.append((key, listed[key]))
            elif shows:
                failure = (None, {"probe": key}, what)
                break
    stats["wall_s"] = time.time() - start
    return stats, failure, error, findings


def write_json(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as out:
        json.dump(value, out, indent=1)
        out.write("\n")


def replay(prop, path):
    with open(path) as source:
        saved = json.load(source)
    if saved["facet"] is None:
        for key, what, func in prop.probes:
            if key == saved["case"]["probe"] and func():
                print("VIOLATION property=%s replay=%s" % (prop.pid, path))
                return 1
        return 0
    facet = [f for f in prop.facets if f.name == saved["facet"]][0]
    try:
        judge_case(facet, saved["case"])
    except (Violation, Hang) as exc:
        print("%s: %s" % (facet.name, exc))
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
        return 1
    print("replayed %s: property held" % path)
    return 0


def main(argv=None):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=None)
    parser.add_argument("--replay", default=None)
    parser.add_argument("--facet", default=None)
    parser.add_argument("--examples", type=int, default=None)
    args = parser.parse_args(argv)
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET",
                                  "400" if tier == "quick" else "3000"))
    logging.disable(logging.CRITICAL)
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    loader.install()
    module = importlib.import_module("checks." + args.property.lower())
    prop = module.prop
    if args.facet:
        prop.facets = [f for f in prop.facets if f.name == args.facet]
        prop.probes = []
    if args.examples:
        for f in prop.facets:
            f.quick = f.thorough = args.examples
    if args.replay:
        return replay(prop, args.replay)
    stats, failure, error, findings = run(prop, tier, seed, budget)
    if not stats["samples"]:
        stats["samples"] = []
    evidence = {
        "property": prop.pid, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": stats["evaluations"],
            "distinct_nontrivial": len(stats["distinct"]),
            "rule": "Hypothesis-generated cases per facet; non-trivial "
                    "when: " + "; ".join("%s: %s" % (f.name, " ".join(
                        f.rule.split())) for f in prop.facets),
            "samples": stats["samples"][:12],
            "facets": stats["facets"],
            "known_findings_shown": [k for k, _ in findings],
        },
        "assumptions": [
            "Python 2 semantics are emulated on CPython 3 (vlib/loader.py)",
        ] + prop.assumptions,
        "wall_s": round(stats["wall_s"], 3),
        "violations": 1 if failure else 0,
    }
    out = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    write_json(os.path.join(out, prop.pid + ".json"), evidence)
    for key, what in findings:
        print("KNOWN-FINDING: property=%s %s" % (prop.pid, what))
    if failure:
        facet, case, message = failure
        path = os.path.join(out, "replay",
                            "%s.json" % prop.pid)
        write_json(path, {"property": prop.pid,
                          "facet": facet.name if facet else None,
                          "case": case, "message": message,
                          "replay": "bash /verif/check.sh %s --replay %s"
                                    % (prop.pid, path)})
        print("%s: %s" % (facet.name if facet else case["probe"], message))
        print("case: %s" % json.dumps(case))
        print("VIOLATION property=%s replay=%s" % (prop.pid, path))
        return 1
    if error:
        sys.stderr.write("check error: %s\n" % error)
        return 2
    print("%s %s seed=%d: held on %d cases (%d distinct non-trivial), %.1fs"
          % (prop.pid, tier, seed, stats["evaluations"],
             len(stats["distinct"]), stats["wall_s"]))
    return 0


if __name__ == "__main__":
    # one module object, however the checks import it
    from vlib import runner
    code = runner.main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
