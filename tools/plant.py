""" Makes /verif/seeded/<id>/ from tools/seeds/<id>.py and verifies it.

python3 tools/plant.py ID...        make and verify (against /repo's HEAD)
python3 tools/plant.py --catch ID...   run the check of its property against it

A specification sets PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...]
and DEMO, the body of the demonstration: it may use echidna (loaded by the
copies of vlib/loader.py and vlib/fakes.py laid beside it), numpy, `check`
and `scratch` (a directory which goes away).
The patch is applied in a scratch copy of /repo only.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHELL = """#!/bin/bash
# exit 0: the property holds for this input; run in the repository
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -W ignore "$(dirname "$0")/demo.py"
"""
HEAD = '''import logging
import os
import shutil
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ["VERIF_REPO"] = os.getcwd()
import demo_loader
demo_loader.install()
logging.disable(logging.CRITICAL)
import numpy
scratch = tempfile.mkdtemp(prefix="demo_")


def check(condition, message):
    if not condition:
        sys.stderr.write("FAILED: %s\\n" % message)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(1)


'''


def write(path, text):
    with open(path, "w") as out:
        out.write(text)


def run(cmd, **kwargs):
    return subprocess.run(cmd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kwargs)


def make(name):
    spec = runpy.run_path(os.path.join(HERE, "tools", "seeds", name + ".py"))
    out = os.path.join(HERE, "seeded", name)
    os.makedirs(out, exist_ok=True)
    for module in ("loader", "fakes"):
        with open(os.path.join(HERE, "vlib", module + ".py")) as source:
            text = source.read()
        write(os.path.join(out, "demo_%s.py" % module),
              text.replace("from vlib import fakes",
                           "import demo_fakes as fakes"))
    if "demo_rat" in spec["DEMO"]:
        shutil.copy(os.path.join(HERE, "checks", "_rat.py"),
                    os.path.join(out, "demo_rat.py"))
    write(os.path.join(out, "demo.py"), HEAD + spec["DEMO"].strip() +
          "\nshutil.rmtree(scratch, ignore_errors=True)\n")
    write(os.path.join(out, "demo.sh"), SHELL)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    write(os.path.join(out, "meta.json"), json.dumps({
        "property": spec["PROPERTY"], "needs": spec["NEEDS"],
        "what_it_breaks": spec["BREAKS"]}, indent=1) + "\n")
    copy = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = os.path.join(copy, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        ok = run(["bash", os.path.join(out, "demo.sh")], cwd=repo)
        for path, old, new in spec["EDITS"]:
            full = os.path.join(repo, path)
            with open(full) as source:
                text = source.read()
            assert text.count(old) == 1, (name, path, old, text.count(old))
            write(full, text.replace(old, new))
        write(os.path.join(out, "patch.diff"),
              run(["git", "diff"], cwd=repo).stdout)
        bad = run(["bash", os.path.join(out, "demo.sh")], cwd=repo)
        print("%-28s demo: %d without, %d with the patch" % (
            name, ok.returncode, bad.returncode))
        if ok.returncode or not bad.returncode or "Traceback" in bad.stdout:
            print(ok.stdout[-1500:], bad.stdout[-1500:])
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def build(name):
    """ Builds and tests the patched tree: needs /repo itself. """
    patch = os.path.join(HERE, "seeded", name, "patch.diff")
    assert run(["git", "-C", "/repo", "status", "--porcelain"]).stdout == ""
    subprocess.check_call(["git", "-C", "/repo", "apply", patch])
    try:
        b = run(["bash", "/opt/vp/build.sh"])
        t = run(["bash", "/opt/vp/test.sh", "/tmp/plant.json"])
        with open("/tmp/plant.json") as source:
            passed = set(json.load(source)["passed"])
        with open("/opt/vp/BASELINE.json") as source:
            stable = set(json.load(source)["stable"])
        print("%-28s build %d, stable tests %s" % (
            name, b.returncode, "pass" if stable <= passed else "FAIL"))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])


def catch(name):
    """ The check of its property, in a copy of the repository. """
    with open(os.path.join(HERE, "seeded", name, "meta.json")) as source:
        pid = json.load(source)["property"]
    copy = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = os.path.join(copy, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        subprocess.check_call(["git", "-C", repo, "apply", os.path.join(
            HERE, "seeded", name, "patch.diff")])
        got = run(["bash", "check.sh", pid], cwd=HERE,
                  env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1",
                           VERIF_EVIDENCE=copy))
        print("%-28s %s: %s" % (name, pid, "caught" if got.returncode == 1
                                and "VIOLATION property=" + pid in got.stdout
                                else "MISSED (%d)" % got.returncode))
        print("    " + got.stdout[:300].replace("\n", "\n    "))
    finally:
        shutil.rmtree(copy, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    modes = [a for a in args if a.startswith("--")]
    names = [a for a in args if not a.startswith("--")] or sorted(
        os.path.splitext(f)[0]
        for f in os.listdir(os.path.join(HERE, "tools", "seeds"))
        if f.endswith(".py"))
    for name in names:
        if "--catch" in modes:
            catch(name)
        elif "--build" in modes:
            build(name)
        else:
            make(name)
            build(name)
            catch(name)
