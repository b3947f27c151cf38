""" Writes properties.jsonl and MANIFEST.json (run after editing: the two
must not disagree).  A property is claimed if checks/<id>.py exists. """
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INPUTS, HIST, CONF, FAULT, PROG = ("inputs", "histories", "configurations",
                                   "fault_sequences", "programs")
PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique,
         note, observe=()):
    assert len(title) <= 80, title
    PROPS.append(dict(pid=pid, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mechanism=mechanism,
                      technique=technique, note=note, observe=list(observe)))


def load():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        "properties.py")
    with open(path) as source:
        exec(compile(source.read(), path, "exec"), globals())


def main():
    load()
    lines, checks, missing = [], [], []
    for p in PROPS:
        lines.append(json.dumps({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w}
                                      for n, w in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}))
        if not os.path.exists(os.path.join(HERE, "checks",
                                           p["pid"].lower() + ".py")):
            missing.append({"property": p["pid"], "reason":
                            "the check is not built yet"})
            continue
        checks.append({
            "property": p["pid"],
            "quick_cmd": "bash check.sh " + p["pid"],
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p["pid"],
            "evidence_file": "evidence/%s.json" % p["pid"],
            "technique": p["technique"], "level": "exploration",
            "level_note": p["note"]})
    with open(os.path.join(HERE, "properties.jsonl"), "w") as out:
        out.write("\n".join(lines) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": missing,
        "notes": "echidna is Python 2 code; the checks run its sources from "
                 "/repo on CPython 3 with emulated Python 2 semantics "
                 "(vlib/loader.py). No hooks in /repo are needed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")


if __name__ == "__main__":
    main()
