#!/opt/venv/bin/python
"""Development tool: turn a bug specification into seeded/<id>/ after confirming it in a scratch copy of /repo.

    tools/plant.py SPEC.py [...]       (no check uses this)

A SPEC defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (the text of demo.py).  Confirmed: the edits
change only lines of the original commit, the 21 stable tests pass, the demo passes without and fails with the change.  Then the
check of the property is run against the changed copy; the result is printed, the bug is kept in either case."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "a0bfc90"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(spec_path):
    bug = os.path.basename(spec_path)[:-3]
    spec = {}
    exec(open(spec_path).read(), spec)
    copy = "/tmp/w/plant/" + bug
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs("/tmp/w/plant", exist_ok=True)
    sh("git clone -q /repo %s" % copy)
    for f, old, new in spec["EDITS"]:
        path = os.path.join(copy, "cameratransform", f)
        text = open(path).read()
        if text.count(old) != 1:
            return "%s: text occurs %d times: %r" % (bug, text.count(old), old)
        blame = sh("git blame -l -s cameratransform/%s" % f, cwd=copy).stdout.split("\n")
        first = text[:text.index(old)].count("\n")
        base = sh("git rev-parse %s" % BASE, cwd=copy).stdout.strip()
        lines = blame[first:first + old.count("\n") + (0 if old.endswith("\n") else 1)]
        newl = new.split("\n")
        for l in lines:
            if base not in l and l[1:41] != base[:40] and not l.startswith("^" + base[:39]):
                content = l.split(") ", 1)[-1]
                if content not in newl:
                    return "%s: not a line of the original: %s" % (bug, l)
        open(path, "w").write(text.replace(old, new))
    patch = sh("git diff", cwd=copy).stdout
    if not patch:
        return "%s: no change" % bug
    out = os.path.join(HERE, "seeded", bug)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(patch)
    open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write('#!/bin/bash\n# run with cwd /repo\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" exec %s "$here/demo.py"\n' % PY)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump(dict(property=spec["PROPERTY"], needs=spec["NEEDS"], what_it_breaks=spec["BREAKS"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
    env = dict(os.environ, PYTHONPATH=copy)
    env.pop("VP_REPO", None)
    bad = []
    r = sh("bash %s/demo.sh" % out, cwd="/repo")
    if r.returncode:
        bad.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:])
    r = sh("bash %s/demo.sh" % out, cwd=copy)
    if not r.returncode:
        bad.append("demo passes with the change")
    demo_out = (r.stdout + r.stderr).strip().split("\n")[-1][:200]
    xml = "/tmp/w/plant/%s.json" % bug
    r = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --hypothesis-profile=ci -rA tests" % PY, cwd=copy, env=env)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = {l.split()[1].split("::")[-1] for l in r.stdout.split("\n") if l.startswith("PASSED")}
    missing = [t for t in stable if t.split("::")[-1].split(".")[-1] not in passed and not any(t.endswith(q) for q in passed)]
    if missing:
        bad.append("tests fail: %s" % missing)
    if bad:
        shutil.rmtree(out)
        shutil.rmtree(copy)
        return "%s: REFUSED %s" % (bug, "; ".join(bad))
    if os.environ.get("NOCHECK"):
        result = ""
    else:
        r = sh("VP_REPO=%s %s/check.sh %s quick" % (copy, HERE, spec["PROPERTY"]))
        result = "caught" if r.returncode == 1 and "VIOLATION property=%s " % spec["PROPERTY"] in r.stdout else "MISSED (exit %d) %s" % (r.returncode, r.stdout[-300:] if r.returncode > 1 else "")
        msg = [l for l in r.stdout.split("\n") if "evaluations" not in l and "case:" not in l]
        result += "\n     " + (msg[0][:220] if msg else "")
    shutil.rmtree(copy)
    return "%s %s: %s\n     demo: %s" % (bug, spec["PROPERTY"], result, demo_out)


for path in sys.argv[1:]:
    print(plant(path), flush=True)
