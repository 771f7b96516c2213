#!/opt/venv/bin/python
"""Development tool: mutation analysis of the checks (no check uses this).

    tools/mutate.py lines  OUT.json            which checks execute which lines of /repo/cameratransform
    tools/mutate.py run    LINES.json OUT.txt [FILE ...]   mutants of the files, run against the checks that reach the line; survivors -> tests

A mutant is killed if one check exits with 1.  Survivors that also pass the stable tests are printed."""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"
FILES = ["camera.py", "gps.py", "lens_distortion.py", "parameter_set.py", "projection.py", "ray.py", "scene.py", "spatial.py", "statistic.py", "utils.py"]
SCALE = os.environ.get("SCALE", "0.15")


def checks():
    return [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]


def env(**kw):
    e = dict(os.environ, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", QT_QPA_PLATFORM="offscreen", MPLBACKEND="agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=HERE)
    e.update(kw)
    return e


def lines_of(prop):
    code = r'''
import sys, os, json
sys.path.insert(0, %r)
hits = {}
root = os.path.realpath("/repo/cameratransform") + os.sep
mon = sys.monitoring
mon.use_tool_id(3, "lines")
def on(code, line):
    f = code.co_filename
    if f.startswith(root):
        hits.setdefault(f[len(root):], set()).add(line)
    return mon.DISABLE
mon.register_callback(3, mon.events.LINE, on)
mon.set_events(3, mon.events.LINE)
from vp import main, core
mod, cs = main.load(%r)
for c in cs:
    core.search(c, 1, max(3, int(c.quick * 0.05)))
json.dump({k: sorted(v) for k, v in hits.items()}, open(sys.argv[1], "w"))
''' % (HERE, prop)
    out = "/tmp/w/lines_%s.json" % prop
    tmp = "/tmp/w/lines_%s_tmp" % prop
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run([PY, "-c", code, out], env=env(VP_SCRATCH=tmp, TMPDIR=tmp, MPLCONFIGDIR=tmp, VP_NOSHRINK="1", HYPOTHESIS_STORAGE_DIRECTORY=tmp), cwd=HERE, capture_output=True, text=True)
    shutil.rmtree(tmp, ignore_errors=True)
    if r.returncode:
        print(prop, r.stderr[-2000:])
        return prop, {}
    return prop, json.load(open(out))


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["*"], ast.Pow: ["*"]}


def mutants(path):
    """(line, description, new text)"""
    text = open(path).read()
    tree = ast.parse(text)
    offs = [0]
    for l in text.split("\n"):
        offs.append(offs[-1] + len(l) + 1)
    raw = [l.encode() for l in text.split("\n")]

    def pos(line, col):
        return offs[line - 1] + len(raw[line - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    out = []

    def rep(node, a, b, new, what):
        out.append((node.lineno, what, text[:a] + new + text[b:]))

    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = text[a:b]
            for new in CMP.get(type(n.ops[0]), []):
                # keep parentheses around the operands
                stripped = mid.strip("() \n\t")
                if stripped:
                    rep(n, a, b, mid.replace(stripped, new), "%s -> %s" % (stripped, new))
        elif isinstance(n, ast.BinOp):
            a, b = span(n.left)[1], span(n.right)[0]
            mid = text[a:b]
            stripped = mid.strip("() \n\t\\")
            for new in BIN.get(type(n.op), []):
                if stripped and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    rep(n, a, b, mid.replace(stripped, new), "%s -> %s" % (stripped, new))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            a, b = span(n)
            rep(n, a, b, "(" + text[a + 1:b] + ")", "- dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            rep(n, a, b, "(" + text[a + 4:b] + ")", "not dropped")
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            mid = text[a:b]
            w = "and" if isinstance(n.op, ast.And) else "or"
            if w in mid:
                rep(n, a, b, mid.replace(w, "or" if w == "and" else "and"), "and/or")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float) and not isinstance(n.value, bool):
            a, b = span(n)
            rep(n, a, b, repr(n.value + 1), "%r -> %r" % (n.value, n.value + 1))
            if n.value > 1:
                rep(n, a, b, repr(n.value - 1), "%r -> %r" % (n.value, n.value - 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, b = span(n)
            rep(n, a, b, repr(not n.value), "%r -> %r" % (n.value, not n.value))
        elif isinstance(n, (ast.If, ast.While)):
            a, b = span(n.test)
            rep(n, a, b, "True", "condition -> True")
            rep(n, a, b, "False", "condition -> False")
        elif isinstance(n, ast.IfExp):
            a, b = span(n.test)
            rep(n, a, b, "True", "condition -> True")
            rep(n, a, b, "False", "condition -> False")
        if isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            a, b = span(n)
            rep(n, a, b, "pass", "statement dropped: %s" % text[a:b][:60].replace("\n", " "))
        if isinstance(n, ast.Return) and n.value is not None:
            pass
    return text, out


RUNNER = r'''
import sys, os
sys.path.insert(0, os.getcwd())
from vp import main, core
import cameratransform
assert os.path.realpath(cameratransform.__file__).startswith(core.REPO + os.sep)
cs = [(p, c) for p in sys.argv[1:] for c in main.load(p)[1]]
top = float(os.environ["VP_SCALE"])
for scale in (0.004, 0.03, top):
    for p, c in cs:
        s = core.search(c, int(1000 * scale) + 7, max(3, int(c.quick * scale)))
        if s["violation"]:
            print(p + "." + c.name)
            sys.exit(1)
        if s["error"]:
            print("error", p, c.name, s["error"][-200:].replace("\\n", " "))
print("held")
'''


def one(job):
    f, line, what, new, props, ident = job
    d = "/tmp/w/mut/%s" % ident
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        shutil.copytree(REPO + "/cameratransform", d + "/cameratransform", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/cameratransform/" + f, "w").write(new)
        tmp = d + "/tmp"
        os.makedirs(tmp)
        e = env(VP_REPO=d, VP_SCRATCH=tmp, TMPDIR=tmp, MPLCONFIGDIR="/tmp/w/mut/mpl", VP_NOSHRINK="1", VP_PROCS="1", VP_SCALE=SCALE, HYPOTHESIS_STORAGE_DIRECTORY=tmp, VP_NOFILES="1")
        odd = []
        try:
            r = subprocess.run([PY, "-c", RUNNER] + props, cwd=HERE, env=e, capture_output=True, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            return "timeout %s:%d %s" % (f, line, what)
        if r.returncode == 1:
            return "killed %s %s:%d %s" % (r.stdout.strip().split("\n")[-1][:60], f, line, what)
        if r.returncode:
            return "killed import %s:%d %s %s" % (f, line, what, r.stderr.strip().split("\n")[-1][:100])
        odd = r.stdout.strip().split("\n")[:-1]
        shutil.copytree(REPO + "/tests", d + "/tests")
        r = subprocess.run("%s -m pytest -x -q -p no:cacheprovider --timeout=300 --hypothesis-profile=ci tests" % PY, shell=True, cwd=d, env=env(PYTHONPATH=d), capture_output=True, text=True)
        if r.returncode:
            return "tests %s:%d %s %s" % (f, line, what, odd)
        return "SURVIVED %s:%d %s %s [%s]" % (f, line, what, odd, " ".join(props))
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "lines":
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            result = dict(ex.map(lines_of, checks()))
        json.dump(result, open(sys.argv[2], "w"))
        for f in FILES:
            hit = set().union(*[set(r.get(f, [])) for r in result.values()])
            print(f, len(hit))
    else:
        cover = json.load(open(sys.argv[2]))
        rnd = random.Random(int(os.environ.get("SEED", "1")))
        per_line = int(os.environ.get("PER_LINE", "2"))
        jobs = []
        for f in sys.argv[4:] or FILES:
            text, ms = mutants(os.path.join(REPO, "cameratransform", f))
            by = {}
            for m in ms:
                by.setdefault(m[0], []).append(m)
            src = text.split("\n")
            for line, group in sorted(by.items()):
                props = [p for p in cover if line in cover[p].get(f, [])]
                # the checks that reach few lines first: they are the specific ones
                props.sort(key=lambda p: sum(len(v) for v in cover[p].values()))
                if not props:
                    continue
                for m in rnd.sample(group, min(per_line, len(group))):
                    try:
                        compile(m[2], f, "exec")
                    except SyntaxError:
                        continue
                    jobs.append((f, line, m[1] + "   | " + src[line - 1].strip()[:90], m[2], props, "%s_%d" % (f[:-3], len(jobs))))
        rnd.shuffle(jobs)
        print(len(jobs), "mutants", flush=True)
        with open(sys.argv[3], "a") as out, concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
            for r in concurrent.futures.as_completed([ex.submit(one, j) for j in jobs]):
                out.write(r.result() + "\n")
                out.flush()
