"""C13 parameter histories: a camera whose parameters were changed behaves like a fresh camera with the final parameters"""
import copy

import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail

ASSUMPTIONS = ["lens coefficients for which the distortion is invertible on the image for all reachable projections",
               "an uncertainty (mean, std) is not given for focallength_px and for focallength_x_px / focallength_y_px at the same time"]

# name in the model -> (range, default or None)
PROJ = {"focallength_x_px": ((800, 3000), None), "focallength_y_px": ((800, 3000), None), "focallength_px": ((800, 3000), None),
        "center_x_px": ((200, 450), 0.0), "center_y_px": ((200, 450), 0.0), "image_width_px": ((400, 800), None), "image_height_px": ((400, 800), None)}
THR = {"elevation_m": ((-100, 100), 30.0), "tilt_deg": ((-360, 360), 85.0), "roll_deg": ((-360, 360), 0.0), "heading_deg": ((-360, 360), 0.0),
       "pos_x_m": ((-100, 100), 0.0), "pos_y_m": ((-100, 100), 0.0)}
YPR = {"elevation_m": ((-100, 100), 30.0), "pitch_deg": ((-360, 360), 0.0), "roll_deg": ((-360, 360), 0.0), "yaw_deg": ((-360, 360), 85.0),
       "pos_x_m": ((-100, 100), 0.0), "pos_y_m": ((-100, 100), 0.0)}
BROWN = {"k1": ((-0.02, 0.1), 0.0), "k2": ((-0.01, 0.02), 0.0), "k3": ((-0.005, 0.01), 0.0)}
ABC = {"a": ((-0.0002, 0.0005), 0.0), "b": ((-0.001, 0.002), 0.0), "c": ((-0.005, 0.01), 0.0)}
SPECS = {"rect": PROJ, "cyl": PROJ, "equi": PROJ, "thr": THR, "ypr": YPR, "brown": BROWN, "abc": ABC, "none": {}}
CLASSES = dict(gen.PROJ, thr=ct.SpatialOrientation, ypr=ct.SpatialOrientationYawPitchRoll, brown=ct.BrownLensDistortion, abc=ct.ABCDistortion, none=ct.NoDistortion)


@st.composite
def part(draw, kinds):
    """a part and its initial values; a missing value means: use the default"""
    kind = draw(st.sampled_from(kinds))
    values = {}
    for name, ((lo, hi), default) in SPECS[kind].items():
        if name == "focallength_px":
            continue
        if default is None or draw(st.booleans()):
            values[name] = draw(st.integers(lo, hi)) if name.startswith("image") else draw(gen.num(lo, hi))
    if kind in gen.PROJ:
        values.setdefault("center_x_px", values["image_width_px"] / 2)
        values.setdefault("center_y_px", values["image_height_px"] / 2)
    return dict(kind=kind, v=values)


@st.composite
def operation(draw, kinds):
    """kinds: the kinds of the parts of one camera"""
    op = draw(st.sampled_from(["set", "set", "set", "none", "default", "stats", "sample", "mean", "fit"]))
    which = draw(st.integers(0, 2))
    spec = SPECS[kinds[which]] or SPECS[kinds[0]]
    via = draw(st.sampled_from(["cam", "part", "parameters"]))
    if op in ("set", "stats"):
        name = draw(st.sampled_from(sorted(spec)))
        (lo, hi), default = spec[name]
        value = draw(st.integers(lo, hi)) if name.startswith("image") else draw(gen.num(lo, hi))
        if op == "set":
            return ["set", via, name, value]
        if name.startswith("image") or name == "focallength_px":
            name = "focallength_x_px"
            value = draw(gen.num(900, 2900))
        return ["stats", via, name, value, draw(gen.num(0, 0.01)) * (hi - lo)]
    names = [n for n in sorted(spec) if spec[n][1] is not None]
    if op in ("none", "default"):
        name = draw(st.sampled_from(names))
        if op == "none":
            return ["none", via, name]
        return ["default", via, name, draw(gen.num(*spec[name][0]))]
    if op == "fit":
        if draw(st.booleans()):
            # parameters of several parts in one call
            spec = {n: v for k in kinds for n, v in SPECS[k].items()}
        chosen = draw(st.lists(st.sampled_from([n for n in sorted(spec) if not n.startswith("image") and n != "focallength_px"]), min_size=1, max_size=4, unique=True))
        return ["fit", via, {n: draw(gen.num(*spec[n][0])) for n in chosen}]
    return [op, via]


@st.composite
def cases(draw, max_cams=1):
    P = [draw(part(("rect", "cyl", "equi"))) for _ in range(draw(st.integers(1, 2 if max_cams > 1 else 1)))]
    O = [draw(part(("thr", "ypr"))) for _ in range(draw(st.integers(1, 2 if max_cams > 1 else 1)))]
    L = [draw(part(("brown", "abc", "none") if max_cams == 1 else ("brown", "abc"))) for _ in range(draw(st.integers(1, 2 if max_cams > 1 else 1)))]
    n = draw(st.integers(2, max_cams)) if max_cams > 1 else 1
    cams = [[draw(st.integers(0, len(P) - 1)), draw(st.integers(0, len(O) - 1)), draw(st.integers(0, len(L) - 1))] for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        i = draw(st.integers(0, n - 1))
        kinds = [P[cams[i][0]]["kind"], O[cams[i][1]]["kind"], L[cams[i][2]]["kind"]]
        op = draw(operation(kinds))
        ops.append([i] + op)
        if op[0] == "stats" and draw(st.booleans()):
            # uncertainties of parameters of several parts, and samples of them
            for k in kinds:
                spec = {n: v for n, v in SPECS[k].items() if not n.startswith("image") and n != "focallength_px"}
                if spec:
                    name = draw(st.sampled_from(sorted(spec)))
                    lo, hi = spec[name][0]
                    mid = draw(gen.num(lo + 0.1 * (hi - lo), hi - 0.1 * (hi - lo)))
                    ops.append([i, "stats", op[1], name, mid, draw(gen.num(0, 0.01)) * (hi - lo)])
            ops.append([i, draw(st.sampled_from(["sample", "sample", "mean"])), "cam"])
    return dict(P=P, O=O, L=L, cams=cams, ops=ops, bulk=draw(gen.bulk()))


class ModelPart:
    def __init__(self, data):
        self.kind = data["kind"]
        self.spec = SPECS[self.kind]
        self.value = {n: data["v"].get(n) for n in self.spec}
        self.default = {n: self.spec[n][1] for n in self.spec}
        self.mean = {}
        self.std = {}

    def get(self, name):
        return self.default[name] if self.value[name] is None else self.value[name]

    def set(self, name, value):
        self.mean.pop(name, None)
        if name == "focallength_px":
            self.value["focallength_x_px"] = self.value["focallength_y_px"] = value
        else:
            self.value[name] = value


def as_camera(p, o, l):
    """the data of the reference model"""
    P = dict(type=p.kind, w=p.get("image_width_px"), h=p.get("image_height_px"), fx=p.get("focallength_x_px"), fy=p.get("focallength_y_px"),
             cx=p.get("center_x_px"), cy=p.get("center_y_px"))
    O = dict(kind=o.kind, x=o.get("pos_x_m"), y=o.get("pos_y_m"), z=o.get("elevation_m"))
    if o.kind == "thr":
        O.update(heading=o.get("heading_deg"), tilt=o.get("tilt_deg"), roll=o.get("roll_deg"))
    else:
        O.update(heading=o.get("yaw_deg"), tilt=o.get("pitch_deg") + 90, roll=-o.get("roll_deg"))
    L = dict(kind=l.kind)
    if l.kind != "none":
        L["k"] = [l.get(n) for n in sorted(l.spec)]
    return dict(p=P, o=O, l=L)


def compare(cam, c, bulk, what):
    p = c["p"]
    im = view.ideal_pixels(p, [[0, 0], [1, 1]], bulk, 6)
    seen = ref.distort(p, c["l"], im)
    d = view.directions(c, im)
    off = ref.o_pos(c["o"])
    offset, got = cam.getRay(seen.copy(), normed=True)
    close(offset, off, 1e-10 * (1 + np.abs(off)), what + ": position of the camera")
    close(got, d, 3 * view.ray_tol(c, im)[:, None], what + ": rays")
    dist = 10.0
    pts = off + d * dist
    cp = ref.camera_from_space(c["o"], pts)
    t = view.image_tol(c, cp)
    keep = np.isfinite(t) & (np.abs(cp[:, 2]) > 1e-6)
    close(cam.imageFromSpace(pts)[keep], seen[keep], t[keep][:, None] * 4, what + ": image")


def run(case, ctx):
    parts = {}
    model = {}
    for key in "POL":
        parts[key], model[key] = [], []
        for data in case[key]:
            parts[key].append(CLASSES[data["kind"]](**data["v"]))
            model[key].append(ModelPart(data))
    cams = [ct.Camera(parts["P"][a], parts["O"][b], parts["L"][c]) for a, b, c in case["cams"]]
    of_cam = [(model["P"][a], model["O"][b], model["L"][c]) for a, b, c in case["cams"]]
    real = [(parts["P"][a], parts["O"][b], parts["L"][c]) for a, b, c in case["cams"]]
    for i in range(len(cams)):
        compare(cams[i], as_camera(*of_cam[i]), case["bulk"], "camera %d, initially" % i)
    for step, (i, op, via, *args) in enumerate(case["ops"]):
        ctx.label(op)
        i %= len(cams)
        if op in ("copy", "parts"):
            # copies of all the cameras (C38)
            if op == "copy":
                # (parts that are shared are shared by the copies, too)
                new = copy.deepcopy(cams)
                of_cam += copy.deepcopy(of_cam)
            else:
                new = [ct.Camera(*copy.deepcopy(r)) for r in real]
                of_cam += [copy.deepcopy(m) for m in of_cam]
            cams += new
            real += [(c.projection, c.orientation, c.lens) for c in new]
        cam = cams[i]

        def find(name):
            for m, r in zip(of_cam[i], real[i]):
                if name in m.spec:
                    return m, r

        def target(name):
            m, r = find(name)
            return {"cam": cam, "part": r, "parameters": cam.parameters}[via]

        if op == "set":
            setattr(target(args[0]), args[0], args[1])
            find(args[0])[0].set(args[0], args[1])
        elif op == "none":
            setattr(target(args[0]), args[0], None)
            find(args[0])[0].set(args[0], None)
        elif op == "default":
            m, r = find(args[0])
            t = {"cam": cam, "part": r, "parameters": cam.parameters}[via]
            setattr(t.defaults, args[0], args[1])
            m.default[args[0]] = args[1]
        elif op == "stats":
            setattr(target(args[0]), args[0], (args[1], args[2]))
            m = find(args[0])[0]
            m.set(args[0], args[1])
            m.mean[args[0]], m.std[args[0]] = args[1], args[2]
        elif op == "sample":
            np.random.seed(case["bulk"])
            obj = [cam, real[i][0], cam][["cam", "part", "parameters"].index(via)]
            obj.sample()
            for m, r in zip(of_cam[i], real[i]):
                if obj is not cam and r is not obj:
                    continue
                for name in m.mean:
                    v = getattr(r, name)
                    away = abs(v - m.mean[name])
                    if name == "heading_deg":  # kept within a full turn
                        away = min(away, abs((v - m.mean[name] + 180) % 360 - 180))
                    require(away <= 8 * m.std[name] + 1e-9, "sampled %s = %r for mean %r, std %r", name, v, m.mean[name], m.std[name])
                    m.value[name] = float(v)
        elif op == "mean":
            obj = [cam, real[i][0], cam][["cam", "part", "parameters"].index(via)]
            obj.set_to_mean()
            for m, r in zip(of_cam[i], real[i]):
                if obj is not cam and r is not obj:
                    continue
                for name in m.mean:
                    m.value[name] = m.mean[name]
        elif op == "fit":
            values = args[0]
            if via == "cam" or via == "part":
                cam.parameters.set_fit_parameters(list(values), [values[n] for n in values])
            else:
                cam.parameters.set_fit_parameters(dict(values))
            for n in values:
                find(n)[0].value[n] = values[n]
        what = "after step %d (%s)" % (step, [i, op, via] + args)
        for j in range(len(cams)):
            for m, r in zip(of_cam[j], real[j]):
                for name in m.spec:
                    if name == "focallength_px":
                        continue
                    w = m.get(name)
                    close(getattr(cams[j], name), w, 1e-9 * (1 + abs(w)), "%s: camera %d, %s" % (what, j, name))
                    close(getattr(r, name), w, 1e-9 * (1 + abs(w)), "%s: part of camera %d, %s" % (what, j, name))
            compare(cams[j], as_camera(*of_cam[j]), case["bulk"], "%s: camera %d" % (what, j))


@check("C13", cases(1), quick=2500, shards=4, rule="a history of at least two operations")
def one_camera(case, ctx):
    ctx.nontrivial(len(case["ops"]) >= 2)
    run(case, ctx)


@check("C13", cases(3), quick=2000, shards=4, rule="two cameras that share a part and a history of at least two operations")
def shared_parts(case, ctx):
    """several cameras which share projections, orientations or lenses"""
    pairs = [(a, b) for i, a in enumerate(case["cams"]) for b in case["cams"][:i]]
    ctx.nontrivial(len(case["ops"]) >= 2 and any(x == y for a, b in pairs for x, y in zip(a, b)))
    # cameras can only share a lens if they ...
    run(case, ctx)


@st.composite
def group_cases(draw):
    n = draw(st.integers(2, 3))
    shared = draw(st.sampled_from(["P", "PL", "L", ""]))
    P = [draw(part(("rect", "cyl", "equi"))) for _ in range(1 if "P" in shared else n)]
    O = [draw(part(("thr", "ypr"))) for _ in range(n)]
    L = [draw(part(("brown", "abc"))) for _ in range(1 if "L" in shared else n)]
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        key = draw(st.sampled_from("POL"))
        lst = dict(P=P, O=O, L=L)[key]
        i = draw(st.integers(0, len(lst) - 1))
        spec = SPECS[lst[i]["kind"]]
        name = draw(st.sampled_from(sorted(n for n in spec if n != "focallength_px")))
        (lo, hi), _ = spec[name]
        value = draw(st.integers(lo, hi)) if name.startswith("image") else draw(gen.num(lo, hi))
        ops.append([draw(st.sampled_from(["group", "fit", "camera", "part"])), key, i, name, value])
    many = []
    for key, lst in (("P", P), ("O", O), ("L", L)):
        for i, d in enumerate(lst):
            if draw(st.booleans()):
                spec = {n: v for n, v in SPECS[d["kind"]].items() if not n.startswith("image") and n != "focallength_px"}
                name = draw(st.sampled_from(sorted(spec)))
                many.append([key, i, name, draw(gen.num(*spec[name][0]))])
    ops.append(["many", many])
    return dict(P=P, O=O, L=L, n=n, ops=ops, bulk=draw(gen.bulk()))


@check("C13", group_cases(), quick=1000, shards=2, rule="an operation through the parameters of the group")
def groups(case, ctx):
    """the parameters of a group of cameras: shared ones by their name, those of one camera with a prefix"""
    parts, model = {}, {}
    for key in "POL":
        parts[key] = [CLASSES[d["kind"]](**d["v"]) for d in case[key]]
        model[key] = [ModelPart(d) for d in case[key]]
    args = {key: parts[key] if len(parts[key]) > 1 else parts[key][0] for key in "POL"}
    group = ct.CameraGroup(args["P"], args["O"], args["L"])
    n = case["n"]
    require(len(group) == n, "the group has %d cameras instead of %d", len(group), n)
    require(len(list(group)) == n, "iterating over the group gives %d cameras", len(list(group)))
    ctx.nontrivial(any(op[0] in ("group", "fit", "many") for op in case["ops"]))

    def all_ok(what):
        for j in range(n):
            c = as_camera(*[model[key][j % len(model[key])] for key in "POL"])
            compare(group[j], c, case["bulk"], "%s: camera %d of the group" % (what, j))

    all_ok("initially")
    for op in case["ops"]:
        if op[0] == "many":
            # one call for parameters of several parts of several cameras
            names = [name if len(parts[key]) == 1 else "C%d_%s" % (i, name) for key, i, name, value in op[1]]
            group.parameters.set_fit_parameters(names, [o[3] for o in op[1]])
            for key, i, name, value in op[1]:
                model[key][i].set(name, value)
            all_ok("after setting %s" % names)
            continue
        via, key, i, name, value = op
        full = name if len(parts[key]) == 1 else "C%d_%s" % (i, name)
        if via == "group":
            setattr(group, full, value)
        elif via == "fit":
            group.parameters.set_fit_parameters([full], [value])
        elif via == "camera":
            setattr(group[i], name, value)
        else:
            setattr(parts[key][i], name, value)
        ctx.label(via)
        model[key][i].set(name, value)
        close(getattr(group, full), value, 0, "%s of the group" % full)
        all_ok("after %s" % [via, key, i, name, value])
