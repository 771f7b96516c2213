"""C12 batches: the result of a batch is the results of its elements, for every way to pass the points"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, raises, shape_is

ASSUMPTIONS = ["single points, lists of points (N x k), as documented, and for the functions that accept them arrays with more dimensions"]


def functions(c, cam, group):
    """name -> (function, number of coordinates of the input, number of coordinates of the output (0: scalar), kind of input)"""
    lat, lon = 52.0, 13.0
    f = {
        "camera.imageFromSpace": (lambda x: cam.imageFromSpace(x), "space", 2),
        "camera.imageFromSpace(hide_backpoints=False)": (lambda x: cam.imageFromSpace(x, hide_backpoints=False), "space", 2),
        "camera.getRay": (lambda x: cam.getRay(x)[1], "image", 3),
        "camera.getRay(normed)": (lambda x: cam.getRay(x, normed=True)[1], "image", 3),
        "camera.spaceFromImage": (lambda x: cam.spaceFromImage(x), "image", 3),
        "camera.spaceFromImage(X)": (lambda x: cam.spaceFromImage(x, X=2.5), "image", 3),
        "camera.spaceFromImage(Y)": (lambda x: cam.spaceFromImage(x, Y=20), "image", 3),
        "camera.spaceFromImage(Z)": (lambda x: cam.spaceFromImage(x, Z=-1.5), "image", 3),
        "camera.spaceFromImage(D)": (lambda x: cam.spaceFromImage(x, D=11), "image", 3),
        "camera.spaceFromImage(mesh)": (lambda x: cam.spaceFromImage(x, mesh=MESH), "image", 3),
        "camera.gpsFromSpace": (lambda x: cam.gpsFromSpace(x), "space", 3),
        "camera.spaceFromGPS": (lambda x: cam.spaceFromGPS(x), "gps", 3),
        "camera.imageFromGPS": (lambda x: cam.imageFromGPS(x), "gps", 2),
        "camera.gpsFromImage": (lambda x: cam.gpsFromImage(x), "image", 3),
        "camera.getObjectHeight": (lambda x: cam.getObjectHeight(x, shift(x)), "image", 0),
        "camera.getObjectLength": (lambda x: cam.getObjectLength(x, shift(x)), "image", 0),
        "orientation.cameraFromSpace": (lambda x: cam.orientation.cameraFromSpace(x), "space", 3),
        "orientation.spaceFromCamera": (lambda x: cam.orientation.spaceFromCamera(x), "space", 3),
        "orientation.spaceFromCamera(direction)": (lambda x: cam.orientation.spaceFromCamera(x, direction=True), "space", 3),
        "projection.imageFromCamera": (lambda x: cam.projection.imageFromCamera(x), "space", 2),
        "projection.imageFromCamera(hide_backpoints=False)": (lambda x: cam.projection.imageFromCamera(x, hide_backpoints=False), "space", 2),
        "projection.getRay": (lambda x: cam.projection.getRay(x), "image", 3),
        "projection.getRay(normed)": (lambda x: cam.projection.getRay(x, normed=True), "image", 3),
        "lens.distortedFromImage": (lambda x: cam.lens.distortedFromImage(x), "image", 2),
        "lens.imageFromDistorted": (lambda x: cam.lens.imageFromDistorted(x), "image", 2),
        "group.imagesFromSpace": (lambda x: group.imagesFromSpace(x)[1], "space", 2),
        "group.spaceFromImages": (lambda x: group.spaceFromImages(x, shift(x)), "image", 3),
        "group.discanteBetweenRays": (lambda x: group.discanteBetweenRays(x, shift(x)), "image", 0),
        "gps.getDistance(to a point)": (lambda x: ct.getDistance(x, PLACE), "gps", 0),
        "gps.getDistance(from a point)": (lambda x: ct.getDistance(PLACE, x), "gps", 0),
        "gps.getBearing(to a point)": (lambda x: ct.getBearing(x, PLACE), "gps", 0),
        "gps.getBearing(from a point)": (lambda x: ct.getBearing(PLACE, x), "gps", 0),
        "gps.moveDistance": (lambda x: ct.moveDistance(x, 700, 30), "gps", 3),
        "gps.spaceFromGPS": (lambda x: ct.gps.spaceFromGPS(x, PLACE[:2]), "gps", 3),
        "gps.gpsFromSpace": (lambda x: ct.gps.gpsFromSpace(x, PLACE), "space", 3),
    }
    return f


PLACE = [-66.6, 140.1, 35.5]
MESH = np.array([[[-100, -100, 0.5], [200, -100, 0.4], [0, 300, 0.2]], [[-50, 80, -10], [50, 80, -10], [0, 85, 40.0]]])


def shift(x):
    """the second points of a pair: the same layout, a few pixels away"""
    if isinstance(x, (list, tuple)):
        return type(x)(shift(v) if isinstance(v, (list, tuple)) else None for v in x) if isinstance(x[0], (list, tuple)) else type(x)([x[0] + 3, x[1] - 17])
    y = x.copy()
    y[..., 0] += 3
    y[..., 1] -= 17
    return y


def stability(fn, x, base):
    """how much the results change for tiny changes of the points: (tolerance, mask of the points which are not at a jump)"""
    tol = 1e-10 * np.maximum(1, np.abs(np.nan_to_num(base, posinf=0, neginf=0)))
    keep = np.isfinite(base) | np.isnan(base)
    for k in range(4):
        sign = np.array([[1, 1, 1], [-1, 1, -1], [1, -1, -1], [-1, -1, 1]])[k][:x.shape[1]]
        moved = np.asarray(fn(x * (1 + 1e-10 * sign) + 1e-9 * sign), dtype=float)
        keep &= np.isnan(moved) == np.isnan(base)
        tol = np.maximum(tol, np.nan_to_num(np.abs(moved - base), nan=0, posinf=0))
    keep &= tol < 1e-3 * np.maximum(1, np.abs(np.nan_to_num(base)))
    if keep.ndim == 2:
        keep = keep.all(axis=1)
    return tol, keep


WAYS = ("list", "tuple", "fortran", "strided", "readonly", "int", "reversed", "float32")


@st.composite
def cases(draw):
    c = draw(gen.camera(max_px=2000, min_px=50, max_pos=50, elevation=gen.num(1, 50), strength=0.3))
    return dict(c=c, n=draw(st.sampled_from([1, 2, 3, 4, 7])), f=draw(st.integers(0, 34)), way=draw(st.sampled_from(WAYS)), bulk=draw(gen.bulk()))


def inputs(kind, case, p):
    n, b = case["n"], case["bulk"]
    if kind == "image":
        return gen.expand(b, n, 0.02, 0.98, 2) * [p["w"], p["h"]]
    if kind == "gps":
        return gen.expand(b, n, -1e-3, 1e-3, 3) * [1, 1, 1e4] + [-66.66, 140, 20]
    return gen.expand(b, n, -60, 60, 3)


def build(c):
    cam = gen.make_camera(c)
    cam.setGPSpos(-66.66, 140)
    other = gen.make_orientation(dict(c["o"], x=c["o"]["x"] + 3, y=c["o"]["y"] - 1, heading=c["o"]["heading"] + 7, tilt=c["o"]["tilt"] + 2))
    group = ct.CameraGroup(gen.make_projection(c["p"]), [gen.make_orientation(c["o"]), other], gen.make_lens(c["l"]))
    return cam, group


def pick(case):
    c = case["c"]
    cam, group = build(c)
    fs = functions(c, cam, group)
    name = sorted(fs)[case["f"] % len(fs)]
    fn, kind, out = fs[name]
    return name, fn, kind, out, inputs(kind, case, c["p"])


@check("C12", cases(), quick=5000, shards=6, rule="a batch of at least two points, or a layout other than a plain array")
def batch_is_singles(case, ctx):
    name, fn, kind, out, x = pick(case)
    way = case["way"]
    ctx.label(name, "way " + way, "N=%d" % case["n"])
    n = len(x)
    if way == "int":
        x = np.round(x)
    if way == "float32":
        x = x.astype(np.float32).astype(float)
    base = fn(x.copy())
    shape_is(base, (n, out) if out else (n,), "%s of %d points" % (name, n))
    base = np.asarray(base, dtype=float)
    tol, keep = stability(fn, x, base)
    # one by one
    for i in range(n):
        single = fn(x[i].copy())
        shape_is(single, (out,) if out else (), "%s of one point" % name)
        one = fn(x[i:i + 1].copy())
        shape_is(one, (1, out) if out else (1,), "%s of a batch with one point" % name)
        if keep[i]:
            close(single, base[i], tol[i], "%s of point %d alone and in the batch" % (name, i))
            close(one[0], base[i], tol[i], "%s of a batch with one point" % name)
    # the layout of the input
    y = x.copy()
    if way == "list":
        y = x.tolist()
    elif way == "tuple":
        y = tuple(tuple(float(q) for q in v) for v in x)
    elif way == "fortran":
        y = np.asfortranarray(x)
    elif way == "strided":
        big = np.full((2 * n, x.shape[1] + 2), 1e30)
        big[::2, 1:-1] = x
        y = big[::2, 1:-1]
    elif way == "readonly":
        y.setflags(write=False)
    elif way == "int":
        y = x.astype(int)
    elif way == "reversed":
        y = x[::-1].copy()[::-1]
    elif way == "float32":
        y = x.astype(np.float32)
        if not name.startswith("orientation"):
            # the precision of the calculations of the others is not specified
            shape_is(fn(y), base.shape, "%s of float32 points" % name)
            return
        tol = np.full(base.shape, 1e-3)
    got = fn(y)
    shape_is(got, base.shape, "%s of points passed as %s" % (name, way))
    close(np.asarray(got)[keep], base[keep], tol[keep], "%s of points passed as %s" % (name, way))
    if way == "list" and keep[0]:
        close(fn(list(x[0])), base[0], tol[0], "%s of one point as list" % name)
    if way == "int" and keep[0]:
        close(fn(y[0]), base[0], tol[0], "%s of one point as integers" % name)


@st.composite
def large_cases(draw):
    case = draw(cases())
    case["n"] = draw(st.sampled_from([64, 257, 1000, 1025, 4096, 10001, 20000]))
    if case["way"] not in ("fortran", "strided", "readonly", "reversed"):
        case["way"] = "array"
    return case


@check("C12", large_cases(), quick=800, shards=3, rule="every case")
def large_batch(case, ctx):
    """the results of many points are those of the points, whatever their number; undefined points do not disturb the others"""
    name, fn, kind, out, x = pick(case)
    n = len(x)
    if kind == "image" and name.split("(")[0] in SLOW:
        x = x[:1025]
        n = len(x)
    ctx.label(name, "N=%d" % n)
    rows = np.unique(np.concatenate([[0, 1, n // 2, n - 2, n - 1], np.random.RandomState(case["bulk"]).randint(0, n, 12)]))
    few = x[rows]
    want = np.asarray(fn(few.copy()), dtype=float)
    tol, keep = stability(fn, few, want)
    y = x.copy()
    if case["way"] == "fortran":
        y = np.asfortranarray(x)
    elif case["way"] == "strided":
        y = np.repeat(x, 2, axis=0)[::2]
    elif case["way"] == "reversed":
        y = x[::-1].copy()[::-1]
    elif case["way"] == "readonly":
        y.setflags(write=False)
    got = fn(y)
    shape_is(got, (n, out) if out else (n,), "%s of %d points" % (name, n))
    close(np.asarray(got, dtype=float)[rows][keep], want[keep], tol[keep], "%s of %d points, rows %s" % (name, n, rows.tolist()))
    # undefined points in between
    z = x.copy()
    blank = np.setdiff1d(np.arange(0, n, 3), rows)
    z[blank] = np.nan
    got = np.asarray(fn(z), dtype=float)
    close(got[rows][keep], want[keep], tol[keep], "%s of %d points, every third of them undefined" % (name, n))
    undefined = np.isnan(got[blank]).reshape(len(blank), -1)
    require(undefined[:, :2].all() if len(blank) else True, "%s of an undefined point is defined", name)


SLOW = ("group.discanteBetweenRays", "camera.spaceFromImage")
ANY_DIMENSION = ("camera.imageFromSpace", "camera.getRay", "camera.spaceFromImage", "camera.getObject", "orientation.", "projection.", "lens.", "group.imagesFromSpace")


@st.composite
def grids(draw):
    case = draw(cases())
    case["shape"] = draw(st.lists(st.integers(1, 4), min_size=2, max_size=3))
    case["n"] = int(np.prod(case["shape"]))
    return case


@check("C12", grids(), quick=1500, shards=2, rule="every case")
def more_dimensions(case, ctx):
    """grids of points (arrays with more dimensions) have the results of their points in the same arrangement"""
    name, fn, kind, out, x = pick(case)
    if not name.startswith(ANY_DIMENSION) or "mesh" in name:
        ctx.nontrivial(False)
        return
    ctx.label(name, "%d dimensions" % (len(case["shape"]) + 1))
    base = np.asarray(fn(x.copy()), dtype=float)
    tol, keep = stability(fn, x, base)
    got = fn(x.reshape(*case["shape"], -1))
    shape_is(got, tuple(case["shape"]) + ((out,) if out else ()), "%s of a grid %s of points" % (name, case["shape"]))
    close(np.asarray(got, dtype=float).reshape(base.shape)[keep], base[keep], tol[keep], "%s of a grid %s of points" % (name, case["shape"]))


@check("C12", cases(), quick=2500, shards=3, rule="every case")
def inputs_are_kept(case, ctx):
    """the arrays of the caller are not modified, and results are not overwritten by later calls"""
    name, fn, kind, out, x = pick(case)
    ctx.label(name)
    y = x.copy()
    first = fn(y)
    close(y, x, 0, "the points passed to %s, afterwards" % name)
    saved = np.array(first, dtype=float)
    fn(x * 0.5 + 1)
    close(first, saved, 0, "a result of %s after another call" % name)
    # and writing to the result does not change what the camera returns
    first = np.asarray(first)
    if first.ndim:
        try:
            first[...] = 7
        except ValueError:
            pass
    again = fn(x.copy())
    close(again, saved, 1e-12 * np.maximum(1, np.abs(np.nan_to_num(saved, posinf=0, neginf=0))), "%s called again" % name)


@check("C12", cases(), quick=1000, shards=1, rule="every case")
def empty(case, ctx):
    """no points give no results"""
    name, fn, kind, out, x = pick(case)
    ctx.label(name)
    shape_is(fn(x[:0].copy()), (0, out) if out else (0,), "%s of an empty list of points" % name)


@st.composite
def per_point(draw):
    case = draw(cases())
    case["axis"] = draw(st.sampled_from(["X", "Y", "Z", "D"]))
    case["n"] = draw(st.integers(1, 5))
    return case


@check("C12", per_point(), quick=1500, shards=2, rule="at least two points")
def values_per_point(case, ctx):
    """one value of the constraint per point is the same as the points one by one"""
    c = case["c"]
    cam, group = build(c)
    x = inputs("image", case, c["p"])
    v = gen.expand(case["bulk"] + 1, len(x), -30, 60, 1)[:, 0]
    if case["axis"] == "D":
        v = np.abs(v)
    ctx.label(case["axis"])
    ctx.nontrivial(len(x) > 1)
    def compare(fn, what):
        """fn(points, values)"""
        got = np.asarray(fn(x.copy(), v.copy()), dtype=float)
        tol, keep = stability(lambda q: fn(q, v.copy()), x, got)
        for i in range(len(x)):
            one = fn(x[i].copy(), float(v[i]))
            if keep[i]:
                close(one, got[i], tol[i], what + ", point %d" % i)

    compare(lambda q, w: cam.spaceFromImage(q, **{case["axis"]: w}), "spaceFromImage with one %s per point" % case["axis"])
    # the same for a grid of points
    kw = {case["axis"]: v}
    row = np.asarray(cam.spaceFromImage(x.copy(), **kw), float)
    tol, keep = stability(lambda q: cam.spaceFromImage(q, **{case["axis"]: v.copy()}), x, row)
    for shape in [(1, len(x)), (len(x), 1)] + ([(2, len(x) // 2)] if len(x) % 2 == 0 else []):
        got = cam.spaceFromImage(x.reshape(shape + (2,)).copy(), **{case["axis"]: v.reshape(shape).copy()})
        shape_is(got, shape + (3,), "a grid of points with a grid of values of %s" % case["axis"])
        close(np.asarray(got, float).reshape(row.shape)[keep], row[keep], tol[keep], "a grid of points with a grid of values of %s" % case["axis"])
    if case["axis"] == "Z":
        compare(lambda q, w: cam.getObjectHeight(q, shift(q), Z=w), "getObjectHeight with one Z per point")
        compare(lambda q, w: cam.getObjectLength(q, shift(q), Z=w), "getObjectLength with one Z per point")


@st.composite
def wrong(draw):
    return dict(c=draw(gen.camera(max_px=500, min_px=20, max_pos=50)), k=draw(st.sampled_from([1, 4, 5])), n=draw(st.integers(1, 6)), bulk=draw(gen.bulk()), cross=draw(st.booleans()),
                f=draw(st.integers(0, 100)), batch=draw(st.booleans()))


@check("C12", wrong(), quick=1000, shards=2, rule="every case")
def wrong_shapes(case, ctx):
    """points with the wrong number of coordinates are rejected"""
    cam, group = build(case["c"])
    space = [cam.imageFromSpace, cam.orientation.cameraFromSpace, cam.orientation.spaceFromCamera, cam.projection.imageFromCamera, group.imagesFromSpace]
    image = [cam.getRay, cam.spaceFromImage, cam.projection.getRay, lambda x: cam.spaceFromImage(x, D=3), lambda x: cam.getObjectHeight(x, x),
             lambda x: cam.getObjectLength(x, x), lambda x: group.spaceFromImages(x, x), lambda x: group.discanteBetweenRays(x, x)]
    # (lists of pixels passed to projections and orientations alone are only rejected if they can not be combined with the parameters)
    fs = [(f, 3) for f in space] + [(f, 2) for f in image]
    i = case["f"] % len(fs)
    fn, k = fs[i]
    wrong_k = case["k"] if not case["cross"] else 5 - k
    if wrong_k == 1 and i in (1, 2, 3):
        # the transformations of the parts do not specify what happens with numbers instead of points
        wrong_k = 4
    x = gen.expand(case["bulk"], case["n"], 1, 20, wrong_k)
    if not case["batch"]:
        x = x[0]
    ctx.label("function %d" % i)
    raises(lambda: fn(x), "points with %d coordinates instead of %d (function %d)" % (wrong_k, k, i))
    # two lists of different length
    a, b = gen.expand(case["bulk"], case["n"] + 1, 1, 20, 2), gen.expand(case["bulk"], case["n"] + 2, 1, 20, 2)
    for fn in (cam.getObjectHeight, cam.getObjectLength, group.spaceFromImages, group.discanteBetweenRays):
        raises(lambda: fn(a, b), "pairs of points of different numbers")
