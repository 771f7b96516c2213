"""C10 image -> space with a constraint"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail

ASSUMPTIONS = ["rays that are not (almost) parallel to the constraint plane", "lenses that are invertible on the image"]


@st.composite
def cases(draw):
    c = draw(gen.camera(max_pos=draw(st.sampled_from([1000, 1000, 5e6])), strength=draw(st.sampled_from([0.1, 0.5]))))
    return dict(c=c, fr=draw(gen.pixel_fracs(4)), axis=draw(st.integers(0, 2)), array=draw(st.sampled_from(["scalar", "array", "list"])),
                value=draw(gen.vec(4, gen.coord())), bulk=draw(gen.bulk()))


def values(case, n, lo=-1000, hi=1000):
    v = gen.expand(case["bulk"] + 5, n, lo, hi, 1)[:, 0]
    v[:len(case["value"])] = np.array(case["value"])[:n]
    return v


def convert(v, how):
    return v.copy() if how == "array" else (list(v) if how == "list" else float(v[0]))


@check("C10", cases(), quick=3000, shards=4, rule="at least one ray that reaches the constraint plane and one that points away from it")
def plane(case, ctx):
    c = case["c"]
    cam = gen.make_camera(c)
    im = view.ideal_pixels(c["p"], case["fr"], case["bulk"], 25)
    seen = ref.distort(c["p"], c["l"], im)
    d = view.directions(c, im)
    off = ref.o_pos(c["o"])
    k = case["axis"]
    name = "XYZ"[k]
    vals = values(case, len(im))
    if case["array"] == "scalar":
        vals[:] = vals[0] if len(vals) else 0
    with np.errstate(all="ignore"):
        factor = (vals - off[k]) / d[:, k]
    ang = view.ray_tol(c, im)
    scale = np.abs(off).max() + np.abs(vals) + 1
    keep = (np.abs(d[:, k]) > 1e-3 + 100 * ang) & (np.abs(vals - off[k]) > 1e-9 * scale)
    want = off + d * factor[:, None]
    want[factor < 0] = np.nan
    tol = (np.abs(factor) * ang * 3 * (1 + 1 / np.abs(d[:, k])) + 1e-11 * scale)[:, None]
    ctx.label(name, case["array"], c["p"]["type"], c["l"]["kind"])
    ctx.nontrivial(np.any(factor[keep] > 0) and np.any(factor[keep] < 0))
    kw = {name: convert(vals, case["array"]) if len(vals) else 0.0}
    got = cam.spaceFromImage(seen.copy(), **kw)
    close(got[keep], want[keep], tol[keep], "image -> space with given %s (%s)" % (name, case["array"]))
    # in a grid, with the same value or one value per pixel
    if case["array"] != "list":
        n = 9 if len(im) >= 9 else 4 if len(im) >= 4 else 0
        s = int(n ** 0.5)
        for shape in ((s, s), (1, n)):
            grid = cam.spaceFromImage(seen[:n].reshape(shape + (2,)), **{name: vals[:n].reshape(shape) if case["array"] == "array" else float(vals[0])}) if n else np.zeros((0, 3))
            close(np.reshape(grid, (n, 3))[keep[:n]], want[:n][keep[:n]], tol[:n][keep[:n]], "image -> space with given %s, arranged as %s" % (name, shape))
    ok = keep & (factor > 0)
    # the constraint holds much more precisely than the position is known
    close(got[ok][:, k], vals[ok], 1e-11 * (scale[ok] + np.abs(factor[ok])), "the given coordinate %s" % name)
    # and the point is seen at the pixel
    cp = ref.camera_from_space(c["o"], want)
    back = cam.imageFromSpace(got.copy(), hide_backpoints=False)
    t = view.image_tol(c, cp) + view.lens_tol(c)
    ok &= np.isfinite(t)
    close(back[ok], seen[ok], t[ok][:, None], "image of the space position")
    if len(im):
        for i in (0, len(im) - 1):
            if keep[i]:
                close(cam.spaceFromImage(list(seen[i]), **{name: float(vals[i])}), want[i], tol[i], "one point, image -> space with given %s" % name)
    if case["array"] == "scalar" and k == 2 and len(vals):
        close(cam.spaceFromImage(seen.copy()), cam.spaceFromImage(seen.copy(), Z=0), 0, "the default constraint is Z=0")


@st.composite
def d_cases(draw):
    case = draw(cases())
    case["value"] = draw(gen.vec(4, st.one_of(gen.logu(1e-3, 1e6), gen.logu(1e-3, 1e6, signed=True), st.just(0.0))))
    case["array"] = draw(st.sampled_from(["scalar", "array", "list"]))
    return case


@check("C10", d_cases(), quick=1500, shards=2, rule="a distance larger than 0")
def distance(case, ctx):
    c = case["c"]
    cam = gen.make_camera(c)
    im = view.ideal_pixels(c["p"], case["fr"], case["bulk"], 15)
    seen = ref.distort(c["p"], c["l"], im)
    d = view.directions(c, im)
    off = ref.o_pos(c["o"])
    D = values(case, len(im), 0, 1e4)
    if case["array"] == "scalar":
        D[:] = D[0] if len(D) else 1
    want = off + d * D[:, None]
    want[D < 0] = np.nan
    tol = (np.abs(D) * view.ray_tol(c, im) * 3 + 1e-11 * (np.abs(off).max() + 1))[:, None]
    ctx.label(case["array"], c["p"]["type"], c["l"]["kind"])
    ctx.nontrivial(np.any(D > 0))
    got = cam.spaceFromImage(seen.copy(), D=convert(D, case["array"]) if len(D) else 1.0)
    close(got, want, tol, "image -> space with given distance (%s)" % case["array"])
    ok = D >= 0
    close(np.linalg.norm(got - off, axis=1)[ok], D[ok], (1e-11 * (np.abs(D) + np.abs(off).max() + 1))[ok], "distance from the camera")
    # the distance takes precedence over the default plane; a single pixel
    if len(im):
        close(cam.spaceFromImage(list(seen[0]), D=float(D[0])), want[0], tol[0], "one point, image -> space with given distance")


@st.composite
def space_cases(draw):
    c = draw(gen.camera(max_pos=draw(st.sampled_from([1000, 1000, 5e6])), strength=0.4))
    return dict(c=c, fr=draw(gen.pixel_fracs(4)), bulk=draw(gen.bulk()))


@check("C10", space_cases(), quick=1500, shards=2, rule="a point that is not in the same coordinate plane as the camera")
def space_round_trip(case, ctx):
    """a point in space is recovered from its image and one of its coordinates, or its distance"""
    c = case["c"]
    cam = gen.make_camera(c)
    im = view.ideal_pixels(c["p"], case["fr"], case["bulk"], 15)
    d = view.directions(c, im)
    off = ref.o_pos(c["o"])
    dist = 10 ** gen.expand(case["bulk"] + 3, len(im), -1, 3.5, 1)[:, 0]
    P = off + d * dist[:, None]
    seen = cam.imageFromSpace(P.copy(), hide_backpoints=False)
    t = view.image_tol(c, d * dist[:, None] @ ref.o_rotation(c["o"]).T)
    ang = 3 * view.ray_tol(c, im) + 3 * t / min(c["p"]["fx"], c["p"]["fy"])
    ctx.label(c["p"]["type"], c["l"]["kind"])
    some = False
    for k in range(3):
        keep = (np.abs(d[:, k]) > 1e-3 + 100 * ang) & (np.abs(d[:, k]) * dist > 1e-9 * (1 + np.abs(off).max()))
        if not keep.any():
            continue
        some = True
        got = cam.spaceFromImage(seen[keep], **{"XYZ"[k]: P[keep][:, k].copy()})
        tol = (dist * ang * (1 + 1 / np.abs(d[:, k])) + 1e-11 * (1 + np.abs(off).max()) * (1 + 1 / np.abs(d[:, k])))[keep][:, None]
        close(got, P[keep], tol, "space -> image -> space with given %s" % "XYZ"[k])
    ctx.nontrivial(some)
    if len(im):
        got = cam.spaceFromImage(seen, D=dist.copy())
        close(got, P, (dist * ang + 1e-11 * (1 + np.abs(off).max()))[:, None], "space -> image -> space with given distance")
