"""C21 areas: of triangles, of quadrilaterals, and of the ground covered by pixels"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from cameratransform import ray as ctray
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, shape_is
from ..sens import wobble

ASSUMPTIONS = ["pixels that are not almost at the horizon", "lenses that are invertible on the image"]


@st.composite
def triangles(draw):
    dim = draw(st.sampled_from([2, 3]))
    how = draw(st.sampled_from(["any", "any", "degenerate", "thin"]))
    t = [draw(gen.vec(dim, gen.coord(100))) for _ in range(3)]
    if how == "degenerate":
        f = draw(gen.num(-2, 2))
        t[2] = [a + f * (b - a) for a, b in zip(t[0], t[1])]
    elif how == "thin":
        f = draw(gen.num(0, 1))
        t[2] = [a + f * (b - a) + draw(gen.num(-1e-3, 1e-3)) for a, b in zip(t[0], t[1])]
    return dict(t=t, how=how, dim=dim, n=draw(st.integers(1, 5)), bulk=draw(gen.bulk()), shift=draw(gen.vec(dim, gen.num(-50, 50))))


def triangle_area(t):
    a, b = t[..., 1, :] - t[..., 0, :], t[..., 2, :] - t[..., 0, :]
    if t.shape[-1] == 2:
        return np.abs(a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]) / 2
    return np.linalg.norm(np.cross(a, b), axis=-1) / 2


def triangle_tol(t):
    """Heron's formula looses precision for thin triangles"""
    size = np.max(np.linalg.norm(t - np.roll(t, 1, axis=-2), axis=-1), axis=-1)
    big = np.max(np.abs(t), axis=(-1, -2))
    area = triangle_area(t)
    eps = 1e-15 * size ** 4 * 20 + 1e-15 * big * size ** 3 * 20
    with np.errstate(all="ignore"):
        return np.minimum(np.sqrt(eps), np.where(area > 0, eps / area, np.inf)) + 1e-13 * (size ** 2 + size * big) + 1e-300


@check("C21", triangles(), quick=2000, shards=2, rule="a triangle with an area")
def triangle(case, ctx):
    t = arr(case["t"])
    ctx.label(case["how"], "%dd" % case["dim"])
    want = triangle_area(t)
    ctx.nontrivial(want > 0)
    got = ctray.areaOfTriangle(t.copy())
    shape_is(got, (), "area of one triangle")
    close(got, want, triangle_tol(t), "area of a triangle")
    close(ctray.areaOfTriangle(t[[2, 0, 1]]), want, triangle_tol(t), "area of the triangle with other corner order")
    close(ctray.areaOfTriangle(t + arr(case["shift"])), want, triangle_tol(t + arr(case["shift"])), "area of the shifted triangle")
    batch = np.concatenate([t[None], gen.expand(case["bulk"], case["n"] * 3, -10, 10, case["dim"]).reshape(-1, 3, case["dim"])])
    close(ctray.areaOfTriangle(batch), triangle_area(batch), triangle_tol(batch), "area of a batch of triangles")


@st.composite
def quads(draw):
    """corners on a closed curve around a center: simple, maybe concave"""
    n = draw(st.integers(1, 5))
    out = []
    for _ in range(n):
        ang = sorted(draw(st.lists(st.integers(0, 359), min_size=4, max_size=4, unique=True)))
        center = draw(gen.vec(2, gen.coord(100)))
        r = [draw(gen.num(0.1, 20)) for _ in range(4)]
        q = [[center[0] + a * np.cos(np.radians(b)), center[1] + a * np.sin(np.radians(b))] for a, b in zip(r, ang)]
        out.append(q[::-1] if draw(st.booleans()) else q)
    return dict(q=out, rot=draw(st.integers(0, 3)), z=draw(gen.num(-5, 5)))


def shoelace(q):
    x, y = q[..., 0], q[..., 1]
    x0, y0 = x - x[..., :1], y - y[..., :1]
    return np.abs(np.sum(x0 * np.roll(y0, -1, axis=-1) - np.roll(x0, -1, axis=-1) * y0, axis=-1)) / 2


@check("C21", quads(), quick=1500, shards=2, rule="every case")
def quadrilateral(case, ctx):
    q = arr(case["q"])
    want = shoelace(q)
    tol = 1e-12 * (1 + np.max(np.abs(q), axis=(1, 2)) * 40)
    ctx.label("N=%d" % len(q))
    close(ctray.areaOfQuadrilateral(q), want, tol, "area of quadrilaterals")
    close(ctray.areaOfQuadrilateral(q.tolist()), want, tol, "area of quadrilaterals, as lists")
    close(ctray.areaOfQuadrilateral(np.roll(q, case["rot"], axis=1)[:, ::-1]), want, tol, "area of quadrilaterals, other order of the corners")
    for i in range(len(q)):
        close(ctray.areaOfQuadrilateral(q[i]), want[i], tol[i], "area of one quadrilateral")
        # the sum of two triangles, along the diagonal that is inside
    # in the plane of the ground
    q3 = np.concatenate([q, np.full(q.shape[:2] + (1,), case["z"])], axis=2)
    close(ctray.areaOfQuadrilateral(q3), want, tol, "area of quadrilaterals on the ground")


@st.composite
def cams(draw):
    c = draw(gen.camera(max_px=24, min_px=4, max_pos=100, elevation=gen.num(1, 200), tilt=gen.num(0, 130), strength=0.2, reach=1.4))
    return dict(c=c, undef=draw(st.sampled_from([None, 0, -1.0, 7.5, "nan"])), whole=draw(st.sampled_from([True, False, None])))


def ref_areas(c, corners, off, dirs):
    d = dirs.reshape(-1, 4, 3)
    with np.errstate(all="ignore"):
        f = -off[2] / d[..., 2]
        f = np.where(f < 0, np.nan, f)
        pts = off[:2] + d[..., :2] * f[..., None]
    return shoelace(pts)


@check("C21", cams(), quick=2500, shards=4, rule="at least one pixel that covers an area on the ground")
def lut(case, ctx):
    c = case["c"]
    p, l = c["p"], c["l"]
    cam = gen.make_camera(c)
    w, h = p["w"], p["h"]
    kw = {}
    undef = 0.0
    if case["undef"] is not None:
        undef = kw["undef_value"] = float(case["undef"])
    if case["whole"] is not None:
        kw["whole_image"] = case["whole"]
    if case["whole"]:
        X, Y = np.meshgrid(np.arange(w), np.arange(h))
        px = np.stack([X.ravel(), Y.ravel()], axis=1).astype(float)
    else:
        px = np.stack([np.full(h, w / 2), np.arange(h)], axis=1).astype(float)
    ctx.label(p["type"], l["kind"], "whole" if case["whole"] else "column")
    corners = px[:, None] + np.array([[-.5, -.5], [.5, -.5], [.5, .5], [-.5, .5]])
    flat = corners.reshape(-1, 2)
    ideal = ref.undistort(p, l, flat, gen.corner_radius(p, l["kind"]) * 1.4 if l["kind"] != "none" else None)
    ok = view.in_domain(p, ideal)
    if l["kind"] != "none":
        ok &= ref.lens_radius(p, l, ideal) < gen.corner_radius(p, l["kind"]) * 1.38
    off = ref.o_pos(c["o"])
    d = view.directions(c, np.where(ok[:, None], ideal, [p["cx"], p["cy"]]))
    ang = view.ray_tol(c, ideal)
    # the inverse of the lens is less precise outside of the image
    ang = np.where(ref.lens_radius(p, l, ideal) > gen.corner_radius(p, l["kind"]), ang * 100, ang)[:, None] if l["kind"] != "none" else ang[:, None]
    want, tol, stable = wobble(lambda x: ref_areas(c, corners, off, x), [d], [ang])
    dz = d[:, 2].reshape(-1, 4)
    keep = ok.reshape(-1, 4).all(axis=1) & stable & (np.abs(dz) > 1e-3).all(axis=1)
    reach = np.abs(off[2]) / np.min(np.abs(dz), axis=1)
    with np.errstate(all="ignore"):
        # coordinates are rounded relative to the position of the camera
        tol = 4 * tol + 1e-12 * (reach + np.abs(off).max()) * (reach + 1) + 1e-9 * want
        keep &= np.isnan(want) | (tol < 0.01 * want)
    ctx.nontrivial(np.any(keep & (want > 0)))
    got = cam.generateLUT(**kw)
    shape_is(got, (h, w) if case["whole"] else (h,), "look up table")
    g = np.asarray(got).ravel()
    seen = keep & ~np.isnan(want)
    close(g[seen], want[seen], tol[seen], "area of pixels on the ground")
    sky = keep & np.isnan(want)
    close(g[sky], np.full(sky.sum(), undef), 0, "value for pixels that do not show the ground")
