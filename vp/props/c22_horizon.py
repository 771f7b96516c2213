"""C22 the horizon, the border and the cone of the field of view"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, shape_is

ASSUMPTIONS = ["the distance to the horizon is defined up to elevation / radius of the earth (chord, line of sight, or along the ground)",
               "lenses that are invertible on the image"]
R = ref.EARTH
REACH = 1.6


@st.composite
def cases(draw, px=400, tilt=gen.num(30, 150), flat=False):
    c = draw(gen.camera(max_px=px, min_px=4, max_pos=100, elevation=st.one_of(gen.num(1, 1000), gen.logu(0.5, 1e4)), tilt=tilt, strength=0.3, reach=REACH))
    if draw(st.integers(0, 3)):
        c["o"]["roll"] = draw(gen.num(-15, 15))
        if flat:
            c["o"]["tilt"] = draw(gen.num(75, 105))
    return dict(c=c, xs=draw(st.lists(gen.num(0, 1, (0, 0.5, 1)), min_size=1, max_size=5)), single=draw(st.booleans()), how=draw(st.sampled_from(["default", "array", "list"])),
                res=draw(st.sampled_from([None, 1, 2, 3, 0.5, 7])), D=draw(st.one_of(st.none(), gen.logu(0.01, 1000))), bulk=draw(gen.bulk()))


@check("C22", cases(flat=True), quick=2000, shards=3, rule="an image with the horizon inside")
def horizon(case, ctx):
    c = case["c"]
    p, l = c["p"], c["l"]
    cam = gen.make_camera(c)
    z = c["o"]["z"]
    d = cam.distanceToHorizon()
    line = np.sqrt(2 * R * z)
    close(d, line, line * (z / R + 1e-8), "distance to the horizon of a camera at %g m" % z)
    if case["how"] == "default":
        xs = np.array([0, p["w"] / 2, p["w"]])
        got = cam.getImageHorizon()
    else:
        xs = arr(case["xs"]) * p["w"]
        if case["single"]:
            xs = xs[:1]
            got = cam.getImageHorizon(float(xs[0]))
            shape_is(got, (2,), "one point of the horizon")
            got = np.asarray(got)[None]
        else:
            got = cam.getImageHorizon(xs.copy() if case["how"] == "array" else xs.tolist())
    shape_is(got, (len(xs), 2), "points of the horizon")
    close(got[:, 0], xs, 0, "x positions of the horizon")
    rows = np.arange(p["h"])
    rmax = gen.corner_radius(p, l["kind"]) * REACH if l["kind"] != "none" else None
    nontrivial = False
    for i, x in enumerate(xs):
        seen = np.stack([np.full(len(rows), x), rows], axis=1).astype(float)
        ideal = ref.undistort(p, l, seen, rmax)
        if l["kind"] != "none":
            if (ref.lens_radius(p, l, ideal) > rmax * 0.999).any():
                continue
        if not view.in_domain(p, ideal).all():
            continue
        dz = view.directions(c, ideal)[:, 2]
        height = np.abs(z + d * dz)
        slack = d * (view.ray_tol(c, ideal) * 4 + 1e-9 + 2 * z / R * np.abs(dz))
        y = got[i, 1]
        require(np.isfinite(y) and 0 <= y <= p["h"] and y == int(y), "row of the horizon at x=%g: %r", x, y)
        y = int(y)
        best = int(np.argmin(height))
        require(height[y] <= height[best] + slack[y] + slack[best], "horizon at x=%g in row %d, where the line of sight is %g m off at the horizon; in row %d only %g m (rows %s)", x, y, height[y], best,
                height[best], len(rows))
        nontrivial |= 0 < best < p["h"] - 1
    ctx.nontrivial(nontrivial)
    ctx.label(p["type"], l["kind"], case["how"])


@check("C22", cases(60), quick=600, shards=1, rule="every case")
def border(case, ctx):
    """the border runs once around the image, in pixels"""
    p = case["c"]["p"]
    cam = gen.make_camera(case["c"])
    w, h = p["w"], p["h"]
    res = case["res"]
    b = np.asarray(cam.getImageBorder() if res is None else cam.getImageBorder(res), float)
    res = res or 1
    shape_is(b, (len(b), 2), "border")
    on = (b[:, 0] == 0) | (b[:, 0] == w) | (b[:, 1] == 0) | (b[:, 1] == h)
    require(on.all() and (b >= 0).all() and (b[:, 0] <= w).all() and (b[:, 1] <= h).all(), "points of the border that are not at the border of a %d x %d image: %s", w, h, b[~on])
    for corner in ([0, 0], [0, h], [w, h], [w, 0]):
        require((b == corner).all(axis=1).any(), "the corner %s is missing", corner)
    step = np.linalg.norm(np.roll(b, -1, axis=0) - b, axis=1)
    require((step <= res * (1 + 1e-9)).all(), "a gap in the border: %s for a resolution of %s", step.max(), res)
    # every side is covered once: the steps sum up to the length of the border
    close(step.sum(), 2 * (w + h), 1e-9 * (w + h), "length of the border")


def polylines(points):
    out, cur = [], []
    for q in np.asarray(points, float):
        if np.isnan(q).any():
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(q)
    if cur:
        out.append(cur)
    return out


@check("C22", cases(60, gen.num(0, 180)), quick=1000, shards=2, rule="a camera with a distance other than 1")
def cone(case, ctx):
    """lines from the camera to the corners of the image, and around the corners"""
    c = case["c"]
    p = c["p"]
    cam = gen.make_camera(c)
    w, h = p["w"], p["h"]
    px = np.array([[0, 0], [0, h], [w, h], [w, 0]], float)
    ideal = px
    if c["l"]["kind"] != "none":
        rmax = gen.corner_radius(p, c["l"]["kind"]) * REACH
        ideal = ref.undistort(p, c["l"], px, rmax)
        if (ref.lens_radius(p, c["l"], ideal) > 0.999 * rmax).any():
            ctx.nontrivial(False)
            return
    if not view.in_domain(p, ideal).all():
        ctx.nontrivial(False)
        return
    D = case["D"] or 1.0
    off = ref.o_pos(c["o"])
    corners = off + view.directions(c, ideal) * D
    tol = (view.ray_tol(c, ideal).max() * 4 + 1e-10) * D + 1e-11 * (1 + np.abs(off).max())
    ctx.label(p["type"], c["l"]["kind"])
    ctx.nontrivial(case["D"])
    got = cam.getCameraCone() if case["D"] is None else cam.getCameraCone(D=D)
    shape_is(got, (len(got), 3), "cone")
    want = {(0, 1), (1, 2), (2, 3), (0, 3), (0, 4), (1, 4), (2, 4), (3, 4)}
    names = np.vstack([corners, off])
    lines = set()
    for line in polylines(got):
        ids = []
        for q in line:
            dist = np.max(np.abs(names - q), axis=1)
            k = int(np.argmin(dist))
            require(dist[k] <= tol, "the cone contains the point %s which is neither a corner (%s) nor the camera (%s)", q, corners.tolist(), off)
            ids.append(k)
        lines |= {(min(a, b), max(a, b)) for a, b in zip(ids[:-1], ids[1:]) if a != b}
    if min(np.max(np.abs(names[a] - names[b])) for a in range(5) for b in range(a)) > 3 * tol:
        require(lines == want, "lines of the cone (corners 0-3, camera 4): %s, expected %s", sorted(lines), sorted(want))


@check("C22", cases(30, gen.num(0, 120)), quick=600, shards=2, rule="a camera that sees the ground at a part of the border")
def ground_cone(case, ctx):
    """the same with the border projected to the ground"""
    c = case["c"]
    p = c["p"]
    cam = gen.make_camera(c)
    w, h = p["w"], p["h"]
    px = [[0, y] for y in range(h)] + [[x, h] for x in range(w)] + [[w, y] for y in range(h, 0, -1)] + [[x, 0] for x in range(w, 0, -1)]
    px = arr(px)
    space = cam.spaceFromImage(px.copy(), Z=0)
    off = ref.o_pos(c["o"])
    got = np.asarray(cam.getCameraCone(project_to_ground=True), float)
    seen = ~np.isnan(space).any(axis=1)
    ctx.nontrivial(seen.any())
    scale = 1e-9 * (1 + np.nanmax(np.abs(np.vstack([space, off[None]]))))
    names = np.vstack([space[seen], off[None]])
    points = got[~np.isnan(got).any(axis=1)]

    def contains(many, few, what):
        for q in few:
            require(len(many) and np.min(np.max(np.abs(many - q), axis=1)) <= scale, what, q)

    contains(points, space[seen], "the point %s of the border on the ground is missing in the cone")
    contains(names, points, "the cone contains %s which is not on the border")
    require(np.all(np.isnan(points) | (np.abs(points[:, 2:]) < scale) | (np.max(np.abs(points - off), axis=1)[:, None] <= scale)), "the cone is not on the ground")
    # lines from the camera to the corners which are on the ground
    for k, q in zip((0, h, h + w, 2 * h + w), ([0, 0], [0, h], [w, h], [w, 0])):
        if not seen[k]:
            continue
        found = False
        for line in polylines(got):
            for a, b in zip(line[:-1], line[1:]):
                for u, v in ((a, b), (b, a)):
                    found |= np.max(np.abs(u - off)) <= scale and np.max(np.abs(v - space[k])) <= scale
        require(found, "no line from the camera to the corner %s", q)
    ctx.label(p["type"])
