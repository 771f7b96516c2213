"""C09 the camera as a whole: space -> image, image -> ray, for all combinations of parts"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, layouts, require, arr, fail

ASSUMPTIONS = ["lenses that are invertible on the image (slope of the radius 0.4 to 1.6)", "points within the field of view for the undistorted direction"]
LENS_TOL = 1e-6


@st.composite
def cases(draw):
    c = draw(gen.camera(max_pos=draw(st.sampled_from([1000, 1000, 5e6])), strength=draw(st.sampled_from([0.1, 0.6]))))
    return dict(c=c, fr=draw(gen.pixel_fracs(4)), depth=draw(gen.vec(4, gen.logu(0.01, 1e5))), bulk=draw(gen.bulk()),
                pts=draw(gen.points(3, gen.coord(), 4)))


def in_view(case):
    """points in space in the field of view: returns camera data, ideal pixels, depths, space points"""
    c = case["c"]
    p = c["p"]
    n = 30
    im = np.vstack([gen.pixels(case["fr"], p), gen.expand(case["bulk"], n, 0, 1, 2) * [p["w"], p["h"]]])
    depth = np.concatenate([(case["depth"] * 4)[:len(case["fr"])], 10 ** gen.expand(case["bulk"] + 1, n, -1, 4, 1)[:, 0]])
    ok = np.ones(len(im), bool)
    if p["type"] != "rect":
        ok &= np.abs((im[:, 0] - p["cx"]) / p["fx"]) < np.pi * 0.999
    if p["type"] == "equi":
        ok &= np.abs((im[:, 1] - p["cy"]) / p["fy"]) < np.pi / 2 * 0.99
    im, depth = im[ok], depth[ok]
    cp = ref.unit(ref.ray(p, im)) * depth[:, None]
    return c, p, im, depth, cp, ref.space_from_camera(c["o"], cp)


def image_tol(c, cp):
    """tolerance in pixels from the rounding of the positions"""
    p, o = c["p"], c["o"]
    big = np.linalg.norm(cp, axis=1) + np.linalg.norm(ref.o_pos(o))
    return (4e-14 * ref.image_slope(p, cp) * big + 1e-11 * (p["w"] + p["h"] + p["fx"] + p["fy"]))[:, None]


@check("C09", cases(), quick=2500, shards=4, rule="a camera with a non-zero heading, tilt or roll, or a distortion")
def forward(case, ctx):
    c, p, im, depth, cp, pts = in_view(case)
    ctx.label(p["type"], c["o"]["kind"], c["l"]["kind"])
    ctx.nontrivial(len(pts) and (c["o"]["tilt"] or c["o"]["heading"] or c["o"]["roll"] or any(c["l"].get("k", [0]))))
    cam = gen.make_camera(c)
    want = ref.distort(p, c["l"], im)
    tol = 4 * image_tol(c, cp)
    keep = np.isfinite(tol[:, 0]) & (np.abs(cp[:, 2]) > 1e-9 * (1 + np.linalg.norm(ref.o_pos(c["o"]))))
    got = cam.imageFromSpace(pts.copy())
    close(got[keep], want[keep], tol[keep], "space -> image (%s, %s, %s)" % (p["type"], c["o"]["kind"], c["l"]["kind"]))
    layouts(cam.imageFromSpace, pts[keep], want[keep], tol[keep], "space -> image (%s, %s, %s)" % (p["type"], c["o"]["kind"], c["l"]["kind"]))
    got = cam.imageFromSpace(pts.copy(), hide_backpoints=False)
    close(got[keep], want[keep], tol[keep], "space -> image without hiding points")
    if keep.any():
        i = int(np.flatnonzero(keep)[0])
        close(cam.imageFromSpace(list(pts[i])), want[i], tol[i], "one point, space -> image")


@check("C09", cases(), quick=2500, shards=4, rule="a camera with a non-zero heading, tilt or roll, or a distortion")
def rays(case, ctx):
    """the ray of an observed pixel starts at the camera and leads through the points which are seen there"""
    c, p, im, depth, cp, pts = in_view(case)
    ctx.label(p["type"], c["o"]["kind"], c["l"]["kind"])
    ctx.nontrivial(len(pts) and (c["o"]["tilt"] or c["o"]["heading"] or c["o"]["roll"] or any(c["l"].get("k", [0]))))
    cam = gen.make_camera(c)
    seen = ref.distort(p, c["l"], im)
    direction = ref.unit(ref.space_from_camera(c["o"], cp, direction=True))
    tol = np.full((len(im), 1), 1e-10) * (1 + 1 / np.min(np.abs(ref.unit(ref.ray(p, im))[:, 2:]) if p["type"] == "rect" else np.ones((1, 1)), initial=1))
    if c["l"]["kind"] != "none":
        s = ref.lens_scale(p, c["l"])
        tol = tol + LENS_TOL * gen.corner_radius(p, c["l"]["kind"]) * np.max(s) / min(p["fx"], p["fy"]) * 2
    if p["type"] == "equi":
        tol = tol * 3
    for normed in (False, True):
        offset, got = cam.getRay(seen.copy(), normed=True) if normed else cam.getRay(seen.copy())
        close(offset, ref.o_pos(c["o"]), 1e-12 * (1 + np.abs(ref.o_pos(c["o"]))), "origin of the rays")
        close(ref.unit(got), direction, tol, "direction of the rays (%s, %s, %s, normed=%s)" % (p["type"], c["o"]["kind"], c["l"]["kind"], normed))
        layouts(lambda x: ref.unit(cam.getRay(x, normed=normed)[1]), seen, direction, tol, "direction of the rays (%s, %s, %s, normed=%s)" % (p["type"], c["o"]["kind"], c["l"]["kind"], normed))
        if normed:
            close(np.linalg.norm(got, axis=1), np.ones(len(got)), 1e-11, "length of the normed rays")
        else:
            want = ref.space_from_camera(c["o"], ref.ray(p, im), direction=True)
            n = np.linalg.norm(want, axis=1)[:, None]
            close(got, want, 4 * tol * n ** 2, "rays")
    if len(seen):
        offset, got = cam.getRay(list(seen[0]), normed=True)
        close(got, direction[0], tol[0], "direction of one ray")
        close(offset, ref.o_pos(c["o"]), 1e-12 * (1 + np.abs(ref.o_pos(c["o"]))), "origin of one ray")


@check("C09", cases(), quick=1500, shards=2, rule="a point clearly in front of or behind the camera plane")
def arbitrary_points(case, ctx):
    """arbitrary points in space, also behind the camera: hidden (nan) for the rectilinear projection, unless asked for"""
    c = case["c"]
    p, l = c["p"], c["l"]
    pts = np.vstack([arr(case["pts"]), gen.expand(case["bulk"], 20, -1000, 1000, 3)])
    cp = ref.camera_from_space(c["o"], pts)
    big = np.linalg.norm(pts, axis=1) + np.linalg.norm(ref.o_pos(c["o"])) + 1
    depth = -cp[:, 2] if p["type"] == "rect" else np.hypot(cp[:, 0], cp[:, 2])
    keep = np.abs(depth) > 1e-6 * big
    if p["type"] != "rect":
        # away from the seam behind the camera
        keep &= np.abs(np.abs(np.arctan2(cp[:, 0], -cp[:, 2])) - np.pi) > 1e-6
    ideal = ref.image_from_camera(p, cp, hide=False)
    if l["kind"] != "none":
        # the polynomial is only tame in the image and its surroundings
        keep &= ref.lens_radius(p, l, ideal) <= gen.corner_radius(p, l["kind"])
    ctx.label(p["type"], l["kind"])
    ctx.nontrivial(keep.any())
    cam = gen.make_camera(c)
    tol = 8 * image_tol(c, cp) + 1e-11 * np.abs(ideal).max(axis=1)[:, None]
    want = ref.distort(p, l, ideal)
    close(cam.imageFromSpace(pts.copy(), hide_backpoints=False)[keep], want[keep], tol[keep], "image of arbitrary points, not hidden")
    if p["type"] == "rect":
        want[cp[:, 2] > 0] = np.nan
        ctx.label("behind" if np.any(cp[:, 2] > 0) else "in front")
    close(cam.imageFromSpace(pts.copy())[keep], want[keep], tol[keep], "image of arbitrary points")


@check("C09", cases(), quick=1000, shards=2, rule="a point in the field of view")
def round_trip(case, ctx):
    c, p, im, depth, cp, pts = in_view(case)
    ctx.label(p["type"], c["o"]["kind"], c["l"]["kind"])
    ctx.nontrivial(len(pts))
    cam = gen.make_camera(c)
    seen = ref.distort(p, c["l"], im)
    offset, r = cam.getRay(seen.copy(), normed=True)
    tol = 4 * image_tol(c, cp)
    keep = np.isfinite(tol[:, 0]) & (np.abs(cp[:, 2]) > 1e-9 * (1 + np.linalg.norm(ref.o_pos(c["o"]))))
    if c["l"]["kind"] != "none":
        tol = tol + LENS_TOL * 2 * gen.corner_radius(p, c["l"]["kind"]) * np.max(ref.lens_scale(p, c["l"]))
    back = cam.imageFromSpace(offset + r * depth[:, None])
    close(back[keep], seen[keep], tol[keep], "pixel -> ray -> pixel")
