"""C23 two cameras: triangulation, distance of rays, baseline"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view, pair
from ..core import check, close, require, arr, fail, shape_is
from ..sens import wobble

ASSUMPTIONS = ["points whose position is well determined by the two pixels (expected error below 1 % of the distance)",
               "lenses that are invertible on the image"]


def ref_middle(o1, d1, o2, d2):
    """the middle of the shortest connection between two lines"""
    with np.errstate(all="ignore"):
        n = np.cross(d1, d2)
        nn = np.sum(n * n, axis=1)
        w = o2 - o1
        s = np.sum(np.cross(w, d2) * n, axis=1) / nn
        t = np.sum(np.cross(w, d1) * n, axis=1) / nn
        return (o1 + s[:, None] * d1 + o2 + t[:, None] * d2) / 2


def ref_distance(o1, d1, o2, d2):
    with np.errstate(all="ignore"):
        n = np.cross(d1, d2)
        return np.abs(np.sum(n * (o2 - o1), axis=1)) / np.linalg.norm(n, axis=1)


def make_group(case):
    P = [gen.make_projection(p) for p in case["P"]]
    L = [gen.make_lens(l) for l in case["L"]]
    O = [gen.make_orientation(o) for o in case["O"]]
    # a shared part is given as such or as a list with one element
    lists = case.get("lists", 0)
    return ct.CameraGroup(P if len(P) > 1 or lists & 1 else P[0], O, L if len(L) > 1 or lists & 2 else L[0])


@st.composite
def cases(draw):
    case = draw(pair.cameras(n=draw(st.sampled_from([2, 2, 3]))))
    case["noise"] = draw(st.sampled_from([0, 0, 1, 20]))
    case["order"] = draw(st.sampled_from(["same", "rolled"]))
    case["lists"] = draw(st.integers(0, 3))
    return case


@check("C23", cases(), quick=2500, shards=4, rule="at least one point seen by both cameras")
def triangulation(case, ctx):
    pts, ims = pair.seen(case)
    ctx.nontrivial(len(pts))
    if not len(pts):
        return
    c1, c2 = pair.nth(case, 0), pair.nth(case, 1)
    im1, im2 = ims[0], ims[1]
    if case["noise"]:
        im2 = np.clip(im2 + gen.expand(case["bulk"] + 1, len(im2), -1, 1, 2) * case["noise"], 0, [c2["p"]["w"], c2["p"]["h"]])
        ok = view.in_domain(c2["p"], im2)
        pts, im1, im2 = pts[ok], im1[ok], im2[ok]
    if not len(pts):
        ctx.nontrivial(False)
        return
    group = make_group(case)
    ctx.label("shared projection" if len(case["P"]) == 1 else "two projections", "noise %s" % case["noise"], case["P"][0]["type"], case["L"][0]["kind"])
    o1, o2 = ref.o_pos(c1["o"]), ref.o_pos(c2["o"])
    d1, d2 = view.directions(c1, im1), view.directions(c2, im2)
    t1, t2 = view.ray_tol(c1, im1)[:, None], view.ray_tol(c2, im2)[:, None]
    seen1, seen2 = ref.distort(c1["p"], c1["l"], im1), ref.distort(c2["p"], c2["l"], im2)
    want, tol, ok = wobble(lambda a, b: ref_middle(o1, a, o2, b), [d1, d2], [t1, t2])
    angle = np.linalg.norm(np.cross(d1, d2), axis=1)
    with np.errstate(all="ignore"):
        far = np.linalg.norm(want - o1, axis=1) + np.linalg.norm(want - o2, axis=1)
        keep = ok.all(axis=1) & (tol.max(axis=1) < 0.01 * case["dist"]) & (angle > 1e-3) & (far < 1e4 * case["dist"])
        tol = 4 * tol.max(axis=1) + 1e-10 * (far + np.abs(o1).max() + np.abs(o2).max()) / angle ** 2
    got = group.spaceFromImages(seen1.copy(), seen2.copy())
    shape_is(got, (len(pts), 3), "positions of %d pairs of pixels" % len(pts))
    close(got[keep], want[keep], tol[keep][:, None], "position from two images")
    if not case["noise"]:
        close(got[keep], pts[keep], tol[keep][:, None] + 1e-7 * case["dist"], "position of the points seen by both cameras")
    for i in np.flatnonzero(keep)[:2]:
        one = group.spaceFromImages(seen1[i].copy(), seen2[i].copy())
        shape_is(one, (3,), "position of one pair of pixels")
        close(one, want[i], tol[i], "position of one pair")
    want, tol, ok = wobble(lambda a, b: ref_distance(o1, a, o2, b), [d1, d2], [t1, t2])
    keep &= ok
    tol = 4 * tol + 1e-10 * (np.abs(o1).max() + np.abs(o2).max() + case["dist"]) / angle
    got = group.discanteBetweenRays(seen1.copy(), seen2.copy())
    shape_is(got, (len(pts),), "distances of rays")
    close(got[keep], want[keep], tol[keep], "distance between the rays of two pixels")


@check("C23", cases(), quick=1500, shards=2, rule="cameras at different positions")
def group(case, ctx):
    """baseline and images of points"""
    group = make_group(case)
    n = len(case["O"])
    o = [ref.o_pos(v) for v in case["O"]]
    base = np.linalg.norm(o[0] - o[1])
    ctx.nontrivial(base > 0)
    close(group.getBaseline(), base, 1e-12 * (base + np.abs(o[0]).max() + np.abs(o[1]).max()), "baseline")
    close(group[0].getPos(), o[0], 0, "position of the first camera")
    pts, ims = pair.seen(case, 20)
    behind = np.array(case["target"]) + gen.expand(case["bulk"] + 3, 6, -5, 5, 3) * case["dist"]
    got = group.imagesFromSpace(pts.copy())
    require(len(got) == n, "images of %d cameras for a group of %d", len(got), n)
    for i in range(n):
        c = pair.nth(case, i)
        t = view.image_tol(c, ref.camera_from_space(c["o"], pts))
        close(got[i], ref.distort(c["p"], c["l"], ims[i]), 4 * t[:, None], "image of the points in camera %d" % i)
        if c["p"]["type"] == "rect":
            z = ref.camera_from_space(c["o"], behind)[:, 2]
            hidden = np.isnan(np.asarray(group.imagesFromSpace(behind.copy())[i])).any(axis=1)
            sure = np.abs(z) > 1e-6
            require((hidden == (z > 0))[sure].all(), "points behind camera %d: z %s, hidden %s", i, z, hidden)
    ctx.label("%d cameras" % n)
