"""C20 heights and lengths of objects"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, shape_is
from ..sens import wobble

ASSUMPTIONS = ["objects whose position is well determined by the pixels (the expected error of the height is below 1 % of the distance)",
               "lenses that are invertible on the image"]


@st.composite
def cases(draw):
    c = draw(gen.camera(max_px=4000, min_px=50, max_pos=100, elevation=gen.num(1, 200), tilt=gen.num(0, 150), strength=0.3))
    return dict(c=c, fr=draw(gen.pixel_fracs(4)), bulk=draw(gen.bulk()), Z=draw(st.one_of(st.just(None), gen.num(-20, 20))), many=draw(st.booleans()),
                h=draw(gen.vec(4, st.one_of(gen.num(-5, 5), gen.logu(0.01, 100)))))


def ground(off, d, Z):
    with np.errstate(all="ignore"):
        f = (Z - off[2]) / d[:, 2]
        f = np.where(f < 0, np.nan, f)
        return off + d * f[:, None]


def ref_height(off, d_feet, d_head, Z):
    """the head is vertically above the feet"""
    feet = ground(off, d_feet, Z)
    with np.errstate(all="ignore"):
        f = np.sum((feet - off)[:, :2] * d_head[:, :2], axis=1) / np.sum(d_head[:, :2] ** 2, axis=1)
        f = np.where(f < 0, np.nan, f)
    return off[2] + f * d_head[:, 2] - Z


def setup(case, n=25):
    c = case["c"]
    im = view.ideal_pixels(c["p"], case["fr"], case["bulk"], n)
    off = ref.o_pos(c["o"])
    d = view.directions(c, im)
    if case["Z"] is None:
        Z = np.zeros(len(im))
    elif case["many"]:
        Z = gen.expand(case["bulk"] + 3, len(im), -20, 20)[:, 0]
    else:
        Z = np.full(len(im), case["Z"])
    return c, im, off, d, Z


def argument(case, Z):
    if case["Z"] is None:
        return {}
    return dict(Z=Z.copy() if case["many"] else float(case["Z"]))


@check("C20", cases(), quick=3000, shards=4, rule="an object with a visible foot and head and a height")
def height(case, ctx):
    c, im, off, d, Z = setup(case)
    cam = gen.make_camera(c)
    feet = ground(off, d, Z)
    h = gen.expand(case["bulk"] + 4, len(im), -1, 1)[:, 0] * np.maximum(np.linalg.norm(feet - off, axis=1), 0.1) * 0.5
    h = np.nan_to_num(h)
    k = min(4, len(h))
    h[:k] = case["h"][:k]
    head = feet + np.array([0, 0, 1.0]) * h[:, None]
    head_im = ref.image_from_camera(c["p"], ref.camera_from_space(c["o"], np.nan_to_num(head)))
    with np.errstate(all="ignore"):
        inside = np.all((head_im > -0.1 * np.array([c["p"]["w"], c["p"]["h"]])) & (head_im < 1.1 * np.array([c["p"]["w"], c["p"]["h"]])), axis=1) & ~np.isnan(feet).any(axis=1)
    inside &= view.in_domain(c["p"], np.nan_to_num(head_im))
    if c["l"]["kind"] != "none":
        # where the lens is known to be invertible
        inside &= ref.lens_radius(c["p"], c["l"], np.nan_to_num(head_im)) <= gen.corner_radius(c["p"], c["l"]["kind"])
    d_head = view.directions(c, np.nan_to_num(head_im))
    ang = view.ray_tol(c, im)[:, None] if len(im) else 0
    want, tol, ok = wobble(lambda a, b: ref_height(off, a, b, Z), [d, d_head], [ang, ang])
    dist = np.linalg.norm(feet - off, axis=1)
    steep = np.abs(d[:, 2]) > 1e-6
    keep = inside & ok & steep & (tol < 0.01 * dist) & np.isfinite(want)
    # the reference agrees with the construction
    with np.errstate(all="ignore"):
        keep &= np.abs(want - h) < 1e-3 * (1 + dist)
    tol = 4 * tol + 1e-9 * (1 + np.abs(off).max() + np.nan_to_num(dist))
    ctx.label(c["p"]["type"], c["l"]["kind"], "Z %s" % ("default" if case["Z"] is None else "many" if case["many"] else "one"))
    ctx.nontrivial(np.any(keep & (h != 0)))
    if not len(im):
        return
    feet_px, head_px = ref.distort(c["p"], c["l"], im), ref.distort(c["p"], c["l"], np.nan_to_num(head_im))
    got = cam.getObjectHeight(feet_px, head_px, **argument(case, Z))
    shape_is(got, (len(im),), "heights")
    close(got[keep], want[keep], tol[keep], "height of objects (true heights %s)" % h[keep][:4].tolist())
    close(got[keep], h[keep], tol[keep] + 1e-6 * (1 + dist[keep]), "true height of objects")
    # the feet are not on the ground: no height
    sky = ok & (np.abs(d[:, 2]) > 1e-3) & ((Z - off[2]) / d[:, 2] < -1e-6)
    require(np.isnan(got[sky]).all(), "height of an object standing in the sky: %s", got[sky])
    # the head is seen in the opposite direction of the feet: there is no upright object
    other = np.roll(np.arange(len(im)), 1)
    flat, flat_head = (feet - off)[:, :2], d[other][:, :2]
    with np.errstate(all="ignore"):
        cosine = np.sum(flat * flat_head, axis=1) / np.linalg.norm(flat, axis=1) / np.linalg.norm(flat_head, axis=1)
        opposite = ok & (cosine < -1e-3) & (np.linalg.norm(flat_head, axis=1) > 1e-3) & (np.linalg.norm(flat, axis=1) > 1e-3 * (1 + dist)) & (np.abs(d[:, 2]) > 1e-3)
    if opposite.any():
        ctx.label("opposite")
        got = cam.getObjectHeight(feet_px, feet_px[other], **argument(case, Z))
        require(np.isnan(got[opposite]).all(), "height of an object whose head is seen in the opposite direction of its feet: %s", got[opposite])
    for i in np.flatnonzero(keep)[:2]:
        kw = {} if case["Z"] is None else dict(Z=float(Z[i]))
        close(cam.getObjectHeight(feet_px[i], head_px[i], **kw), want[i], tol[i], "height of one object")


@check("C20", cases(), quick=2000, shards=3, rule="an object with two visible ends and a length")
def length(case, ctx):
    c, im, off, d, Z = setup(case, 30)
    cam = gen.make_camera(c)
    ctx.label(c["p"]["type"], c["l"]["kind"])
    if not len(im):
        ctx.nontrivial(False)
        return
    # the other ends: close pixels and other pixels of the image
    p = c["p"]
    other = im[np.arange(len(im)) - 1]
    near = im + gen.expand(case["bulk"] + 8, len(im), -0.05, 0.05, 2) * [p["w"], p["h"]]
    near = np.clip(near, 0, [p["w"], p["h"]])
    im2 = np.where((np.arange(len(im)) % 2 == 0)[:, None], other, near)
    im2 = np.where(view.in_domain(p, im2)[:, None], im2, im)
    d2 = view.directions(c, im2)
    ang, ang2 = view.ray_tol(c, im)[:, None], view.ray_tol(c, im2)[:, None]
    want, tol, ok = wobble(lambda a, b: np.linalg.norm(ground(off, a, Z) - ground(off, b, Z), axis=1), [d, d2], [ang, ang2])
    dist = np.linalg.norm(ground(off, d, Z) - off, axis=1) + np.linalg.norm(ground(off, d2, Z) - off, axis=1)
    clear = (np.abs(d[:, 2]) > 1e-3) & (np.abs(d2[:, 2]) > 1e-3) & (np.abs(Z - off[2]) > 1e-6)
    with np.errstate(all="ignore"):
        keep = ok & clear & (np.isnan(want) | (tol < 0.01 * dist))
    tol = 4 * tol + 1e-9 * (1 + np.abs(off).max() + np.nan_to_num(dist))
    ctx.nontrivial(np.any(keep & (want > 0)))
    a, b = ref.distort(p, c["l"], im), ref.distort(p, c["l"], im2)
    got = cam.getObjectLength(a, b, **argument(case, Z))
    shape_is(got, (len(im),), "lengths")
    close(got[keep], want[keep], tol[keep], "length of objects")
    close(cam.getObjectLength(b, a, **argument(case, Z))[keep], want[keep], tol[keep], "length of the reversed objects")
    for i in np.flatnonzero(keep)[:2]:
        kw = {} if case["Z"] is None else dict(Z=float(Z[i]))
        close(cam.getObjectLength(a[i], b[i], **kw), want[i], tol[i], "length of one object")
