"""C08 undistorting inverts distorting"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, layouts, require, arr, fail

ASSUMPTIONS = ["distortions that are invertible on the image: the slope of the radius is between 0.4 and 1.6 up to the corners",
               "accuracy of the numerical inverse: see TOL, relative to the size of the image"]

TOL = 1e-6


@st.composite
def cases(draw):
    p = draw(gen.projection())
    l = draw(gen.lens_for(p, ("brown", "abc"), strength=draw(st.sampled_from([0.05, 0.3, 0.6])), reach=draw(st.sampled_from([1.0, 1.0, 1.5, 2.0]))))
    return dict(p=p, l=l, fr=draw(gen.pixel_fracs(4)), bulk=draw(gen.bulk()))


def size(p, l):
    """the image size in pixels, in the direction in which the units of the lens are largest"""
    s = ref.lens_scale(p, l)
    return float(gen.corner_radius(p, l["kind"]) * np.max(s))


def setup(case, attach):
    p, l = case["p"], case["l"]
    lens = gen.make_lens(l)
    if attach:
        cam = ct.Camera(gen.make_projection(p), None, lens)
        lens = cam.lens
    else:
        lens.setProjection(gen.make_projection(p))
    im = np.vstack([gen.pixels(case["fr"], p), gen.expand(case["bulk"], 40, 0, 1, 2) * [p["w"], p["h"]],
                    [[0, 0], [p["w"], 0], [0, p["h"]], [p["w"], p["h"]], [p["cx"], p["cy"]]]])
    return p, l, lens, im


@check("C08", cases(), quick=2500, shards=4, rule="a lens with a non-zero coefficient")
def ideal_round_trip(case, ctx):
    p, l, lens, im = setup(case, case["bulk"] % 2)
    ctx.label(l["kind"], p["type"])
    ctx.nontrivial(any(l["k"]))
    d = ref.distort(p, l, im)
    got = lens.imageFromDistorted(d.copy())
    close(got, im, TOL * size(p, l), "distorted -> undistorted (%s)" % l["kind"])
    close(lens.imageFromDistorted(lens.distortedFromImage(im.copy())), im, TOL * size(p, l), "pixel -> distorted -> undistorted (%s)" % l["kind"])
    layouts(lens.imageFromDistorted, d, im, TOL * size(p, l), "distorted -> undistorted (%s)" % l["kind"])
    close(lens.imageFromDistorted(list(d[0])), im[0], TOL * size(p, l), "one undistorted pixel (%s)" % l["kind"])


@check("C08", cases(), quick=2000, shards=2, rule="a lens with a non-zero coefficient and at least 10 pixels whose ideal position is within the image radius")
def observed_round_trip(case, ctx):
    """the other way round, for observed (distorted) pixels of the image"""
    p, l, lens, im = setup(case, case["bulk"] % 2)
    rc = gen.corner_radius(p, l["kind"])
    im = im[ref.lens_radius(p, l, im) <= ref.lens_poly(l, rc) * 0.999999]
    ctx.label(l["kind"], p["type"])
    ctx.nontrivial(any(l["k"]) and len(im) >= 10)
    want = ref.undistort(p, l, im, rc)
    original = im.copy()
    got = lens.imageFromDistorted(im)
    close(im, original, 0, "the points of the caller after undistorting them")
    close(got, want, TOL * size(p, l), "undistorted pixels (%s)" % l["kind"])
    close(lens.distortedFromImage(got), im, TOL * 1.7 * size(p, l), "observed -> undistorted -> distorted (%s)" % l["kind"])


@check("C08", cases(), quick=500, shards=2, rule="a lens with a non-zero coefficient")
def order_is_kept(case, ctx):
    """undistorting keeps the direction from the center and the order of the radii"""
    p, l, lens, im = setup(case, True)
    ctx.nontrivial(any(l["k"]))
    c, s = np.array([p["cx"], p["cy"]]), ref.lens_scale(p, l)
    rc = gen.corner_radius(p, l["kind"])
    angle = case["bulk"] % 360 / 180 * np.pi
    r = np.linspace(0, ref.lens_poly(l, rc), 200)
    pts = np.stack([r * np.cos(angle), r * np.sin(angle)], axis=1) * s + c
    q = (lens.imageFromDistorted(pts) - c) / s
    along = q @ np.array([np.cos(angle), np.sin(angle)])
    across = q @ np.array([-np.sin(angle), np.cos(angle)])
    center = 1e-12 * np.max(np.abs(c)) / np.min(s)
    close(across, 0 * r, 1e-9 * (1 + rc) + center, "undistorting moves pixels sideways")
    require(np.all(np.diff(along) > 0), "undistorting is not increasing with the radius: %s", along)
