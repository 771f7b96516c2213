"""C07 the lens distortions follow the documented formula"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref
from ..core import check, close, layouts, require, arr, fail

ASSUMPTIONS = ["pixels up to one image size outside of the image; coefficients that change the radius by up to a factor of a few"]


@st.composite
def cases(draw, kinds=("brown", "abc", "none")):
    p = draw(gen.projection())
    kind = draw(st.sampled_from(kinds))
    if kind == "none":
        l = dict(kind="none")
    else:
        # the distortion needs not to be monotonic
        l = draw(gen.lens_for(p, (kind,), strength=draw(st.sampled_from([0.3, 0.9, 4.0]))))
    return dict(p=p, l=l, fr=draw(gen.pixel_fracs(4, margin=1)), bulk=draw(gen.bulk()))


def tolerance(p, l, im):
    if l["kind"] == "none":
        return np.zeros((len(im), 1))
    r = ref.lens_radius(p, l, im)
    big = ref.lens_poly(dict(kind=l["kind"], k=[abs(v) for v in l["k"]]) if l["kind"] == "brown" else l, r)
    if l["kind"] == "abc":
        a, b, c = np.abs(l["k"])
        big = (1 + a + b + c) * r + c * r ** 2 + b * r ** 3 + a * r ** 4
    return (1e-12 * (big * np.max(ref.lens_scale(p, l)) + abs(p["cx"]) + abs(p["cy"]) + p["w"] + p["h"]))[:, None]


@check("C07", cases(), quick=2500, shards=4, rule="a lens with a non-zero coefficient and a pixel off the center")
def formula(case, ctx):
    p, l = case["p"], case["l"]
    im = np.vstack([gen.pixels(case["fr"], p), [[p["cx"], p["cy"]]], gen.expand(case["bulk"], 30, -1, 2, 2) * [p["w"], p["h"]]])
    ctx.label(l["kind"], p["type"])
    ctx.nontrivial(l["kind"] != "none" and any(l["k"]))
    lens = gen.make_lens(l)
    lens.setProjection(gen.make_projection(p))
    tol = tolerance(p, l, im)
    want = ref.distort(p, l, im)
    original = im.copy()
    got = lens.distortedFromImage(im)
    close(im, original, 0, "the points of the caller after distorting them")
    close(got, want, tol, "distorted pixels (%s)" % l["kind"])
    layouts(lens.distortedFromImage, im, want, tol, "distorted pixels (%s)" % l["kind"])
    close(lens.distortedFromImage(list(im[0])), want[0], tol[0], "one distorted pixel")
    close(lens.distortedFromImage([p["cx"], p["cy"]]), [p["cx"], p["cy"]], tol[0] * 0 + 1e-9 * (1 + p["w"] + p["h"]), "the distorted center")
    close(lens.imageFromDistorted([p["cx"], p["cy"]]), [p["cx"], p["cy"]], 1e-9 * (1 + p["w"] + p["h"]), "the undistorted center")
    # the camera uses the lens in the same way: a point on the ray of the ideal pixel
    cam = ct.Camera(gen.make_projection(p), ct.SpatialOrientation(elevation_m=0, tilt_deg=0), gen.make_lens(l))
    close(cam.lens.distortedFromImage(im), want, tol, "distorted pixels of the lens of a camera (%s)" % l["kind"])


@check("C07", cases(("none",)), quick=200, shards=1, rule="every case")
def no_distortion(case, ctx):
    p = case["p"]
    im = gen.expand(case["bulk"], 30, -1, 2, 2) * [p["w"], p["h"]]
    for cam in (ct.Camera(gen.make_projection(p)), ct.Camera(gen.make_projection(p), None, ct.NoDistortion()),
                ct.Camera(gen.make_projection(p), None, ct.BrownLensDistortion()), ct.Camera(gen.make_projection(p), None, ct.ABCDistortion())):
        tol = 1e-10 * (p["w"] + p["h"])
        close(cam.lens.distortedFromImage(im), im, tol, "without distortion, distortedFromImage")
        inside = im[np.all((im >= 0) & (im <= [p["w"], p["h"]]), axis=1)]
        close(cam.lens.imageFromDistorted(inside), inside, 1e-6 * (p["w"] + p["h"]), "without distortion, imageFromDistorted")


@st.composite
def standalone(draw):
    k = draw(gen.vec(3, gen.num(-0.2, 0.2)))
    return dict(kind=draw(st.sampled_from(["brown", "abc"])), k=k, pts=draw(gen.points(2, gen.num(-2, 2))))


@check("C07", standalone(), quick=400, shards=1, rule="a non-zero coefficient")
def without_projection(case, ctx):
    """a lens that was not attached to a projection works in units of the model, with the center at the origin"""
    pts = arr(case["pts"])
    p = dict(w=2, h=2, cx=0, cy=0, fx=1, fy=1)
    ctx.nontrivial(any(case["k"]))
    lens = gen.make_lens(case)
    close(lens.distortedFromImage(pts), ref.distort(p, case, pts), 1e-9, "distortion in the units of the model")
