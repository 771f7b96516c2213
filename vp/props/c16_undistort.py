"""C16 undistorting an image"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, raises, shape_is
from . import c15_top_view as tv

ASSUMPTIONS = ["positions within 0.02 pixels of the border between two pixels of the image may be rounded to either of them"]


@st.composite
def cases(draw, calls=1):
    w, h = draw(st.integers(8, 60)), draw(st.integers(8, 60))
    p = dict(type=draw(st.sampled_from(["rect", "cyl", "equi"])), w=w, h=h)
    p["fx"] = max(w, h) * draw(gen.num(0.4, 2))
    p["fy"] = p["fx"] * draw(st.sampled_from([1.0, 0.8, 1.3]))
    p["cx"], p["cy"] = w * draw(gen.num(0.3, 0.7)), h * draw(gen.num(0.3, 0.7))
    l = draw(gen.lens_for(p, strength=0.6, kinds=("brown", "abc", "brown", "abc", "none")))
    o = dict(kind="thr", x=0, y=0, z=10, heading=0, tilt=45, roll=0)
    steps = []
    for _ in range(draw(st.integers(1, calls)) if calls > 1 else 1):
        x0, y0 = draw(st.integers(-10, 30)), draw(st.integers(-10, 30))
        steps.append(dict(extent=draw(st.one_of(st.none(), st.just([x0, x0 + draw(st.integers(1, 50)), y0, y0 + draw(st.integers(1, 50))]))),
                          scaling=draw(st.sampled_from([None, None, 1, 2, 0.5, 1.5])), keep=draw(st.sampled_from(["nothing", "nothing", "both", "both", "extent", "scaling", "shift", "corner"])), part=draw(st.sampled_from([0, 0, 0.25, 0.6])),
                          change=draw(st.sampled_from(["fx", "fy", "cx", "cy", "lens", "tilt"] + [None] * 3)), value=draw(gen.num(0.05, 0.95)),
                          extent_type=draw(st.sampled_from(["list", "tuple", "array"]))))
    return dict(c=dict(p=p, o=o, l=l), image=draw(st.sampled_from(tv.KINDS)), seed=draw(gen.bulk()), steps=steps)


def run(case, ctx):
    c = {k: dict(v) for k, v in case["c"].items()}
    image = tv.make_image(case["image"], c["p"], case["seed"])
    original = image.copy()
    cam = gen.make_camera(c)
    ctx.label(case["image"], c["p"]["type"], c["l"]["kind"])
    last = None
    moved = False
    for k, s in enumerate(case["steps"]):
        if s["change"] and k:
            tv.apply(cam, c, s["change"], s["value"])
            ctx.label("change " + s["change"])
        extent, scaling = s["extent"], s["scaling"]
        if extent is not None:  # also parts of pixels
            extent = [v + s["part"] for v in extent]
        if last is not None:  # a part of the previous call again
            if s["keep"] in ("both", "extent"):
                extent = last[0]
            if s["keep"] in ("both", "scaling"):
                scaling = last[1]
            if last[0] is not None:
                extent, size, _ = tv.nearly(s["keep"], s["value"], extent, scaling or 1, 0, (last[0], last[1] or 1, 0))
                scaling = scaling if s["keep"] not in ("shift", "corner") else last[1]
        last = (extent, scaling)
        e = None if extent is None else {"list": list, "tuple": tuple, "array": np.array}[s["extent_type"]](extent)
        got = cam.undistortImage(image, extent=e, scaling=scaling)
        full = extent or [0, c["p"]["w"], 0, c["p"]["h"]]
        xs, ys = np.arange(full[0], full[1], scaling or 1), np.arange(full[2], full[3], scaling or 1)
        X, Y = np.meshgrid(xs, ys)
        ideal = np.stack([X.ravel(), Y.ravel()], axis=1).astype(float)
        im = ref.distort(c["p"], c["l"], ideal)
        want, decided, inside = tv.pixels_at(image, im, np.ones(len(im), bool))
        require(got.dtype == image.dtype, "an undistorted image of the type %s of an image of the type %s", got.dtype, image.dtype)
        shape_is(got, (len(ys), len(xs)) if case["image"].startswith("gray") else (len(ys), len(xs), 4), "undistorted image, step %d" % k)
        flat = tv.colors(got, image, len(ideal))
        bad = decided & (flat != want).any(axis=1)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            fail("undistorted image, step %d: at x=%g, y=%g: got color %s, expected %s (distorted position %s)" % (
                k, ideal[i, 0], ideal[i, 1], flat[i].tolist(), want[i].tolist(), im[i].tolist()))
        require(np.array_equal(image, original), "the image of the caller was modified")
        moved |= np.abs(im - ideal).max(initial=0) > 0.6
    ctx.nontrivial(moved)


@check("C16", cases(1), quick=1500, shards=3, rule="a distortion of more than half a pixel")
def undistort(case, ctx):
    run(case, ctx)


@check("C16", cases(5), quick=1500, shards=3, rule="a distortion of more than half a pixel")
def history(case, ctx):
    """several calls on the same camera, with changes of the camera, the extent and the scaling in between"""
    run(case, ctx)


@check("C16", cases(1), quick=300, shards=1, rule="every case")
def size_check(case, ctx):
    cam = gen.make_camera(case["c"])
    p = case["c"]["p"]
    for dw, dh in ((1, 0), (0, 1), (-1, 0), (2, -3)):
        image = tv.make_image(case["image"], dict(p, w=p["w"] + dw, h=p["h"] + dh), 1)
        raises(lambda: cam.undistortImage(image), "an image of the wrong size")


@check("C16", cases(4), quick=500, shards=2, rule="a top view and an undistorted image of the same camera")
def mixed(case, ctx):
    """top views and undistorted images of the same camera, alternating, are the same as with a fresh camera"""
    c = {k: dict(v) for k, v in case["c"].items()}
    image = tv.make_image(case["image"], c["p"], case["seed"])
    cam = gen.make_camera(c)
    for k, s in enumerate(case["steps"]):
        if s["change"] and k:
            tv.apply(cam, c, s["change"], s["value"])
        fresh = gen.make_camera(c)
        top = dict(extent=[-5, 5, 0, 12], scaling=0.5)
        require(np.array_equal(cam.undistortImage(image, extent=s["extent"], scaling=s["scaling"]), fresh.undistortImage(image, extent=s["extent"], scaling=s["scaling"])),
                "step %d: the undistorted image differs from that of a fresh camera", k)
        require(np.array_equal(cam.getTopViewOfImage(image, **top), fresh.getTopViewOfImage(image, **top)),
                "step %d: the top view differs from that of a fresh camera", k)


@check("C16", cases(1), quick=300, shards=4, rule="every case")
def plotted(case, ctx):
    """the undistorted image is drawn at its pixels, the first row at the top"""
    import matplotlib.pyplot as plt
    c, s = case["c"], case["steps"][0]
    image = tv.make_image(case["image"].split(" ")[0], c["p"], case["seed"])
    cam = gen.make_camera(c)
    fig = plt.figure()
    try:
        cam.undistortImage(image, extent=s["extent"], scaling=s["scaling"])
        require(not fig.axes, "the undistorted image is drawn although it was not asked for")
        got = cam.undistortImage(image, extent=s["extent"], scaling=s["scaling"], do_plot=True, alpha=0.5)
        require(len(fig.axes) == 1 and len(fig.axes[0].get_images()) == 1, "%d axes", len(fig.axes))
        im = fig.axes[0].get_images()[0]
        require(np.array_equal(np.asarray(im.get_array()), got), "the drawn image differs from the returned image")
        e = s["extent"] or [0, c["p"]["w"], 0, c["p"]["h"]]
        left, right, bottom, top = im.get_extent()
        require(im.origin == "upper", "the first row is drawn at the bottom")
        # up to a pixel
        close([left, right, top, bottom], e, 1.0001, "extent of the drawn image (left, right, top, bottom)")
        if s["extent"] is not None:
            again = cam.undistortImage(image, extent=list(s["extent"]), scaling=s["scaling"])
            require(np.array_equal(again, got), "the image differs after plotting")
    finally:
        plt.close("all")
