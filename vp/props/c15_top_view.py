"""C15 the top view of an image"""
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view
from ..core import check, close, require, arr, fail, raises, shape_is

ASSUMPTIONS = ["positions within 0.02 pixels of the border between two pixels of the image may be rounded to either of them"]


KINDS = ["gray", "rgb", "rgba", "gray", "rgb", "rgba", "gray uint16", "gray float32", "gray float64", "rgb uint16", "rgb float32", "rgba float32"]


@st.composite
def cases(draw, calls=1):
    w, h = draw(st.integers(8, 60)), draw(st.integers(8, 60))
    p = dict(type=draw(st.sampled_from(["rect", "rect", "cyl", "equi"])), w=w, h=h)
    p["fx"] = max(w, h) * draw(gen.num(0.4, 2))
    p["fy"] = p["fx"] * draw(st.sampled_from([1.0, 0.8, 1.3]))
    p["cx"], p["cy"] = w * draw(gen.num(0.3, 0.7)), h * draw(gen.num(0.3, 0.7))
    o = draw(gen.orientation(("thr", "ypr"), 20, gen.num(1, 30), gen.num(0, 120)))
    l = draw(gen.lens_for(p, strength=0.3))
    c = dict(p=p, o=o, l=l)
    n = draw(st.integers(1, calls)) if calls > 1 else 1
    steps = []
    for _ in range(n):
        steps.append(draw(step(o)))
    return dict(c=c, image=draw(st.sampled_from(KINDS)), seed=draw(gen.bulk()), steps=steps)


CHANGES = ["x", "y", "z", "heading", "tilt", "roll", "fx", "fy", "cx", "cy", "lens"]


@st.composite
def step(draw, o):
    cx, cy = o["x"] + draw(gen.num(-20, 20)), o["y"] + draw(gen.num(-20, 20))
    s = draw(gen.num(0.25, 2))
    nx, ny = draw(st.integers(1, 30)), draw(st.integers(1, 30))
    if draw(st.booleans()):
        cx, cy = round(cx), round(cy)
    if draw(st.integers(0, 3)) == 0:
        # all in whole numbers
        s, cx, cy = draw(st.integers(1, 2)), round(cx), round(cy)
        extent = [cx, cx + nx * s, cy, cy + ny * s]
    else:
        extent = [cx, cx + nx * s - draw(st.sampled_from([0, 0.3])) * s, cy, cy + ny * s - draw(st.sampled_from([0, 0.3])) * s]
    return dict(extent=extent, scaling=s, Z=draw(st.sampled_from([0.0, 0.0, 0.5, 0.75, -2.0])), hide=draw(st.sampled_from([True, True, False])),
                change=draw(st.sampled_from(CHANGES + [None] * 6)), value=draw(gen.num(0.05, 0.95)), keep=draw(st.sampled_from(["nothing", "both", "both", "extent", "scaling", "shift", "corner", "flip"])),
                extent_type=draw(st.sampled_from(["list", "tuple", "array"])))


def make_image(kind, p, seed):
    rs = np.random.RandomState(seed)
    kind, dtype = (kind + " uint8").split(" ")[:2]
    shape = (p["h"], p["w"]) if kind == "gray" else (p["h"], p["w"], 3 if kind == "rgb" else 4)
    if dtype == "uint8":
        image = rs.randint(0, 256, shape).astype(np.uint8)
    elif dtype == "uint16":
        image = rs.randint(0, 65536, shape).astype(np.uint16)
    else:  # values that can be represented exactly
        image = (rs.randint(0, 65536, shape) / 65536).astype(dtype)
    if seed % 2:  # black pixels
        image[rs.rand(p["h"], p["w"]) < 0.3] = 0
    return image


def expected(image, c, mesh, hide):
    """color and mask of the decided pixels, for points in space"""
    im = ref.image_from_space(c, mesh, hide=hide)
    p = c["p"]
    cp = ref.camera_from_space(c["o"], mesh)
    depth = np.abs(cp[:, 2]) if p["type"] == "rect" else np.hypot(cp[:, 0], cp[:, 2])
    decided = depth > 1e-6
    if p["type"] != "rect":
        decided &= np.abs(np.abs(np.arctan2(cp[:, 0], -cp[:, 2])) - np.pi) > 1e-6
    return pixels_at(image, im, decided)


def pixels_at(image, im, decided):
    h, w = image.shape[:2]
    nan = np.isnan(im).any(axis=1)
    im0 = np.where(nan[:, None], -1000, im)
    # positions far away are outside, as long as they are rounded to the integer numbers of the image library
    im0 = np.clip(im0, -1000, 10000)
    near = np.abs(im0 - np.floor(im0) - 0.5) > 0.02
    decided = decided & near.all(axis=1)
    i = np.round(im0).astype(int)
    inside = (i[:, 0] >= 0) & (i[:, 0] < w) & (i[:, 1] >= 0) & (i[:, 1] < h) & ~nan
    channels = 1 if image.ndim == 2 else 4
    out = np.zeros((len(im), channels), dtype=float)
    if channels == 4:
        out[:, 1] = 1
    src = image.reshape(h, w, -1).astype(float)
    if src.shape[2] == 3:
        src = np.dstack([src, np.full((h, w, 1), 255)])
    out[inside] = src[i[inside, 1], i[inside, 0]]
    return out, decided, inside


def colors(got, image, n):
    flat = got.reshape(n, -1).astype(float)
    if image.ndim == 3 and image.shape[2] == 3 and image.dtype != np.uint8:
        # which number is opaque is only specified for the usual images
        flat[flat[:, 3] > 0, 3] = 255
    return flat


def apply(cam, c, change, value):
    """change a parameter of the camera and of the data"""
    p, o, l = c["p"], c["o"], c["l"]
    if change in ("x", "y"):
        v = o[change] + (value - 0.5) * 20
        o[change] = v
        setattr(cam, "pos_%s_m" % change, v)
    elif change == "z":
        o["z"] = 1 + 30 * value
        cam.elevation_m = o["z"]
    elif change in ("heading", "tilt", "roll"):
        o[change] = value * 120
        if o["kind"] == "thr":
            setattr(cam, change + "_deg", o[change])
        else:
            name, v = {"heading": ("yaw_deg", o[change]), "tilt": ("pitch_deg", o[change] - 90), "roll": ("roll_deg", -o[change])}[change]
            setattr(cam, name, v)
    elif change in ("fx", "fy"):
        # longer focal lengths keep the lens invertible
        p[change] = p[change] * (1 + value)
        setattr(cam, "focallength_%s_px" % change[1], p[change])
    elif change in ("cx", "cy"):
        p[change] = (p["w"] if change == "cx" else p["h"]) * (0.4 + 0.2 * value)
        setattr(cam, "center_%s_px" % change[1], p[change])
    elif change == "lens" and l["kind"] != "none":
        l["k"] = [l["k"][0] * value] + list(l["k"][1:])
        setattr(cam, "k1" if l["kind"] == "brown" else "a", l["k"][0])


def nearly(how, value, extent, scaling, Z, last):
    """almost the previous call"""
    if how in ("shift", "corner", "flip"):
        extent, scaling = list(last[0]), last[1]
    if how == "shift":  # by less than a pixel
        extent = [v + (0.2 + 0.6 * value) * scaling for v in extent]
    elif how == "corner":  # one more column or row, at one of the four sides
        i = int(value * 4) % 4
        extent[i] += scaling if i % 2 else -scaling
    elif how == "flip":  # the other side of the ground
        Z = -last[2] if last[2] else -0.5
    return extent, scaling, Z


def run(case, ctx):
    c = {k: dict(v) for k, v in case["c"].items()}
    image = make_image(case["image"], c["p"], case["seed"])
    original = image.copy()
    cam = gen.make_camera(c)
    ctx.label(case["image"], c["p"]["type"], c["l"]["kind"])
    seen = 0
    last = None
    for k, s in enumerate(case["steps"]):
        if s["change"] and k:
            apply(cam, c, s["change"], s["value"])
            ctx.label("change " + s["change"])
        extent, scaling, Z = s["extent"], s["scaling"], s["Z"]
        if last is not None:  # a part of the previous call again
            if s["keep"] in ("both", "extent"):
                extent = last[0]
            if s["keep"] in ("both", "scaling"):
                scaling = last[1]
            extent, scaling, Z = nearly(s["keep"], s["value"], extent, scaling, Z, last)
        last = (extent, scaling, Z)
        e = {"list": list, "tuple": tuple, "array": np.array}[s["extent_type"]](extent)
        kw = {} if Z == 0 and k % 2 == case["seed"] % 2 else dict(Z=Z)  # the ground by default
        if not s["hide"] or case["seed"] % 3:
            kw["hide_backpoints"] = s["hide"]
        got = cam.getTopViewOfImage(image, extent=e, scaling=scaling, **kw)
        xs, ys = np.arange(extent[0], extent[1], scaling), np.arange(extent[2], extent[3], scaling)
        # y increases upwards: the first row is the largest y
        X, Y = np.meshgrid(xs, ys[::-1])
        mesh = np.stack([X.ravel(), Y.ravel(), np.full(X.size, Z)], axis=1)
        want, decided, inside = expected(image, c, mesh, s["hide"])
        require(got.dtype == image.dtype, "a top view of the type %s of an image of the type %s", got.dtype, image.dtype)
        shape_is(got, (len(ys), len(xs)) if case["image"].startswith("gray") else (len(ys), len(xs), 4), "top view, step %d" % k)
        flat = colors(got, image, len(mesh))
        bad = decided & (flat != want).any(axis=1)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            fail("top view, step %d: at x=%g, y=%g: got color %s, expected %s (image position %s)" % (
                k, mesh[i, 0], mesh[i, 1], flat[i].tolist(), want[i].tolist(), ref.image_from_space(c, mesh[i:i + 1], hide=s["hide"])[0].tolist()))
        seen += np.sum(inside & decided)
        require(np.array_equal(image, original), "the image of the caller was modified")
    ctx.nontrivial(seen > 0)


@check("C15", cases(1), quick=2000, shards=3, rule="at least one pixel of the top view shows a pixel of the image")
def top_view(case, ctx):
    run(case, ctx)


@check("C15", cases(5), quick=2000, shards=4, rule="at least one pixel of a top view shows a pixel of the image")
def history(case, ctx):
    """several calls on the same camera, with changes of the camera, the extent, the scaling, and Z in between"""
    run(case, ctx)


@st.composite
def sizes(draw):
    case = draw(cases(1))
    case["dw"], case["dh"] = draw(st.integers(-3, 3)), draw(st.integers(-3, 3))
    return case


@check("C15", sizes(), quick=300, shards=1, rule="an image of a size different from the camera's")
def size_check(case, ctx):
    """an image of a different size is rejected, unless the check is switched off; the default number of pixels of the top view"""
    c = case["c"]
    cam = gen.make_camera(c)
    s = case["steps"][0]
    p = dict(c["p"], w=c["p"]["w"] + case["dw"], h=c["p"]["h"] + case["dh"])
    image = make_image(case["image"], p, case["seed"])
    differs = bool(case["dw"] or case["dh"])
    ctx.nontrivial(differs)
    if differs:
        raises(lambda: cam.getTopViewOfImage(image, extent=s["extent"], scaling=s["scaling"]), "an image of the wrong size")
    got = cam.getTopViewOfImage(image, extent=s["extent"], scaling=s["scaling"], Z=s["Z"], skip_size_check=True)
    xs, ys = np.arange(s["extent"][0], s["extent"][1], s["scaling"]), np.arange(s["extent"][2], s["extent"][3], s["scaling"])
    X, Y = np.meshgrid(xs, ys[::-1])
    mesh = np.stack([X.ravel(), Y.ravel(), np.full(X.size, s["Z"])], axis=1)
    want, decided, inside = expected(image, c, mesh, True)
    flat = colors(got, image, len(mesh))
    require(not (decided & (flat != want).any(axis=1)).any(), "top view of an image with another size")
    # without a scaling: about as many pixels as the image
    e = s["extent"]
    if e[1] - e[0] > 3 and e[3] - e[2] > 3:
        image = make_image(case["image"], c["p"], case["seed"])
        got = gen.make_camera(c).getTopViewOfImage(image, extent=e)
        scaling = np.sqrt((e[1] - e[0]) * (e[3] - e[2]) / (c["p"]["w"] * c["p"]["h"]))
        nx, ny = (e[1] - e[0]) / scaling, (e[3] - e[2]) / scaling
        require(abs(got.shape[1] - nx) <= 1 and abs(got.shape[0] - ny) <= 1, "default scaling: shape %s, expected about %s x %s", got.shape, ny, nx)


@check("C15", cases(1), quick=400, shards=4, rule="a camera that sees the plane, without an extent or plotted")
def guessed_and_plotted(case, ctx):
    """without an extent the top view shows the whole image; it is plotted at its position in space"""
    import matplotlib.pyplot as plt
    c = case["c"]
    p, s = c["p"], case["steps"][0]
    # (plots of colors of other types are limited by the plotting library)
    image = make_image(case["image"].split(" ")[0], p, case["seed"])
    cam = gen.make_camera(c)
    fig = plt.figure()
    try:
        cam.getTopViewOfImage(image, extent=s["extent"], scaling=s["scaling"], Z=s["Z"])
        require(not fig.axes, "the top view is drawn although it was not asked for")
        got = cam.getTopViewOfImage(image, extent=s["extent"], scaling=s["scaling"], Z=s["Z"], do_plot=True, alpha=0.5)
        drawn(fig, got, s["extent"], 1e-9, "top view")
        fig.clf()
        # the border of the image on the plane
        w, h = p["w"], p["h"]
        t = np.arange(0, max(w, h) + 1)
        border = np.vstack([np.column_stack(a) for a in ((np.minimum(t, w), 0 * t), (np.minimum(t, w), 0 * t + h), (0 * t, np.minimum(t, h)), (0 * t + w, np.minimum(t, h)))]).astype(float)
        ground = cam.spaceFromImage(border, Z=s["Z"])
        ground = ground[~np.isnan(ground).any(axis=1)]
        if not len(ground):
            ctx.nontrivial(False)
            return
        want = [ground[:, 0].min(), ground[:, 0].max(), ground[:, 1].min(), ground[:, 1].max()]
        size = max(want[1] - want[0], want[3] - want[2], 1e-9)
        small = min(want[1] - want[0], want[3] - want[2])
        if not (np.abs(want).max() < 1e7 and small > 1e-3 * size):
            ctx.nontrivial(False)
            return
        got = gen.make_camera(c).getTopViewOfImage(image, Z=s["Z"], do_plot=True)
        drawn(fig, got, want, 1e-6 * size, "top view with a guessed extent")
        require(0.5 * w * h - 200 <= got.shape[0] * got.shape[1] <= 2 * w * h + 200, "a top view of %s pixels of an image of %d x %d pixels", got.shape, w, h)
        # it is the top view of this extent
        scaling = np.sqrt((want[1] - want[0]) * (want[3] - want[2]) / (w * h))
        other = gen.make_camera(c).getTopViewOfImage(image, extent=want, scaling=scaling, Z=s["Z"])
        if other.shape == got.shape:
            require(np.mean(other != got) < 0.05, "%d of %d values differ from the top view of the extent %s", np.sum(other != got), got.size, want)
    finally:
        plt.close("all")


def drawn(fig, image, extent, tol, what):
    import matplotlib.pyplot as plt
    ax = fig.axes
    require(len(ax) == 1 and len(ax[0].get_images()) == 1, "%s: %d axes", what, len(ax))
    im = ax[0].get_images()[0]
    require(np.array_equal(np.asarray(im.get_array()), image), "%s: the drawn image differs from the returned image", what)
    close(im.get_extent(), extent, tol, "%s: extent of the drawn image" % what)
    require(im.origin == "upper", "%s: the first row is drawn at the bottom", what)
