"""C31 drawings: wireframe scenes and the information used for fitting"""
import os
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import gen, ref, view, pair
from ..core import check, close, require, arr, fail, shape_is
from .c23_stereo import make_group
from .c24_correspondences import epipolar_distance

ASSUMPTIONS = ["the drawn data is read from the axes of matplotlib, colors and styles are not compared"]


def edges(points):
    """the set of line segments of a polyline with gaps (nan), each as a sorted pair of corners"""
    points = np.asarray(points, float)
    out = []
    for a, b in zip(points[:-1], points[1:]):
        if not (np.isnan(a).any() or np.isnan(b).any()):
            out.append(sorted([tuple(np.round(a, 9) + 0.0), tuple(np.round(b, 9) + 0.0)]))
    return sorted(out)


@st.composite
def objects(draw):
    obs = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["cube", "rect", "grid"]))
        if kind == "grid":
            obs.append([kind, draw(st.lists(gen.num(-20, 20), min_size=1, max_size=4, unique=True)), draw(st.lists(gen.num(-20, 20), min_size=1, max_size=4, unique=True))])
        else:
            obs.append([kind, draw(gen.vec(3, gen.num(-20, 20))), draw(gen.num(0.1, 10))])
    return dict(obs=obs, c=draw(gen.camera(max_px=300, min_px=40, max_pos=30, elevation=gen.num(1, 30), tilt=gen.num(30, 100), strength=0.2)), draw=draw(st.integers(0, 3)) == 0, own_axes=draw(st.booleans()),
                size=[draw(st.integers(40, 300)), draw(st.integers(40, 300))])


def wanted(ob):
    kind, a, b = ob
    out = []
    if kind == "cube":
        corners = arr(a) + arr([[i, j, k] for i in (-1, 1) for j in (-1, 1) for k in (-1, 1)]) * b / 2
        pairs = [(i, j) for i in range(8) for j in range(i) if bin(i ^ j).count("1") == 1]
        out = [(corners[i], corners[j]) for i, j in pairs]
    elif kind == "rect":
        c = arr(a) + arr([[-1, 0, -1], [1, 0, -1], [1, 0, 1], [-1, 0, 1]]) * b / 2
        out = [(c[i], c[i - 1]) for i in range(4)]
    else:
        out = [(arr([min(a), y, 0]), arr([max(a), y, 0])) for y in b] + [(arr([x, min(b), 0]), arr([x, max(b), 0])) for x in a]
    return out


def rendered(image, cam, obs, ctx, margin=6):
    """the objects, and nothing else, are drawn where the camera sees them (the frame at the border is not examined)"""
    h, w = image.shape[:2]
    if min(h, w) < 4 * margin:
        return
    ink = (np.abs(image - [68, 1, 84]).max(axis=-1) > 24)
    free = np.ones((h, w), bool)
    yy, xx = np.mgrid[:h, :w] + 0.5
    for pts in obs:
        im = np.asarray(cam.imageFromSpace(pts), float)
        for a, b in zip(im[:-1], im[1:]):
            if np.isnan(a).any() or np.isnan(b).any():
                continue
            if not max(np.abs(a).max(), np.abs(b).max()) < 1e4:
                return
            d = b - a
            t = np.clip(((xx - a[0]) * d[0] + (yy - a[1]) * d[1]) / max(d @ d, 1e-30), 0, 1)
            dist = np.hypot(xx - a[0] - t * d[0], yy - a[1] - t * d[1])
            free &= dist > 5
            on = (dist < 0.7) & (xx > margin) & (xx < w - margin) & (yy > margin) & (yy < h - margin)
            for j, i in list(zip(*np.nonzero(on)))[::5]:
                if d @ d < 4:
                    continue
                ctx.label("seen")
                require(ink[j - 2:j + 3, i - 2:i + 3].any(), "the line from %s to %s is not drawn at the pixel %s of the rendered image", a, b, (i, j))
    free[:margin] = free[-margin:] = False
    free[:, :margin] = free[:, -margin:] = False
    require(not (ink & free).any(), "%d pixels are drawn apart from all lines in the rendered image, as %s", (ink & free).sum(), np.argwhere(ink & free)[:1])


@check("C31", objects(), quick=400, shards=4, rule="every case")
def scene(case, ctx):
    scene = ct.Scene() if hasattr(ct, "Scene") else __import__("cameratransform.scene", fromlist=["Scene"]).Scene()
    returned = []
    for ob in case["obs"]:
        ctx.label(ob[0])
        if ob[0] == "cube":
            returned.append(scene.addCube(ob[1], ob[2]))
        elif ob[0] == "rect":
            returned.append(scene.addRect(ob[1], ob[2]))
        else:
            returned.append(scene.addGrid(ob[1], ob[2]))
    require(len(scene.objects) == len(case["obs"]), "%d objects in the scene instead of %d", len(scene.objects), len(case["obs"]))
    for ob, a, b in zip(case["obs"], returned, scene.objects):
        want = sorted([sorted([tuple(np.round(p, 9) + 0.0), tuple(np.round(q, 9) + 0.0)]) for p, q in wanted(ob)])
        for pts, what in ((a, "returned"), (b, "in the scene")):
            shape_is(pts, (len(pts), 3), "points of a %s" % ob[0])
            got = edges(pts)
            require(len(got) == len(want), "%d edges of a %s instead of %d (%s)", len(got), ob[0], len(want), what)
            close(arr(got), arr(want), 1e-8, "edges of a %s, %s" % (ob[0], what))
    if case["draw"]:
        import matplotlib.pyplot as plt
        c = case["c"]
        cam = gen.make_camera(c)
        fig = plt.figure()
        try:
            # without a camera: only the views
            axes = [fig.add_subplot(2, 2, i + 1) for i in range(4)]
            scene.plotSceneViews(axes=axes)
            for ax, dims in zip(axes[:3], ((0, 1), (0, 2), (1, 2))):
                data = [np.asarray(l.get_xydata(), float) for l in ax.get_lines()]
                for pts in returned:
                    require(any(np.array_equal(d, pts[:, list(dims)], equal_nan=True) for d in data), "an object is missing in the view %s without a camera", dims)
            fig.clf()
            scene.setCamera(cam)
            if case["own_axes"]:
                axes = [fig.add_subplot(2, 2, i + 1) for i in range(4)]
                scene.plotSceneViews(axes=axes)
            else:
                scene.plotSceneViews()
                axes = fig.axes
                require(len(axes) == 4, "%d axes", len(axes))
            for ax, dims in zip(axes[:3], ((0, 1), (0, 2), (1, 2))):
                data = [np.asarray(l.get_xydata(), float) for l in ax.get_lines()]
                require([ax.get_xlabel()[:1], ax.get_ylabel()[:1]] == ["xyz"[d] for d in dims], "labels %r, %r of the view %s", ax.get_xlabel(), ax.get_ylabel(), dims)
                cone = cam.getCameraCone()
                require(any(d.shape == (len(cone), 2) and np.allclose(d, cone[:, list(dims)], equal_nan=True) for d in data), "the camera is missing in the view %s", dims)
                for pts in returned:
                    require(any(np.array_equal(d, pts[:, list(dims)], equal_nan=True) for d in data), "an object is missing in the view %s", dims)
            data = [np.asarray(l.get_xydata(), float) for l in axes[3].get_lines()]
            for pts in returned:
                im = cam.imageFromSpace(pts)
                require(any(d.shape == im.shape and np.allclose(d, im, equal_nan=True, atol=1e-6) for d in data), "an object is missing in the image")
            drawn_horizon = False
            for d in data:
                ok = ~np.isnan(d).any(axis=1)
                if len(d) and ok.all() and d[0, 0] == 0 and d[-1, 0] == c["p"]["w"]:
                    want = cam.getImageHorizon(d[:, 0])
                    drawn_horizon |= np.allclose(d, want, equal_nan=True)
            require(drawn_horizon, "the horizon is missing in the image")
            require(axes[3].get_xlim() == (0, c["p"]["w"]) and axes[3].get_ylim() == (c["p"]["h"], 0), "limits of the image %s %s", axes[3].get_xlim(), axes[3].get_ylim())
        finally:
            plt.close("all")
        from PIL import Image
        path = os.path.join(os.environ.get("VP_SCRATCH", "/tmp"), "render_%d.png" % os.getpid())
        try:
            for w, h in ((c["p"]["w"], c["p"]["h"]), case["size"]):
                # also for a camera with another size of the image
                cam.image_width_px, cam.image_height_px = w, h
                scene.renderImage(path)
                require(os.path.exists(path), "no rendered image is written")
                with Image.open(path) as im:
                    require(abs(im.size[0] - w) <= 1 and abs(im.size[1] - h) <= 1, "a rendered image of %s px for a camera of %d x %d px", im.size, w, h)
                    rendered(np.asarray(im.convert("RGB"), float), cam, returned, ctx)
        finally:
            plt.close("all")
            if os.path.exists(path):
                os.remove(path)
        ctx.label("drawn")


@st.composite
def infos(draw):
    c = draw(gen.camera(max_px=200, min_px=40, max_pos=30, elevation=gen.num(3, 40), tilt=gen.num(20, 90), strength=0.2, reach=1.4))
    c["o"]["roll"] = draw(gen.num(-10, 10))
    return dict(c=c, which=draw(st.lists(st.sampled_from(["height", "length", "landmark", "gps", "horizon"]), min_size=1, max_size=3)), n=draw(st.integers(1, 4)), bulk=draw(gen.bulk()), h=draw(gen.num(0.2, 3)), Z=draw(gen.num(-2, 2)), only=draw(st.booleans()),
                image=draw(st.booleans()), single=draw(st.booleans()), change=draw(st.booleans()), each=draw(st.booleans()))


def has(collection, want, what):
    """want (N, 2) is one of the drawn arrays"""
    want = np.atleast_2d(want)
    for d in collection:
        d = np.atleast_2d(np.asarray(np.ma.filled(d, np.nan), float))
        if d.shape == want.shape and np.allclose(d, want, equal_nan=True, atol=1e-6, rtol=1e-7):
            return
    fail("%s is not drawn: %s, only %s" % (what, want.tolist(), [np.asarray(d).tolist() for d in collection][:6]))


@check("C31", infos(), quick=300, shards=8, rule="every case")
def information(case, ctx):
    """observed and predicted positions are drawn, the camera is unchanged"""
    import matplotlib.pyplot as plt
    c = case["c"]
    p = c["p"]
    cam = gen.make_camera(c)
    cam.setGPSpos(40.0, 10.0, c["o"]["z"])
    size = np.array([p["w"], p["h"]], float)
    many = gen.expand(case["bulk"] + 9, 80, 0.05, 0.95, 2) * size
    good = many[~np.isnan(cam.spaceFromImage(many, Z=case["Z"])).any(axis=1) & ~np.isnan(cam.spaceFromImage(many, Z=0)).any(axis=1)]
    n = case["n"]
    if len(good) < 2 * n:
        ctx.nontrivial(False)
        return
    a, b = good[:n], good[n:2 * n]
    if case["single"]:
        a, b = a[0], b[0]
    # one size for all objects or one for each of them
    h = case["h"] * (1 + 0.3 * np.arange(n)) if case["each"] and not case["single"] else case["h"]
    hv = np.asarray(h)[..., None] * np.array([0, 0, 1.0])
    expect = []   # functions giving (observed, predicted, what)
    whole = False
    for w in case["which"]:
        ctx.label(w)
        if w == "height":
            cam.addObjectHeightInformation(a.copy(), b.copy(), h, 0.1, only_plot=case["only"])
            expect.append(lambda: (b, cam.imageFromSpace(cam.spaceFromImage(a.copy(), Z=0) + hv), "head"))
            expect.append(lambda: (a, None, "feet"))
        elif w == "length":
            cam.addObjectLengthInformation(a.copy(), b.copy(), h, 0.1, Z=case["Z"], only_plot=case["only"])

            def length():
                f, e = cam.spaceFromImage(a.copy(), Z=case["Z"]), cam.spaceFromImage(b.copy(), Z=case["Z"])
                d = e - f
                return b, cam.imageFromSpace(f + d / np.linalg.norm(d, axis=-1)[..., None] * np.asarray(h)[..., None]), "back"
            expect.append(length)
            expect.append(lambda: (a, None, "front"))
        elif w in ("landmark", "gps"):
            space = cam.spaceFromImage(a.copy(), Z=0) + [0.3, 0.2, 0.1]
            if w == "landmark":
                cam.addLandmarkInformation(a.copy(), space.copy(), np.array([1.0, 1, 2]), only_plot=case["only"])
                expect.append(lambda space=space: (a, cam.imageFromSpace(space), "landmark"))
            else:
                geo = cam.gpsFromSpace(space)
                cam.addLandmarkInformationGPS(a.copy(), geo.copy(), np.array([1.0, 1, 2]), only_plot=case["only"])
                expect.append(lambda geo=geo: (a, cam.imageFromSpace(cam.spaceFromGPS(geo)), "GPS landmark"))
        else:
            cam.addHorizonInformation(a.copy(), 2.0, only_plot=case["only"])
            expect.append(lambda: (a, cam.getImageHorizon(a[..., 0]), "horizon"))
            whole = True
    if case["change"]:
        # the drawing follows the camera
        cam.elevation_m = float(cam.elevation_m) * 1.1
    before = {k: getattr(cam, k) for k in cam.parameters.parameters}
    prob = cam.getLogProbability()
    if case["only"]:
        close(prob, 0.0, 0, "log probability of information which is only plotted")
    fig = plt.figure()
    try:
        if case["image"]:
            cam.plotFitInformation(np.zeros((p["h"], p["w"])))
        else:
            cam.plotFitInformation()
        ax = fig.gca()
        lines = [l.get_xydata() for l in ax.get_lines()]
        dots = [s.get_offsets() for s in ax.collections]
        for fn in expect:
            observed, predicted, what = fn()
            has(lines, observed, "the observed position of the %s" % what)
            if predicted is not None:
                start = a if what == "back" else observed
                segments = [np.array(e) for l in lines for e in edges(np.ma.filled(l, np.nan))]
                for q, r in zip(np.atleast_2d(start), np.atleast_2d(predicted)):
                    if np.isfinite(q).all() and np.isfinite(r).all() and np.abs(r).max() < 1e6:
                        want = arr(sorted([tuple(q), tuple(r)]))
                        require(any(np.allclose(e, want, atol=1e-5, rtol=1e-7) or np.allclose(e[::-1], want, atol=1e-5, rtol=1e-7) for e in segments), "the line from %s to the predicted position of the %s at %s is missing", q, what, r)
                has(dots, predicted, "the predicted position of the %s" % what)
        if whole:  # the horizon in the whole image
            best = max((l for l in lines if len(l) > 1 and not np.isnan(l).any() and (np.diff(l[:, 0]) > 0).all() and np.allclose(l, cam.getImageHorizon(l[:, 0]), equal_nan=True)), key=lambda l: np.ptp(l[:, 0]), default=None)
            if not np.isnan(cam.getImageHorizon([0, p["w"] / 2, p["w"] - 1])).any():
                require(best is not None and best[0, 0] <= 0.1 * p["w"] and best[-1, 0] >= 0.9 * p["w"] - 1, "the horizon is only drawn at %s", None if best is None else best[[0, -1], 0])
        require(ax.get_xlim() == (0, p["w"]) and ax.get_ylim() == (p["h"], 0), "limits of the image %s %s", ax.get_xlim(), ax.get_ylim())
        require(len(ax.get_images()) == int(case["image"]), "%d images", len(ax.get_images()))
    finally:
        plt.close("all")
    for k, v in before.items():
        close(getattr(cam, k), v, 0, "%s after plotting" % k)
    close(cam.getLogProbability(), prob, 0, "log probability after plotting")


@st.composite
def stereo(draw):
    case = draw(pair.cameras(2, types=("rect",), lenses=("none",), max_px=800))
    case["noise"] = draw(st.sampled_from([0, 0, 2, 30]))
    case["images"] = draw(st.booleans())
    return case


@check("C31", stereo(), quick=160, shards=8, rule="at least one pair of pixels with a well determined epipolar line")
def my_epipolar_lines(case, ctx):
    """each point is drawn with the closest point of its epipolar line and the distance"""
    import matplotlib.pyplot as plt
    pts, (im1, im2) = pair.seen(case, 12)
    c = [pair.nth(case, 0), pair.nth(case, 1)]
    if case["noise"]:
        im1 = im1 + gen.expand(case["bulk"] + 1, len(im1), -1, 1, 2) * case["noise"]
        im2 = im2 + gen.expand(case["bulk"] + 2, len(im2), -1, 1, 2) * case["noise"]
    im1, im2 = im1[:4], im2[:4]
    if not len(im1):
        ctx.nontrivial(False)
        return
    group = make_group(case)
    some = False
    fig = plt.figure()
    try:
        if case["images"]:
            group.plotMyEpiploarLines(im1.copy(), im2.copy(), np.zeros((c[0]["p"]["h"], c[0]["p"]["w"])), np.zeros((c[1]["p"]["h"], c[1]["p"]["w"])))
        else:
            group.plotMyEpiploarLines(im1.copy(), im2.copy())
        require(len(fig.axes) == 2, "%d axes", len(fig.axes))
        for k, ax in enumerate(fig.axes):
            a, b = (im1, im2) if k == 0 else (im2, im1)
            require(len(ax.get_images()) == int(case["images"]), "%d images", len(ax.get_images()))
            want = epipolar_distance(c[1 - k], c[k], b, a)
            lines = [np.asarray(l.get_xydata(), float) for l in ax.get_lines()]
            points = [l[0] for l in lines if len(l) == 1]
            joins = [l for l in lines if len(l) == 2]
            texts = [(t.get_position(), float(t.get_text())) for t in ax.texts]
            for i in range(len(a)):
                require(any(np.allclose(q, a[i], atol=1e-9) for q in points), "the point %s is not drawn in image %d", a[i], k + 1)
                # the line is drawn through points 10 km away
                o1 = ref.o_pos(c[1 - k]["o"])
                d = view.directions(c[1 - k], b[i:i + 1])
                q = [ref.camera_from_space(c[k]["o"], o1 + d * f) for f in (-10000, -9900)]
                e = [ref.image_from_camera(c[k]["p"], v, hide=False)[0] for v in q]
                length = np.linalg.norm(e[0] - e[1])
                err = 1e-12 * (np.abs(e).max() + c[k]["p"]["fx"] + c[k]["p"]["fy"])
                err = err * (1 + np.linalg.norm(a[i] - e[0]) / length) if length > 0 else np.inf
                if not err < 1e-3 or min(abs(v[0, 2]) for v in q) < 1 or not np.isfinite(want[i]):
                    continue
                some = True
                found = [v for pos, v in texts if np.allclose(pos, a[i], atol=1e-9)]
                require(any(abs(v - want[i]) <= 0.0501 + err for v in found), "the distance %s of the point %s in image %d is not written, but %s", want[i], a[i], k + 1, found)
                found = [np.linalg.norm(l[1] - l[0]) for l in joins if np.allclose(l[0], a[i], atol=1e-9) or np.allclose(l[1], a[i], atol=1e-9)]
                require(any(abs(v - want[i]) <= err for v in found), "the perpendicular of length %s of the point %s in image %d is not drawn, but %s", want[i], a[i], k + 1, found)
    finally:
        plt.close("all")
    ctx.nontrivial(some)


@check("C31", stereo(), quick=160, shards=8, rule="at least 10 pairs of pixels")
def epilines(case, ctx):
    """the points and, for points without noise, their epipolar lines and the border of the image are drawn"""
    import matplotlib.pyplot as plt
    pts, (im1, im2) = pair.seen(case, 120)
    c = [pair.nth(case, 0), pair.nth(case, 1)]
    im1, im2 = im1[:30], im2[:30]
    base = np.linalg.norm(ref.o_pos(c[0]["o"]) - ref.o_pos(c[1]["o"]))
    if len(im1) < 10 or base < 0.05 * case["dist"]:
        ctx.nontrivial(False)
        return
    if case["noise"]:
        im1 = im1 + gen.expand(case["bulk"] + 1, len(im1), -1, 1, 2) * case["noise"]
    group = make_group(case)
    fig = plt.figure()
    try:
        import cv2
        F = cv2.findFundamentalMat(im1, im2)[0]
        if F is None or F.shape != (3, 3):
            ctx.nontrivial(False)
            return
        cv2.setRNGSeed(1)
        group.plotEpilines(im1.copy(), im2.copy(), np.zeros((c[0]["p"]["h"], c[0]["p"]["w"])), np.zeros((c[1]["p"]["h"], c[1]["p"]["w"])))
        require(len(fig.axes) == 2, "%d axes", len(fig.axes))
        for k, ax in enumerate(fig.axes):
            a, b = (im1, im2) if k == 0 else (im2, im1)
            require(len(ax.get_images()) == 1, "%d images", len(ax.get_images()))
            lines = [np.asarray(l.get_xydata(), float) for l in ax.get_lines()]
            points = arr([l[0] for l in lines if len(l) == 1])
            for q in a:
                require(np.any(np.all(np.abs(points - q) < 1e-9, axis=1)), "the point %s is not drawn in image %d", q, k + 1)
            border = group[k].getImageBorder()
            require(any(l.shape == border.shape and np.allclose(l, border) for l in lines), "the border of image %d is not drawn", k + 1)
            p = c[k]["p"]
            if not case["noise"]:
                # without noise, most lines (RANSAC with a threshold of 3 px) pass close to their point
                line = np.column_stack([b, np.ones(len(b))]) @ (F if k == 0 else F.T)
                good = np.abs(np.sum(line[:, :2] * a, axis=1) + line[:, 2]) < 3 * np.hypot(line[:, 0], line[:, 1])
                if np.mean(good) < 0.9:
                    continue   # OpenCV did not find the geometry
                inner = a[np.all((a > 5) & (a < arr([p["w"], p["h"]]) - 5), axis=1) & good]
                near = 0
                for q in inner:
                    near += any(abs(np.cross(l[1] - l[0], q - l[0])) < 3.5 * np.linalg.norm(l[1] - l[0]) for l in lines if len(l) == 2)
                require(near >= 0.6 * len(inner), "only %d of %d points have a line in image %d", near, len(inner), k + 1)
            for l in lines:
                if len(l) == 2:
                    # both ends at the border of the image
                    on = (np.abs(l) < 1e-3) | (np.abs(l - [p["w"], p["h"]]) < 1e-3)
                    require(np.all(on.any(axis=1)) and np.all(l >= -1e-3) and np.all(l <= arr([p["w"], p["h"]]) + 1e-3), "a line in image %d does not end at the border: %s", k + 1, l)
    finally:
        plt.close("all")
