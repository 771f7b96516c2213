"""C35 calibration with images of a chess board"""
import contextlib
import io
import json
import os
import re
import runpy
import shutil
import sys
import tempfile

os.environ["OPENCV_LOG_LEVEL"] = "SILENT"
import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import board, core, gen, qt
from ..core import check, close, require, fail

ASSUMPTIONS = ["the images show a flat board of squares with 9 x 6 inner corners under tilted angles, with a lens distortion that is invertible in the image",
               "whether a board is found in an image is decided by OpenCV (compared with OpenCV run on the same image)",
               "message boxes and file dialogs of the calibration window are replaced by stand-ins"]

FOLDER = os.path.join(core.REPO, "cameratransform", "gui_tools", "calibrate")
SIZES = [[320, 240], [400, 300], [640, 480], [300, 400], [512, 512], [641, 427]]


@st.composite
def lens(draw):
    return [draw(st.one_of(st.just(0.0), gen.num(-0.2, 0.2))), draw(st.one_of(st.just(0.0), gen.num(-0.1, 0.1))), draw(st.one_of(st.just(0.0), gen.num(-0.05, 0.05)))]


def camera(case):
    w, h = case["size"]
    f = max(w, h) * case["f"]
    k = np.array(case["k"], dtype=float)
    cam = dict(f=np.array([f, f * case["ratio"]]), c=np.array([(w - 1) / 2, (h - 1) / 2]) + np.array(case["c"]) * w, k=k)
    # too strong distortions are weakened
    while not board.monotonic(cam, w, h):
        cam["k"] = cam["k"] / 2
    return cam


def poses(cam, w, h, numbers, margin):
    """poses in different directions, far enough away to be completely in the image"""
    result = []
    for i, (a, b, c, d, e, g) in enumerate(numbers):
        tilt = 0.35 + 0.25 * a
        direction = 2 * np.pi * (i + 0.5 * b) / len(numbers)
        distance = 6.0
        shift = (np.array([e, g]) - 0.5) * 0.3 * min(w / cam["f"][0], h / cam["f"][1])
        while True:
            p = board.pose(cam, tilt, direction, 2 * np.pi * c, distance, shift)
            # all points have to be in front of the camera, where the distortion is invertible
            X = board.POINTS @ p[0].T + p[1]
            if X[:, 2].min() > 0.5 and np.abs(X[:, :2] / X[:, 2:]).max() < 1.5 * max(w / cam["f"][0], h / cam["f"][1]):
                # the corners of the board, one square outside of the corner points
                if board.inside(board.project(board.POINTS, cam, p), w, h, margin):
                    break
            distance *= 1.04
        result.append(p)
    return result


@st.composite
def fits(draw):
    flags = draw(gen.vec(5, st.booleans()))
    n = draw(st.integers(7, 10))
    # a wide-angle camera with a strong distortion of a high order
    strong = draw(st.integers(0, 3)) == 0
    k = [draw(gen.num(-0.1, 0.2)), draw(gen.num(-0.3, 0.1)), draw(gen.num(0.1, 0.5))] if strong else draw(lens())
    return dict(size=draw(st.sampled_from(SIZES)), f=draw(gen.num(0.5, 0.7) if strong else gen.num(0.7, 2.2)), ratio=draw(st.one_of(st.just(1.0), gen.num(0.8, 1.25))), c=draw(gen.vec(2, gen.num(-0.05, 0.05))), k=k, n=n,
                bulk=draw(gen.bulk()), threads=draw(st.sampled_from([None, 1, 3])), square=draw(st.sampled_from([None, 1, 25.4, 0.03])), blank=draw(st.lists(st.sampled_from(["blank", "small", "few"]), max_size=2)),
                flags=flags, ext=draw(st.sampled_from(["png", "jpg"])), color=draw(st.booleans()), chess=draw(st.booleans()), wrong=draw(st.integers(0, 2)), again=draw(st.booleans()), second=draw(gen.vec(5, st.booleans())), process=draw(st.booleans()), row=draw(st.integers(0, 9)))


def pattern(pos, level=0):
    """the value of the images at a position; the level (0 to 7) tells which image it is"""
    return 90 + 40 * np.sin(pos[..., 0] / 6) + 40 * np.sin(pos[..., 1] / 6) + 8 * level


def gradient(w, h, level=0):
    return np.round(pattern(np.stack(np.meshgrid(np.arange(w), np.arange(h)), -1), level)).astype(np.uint8)


def seen_radius(cam, views):
    """where the calibration is determined by the images of the board"""
    return np.max([np.linalg.norm((board.project(board.POINTS, cam, v) - cam["c"]) / cam["f"], axis=1).max() for v in views])


def scene(case, cam):
    w, h = case["size"]
    numbers = gen.expand(case["bulk"], case["n"], 0, 1, 6)
    return poses(cam, w, h, numbers, 2)


def compare(cam, poses_, got, what, center_tol=0.05):
    """the calibration describes the camera, where it has been seen"""
    f = np.array([got["focallength_x_px"], got["focallength_y_px"]], dtype=float)
    k = np.array([got["k1"], got["k2"], got["k3"]], dtype=float)
    close([got["center_x_px"], got["center_y_px"]], cam["c"], center_tol, "%s: centre" % what)
    xy = []
    for R, t in poses_:
        X = board.POINTS @ R.T + t
        xy.append(X[:, :2] / X[:, 2:])
    xy = np.concatenate(xy)
    # the corner points are stored with single precision
    close(board.distort(xy, k) * f, board.distort(xy, cam["k"]) * cam["f"], 0.1, "%s: position of a point relative to the centre, f=%s instead of %s, k=%s instead of %s" % (what, f, cam["f"], k, cam["k"]))


def write_image(path, image):
    from PIL import Image
    Image.fromarray(image).save(path, **(dict(quality=95) if path.endswith("jpg") else {}))


@check("C35", fits(), quick=240, shards=4, rule="at least 7 images with a board")
def script(case, ctx):
    w, h = case["size"]
    cam = camera(case)
    views = scene(case, cam)
    folder = tempfile.mkdtemp(dir=os.environ.get("VP_SCRATCH"))
    try:
        out = os.path.join(folder, "result")
        os.mkdir(out)
        image = gradient(w, h)
        # the corner points have been found before, they are stored next to the images
        for i, v in enumerate(views):
            write_image(os.path.join(folder, "im%d.png" % i), image)
            np.savetxt(os.path.join(out, "im%d_corners.txt" % i), board.project(board.POINTS, cam, v))
        if case["chess"]:
            write_image(os.path.join(out, "im0_chess.png"), np.dstack([image] * 3))
        # images that cannot be used: without a board, of another size, or with an incomplete list of corner points
        for i, kind in enumerate(case["blank"]):
            write_image(os.path.join(folder, "imx%d.png" % i), image[:-20] if kind == "small" else image)
            if kind == "few":
                np.savetxt(os.path.join(out, "imx%d_corners.txt" % i), board.project(board.POINTS, cam, views[0])[:30])
        args = ["--debug", out]
        if case["threads"] is not None:
            args += ["--threads", str(case["threads"])]
        if case["square"] is not None:
            args += ["--square_size", str(case["square"])]
        # (the size is that of the first image)
        argv, text = sys.argv, io.StringIO()
        sys.argv = ["calibrate.py"] + args + [os.path.join(folder, "im*.png")]
        real_glob = __import__("glob").glob
        try:
            __import__("glob").glob = lambda *a, **b: sorted(real_glob(*a, **b))
            with contextlib.redirect_stdout(text):
                runpy.run_path(os.path.join(FOLDER, "calibrate.py"), run_name="__main__")
        finally:
            sys.argv = argv
            __import__("glob").glob = real_glob
        got = {a: float(b) for a, b in re.findall(r"(\w+) *= *(-?[\d.]+(?:e-?\d+)?)", text.getvalue())}
        names = ["focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "k1", "k2", "k3"]
        require(all(n in got for n in names), "the parameters are not printed: %s", text.getvalue()[-500:])
        # the centre is printed as a whole number
        compare(cam, views, got, "printed calibration", 1.05)
        path = os.path.join(out, "im0_undistorted.png")
        require(os.path.exists(path) == case["chess"], "undistorted image %s", "missing" if case["chess"] else "of an image that does not exist")
        if case["chess"]:
            from PIL import Image
            shown = np.array(Image.open(path)).astype(float)
            x, y = np.meshgrid(np.arange(w), np.arange(h))
            pos = board.distort((np.stack([x, y], -1) - cam["c"]) / cam["f"], cam["k"]) * cam["f"] + cam["c"]
            ok = (pos > 3).all(-1) & (pos[..., 0] < w - 4) & (pos[..., 1] < h - 4)
            ok &= np.linalg.norm(pos - cam["c"], axis=-1) / max(cam["f"]) < seen_radius(cam, views) * 0.98
            want = pattern(pos)
            close(shown[..., 0][ok], want[ok], 4.0, "undistorted image")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ctx.label("threads %s" % case["threads"], *case["blank"])


@st.composite
def pictures(draw):
    return dict(size=draw(st.sampled_from(SIZES[:4])), f=draw(gen.num(0.7, 2.2)), ratio=draw(st.one_of(st.just(1.0), gen.num(0.9, 1.1))), c=draw(gen.vec(2, gen.num(-0.05, 0.05))), k=draw(lens()), n=1,
                bulk=draw(gen.bulk()), expect=draw(st.sampled_from(["none", "same", "same", "turned", "other"])), output=draw(st.sampled_from(["folder", "folder", "none"])), color=draw(st.booleans()), blank=draw(st.integers(0, 5)), points=draw(st.booleans()))


def order_error(corners, want, found):
    """the largest distance to the true corner points, which can be ordered from either end of the board

    (OpenCV rarely takes something else for one of the corner points: such points are not compared)"""
    return min(np.abs(corners - t)[np.abs(found - t).max(axis=1) < 3].max() for t in (want, want[::-1]) if (np.abs(found - t).max(axis=1) < 3).sum() > 45)


@check("C35", pictures(), quick=80, shards=4, rule="an image in which the board is found")
def corners(case, ctx):
    import cv2
    from cameratransform.gui_tools.calibrate import calibrate
    w, h = case["size"]
    cam = camera(case)
    view = poses(cam, w, h, gen.expand(case["bulk"], 1, 0, 1, 6), 14)[0]
    truth = board.project(board.POINTS, cam, view)
    side = np.linalg.norm(np.diff(truth.reshape(6, 9, 2), axis=1), axis=-1).min()
    image = gradient(w, h) if case["blank"] == 0 else board.render(cam, view, w, h)
    # an image taken with the camera turned to portrait format
    if case["expect"] == "turned":
        image, truth = image.T.copy(), truth[:, ::-1]
    folder = tempfile.mkdtemp(dir=os.environ.get("VP_SCRATCH"))
    try:
        path = os.path.join(folder, "board.picture.png")
        write_image(path, np.dstack([image] * 3) if case["color"] else image)
        out = None if case["output"] == "none" else os.path.join(folder, "out")
        if out:
            os.mkdir(out)
        pattern = board.POINTS.astype(np.float32) if case["points"] else None
        size = dict(none=(None, None), same=(w, h), turned=(w, h), other=(w + 1, h))[case["expect"]]
        result = calibrate.processImage(path, (9, 6), size[0], size[1], pattern, out)
        # an image turned to portrait format is turned to the format of the others
        oriented, truth = (image.T.copy(), truth[:, ::-1]) if case["expect"] == "turned" and w != h else (image, truth)
        found, rough = cv2.findChessboardCorners(oriented, (9, 6))
        # without a board, or with another size than the other images of the batch
        if case["expect"] == "other" or not found:
            require(result is None, "a result for an image %s", "of another size" if case["expect"] == "other" else "without a board")
            require(not out or os.listdir(out) == [], "files are written for an image that is not used: %s", out and os.listdir(out))
            ctx.nontrivial(False)
            ctx.label("not used")
            return
        require(result is not None, "the board is not found")
        got, points = result
        core.shape_is(got, (54, 2), "corner points")
        require(points is pattern or np.array_equal(points, pattern), "the pattern has been changed")
        rough = np.reshape(rough, (54, 2))
        if side > 8 and max((np.abs(rough - t).max(axis=1) < 3).sum() for t in (truth, truth[::-1])) > 45:
            error = order_error(np.array(got, dtype=float), truth, rough)
            require(error < 0.6, "the corner points are wrong by up to %s px", error)
        if out:
            name = "board.picture"
            require(sorted(os.listdir(out)) == [name + "_chess.png", name + "_corners.txt"], "files: %s", sorted(os.listdir(out)))
            close(np.loadtxt(os.path.join(out, name + "_corners.txt")), got, 1e-3, "stored corner points")
            shown = cv2.imread(os.path.join(out, name + "_chess.png"))
            require(shown is not None and shown.shape[:2] == oriented.shape[:2], "image with the corner points: %s", None if shown is None else shown.shape)
            # the image is drawn below the markers
            far = np.min(np.linalg.norm(np.stack(np.meshgrid(np.arange(oriented.shape[1]), np.arange(oriented.shape[0])), -1)[::7, ::7, None] - truth, axis=-1), axis=-1) > side * 1.2 + 10
            require(np.array_equal(shown[::7, ::7][far], np.dstack([oriented] * 3)[::7, ::7][far]), "the image with the corner points does not show the image")
            # the stored corner points are used from now on, the image is not needed
            os.remove(path)
            again = calibrate.processImage(path, (9, 6), size[0], size[1], pattern, out)
            require(again is not None, "the stored corner points are not used")
            close(again[0], got, 1e-4, "corner points read again")
            if pattern is not None:
                require(calibrate.processImage(path, (7, 6), size[0], size[1], pattern[:42], out) is None, "stored corner points of another pattern are used")
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    ctx.label(case["expect"])


FLAGS = ["input_fix_center", "input_fix_aspect", "input_fix_k1", "input_fix_k2", "input_fix_k3"]
NAMES = ["image_width_px", "image_height_px", "focallength_x_px", "focallength_y_px", "center_x_px", "center_y_px", "k1", "k2", "k3"]


def same_camera(window, cam, views, case, what):
    cal = window.calibration
    compare(cam, views, cal, what)
    w, h = case["size"]
    require((cal["image_width_px"], cal["image_height_px"]) == (w, h), "%s: image size %s", what, (cal["image_width_px"], cal["image_height_px"]))
    for n in NAMES:
        close(getattr(window.camera, n), cal[n], 0, "%s: parameter %s of the camera" % (what, n))
        require(n in window.calibration_result.text(), "%s: %s is not displayed", what, n)
    require(window.button_save.isEnabled(), "%s: cannot be saved", what)
    # the lens of the camera uses the new parameters
    pts = gen.expand(case["bulk"], 20, 0.2, 0.8, 2) * [w, h]
    k, f, c = [np.array([cal[a] for a in b]) for b in (["k1", "k2", "k3"], ["focallength_x_px", "focallength_y_px"], ["center_x_px", "center_y_px"])]
    close(window.camera.lens.distortedFromImage(pts), board.distort((pts - c) / f, k) * f + c, 1e-6 * w, "%s: distorted points" % what)


def displayed(window, cam, level, case, what, seen=None):
    """the upper view shows the image, the lower view the image without the distortion"""
    w, h = case["size"]
    x, y = np.meshgrid(np.arange(w), np.arange(h))
    here = np.stack([x, y], -1)
    for view, item in (("upper", window.preview_pixMapItem), ("lower", window.preview_pixMapItem2)):
        shown = qt.pixels(item.pixmap()).astype(float)
        core.shape_is(shown, (h, w, 3), "%s: %s image" % (what, view))
        pos = board.distort((here - cam["c"]) / cam["f"], cam["k"]) * cam["f"] + cam["c"] if cam and view == "lower" else here
        ok = (pos > 3).all(-1) & (pos[..., 0] < w - 4) & (pos[..., 1] < h - 4)
        if seen is not None and view == "lower":
            ok &= np.linalg.norm(pos - cam["c"], axis=-1) / max(cam["f"]) < seen * 0.98
        for i in range(3):
            # the nearest pixel is displayed
            want = pattern(pos, level)[ok]
            close(shown[..., i][ok], want, 4.0 if pos is here else 9.0, "%s: %s image" % (what, view))
            require(ok.sum() < 100 or abs(np.mean(shown[..., i][ok] - want)) < 2.5, "%s: %s image: brightness differs by %s", what, view, np.mean(shown[..., i][ok] - want))


@check("C35", fits(), quick=160, shards=4, rule="at least 7 images with a board that are used")
def window(case, ctx):
    app = qt.app()
    from qtpy import QtWidgets
    if FOLDER not in sys.path:
        sys.path.insert(0, FOLDER)
    from cameratransform.gui_tools.calibrate import gui_calibrate
    from cameratransform.gui_tools.calibrate.gui_calibrate import Window
    import matplotlib.pyplot as plt
    case = dict(case)
    center, aspect, k1, k2, k3 = case["flags"]
    if not center:
        case["c"] = [0, 0]
    if not aspect:
        case["ratio"] = 1
    case["k"] = [v * on for v, on in zip(case["k"], (k1, k2, k3))]
    w, h = case["size"]
    cam = camera(case)
    views = scene(case, cam)
    folder = tempfile.mkdtemp(dir=os.environ.get("VP_SCRATCH"), prefix=["", "test [1] "][case["bulk"] % 2])
    windows = []
    hook = sys.excepthook
    messages = []
    real = QtWidgets.QMessageBox.information
    try:
        QtWidgets.QMessageBox.information = lambda *a, **b: messages.append(a)
        os.mkdir(os.path.join(folder, "output"))
        def picture(level=0):
            image = gradient(w, h, level)
            return np.dstack([image] * 3) if case["color"] else image
        image = picture()
        ext = case["ext"]
        for i, v in enumerate(views):
            write_image(os.path.join(folder, "view%02d.%s" % (i, ext)), picture(i % 8))
            np.savetxt(os.path.join(folder, "output", "view%02d_corners.txt" % i), board.project(board.POINTS, cam, v))
        # images with wrong corner points, which are not used
        for i in range(case["wrong"]):
            write_image(os.path.join(folder, "view%02d.%s" % (90 + i, ext)), image)
            np.savetxt(os.path.join(folder, "output", "view%02d_corners.txt" % (90 + i)), gen.expand(case["bulk"], 54, 0, 1, 2) * [w, h])
        # an image without a board
        if "blank" in case["blank"]:
            write_image(os.path.join(folder, "view70.%s" % ext), image)
        # an image that does not belong to the batch
        write_image(os.path.join(folder, "other01.%s" % ext), image)
        win = Window()
        windows.append(win)
        choose(win.input_filename, os.path.join(folder, "view%02d.%s" % (case["n"] - 1, ext)))
        names = [i.name for i in win.images]
        require(sorted(names) == sorted(n for n in os.listdir(folder) if n.startswith("view")), "images of the batch: %s", sorted(names))
        if case["process"]:
            for i in win.images:
                i.processImage()
        for row, i in enumerate(win.images):
            table = [win.tableWidget.item(row, c).text() for c in range(3)]
            want = ["view70.%s" % ext, "Failed" if case["process"] else "False", ""] if i.name.startswith("view70") else [i.name, "True", "X"]
            require(table == want, "row of the table: %s instead of %s", table, want)
            if i.name.startswith("view9"):
                # a double click on the last column removes the image
                win.imageDoubleClicked(row, 0)
                win.imageDoubleClicked(row, 2)
                require(win.tableWidget.item(row, 2).text() == "", "the image is still used")
            elif i.name.startswith("view00"):
                win.imageDoubleClicked(row, 2)
                win.imageDoubleClicked(row, 2)
        for name, on in zip(FLAGS, case["flags"]):
            getattr(win, name).setValue(on)
        row = case["row"] % case["n"]
        level = [i for i in range(case["n"]) if win.images[row].name.startswith("view%02d" % i)]
        level = level[0] % 8 if level else 0
        win.tableWidget.selectRow(row)
        if case["again"]:
            # look at an image before there is a calibration
            qt.wait()
            displayed(win, None, level, case, "before the calibration")
            require(not win.button_save.isEnabled(), "there is no calibration to save")
        press(win.button_fit)
        same_camera(win, cam, views, case, "fit")
        if not center:
            close([win.calibration["center_x_px"], win.calibration["center_y_px"]], [(w - 1) / 2, (h - 1) / 2], 1e-9, "the centre of the image")
        if not aspect:
            close(win.calibration["focallength_x_px"], win.calibration["focallength_y_px"], 1e-9 * w, "the focal lengths")
        for name, on in zip(["k1", "k2", "k3"], (k1, k2, k3)):
            require(on or win.calibration[name] == 0, "%s has been fitted: %s", name, win.calibration[name])
        qt.wait()
        displayed(win, cam, level, case, "after the fit", seen_radius(cam, views))
        path = os.path.join(folder, "calibration.txt")
        choose(win.button_save, path, save=True)
        require(len(messages) == 1, "messages: %s", len(messages))
        saved = dict(win.calibration)
        if case["again"]:
            # a fit with other settings does not keep the old image or parameters
            for name, on in zip(FLAGS, case["second"]):
                getattr(win, name).setValue(on)
            press(win.button_fit)
            for name, on in zip(["k1", "k2", "k3"], case["second"][2:]):
                require(on or win.calibration[name] == 0, "%s has been fitted: %s", name, win.calibration[name])
            qt.wait()
            with open(path) as fp:
                first = fp.read()
            # the new calibration replaces the saved one
            choose(win.button_save, path, save=True)
            with open(path) as fp:
                require(json.load(fp) == win.calibration, "the second calibration is not saved in the same file")
            with open(path, "w") as fp:
                fp.write(first)
        else:
            win = Window()
            windows.append(win)
            choose(win.input_filename, os.path.join(folder, "other01.%s" % ext))
        choose(win.button_load, path)
        require(dict(win.calibration) == saved, "the loaded calibration is %s instead of %s", win.calibration, saved)
        same_camera(win, cam, views, case, "loaded")
        qt.wait()
        displayed(win, cam, level if case["again"] else 0, case, "after loading", seen_radius(cam, views))
        press(win.button_clear)
        require(win.images == [] and win.tableWidget.rowCount() == 0, "the images are not removed")
        # and loaded again
        name = "view%02d" % (case["n"] - 1) if case["again"] else "other01"
        choose(win.input_filename, os.path.join(folder, "%s.%s" % (name, ext)))
        require(sorted(i.name for i in win.images) == (sorted(names) if case["again"] else ["other01.%s" % ext]), "images that are loaded again: %s", [i.name for i in win.images])
        qt.wait()
    finally:
        QtWidgets.QMessageBox.information = real
        qt.wait()
        qt.drop(*windows)
        plt.close("all")
        shutil.rmtree(folder, ignore_errors=True)
        sys.excepthook = hook
    ctx.label(ext, *[n for n, on in zip(FLAGS, case["flags"]) if on])


def press(button):
    """the user presses a button; errors in what follows are raised here"""
    errors = []
    hook = sys.excepthook
    sys.excepthook = lambda *a: errors.append(a[1])
    try:
        button.click()
    finally:
        sys.excepthook = hook
    if errors:
        raise errors[0]


def choose(widget, path, save=False):
    """the user presses the button of a file input and chooses the path in the dialog"""
    from qtpy import QtWidgets
    asked = []

    def dialog(kind):
        def ask(*args, **kwargs):
            asked.append(kind)
            return path, "All"
        return ask
    real = QtWidgets.QFileDialog.getSaveFileName, QtWidgets.QFileDialog.getOpenFileName
    try:
        QtWidgets.QFileDialog.getSaveFileName, QtWidgets.QFileDialog.getOpenFileName = dialog("save"), dialog("open")
        press(widget.findChildren(QtWidgets.QPushButton)[0])
    finally:
        QtWidgets.QFileDialog.getSaveFileName, QtWidgets.QFileDialog.getOpenFileName = real
    require(asked == ["save" if save else "open"], "dialogs for choosing a file: %s", asked)


class Later:
    """stand-in for threading.Thread: the work is done when the check decides"""
    pending = []
    used = False

    def __init__(self, target=None, args=(), kwargs=None, daemon=None, **other):
        self.work = lambda: target(*args, **(kwargs or {}))

    def start(self):
        Later.used = True
        self.pending.append(self.work)

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return self.work in self.pending


@st.composite
def schedules(draw):
    op = st.one_of(st.tuples(st.just("select"), st.integers(0, 7)), st.tuples(st.just("select"), st.integers(0, 7)), st.tuples(st.just("load"), st.integers(0, 1)), st.tuples(st.just("run"), st.integers(0, 7)), st.tuples(st.just("run"), st.integers(0, 7)),
                   st.tuples(st.just("corrected")), st.tuples(st.just("key")), st.tuples(st.just("process")), st.tuples(st.just("more"))).map(list)
    return dict(size=draw(st.sampled_from(SIZES[:2])), k=[draw(gen.num(0.05, 0.2)), draw(gen.num(-0.2, -0.05))], f=[draw(gen.num(0.7, 1.2)), draw(gen.num(0.7, 1.2))], n=draw(st.integers(1, 5)), chess=draw(gen.vec(5, st.booleans())), stored=draw(gen.vec(5, st.booleans())),
                ext=draw(st.sampled_from(["png", "jpg"])), ops=draw(st.lists(op, min_size=2, max_size=12)), order=draw(gen.bulk()))


@check("C35", schedules(), quick=400, shards=4, rule="every case (two or more actions of the user, in threads that finish in any order)")
def schedule(case, ctx):
    """images are loaded and processed in threads, which can be finished in any order"""
    app = qt.app()
    from qtpy import QtCore, QtGui
    import threading
    if FOLDER not in sys.path:
        sys.path.insert(0, FOLDER)
    from cameratransform.gui_tools.calibrate.gui_calibrate import Window
    import matplotlib.pyplot as plt
    w, h = case["size"]
    cams = []
    folder = tempfile.mkdtemp(dir=os.environ.get("VP_SCRATCH"), prefix=["", "test [1] "][case["order"] % 2])
    hook, errors = sys.excepthook, []
    thread = threading.Thread
    win = None
    order = np.random.RandomState(case["order"] % 2 ** 32)
    try:
        sys.excepthook = lambda *a: errors.append(a[1])
        del Later.pending[:]
        Later.used = False
        threading.Thread = Later
        os.mkdir(os.path.join(folder, "output"))
        for i in range(2):
            f = max(w, h) * case["f"][i]
            cams.append(dict(f=np.array([f, f]), c=np.array([w / 2, h / 2]), k=np.array([case["k"][i], 0, 0])))
            with open(os.path.join(folder, "calibration%d.txt" % i), "w") as fp:
                json.dump(dict(rms=0.1, image_width_px=w, image_height_px=h, focallength_x_px=f, focallength_y_px=f, center_x_px=w / 2, center_y_px=h / 2, k1=case["k"][i], k2=0.0, k3=0.0), fp)
        levels, processed = {}, {}
        names = ["view%d.%s" % (i, case["ext"]) for i in range(case["n"])] + ["more1.png"]
        for i, name in enumerate(names):
            write_image(os.path.join(folder, name), gradient(w, h, i))
            levels[name] = i
            processed[name] = "False"
            base = os.path.join(folder, "output", name.split(".")[0])
            if case["stored"][i % 5]:
                np.savetxt(base + "_corners.txt", gen.expand(case["order"], 54, 0, 1, 2) * [w, h])
                processed[name] = "True"
                if case["chess"][i % 5]:
                    # an image with the marked corner points is displayed instead
                    write_image(base + "_chess.png", np.dstack([gradient(w, h, 7)] * 3))
                    levels[name] = 7
        win = Window()
        choose(win.input_filename, os.path.join(folder, names[0]))
        more, selected, calibration, corrected, uncertain = False, 0, None, True, False

        def run(which):
            Later.pending.pop(which)()
            app.processEvents()

        def finish():
            while Later.pending:
                run(order.randint(len(Later.pending)))
            # (threads that have not been started with the stand-in)
            qt.wait()

        def state(what):
            finish()
            if errors:
                raise errors[0]
            require(sorted(i.name for i in win.images) == sorted(names if more else names[:-1]), "%s: images %s", what, [i.name for i in win.images])
            for row, i in enumerate(win.images):
                table = [win.tableWidget.item(row, c).text() for c in range(3)]
                want = [i.name, processed[i.name], "X" if processed[i.name] == "True" else ""]
                if uncertain and i.name == "more1.png" and want[1] == "False" and table[1] == "Failed":
                    # added while the others are processed
                    want[1] = "Failed"
                require(table == want, "%s: row of the table: %s instead of %s", what, table, want)
            displayed(win, cams[calibration] if corrected and calibration is not None else None, levels[win.images[selected].name], case, what)

        for op in case["ops"]:
            if op[0] == "select":
                selected = op[1] % len(win.images)
                win.tableWidget.selectRow(selected)
            elif op[0] == "load":
                choose(win.button_load, os.path.join(folder, "calibration%d.txt" % op[1]))
                calibration = op[1]
            elif op[0] == "run" and Later.pending:
                run(op[1] % len(Later.pending))
            elif op[0] == "corrected":
                corrected = not corrected
                box = win.input_display_undistorted.findChildren(__import__("qtpy.QtWidgets", fromlist=["x"]).QCheckBox)[0]
                box.click()
            elif op[0] == "key":
                corrected = not corrected
                win.keyPressEvent(QtGui.QKeyEvent(QtCore.QEvent.KeyPress, QtCore.Qt.Key_D, QtCore.Qt.NoModifier, "d"))
            elif op[0] == "process":
                press(win.button_start)
                for i in win.images:
                    if processed[i.name] == "False":
                        processed[i.name] = "Failed"
            elif op[0] == "more" and not more:
                uncertain = len(Later.pending) > 0 or not Later.used
                choose(win.input_filename, os.path.join(folder, "more1.png"))
                more = True
            if errors:
                raise errors[0]
        state("at the end")
        for selected in range(len(win.images)):
            win.tableWidget.selectRow(selected)
            state("row %d" % selected)
    finally:
        threading.Thread = thread
        qt.wait()
        sys.excepthook = hook
        if win is not None:
            qt.drop(win)
        plt.close("all")
        shutil.rmtree(folder, ignore_errors=True)
    ctx.label(*sorted({op[0] for op in case["ops"]}))
