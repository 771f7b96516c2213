"""C36 the demonstrators show the scene with the chosen parameters"""
import contextlib
import io
import os
import sys

import numpy as np
from hypothesis import strategies as st
import cameratransform as ct
from .. import core, gen, qt
from ..core import check, close, require, arr

ASSUMPTIONS = ["the windows are operated with their visible rows (label, slider, number, check box, choice); there is no screen and no event loop",
               "sizes of the image and focal lengths of 0, which the sliders allow, are not chosen",
               "the drawn lines are compared with the lines of a new camera with the chosen parameters"]

FOLDER = os.path.join(core.REPO, "cameratransform", "gui_tools", "demonstrator")
PROJECTIONS = {"RectilinearProjection": ct.RectilinearProjection, "CylindricalProjection": ct.CylindricalProjection, "EquirectangularProjection": ct.EquirectangularProjection}

# range of the row, range that is used here, whole numbers
ROWS = {"focallength_x_px": (0, 5000, 100, False), "focallength_y_px": (0, 5000, 100, False), "center_x_px": (0, 5000, 0, False), "center_y_px": (0, 5000, 0, False), "image_width_px": (0, 5000, 20, True),
        "image_height_px": (0, 5000, 20, True), "heading_deg": (-180, 180, -180, False), "tilt_deg": (-180, 180, -180, False), "roll_deg": (-180, 180, -180, False), "pos_x_m": (-10, 10, -10, False), "pos_y_m": (-10, 10, -10, False),
        "elevation_m": (-10, 10, -10, False)}


@st.composite
def changes(draw):
    kind = draw(st.sampled_from(["row"] * 6 + ["locked", "centred", "projection"]))
    if kind == "row":
        name = draw(st.sampled_from(sorted(ROWS)))
        low, high, used, whole = ROWS[name]
        value = draw(st.one_of(st.integers(used, high), st.integers(used * 100, high * 100).map(lambda x: x / 100), st.sampled_from([used, high])))
        return [kind, name, int(value) if whole else value, draw(st.sampled_from(["number", "slider", "drag"]))]
    if kind == "projection":
        return [kind, draw(st.sampled_from(sorted(PROJECTIONS)))]
    return [kind]


@st.composite
def windows(draw):
    if draw(st.booleans()):
        ops = draw(st.lists(changes(), min_size=2, max_size=9))
    else:
        # a few changes again and again
        few = [draw(changes()) for _ in range(draw(st.integers(0, 1)))]
        few += draw(st.sampled_from([[["projection", p] for p in sorted(PROJECTIONS)], [["locked"], ["row", "focallength_y_px", 2000, "number"]], [["centred"], ["row", "center_x_px", 350, "slider"]], [["centred"], ["row", "center_y_px", 100.25, "number"]],
                                     [["locked"], ["row", "focallength_y_px", 1500, "drag"], ["row", "focallength_x_px", 1500, "number"]], [["centred"], ["row", "center_x_px", 400, "drag"], ["row", "image_width_px", 800, "number"]]]))
        ops = draw(st.lists(st.sampled_from(few), min_size=4, max_size=9))
    return dict(f=draw(st.sampled_from([3860, 1000, 812.5])), image=draw(st.sampled_from([[4608, 2592], [640, 480], [333, 1001]])), ops=ops)


def row(window, label):
    """the widgets in the row with this label"""
    from qtpy import QtWidgets
    for l in window.findChildren(QtWidgets.QLabel):
        if l.text() == label:
            return l.parent()
    core.fail("there is no row %s" % label)


def part(widget, kind):
    found = widget.findChildren(kind)
    require(len(found) == 1, "%d widgets instead of one", len(found))
    return found[0]


def lines(ax):
    return [np.asarray(l.get_xydata(), float) for l in ax.get_lines()]


def has(data, want, what):
    for d in data:
        if d.shape == want.shape and np.allclose(d, want, rtol=1e-9, atol=1e-6, equal_nan=True):
            return
    core.fail("%s is not drawn: %s" % (what, core.short(want[:6])))


def cubes():
    """all corner points of the scene: a grid in steps of 1 m and 9 cubes with an edge of 1 m"""
    return arr([[2 * i + a / 2, 2 * j + b / 2, c] for i in (-1, 0, 1) for j in (-1, 0, 1) for a in (-1, 1) for b in (-1, 1) for c in (0, 1)])


def drawn(axes, cam, objects, what):
    require(len(axes) == 4, "%s: %d drawings", what, len(axes))
    with core.quiet():
        cone = np.asarray(cam.getCameraCone())
        w, h = cam.image_width_px, cam.image_height_px
        for ax, dims in zip(axes[:3], ((0, 1), (0, 2), (1, 2))):
            data = lines(ax)
            require(len(data) == 11, "%s: %d lines in a drawing instead of 11", what, len(data))
            has(data, cone[:, list(dims)], "%s: the camera in the view %s" % (what, dims))
            for o in objects:
                has(data, o[:, list(dims)], "%s: an object in the view %s" % (what, dims))
        data = lines(axes[3])
        require(len(data) == 11, "%s: %d lines in the image instead of 11", what, len(data))
        for o in objects:
            has(data, np.asarray(cam.imageFromSpace(o)), "%s: an object in the image" % what)
        x = np.linspace(0, w, 100)
        has(data, np.asarray(cam.getImageHorizon(x)), "%s: the horizon" % what)
        close(axes[3].get_xlim(), [0, w], 1e-9, "%s: limits of the image" % what)
        close(axes[3].get_ylim(), [h, 0], 1e-9, "%s: limits of the image" % what)


def scene_objects(scene):
    objects = [np.asarray(o, float) for o in scene.objects]
    require(len(objects) == 10, "%d objects", len(objects))
    corners = np.concatenate([o[~np.isnan(o).any(axis=1)] for o in objects])
    want = cubes()
    require((np.abs(corners[:, None] - want).max(-1).min(0) < 1e-9).all(), "a cube is missing")
    return objects


@check("C36", windows(), quick=240, shards=8, rule="every case (two or more changes)")
def window(case, ctx):
    app = qt.app()
    from qtpy import QtWidgets
    import matplotlib.pyplot as plt
    if FOLDER not in sys.path:
        sys.path.insert(0, FOLDER)
    from cameratransform.gui_tools.demonstrator import demo_qt
    from cameratransform.gui_tools.demonstrator.demo_includes import Scene9Cubes
    errors = []
    hook = sys.excepthook
    sys.excepthook = lambda *a: errors.append(a[1])
    win = None
    try:
        with core.quiet():
            cam = ct.Camera(ct.RectilinearProjection(focallength_px=case["f"], image=case["image"]))
            scene = Scene9Cubes(cam)
            win = demo_qt.Window(cam, scene)
        objects = scene_objects(scene)
        w, h = case["image"]
        state = dict(focallength_x_px=case["f"], focallength_y_px=case["f"], center_x_px=w / 2, center_y_px=h / 2, image_width_px=w, image_height_px=h, heading_deg=0, tilt_deg=0, roll_deg=0, pos_x_m=0, pos_y_m=0, elevation_m=5)
        locked, centred, projection = True, True, "RectilinearProjection"
        whole = isinstance(case["f"], int)

        def compare(what):
            if locked:
                state["focallength_y_px"] = state["focallength_x_px"]
            if centred:
                state["center_x_px"], state["center_y_px"] = state["image_width_px"] / 2, state["image_height_px"] / 2
            for name in ROWS:
                close(part(row(win, name), QtWidgets.QAbstractSpinBox).value(), state[name], 1e-9, "%s: displayed %s" % (what, name))
                close(getattr(win.cam, name), state[name], 1e-9, "%s: %s of the camera" % (what, name))
                free = not (locked and name == "focallength_y_px") and not (centred and name.startswith("center_"))
                require(row(win, name).isEnabled() == free, "%s: %s can%s be changed", what, name, "not" if free else "")
            s = dict(state)
            p = PROJECTIONS[projection](focallength_x_px=s["focallength_x_px"], focallength_y_px=s["focallength_y_px"], center_x_px=s["center_x_px"], center_y_px=s["center_y_px"], image_width_px=s["image_width_px"], image_height_px=s["image_height_px"])
            new = ct.Camera(p, ct.SpatialOrientation(heading_deg=s["heading_deg"], tilt_deg=s["tilt_deg"], roll_deg=s["roll_deg"], pos_x_m=s["pos_x_m"], pos_y_m=s["pos_y_m"], elevation_m=s["elevation_m"]))
            require(type(win.cam.projection) is PROJECTIONS[projection], "%s: the projection is %s", what, type(win.cam.projection))
            figure = win.findChildren(__import__("matplotlib.backends.backend_qt5agg", fromlist=["x"]).FigureCanvasQTAgg)[0].figure
            drawn(figure.axes, new, objects, what)

        compare("at the beginning")
        for op in case["ops"]:
            with core.quiet():
                if op[0] == "row":
                    _, name, value, how = op
                    r = row(win, name)
                    if not r.isEnabled():
                        continue
                    if name.startswith("focallength") and whole:
                        value = int(value)
                    if how == "number":
                        part(r, QtWidgets.QAbstractSpinBox).setValue(value)
                    else:
                        slider = part(r, QtWidgets.QSlider)
                        step = round(slider.maximum() / ROWS[name][1])
                        if how == "drag":
                            # the drawing is updated when the mouse button is released
                            slider.setSliderDown(True)
                            slider.setValue(round(value * step) - 3)
                        slider.setValue(round(value * step))
                        if how == "drag":
                            slider.setSliderDown(False)
                    state[name] = value
                elif op[0] == "locked":
                    locked = not locked
                    part(row(win, "loc_aspect_ratio"), QtWidgets.QCheckBox).setChecked(locked)
                elif op[0] == "centred":
                    centred = not centred
                    part(row(win, "center_image"), QtWidgets.QCheckBox).setChecked(centred)
                else:
                    projection = op[1]
                    box = part(row(win, "Projection"), QtWidgets.QComboBox)
                    box.setCurrentIndex(box.findText(projection))
            if errors:
                raise errors[0]
            compare("after %s" % op)
    finally:
        sys.excepthook = hook
        if win is not None:
            qt.drop(win)
        plt.close("all")
    ctx.nontrivial(len(case["ops"]) > 1)
    ctx.label(*sorted({op[1] if op[0] == "projection" else op[0] for op in case["ops"]}))


SLIDERS = [("image_width_px", 0, 5000, 20), ("image_height_px", 0, 5000, 20), ("focallength_px", 0, 7720, 100), ("heading_deg", -180, 180, -180), ("tilt_deg", 0, 180, 0), ("roll_deg", -180, 180, -180),
           ("yaw_deg", -180, 180, -180), ("pitch_deg", -90, 90, -90), ("roll_deg", -180, 180, -180), ("elevation_m", 0, 20, 0), ("pos_x_m", -10, 10, -10), ("pos_y_m", -10, 10, -10)]


@st.composite
def moves(draw):
    kind = draw(st.sampled_from(["slide"] * 6 + ["angles", "angles", "reset"]))
    if kind == "slide":
        i = draw(st.integers(0, len(SLIDERS) - 1))
        name, low, high, used = SLIDERS[i]
        return [kind, i, draw(st.one_of(st.integers(used, high), gen.num(used, high), st.sampled_from([used, high]))), draw(st.booleans())]
    if kind == "angles":
        return [kind, draw(st.integers(0, 1))]
    return [kind]


@check("C36", st.fixed_dictionaries(dict(ops=st.lists(moves(), min_size=2, max_size=8))), quick=160, shards=8, rule="every case (two or more changes)")
def sliders(case, ctx):
    import matplotlib
    import matplotlib.pyplot as plt
    from matplotlib import widgets
    if FOLDER not in sys.path:
        sys.path.insert(0, FOLDER)
    import demo_matplotlib
    from demo_includes import Scene9Cubes
    made = {"Slider": [], "RadioButtons": [], "Button": []}
    real = {name: getattr(widgets, name).__init__ for name in made}
    show = plt.show
    Canvas = __import__("matplotlib.backends.backend_agg", fromlist=["x"]).FigureCanvasAgg
    draw = Canvas.draw

    def recorder(name):
        def init(self, *args, **kwargs):
            real[name](self, *args, **kwargs)
            if type(self).__name__ == name:
                made[name].append(self)
        return init
    backend = matplotlib.get_backend()
    try:
        matplotlib.use("agg", force=True)
        plt.show = lambda *a, **b: None
        # the pixels are not needed
        Canvas.draw = lambda self: None
        for name in made:
            getattr(widgets, name).__init__ = recorder(name)
        with core.quiet():
            demo_matplotlib.open_demo()
        fig = plt.gcf()
        sl = made["Slider"]
        require([(s.label.get_text(), s.valmin, s.valmax) for s in sl] == [s[:3] for s in SLIDERS], "sliders: %s", [(s.label.get_text(), s.valmin, s.valmax) for s in sl])
        radio, button = made["RadioButtons"][0], made["Button"][0]
        axes = [a for a in fig.axes if a.get_xlabel()]
        objects = scene_objects(Scene9Cubes(None))
        start = [4608, 2592, 3860, 0, 30, 0, 0, -60, 0, 10, 0, -5.5]
        mode, values = 0, list(start)

        def compare(what):
            used = [0, 1, 2, 9, 10, 11] + ([3, 4, 5] if mode == 0 else [6, 7, 8])
            for i in range(len(SLIDERS)):
                require(sl[i].ax.get_visible() == (i in used), "%s: slider %s", what, SLIDERS[i][0])
                if i in used:
                    close(sl[i].val, values[i], 1e-9, "%s: slider %s" % (what, SLIDERS[i][0]))
            v = values
            if mode == 0:
                o = ct.SpatialOrientation(heading_deg=v[3], tilt_deg=v[4], roll_deg=v[5], elevation_m=v[9], pos_x_m=v[10], pos_y_m=v[11])
            else:
                o = ct.SpatialOrientationYawPitchRoll(yaw_deg=v[6], pitch_deg=v[7], roll_deg=v[8], elevation_m=v[9], pos_x_m=v[10], pos_y_m=v[11])
            new = ct.Camera(ct.RectilinearProjection(focallength_px=v[2], image=[v[0], v[1]]), o)
            # an image that is drawn for a width or height changes the limits of the drawing
            drawn(axes, new, objects, what)
        compare("at the beginning")
        for op in case["ops"]:
            with core.quiet():
                if op[0] == "slide":
                    _, i, value, _ = op
                    # the hidden sliders cannot be used
                    if i in ((6, 7, 8) if mode == 0 else (3, 4, 5)):
                        i += -3 if mode == 0 else 3
                        value = min(max(value, SLIDERS[i][1]), SLIDERS[i][2])
                    if i < 2:
                        value = int(value)
                    sl[i].set_val(value)
                    values[i] = value
                elif op[0] == "angles":
                    radio.set_active(op[1])
                    if op[1] == 1 and mode == 0:
                        values[6:9] = [values[3], values[4] - 90, -values[5]]
                    elif op[1] == 0 and mode == 1:
                        values[3:6] = [values[6], values[7] + 90, -values[8]]
                    mode = op[1]
                else:
                    press(button)
                    values = list(start)
            compare("after %s" % op)
    finally:
        plt.show = show
        Canvas.draw = draw
        for name in made:
            getattr(widgets, name).__init__ = real[name]
        plt.close("all")
        matplotlib.use(backend, force=True)
    ctx.nontrivial(len(case["ops"]) > 1)
    ctx.label(*sorted({op[0] for op in case["ops"]}))


def press(button):
    """a click on a button of matplotlib"""
    from matplotlib.backend_bases import MouseEvent
    canvas = button.ax.figure.canvas
    x, y = button.ax.transAxes.transform([0.5, 0.5])
    canvas.callbacks.process("button_press_event", MouseEvent("button_press_event", canvas, x, y, 1))
    canvas.callbacks.process("button_release_event", MouseEvent("button_release_event", canvas, x, y, 1))
