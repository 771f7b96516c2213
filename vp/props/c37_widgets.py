"""C37 the input widgets and the image view of the windows"""
import os
import sys

import numpy as np
from hypothesis import strategies as st
from .. import core, gen, qt
from ..core import check, close, require, arr

ASSUMPTIONS = ["file and color dialogs are replaced by stand-ins", "mouse events are sent to the widgets directly, there is no screen"]

TEXT = st.text(st.characters(codec="utf-8", categories=("L", "N", "P", "S", "Zs")), max_size=12)


@st.composite
def inputs(draw):
    kind = draw(st.sampled_from(["number", "number", "string", "bool", "choice", "file", "color"]))
    case = dict(kind=kind)
    if kind == "number":
        whole = draw(st.booleans())
        decimals = 0 if whole else draw(st.sampled_from([1, 2, 3]))
        low = draw(st.sampled_from([None, -10, 0, -180]))
        high = draw(st.sampled_from([None, 20, 99, 5000]))
        low, high = (low, high) if low is None or high is None else sorted([low, high])
        a, b = (0 if low is None else low), (99 if high is None else high)
        value = (st.integers(a, b) if whole else st.one_of(st.integers(a, b).map(float), st.integers(a * 10 ** decimals, b * 10 ** decimals).map(lambda x: x / 10 ** decimals)))
        value = st.one_of(value, value, st.sampled_from([a, b, min(max(0, a), b)]).map(int if whole else float))
        case.update(whole=whole, decimals=decimals, low=low, high=high, slider=draw(st.booleans()), unit=draw(st.sampled_from([None, "px", "°"])), beyond=draw(st.sampled_from([0, 0, 5, -5])))
    elif kind == "string":
        value = TEXT
    elif kind == "bool":
        value = st.booleans()
    elif kind == "choice":
        n = draw(st.integers(1, 5))
        names, index = draw(st.booleans()), draw(st.booleans())
        # values that differ from their names
        case.update(values=[["a", "b", "c", "d", "e"], [3, 5, 8, 2, 4]][names][:n], names=["three", "five", "eight", "two", "four"][:n] if names else None, index=index)
        value = st.integers(0, n - 1)
    elif kind == "file":
        value = st.lists(st.sampled_from(["a", "folder", "x.png", "b c", "ü"]), min_size=2, max_size=4).map(lambda x: "/" + "/".join(x))
        case.update(existing=draw(st.booleans()), button=draw(st.booleans()), checker=draw(st.booleans()))
    else:
        value = st.integers(0, 0xffffff).map(lambda x: "#%06x" % x)
    first = draw(st.one_of(st.none(), value)) if kind in ("file", "color", "choice") else draw(value)
    some = [first if first is not None else draw(value), draw(value), draw(value)]
    case.update(first=first, ops=draw(st.lists(st.tuples(st.sampled_from(["user", "user", "set", "slider", "drag", "cancel"]), st.sampled_from(some)).map(list), min_size=2, max_size=8)), tooltip=draw(st.booleans()), stretch=draw(st.booleans()))
    return case


@check("C37", inputs(), quick=1500, shards=4, rule="every case (two or more operations)")
def values(case, ctx):
    qt.app()
    from qtpy import QtWidgets, QtGui
    from cameratransform.gui_tools.demonstrator import QtShortCuts
    kind = case["kind"]
    errors = []
    hook = sys.excepthook
    sys.excepthook = lambda *a: errors.append(a[1])
    parent = QtWidgets.QWidget()
    layout = QtWidgets.QVBoxLayout(parent)
    dialogs = QtWidgets.QFileDialog.getSaveFileName, QtWidgets.QFileDialog.getOpenFileName, QtWidgets.QColorDialog.getColor
    asked, answer = [], [None]

    def dialog(name):
        def open_(*args, **kwargs):
            asked.append((name, args))
            if name == "color":
                return QtGui.QColor(answer[0]) if answer[0] else QtGui.QColor()
            return (answer[0] or "", "All")
        return open_
    try:
        QtWidgets.QFileDialog.getSaveFileName, QtWidgets.QFileDialog.getOpenFileName, QtWidgets.QColorDialog.getColor = [dialog(n) for n in ("save", "open", "color")]
        extra = dict(tooltip="text") if case["tooltip"] else {}
        if case["stretch"]:
            extra["stretch"] = True
        first = case["first"]
        if kind == "number":
            w = QtShortCuts.QInputNumber(layout, "name", first, min=case["low"], max=case["high"], use_slider=case["slider"], float=not case["whole"], decimals=case["decimals"] or 2, unit=case["unit"], **extra)
        elif kind == "string":
            w = QtShortCuts.QInputString(layout, "name", first, **extra)
        elif kind == "bool":
            w = QtShortCuts.QInputBool(layout, "name", first, **extra)
        elif kind == "choice":
            translate = (lambda i: i) if case["index"] else (lambda i: case["values"][i])
            w = QtShortCuts.QInputChoice(layout, "name", None if first is None else translate(first), values=case["values"] if case["names"] else list(case["values"]), value_names=case["names"], reference_by_index=case["index"], **extra)
            first = translate(first or 0)
        elif kind == "file":
            options = dict(existing=case["existing"], just_button=case["button"])
            if case["checker"]:
                options["filename_checker"] = lambda name: name + ".txt"
            w = QtShortCuts.QInputFilename(layout, "name", *([] if first is None else [first]), **options, **extra)
            first = first or ""
        else:
            w = QtShortCuts.QInputColor(layout, "name", *([] if first is None else [first]), **extra)
            first = first or "#ff0000ff"
        require(layout.count() == 1 and parent.isAncestorOf(w), "the input is not in the window")
        require(any(l.text() == "name" for l in w.findChildren(QtWidgets.QLabel)), "the name is not displayed")
        require(not case["tooltip"] or w.toolTip() == "text", "the tooltip is missing")

        def same(value, want):
            if kind == "number":
                return abs(value - want) < 1e-9
            if kind == "color":
                return str(value).lower() == want
            return value == want and type(value) is type(want)

        emitted = []
        w.valueChanged.connect(lambda v: emitted.append(v))
        current = first
        require(same(w.value(), current), "the value is %r instead of %r", w.value(), current)
        for how, value in case["ops"]:
            del emitted[:]
            user = True
            if kind == "choice":
                index, value = value, translate(value)
            if how == "set" and not (kind == "color" and case["ops"].index([how, value]) > 99):
                user = False
                w.setValue(case["names"][index] if kind == "choice" and case["names"] and not case["index"] and index % 2 else value)
            elif kind == "number":
                spin = w.findChildren(QtWidgets.QAbstractSpinBox)[0]
                sliders = w.findChildren(QtWidgets.QSlider)
                require(len(sliders) == (case["slider"] and case["low"] is not None and case["high"] is not None), "%d sliders", len(sliders))
                factor = 10 ** case["decimals"]
                if sliders and how in ("slider", "drag"):
                    close([sliders[0].minimum(), sliders[0].maximum()], [case["low"] * factor, case["high"] * factor], 1e-9, "range of the slider")
                    if how == "drag":
                        sliders[0].setSliderDown(True)
                        sliders[0].setValue(round(value * factor) + (1 if value < case["high"] else -1))
                        require(emitted == [], "%r is emitted while the slider is moved", emitted)
                    sliders[0].setValue(round(value * factor))
                    if how == "drag":
                        require(emitted == [], "%r is emitted while the slider is moved", emitted)
                        sliders[0].setSliderDown(False)
                else:
                    if how == "cancel":
                        # beyond the range
                        value = dict([(5, case["high"]), (-5, case["low"]), (0, value)])[case["beyond"]]
                        if value is None:
                            continue
                        value = float(value) if not case["whole"] else value
                        spin.setValue(value + case["beyond"] if case["whole"] else value + float(case["beyond"]))
                    else:
                        spin.setValue(value)
                if case["unit"]:
                    require(spin.text().endswith(" " + case["unit"]), "the unit is missing: %r", spin.text())
            elif kind == "string":
                edit = w.findChildren(QtWidgets.QLineEdit)[0]
                edit.setText(value)
                edit.editingFinished.emit()
            elif kind == "bool":
                box = w.findChildren(QtWidgets.QCheckBox)[0]
                if box.isChecked() != value:
                    box.click()
            elif kind == "choice":
                w.findChildren(QtWidgets.QComboBox)[0].setCurrentIndex(index)
            else:
                # choose in the dialog, or close the dialog without choosing
                answer[0] = None if how == "cancel" else value
                del asked[:]
                w.findChildren(QtWidgets.QPushButton)[0].click()
                if errors:
                    raise errors[0]
                require(len(asked) == 1, "%d dialogs", len(asked))
                name, args = asked[0]
                if kind == "file":
                    require(name == ("open" if case["existing"] else "save"), "the dialog to %s a file", name)
                    require(args[2] == (os.path.dirname(current) if current else os.getcwd()), "the dialog starts in %r, the current file is %r", args[2], current)
                else:
                    require(name == "color" and args[0].name() == current[:7], "the dialog starts with the color %s instead of %s", args[0].name(), current)
                if how == "cancel":
                    value = current
                elif kind == "file" and case["checker"]:
                    value += ".txt"
            if errors:
                raise errors[0]
            if kind == "number" and sliders_of(w):
                close(sliders_of(w)[0].value(), value * 10 ** case["decimals"], 1e-6, "position of the slider")
            require(same(w.value(), value), "the value is %r after %s %r", w.value(), how, value)
            if user:
                require(all(same(e, value) for e in emitted[-1:]), "%r is emitted instead of %r", emitted, value)
                require(emitted or same(current, value), "no signal, although %r has been changed to %r", current, value)
            else:
                require(emitted == [], "a signal %r without the user", emitted)
            current = value
        w.setLabel("other")
        require(any(l.text() == "other" for l in w.findChildren(QtWidgets.QLabel)), "the new name is not displayed")
    finally:
        QtWidgets.QFileDialog.getSaveFileName, QtWidgets.QFileDialog.getOpenFileName, QtWidgets.QColorDialog.getColor = dialogs
        sys.excepthook = hook
        qt.drop(parent)
    ctx.nontrivial(len(case["ops"]) > 1)
    ctx.label(kind)


def sliders_of(w):
    from qtpy import QtWidgets
    return w.findChildren(QtWidgets.QSlider)


@st.composite
def views(draw):
    size = st.tuples(st.integers(50, 900), st.integers(50, 900)).map(list)
    pos = st.tuples(st.integers(0, 49), st.integers(0, 49)).map(list)
    op = st.one_of(st.tuples(st.just("wheel"), st.sampled_from([120, -120, 15, -240]), pos), st.tuples(st.just("pan"), pos, pos), st.tuples(st.just("resize"), size), st.tuples(st.just("image"), size), st.tuples(st.just("fit")),
                   st.tuples(st.just("rotate"), st.sampled_from([90, 180, 270, -90])), st.tuples(st.just("centre"), st.integers(0, 800), st.integers(0, 800)), st.tuples(st.just("fill")), st.tuples(st.just("left"), pos, pos)).map(list)
    return dict(size=draw(size), image=draw(size), turn=draw(st.integers(0, 3)) == 0, ops=draw(st.lists(op, min_size=2, max_size=8)))


@check("C37", views(), quick=1500, shards=4, rule="every case (two or more operations)")
def image_view(case, ctx):
    app = qt.app()
    from qtpy import QtWidgets, QtCore, QtGui
    from cameratransform.gui_tools.calibrate.QExtendedGraphicsView import QExtendedGraphicsView
    errors = []
    hook = sys.excepthook
    sys.excepthook = lambda *a: errors.append(a[1])
    v = QExtendedGraphicsView()
    try:
        v.resize(*case["size"])
        v.show()
        app.processEvents()
        v.setExtend(*case["image"])

        def to_view(x, y):
            """position of a point of the image in the window"""
            p = v.origin.sceneTransform().map(QtCore.QPointF(x, y))
            p = v.viewportTransform().map(p)
            return np.array([p.x(), p.y()])

        def from_view(p):
            t = (v.origin.sceneTransform() * v.viewportTransform()).inverted()[0]
            p = t.map(QtCore.QPointF(*p))
            return np.array([p.x(), p.y()])

        def corners():
            w, h = v_image
            return np.array([to_view(*p) for p in ([0, 0], [w, 0], [w, h], [0, h])])

        def fitted(what):
            c = corners()
            size = arr([v.width(), v.height()])
            close((c.min(0) + c.max(0)) / 2, size / 2, 1e-6 * 1000, "%s: centre of the displayed image" % what)
            extent = (c.max(0) - c.min(0)) / size
            close(extent.max(), 1, 1e-9 * 1000, "%s: largest extent of the displayed image" % what)

        def scale():
            return np.linalg.norm(to_view(1, 0) - to_view(0, 0))

        def mouse(kind, pos, button, buttons):
            event = QtGui.QMouseEvent(kind, QtCore.QPointF(*pos), button, buttons, QtCore.Qt.NoModifier)
            QtWidgets.QApplication.sendEvent(v.viewport(), event)
            if errors:
                raise errors[0]

        v_image = list(case["image"])
        angle, fit = 0, True
        fitted("at the beginning")
        for op in case["ops"]:
            before, place = scale(), to_view(0, 0)
            if op[0] == "wheel":
                p = op[2]
                point = from_view(p)
                event = QtGui.QWheelEvent(QtCore.QPointF(*p), QtCore.QPointF(*p), QtCore.QPoint(0, 0), QtCore.QPoint(0, op[1]), QtCore.Qt.NoButton, QtCore.Qt.NoModifier, QtCore.Qt.NoScrollPhase, False)
                QtWidgets.QApplication.sendEvent(v.viewport(), event)
                if errors:
                    raise errors[0]
                close(scale() / before, 1.1 if op[1] > 0 else 0.9, 1e-9, "magnification")
                if angle % 360 == 0:
                    close(to_view(*point), p, 1e-6 * 1000, "the point below the mouse")
                fit = False
            elif op[0] in ("pan", "left"):
                button = QtCore.Qt.RightButton if op[0] == "pan" else QtCore.Qt.LeftButton
                point, old = from_view(op[1]), to_view(0, 0)
                mouse(QtCore.QEvent.MouseMove, op[2], QtCore.Qt.NoButton, QtCore.Qt.NoButton)
                close(to_view(0, 0), old, 1e-9, "the mouse without a button")
                mouse(QtCore.QEvent.MouseButtonPress, op[1], button, button)
                mouse(QtCore.QEvent.MouseMove, [25, 25], QtCore.Qt.NoButton, button)
                mouse(QtCore.QEvent.MouseMove, op[2], QtCore.Qt.NoButton, button)
                mouse(QtCore.QEvent.MouseButtonRelease, op[2], button, QtCore.Qt.NoButton)
                if op[0] == "pan":
                    close(to_view(*point), op[2], 1e-6 * 1000, "the point below the mouse")
                    fit = False
                else:
                    close(to_view(0, 0), old, 1e-9, "the left button of the mouse")
                old = to_view(0, 0)
                mouse(QtCore.QEvent.MouseMove, [1, 1], QtCore.Qt.NoButton, QtCore.Qt.NoButton)
                close(to_view(0, 0), old, 1e-9, "the mouse after the button has been released")
            elif op[0] == "resize":
                v.resize(*op[1])
                app.processEvents()
            elif op[0] == "image":
                v.setExtend(*op[1])
                v_image = list(op[1])
            elif op[0] == "fit":
                v.fitInView()
                fit = True
            elif op[0] == "rotate" and case["turn"]:
                v.rotate(op[1])
                angle += op[1]
            elif op[0] == "centre" and angle % 360 == 0:
                v.centerOn(op[1], op[2])
                close(to_view(op[1], op[2]), [v.width() / 2, v.height() / 2], 1e-6 * 1000, "the point in the centre")
                close(scale(), before, 1e-9, "magnification")
                fit = None
            elif op[0] == "fill" and angle % 360 == 0:
                middle = from_view([v.width() / 2, v.height() / 2])
                v.fitSmallDimensionInView()
                c = corners()
                size = arr([v.width(), v.height()])
                extent = (c.max(0) - c.min(0)) / size
                close(extent.min(), 1, 1e-6, "smallest extent of the displayed image")
                i = int(np.argmin(extent))
                close(((c.min(0) + c.max(0)) / 2)[i], size[i] / 2, 1e-3, "centre of the displayed image")
                j = 1 - i
                if extent[j] > extent[i] + 1e-9:
                    # the ends of the view are rounded to pixels of the image
                    close(from_view(size / 2)[j], middle[j], 1.01, "centre of the view")
                fit = None
            if errors:
                raise errors[0]
            if fit is None:
                # (whether it follows changes of the size is not specified)
                v.fitInView()
                fit = True
            if fit:
                fitted("after %s" % op)
            elif op[0] in ("resize", "image") or (op[0] == "rotate" and not case["turn"]):
                # the user has moved the image
                close(scale(), before, 1e-9, "magnification, the view was moved by the user, after %s" % op)
                if op[0] == "resize":
                    close(to_view(0, 0), place, 1e-6 * 1000, "position, the view was moved by the user, after %s" % op)
            # the directions
            right = (to_view(1, 0) - to_view(0, 0)) / scale()
            close(right, [np.cos(np.radians(angle)), np.sin(np.radians(angle))], 1e-6, "direction of the rows of the image")
            if angle % 360 == 0:
                a, b = from_view([0, 0]), from_view([v.width(), v.height()])
                close(v.GetExtend(), [a[0], a[1], b[0], b[1]], 0.501, "displayed part of the image")
                p = [30, 20]
                q = v.mapToOrigin(QtCore.QPoint(*p))
                close([q.x(), q.y()], from_view(p), 1.01, "point of the image below a point of the window")
                q = v.mapFromOrigin(40, 30)
                close([q.x(), q.y()], to_view(40, 30), 1.01, "point of the window for a point of the image")
                q = v.mapFromOrigin(QtCore.QPoint(40, 30))
                close([q.x(), q.y()], to_view(40, 30), 1.01, "point of the window for a point of the image")
            close(v.getOriginScale(), scale(), 1e-9, "scale")
    finally:
        sys.excepthook = hook
        qt.drop(v)
    ctx.nontrivial(len(case["ops"]) > 1)
    ctx.label(*sorted({op[0] for op in case["ops"]}))
