"""One Qt application per process, without a screen"""
import os
import sys
import threading

_app = None
_Thread = threading.Thread


def app():
    global _app
    if _app is None:
        os.environ["QT_QPA_PLATFORM"] = "offscreen"
        os.environ["QT_LOGGING_RULES"] = "*=false"
        os.environ.setdefault("XDG_RUNTIME_DIR", os.environ.get("TMPDIR", "/tmp"))
        from qtpy import QtWidgets, QtCore
        QtCore.qInstallMessageHandler(lambda *args: None)
        _app = QtWidgets.QApplication.instance() or QtWidgets.QApplication(["check"])
        _app.setQuitOnLastWindowClosed(False)
    return _app


def pixels(pixmap):
    """the pixels of a pixmap as an array (height x width x 3)"""
    import numpy as np
    from qtpy import QtGui
    image = pixmap.toImage().convertToFormat(QtGui.QImage.Format_RGB888)
    w, h = image.width(), image.height()
    if w == 0 or h == 0:
        return np.zeros((h, w, 3), np.uint8)
    bits = image.constBits()
    bits.setsize(image.sizeInBytes())
    return np.frombuffer(bytes(bits), np.uint8).reshape(h, image.bytesPerLine())[:, :3 * w].reshape(h, w, 3)


def drop(*widgets):
    """close the windows and all their parts"""
    for w in widgets:
        w.close()
        w.deleteLater()
    app().sendPostedEvents(None, 52)  # QEvent.DeferredDelete
    app().processEvents()


def wait():
    """wait until the other threads of the windows are finished and their signals have been received"""
    idle = 0
    for _ in range(10000):
        threads = [t for t in threading.enumerate() if t is not threading.current_thread() and t is not threading.main_thread() and type(t) is _Thread]
        for t in threads:
            t.join(60)
        app().processEvents()
        idle = 0 if threads else idle + 1
        # (a finished thread can start the next one)
        if idle == 25:
            break
