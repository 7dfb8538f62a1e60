"""A Qt application without a display, with its settings in the scratch directory."""

import os

from . import env

_app = None


def app():
    global _app
    if _app is None:
        home = os.path.join(env.scratch_dir(), f"qt-{os.getpid()}")
        os.makedirs(os.path.join(home, ".config"), exist_ok=True)
        os.chmod(home, 0o700)
        os.environ["QT_QPA_PLATFORM"] = "offscreen"
        os.environ["HOME"] = home
        os.environ["XDG_CONFIG_HOME"] = os.path.join(home, ".config")
        os.environ["XDG_RUNTIME_DIR"] = home
        os.environ["QT_LOGGING_RULES"] = "*=false"
        from qtpy.QtCore import qInstallMessageHandler
        from qtpy.QtWidgets import QApplication

        qInstallMessageHandler(lambda *a: None)
        _app = QApplication.instance() or QApplication(["pbt"])
    return _app


def settle():
    """Let the application handle its events."""
    from qtpy.QtWidgets import QApplication

    for _ in range(3):
        QApplication.sendPostedEvents()
        QApplication.processEvents()


def send(view, kind, point, button, buttons):
    """A mouse event at a scene position of a graphics view."""
    from qtpy.QtCore import QPointF, Qt
    from qtpy.QtGui import QMouseEvent
    from qtpy.QtWidgets import QApplication

    vp = view.viewport()
    p = view.mapFromScene(point)
    e = QMouseEvent(kind, QPointF(p), QPointF(vp.mapToGlobal(p)), button, buttons, Qt.KeyboardModifier.NoModifier)
    QApplication.sendEvent(vp, e)
    settle()


def drag(view, start, path):
    """Press at a scene position, move through the others and release; returns the item that was grabbed."""
    from qtpy.QtCore import QEvent, Qt

    left, none = Qt.MouseButton.LeftButton, Qt.MouseButton.NoButton
    send(view, QEvent.Type.MouseButtonPress, start, left, left)
    got = view.scene().mouseGrabberItem()
    p = start
    for p in path:
        send(view, QEvent.Type.MouseMove, p, none, left)
    send(view, QEvent.Type.MouseButtonRelease, p, left, none)
    return got
