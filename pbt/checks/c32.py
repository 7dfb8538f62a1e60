"""C32: the graph editor window builds, keeps, saves and simulates the graph that is drawn."""

import contextlib
import io
import logging
import math
import os
import sys

from hypothesis import strategies as st

from .. import env, qt
from ..core import Facet, Violation, ensure
from ..obs import matches_spec, same, sfg_view
from ..sfggen import Graph, Unstable, any_spec, class_of, close, make_op, trace_scale

ASSUMPTIONS = []

RULE = (
    "Random graphs are drawn in the editor window (without a display) in random order with mouse clicks on the operation list, ports "
    "and operations, with detours (wrong connections removed again, extra operations deleted, refused connections), properties are "
    "set in the properties dialog before or after the graph is created; the graphs are saved, loaded, invalidated by edits, redrawn "
    "and simulated through the dialogs. Oracle: the generated graph, its reference evaluation and formulas of the signal generators. "
    "Non-trivial: at least four operations and two operations of the same type that are not told apart by their name."
)

_win = None
_errors = []
LISTED = {"in": "Input", "out": "Output", "t": "Delay", "sink": "Sink"}


def window():
    global _win
    if _win is None:
        qt.app()
        logging.disable(logging.CRITICAL)
        sys.excepthook = lambda t, v, tb: _errors.append(f"{t.__name__}: {v}")
        from b_asic.sfg_gui.main_window import SFGMainWindow

        _win = SFGMainWindow()
        _win.resize(1200, 900)
        _win.show()
    return _win


@contextlib.contextmanager
def answers(**kw):
    """Let the file and text dialogs give these answers."""
    from qtpy.QtWidgets import QFileDialog, QInputDialog

    places = {"save": (QFileDialog, "getSaveFileName"), "open": (QFileDialog, "getOpenFileName"), "text": (QInputDialog, "getText")}
    old = {}
    for k, v in kw.items():
        cls, name = places[k]
        old[k] = cls.__dict__.get(name, getattr(cls, name))
        setattr(cls, name, staticmethod(lambda *a, v=v, **kk: (v() if callable(v) else v, True)))
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(*places[k], v)


class Editor:
    """The window as a user sees it."""

    def __init__(self, win):
        self.win = win

    def items(self, cls):
        from qtpy.QtWidgets import QGraphicsProxyWidget, QGraphicsView

        found = []
        for view in self.win.findChildren(QGraphicsView):
            for x in view.scene().items():
                w = x.widget() if isinstance(x, QGraphicsProxyWidget) else x
                if isinstance(w, cls):
                    found.append(w)
        return found

    def buttons(self):
        from b_asic.sfg_gui.drag_button import DragButton

        return self.items(DragButton)

    def arrows(self):
        from b_asic.sfg_gui.arrow import Arrow

        return self.items(Arrow)

    def action(self, text):
        from qtpy.QtGui import QAction

        found = [a for a in self.win.findChildren(QAction) if a.text().replace("&", "") == text]
        assert found, text
        found[0].trigger()
        qt.settle()

    def add(self, op=None, listed=None):
        from qtpy.QtWidgets import QListWidget

        before = self.buttons()
        if listed:
            found = [(w, w.item(i)) for w in self.win.findChildren(QListWidget) for i in range(w.count()) if w.item(i).text() == listed]
            ensure(found, f"{listed} is not in the lists of operations")
            found[0][0].itemClicked.emit(found[0][1])
        else:
            self.win.add_operation(op)
        new = [b for b in self.buttons() if b not in before]
        ensure(len(new) == 1, f"{len(new)} operations appear after adding one {listed or op.type_name()}")
        return new[0]

    def click(self, widget, ctrl=False):
        from qtpy.QtCore import Qt
        from qtpy.QtTest import QTest

        mod = Qt.KeyboardModifier.ControlModifier if ctrl else Qt.KeyboardModifier.NoModifier
        QTest.mouseClick(widget, Qt.MouseButton.LeftButton, mod)

    def delete_key(self):
        from qtpy.QtCore import Qt
        from qtpy.QtTest import QTest

        QTest.keyClick(self.win, Qt.Key.Key_Delete)
        qt.settle()

    def port(self, button, kind, index):
        from b_asic.port import InputPort

        found = [p for p in button.port_list if isinstance(p.port, InputPort) == (kind == "in") and p.port.index == index]
        ensure(len(found) == 1, f"{len(found)} ports {kind}{index} at {button.operation.type_name()}")
        return found[0]

    def connect(self, first, *others):
        """Select the ports and choose "Connect" in the menu of the last one."""
        self.click(first)
        for p in others:
            self.click(p, ctrl=True)
        [first, *others][-1].connectionRequested.emit([first, *others][-1])

    def lines(self):
        """The connections drawn: {(source button, index, destination button, index)}."""
        return [
            (a.source_operation_button, a.source_port.index, a.destination_operation_button, a.destination_port.index)
            for a in self.arrows()
        ]

    def properties(self, button, name=None, value=None, latencies=None):
        """Edit in the properties dialog; returns what it shows."""
        from b_asic.sfg_gui.properties_window import PropertiesWindow
        from qtpy.QtWidgets import QApplication, QLineEdit, QPushButton

        old = [w for w in QApplication.topLevelWidgets() if isinstance(w, PropertiesWindow)]
        button.show_properties_window()
        new = [w for w in QApplication.topLevelWidgets() if isinstance(w, PropertiesWindow) and w not in old]
        ensure(len(new) == 1, f"no properties of {button.operation.type_name()} are shown")
        dlg = new[0]
        op = button.operation
        edits = dlg.findChildren(QLineEdit)
        has_value = hasattr(op, "value") or hasattr(op, "initial_value")
        n = op.input_count + op.output_count
        ensure(len(edits) == 1 + has_value + n, f"{len(edits)} fields in the properties of {op.type_name()}")
        shown = {"name": edits[0].text(), "value": edits[1].text() if has_value else None}
        if name is not None:
            edits[0].setText(name)
        if value is not None:
            edits[1].setText(value)
        ports = [f"in{i}" for i in range(op.input_count)] + [f"out{i}" for i in range(op.output_count)]
        if latencies:
            for e, p in zip(edits[1 + has_value :], ports):
                if p in latencies:
                    e.setText(latencies[p])
        (ok,) = (b for b in dlg.findChildren(QPushButton) if b.text() == "OK")
        ok.click()
        closed = not dlg.isVisible()
        dlg.close()
        dlg.deleteLater()
        ensure(not _errors, f"properties of {op.type_name()}: {_errors}")
        ensure(closed, f"properties of {op.type_name()} are refused ({name}, {value}, {latencies})")
        return shown

    def select(self, buttons):
        for n, b in enumerate(buttons):
            self.click(b, ctrl=n > 0)

    def sfgs(self):
        return self.win._sfg_dict

    def clear(self):
        self.action("Clear workspace")
        ensure(not self.buttons() and not self.arrows() and not self.sfgs(), "the workspace is not empty after clearing it")


def number_text(v, comma):
    if isinstance(v, (tuple, complex)):
        return None
    return repr(v).replace(".", ",") if comma else repr(v)


class Drawing:
    """A generated graph being drawn."""

    def __init__(self, ed, g):
        self.ed, self.g = ed, g
        self.tokens = [("n", i) for i in range(len(g.nodes))]
        self.tokens += [("out", k) for k in range(len(g.outs))] + [("sink", k) for k in range(len(g.sinks))]
        self.btn = {}
        self.edges = [((sn, sp), (("n", i), j)) for i, n in enumerate(g.nodes) for j, (sn, sp) in enumerate(n["src"])]
        self.edges += [((sn, sp), (("out", k), 0)) for k, (sn, sp) in enumerate(g.outs)]
        self.edges += [((sn, sp), (("sink", k), 0)) for k, (sn, sp) in enumerate(g.sinks)]

    def kind(self, tok):
        return self.g.nodes[tok[1]]["k"] if tok[0] == "n" else tok[0]

    def params(self, tok):
        return self.g.nodes[tok[1]]["p"] if tok[0] == "n" else {}

    def name(self, tok):
        return f"{tok[0]}{tok[1]}"

    def out_port(self, node, index):
        return self.ed.port(self.btn["n", node], "out", index)

    def in_port(self, tok, index):
        return self.ed.port(self.btn[tok], "in", index)

    def add(self, tok, name, listed):
        """listed: choose the operation in the list and set the value afterwards."""
        k, p = self.kind(tok), self.params(tok)
        if k in LISTED:
            b = self.ed.add(listed=LISTED[k])
        elif listed and class_of(k).__module__ == "b_asic.core_operations" and set(p) <= {"value"} and number_text(p.get("value"), False) is not None:
            b = self.ed.add(listed=class_of(k).__name__)
        else:
            b = self.ed.add(make_op(k, p, name))
        self.btn[tok] = b

    def value_text(self, tok, comma):
        p = self.params(tok)
        v = p.get("value", p.get("initial_value"))
        return None if v is None else number_text(v, comma)

    def expected_lines(self):
        return [(self.btn["n", sn], sp, self.btn[tok], j) for (sn, sp), (tok, j) in self.edges]

    def check_lines(self, ctx):
        mine = list(self.btn.values())
        got, want = [x for x in self.ed.lines() if x[0] in mine or x[2] in mine], self.expected_lines()
        key = lambda x: (id(x[0]), x[1], id(x[2]), x[3])
        ensure(sorted(map(key, got)) == sorted(map(key, want)), f"{len(got)} connections are drawn or they differ from the {len(want)} made ({ctx})")

    def create(self, name, mode):
        ins = [self.btn["n", i] for i in range(self.g.ni)]
        outs = [self.btn["out", k] for k in range(len(self.g.outs))]
        if mode == "all":
            self.ed.action("Select all")
        elif mode == "mixed":
            rest = [b for t, b in self.btn.items() if b not in ins and b not in outs]
            self.ed.select([*outs, *rest, *ins])
        else:
            self.ed.select([*ins, *outs])
        with answers(text=name):
            self.ed.action("Create SFG")
        ensure(name in self.ed.sfgs(), f"no graph is created (selected: {mode})")
        return self.ed.sfgs()[name]


def draw(case, rec):
    win = window()
    ed = Editor(win)
    spec = case["spec"]
    g = Graph(spec)
    # values of delays are set in the properties dialog, which takes real numbers
    if any(n["k"] == "t" and isinstance(n["p"]["initial_value"], complex) for n in g.nodes):
        return
    _errors.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            drawn(case, rec, ed, g)
        finally:
            ed.action("Clear workspace")
            dismiss()
            qt.settle()
    ensure(not _errors, f"errors: {_errors}")


def dismiss():
    """Close the messages about errors."""
    from qtpy.QtWidgets import QErrorMessage

    for w in window().findChildren(QErrorMessage):
        w.close()
        w.deleteLater()


def order(items, keys):
    return [x for _, _, x in sorted((keys[i % len(keys)] * (i + 7) % 31, i, x) for i, x in enumerate(items))]


def drawn(case, rec, ed, g):
    d = Drawing(ed, g)
    naming, comma = case["naming"], case["comma"]
    toks = order(d.tokens, case["order"])
    if case["select"] == "all":
        # the inputs and outputs are found in the order they were added in
        for t in ("n", "out"):
            at = [i for i, x in enumerate(toks) if x[0] == t and (t == "out" or x[1] < g.ni)]
            for i, x in zip(at, sorted(toks[i] for i in at)):
                toks[i] = x
    for t in toks:
        d.add(t, {"before": d.name(t), "after": "", "same": "x"}[naming], case["listed"])
    if naming != "after":
        for t in toks:
            late = naming == "same"
            ed.properties(d.btn[t], "x" if late else d.name(t), None if late else d.value_text(t, comma))
    # connections
    edges = order(d.edges, case["order"][::-1])
    done = []
    detours = list(case["detours"])
    while edges:
        e = edges.pop(0)
        src, dst = d.out_port(*e[0]), d.in_port(*e[1])
        if detours:
            detour(ed, d, detours.pop(), e, done)
        batch = [e]
        if case["batch"]:
            more = [x for x in edges if x[0] == e[0]]
            batch += more
            edges = [x for x in edges if x[0] != e[0]]
        sel = [src, *(d.in_port(*x[1]) for x in batch)]
        if case["backwards"]:
            sel.reverse()
        ed.connect(*sel)
        done += batch
        ensure(len(ed.lines()) == len(done), f"{len(ed.lines())} connections are drawn, {len(done)} were made")
    d.check_lines("after drawing")
    for what in detours:
        detour(ed, d, what, None, done)
        d.check_lines(what[0])
    sfg = d.create("first", case["select"])
    if naming != "before":
        for t in order(d.tokens, case["order"][1:] + [3]):
            ed.properties(d.btn[t], d.name(t), d.value_text(t, comma))
    matches_spec(sfg, g, ctx=f"(created, names set {naming})")
    d.check_lines("after creating the graph")
    # latencies and an unchanged dialog
    timing = {}
    for k, (a, b) in enumerate(case["latencies"]):
        t = d.tokens[(a + k) % len(d.tokens)]
        op = d.btn[t].operation
        ports = [f"in{i}" for i in range(op.input_count)] + [f"out{i}" for i in range(op.output_count)]
        lat = {p: (b + 3 * i) % 7 - 1 for i, p in enumerate(ports) if (b >> i) % 3 < 2}
        before = {p: timing.get(t, {}).get(p, ed_latency(op, p)) for p in ports}
        ed.properties(d.btn[t], latencies={p: str(v) for p, v in lat.items()})
        timing[t] = {p: (None if lat[p] < 0 else lat[p]) if p in lat else before[p] for p in ports}
    for t in timing:
        shown = ed.properties(d.btn[t])
        ensure(shown["name"] == d.name(t), f"the properties show the name {shown['name']!r} of {d.name(t)}")
        if d.value_text(t, False) is not None:
            ensure(float(shown["value"]) == float(d.value_text(t, False)), f"the properties of {d.name(t)} show the value {shown['value']}")
    check_latencies(sfg, d, timing)
    matches_spec(sfg, g, ctx="(after looking at the properties)")
    if case["rows"] is not None:
        simulate(ed, {"first": g}, case, rec)
    save_and_edit(case, rec, ed, d, sfg, timing)
    kinds = [d.kind(t) for t in d.tokens if t[0] == "n" and t[1] >= g.ni]
    rec.label(naming)
    rec.nt(len(kinds) >= 4 and len(set(kinds)) < len(kinds) and naming != "before")


def ed_latency(op, port):
    ports = op.inputs if port.startswith("in") else op.outputs
    return ports[int(port.lstrip("inout"))].latency_offset


def check_latencies(sfg, d, timing):
    for t, want in timing.items():
        (op,) = dict.fromkeys(sfg.find_by_name(d.name(t)))
        got = {p: ed_latency(op, p) for p in want}
        ensure(got == want, f"the latencies of {d.name(t)} are {got}, entered were {want}")


def detour(ed, d, what, edge, done):
    """Draw something and take it back."""
    kind, a, b = what
    n_lines, n_ops = len(ed.lines()), len(ed.buttons())
    if kind == "wrong" and edge is not None:
        # connect the input to some other place first
        src = d.g.ports[a % len(d.g.ports)]
        ed.connect(d.out_port(*src), d.in_port(*edge[1]))
        new = [x for x in ed.arrows() if x.destination_port_button is d.in_port(*edge[1])]
        ensure(len(new) == 1, f"{len(new)} arrows to a port after connecting it")
        new[0].remove()
    elif kind == "occupied" and done:
        e = done[a % len(done)]
        ed.connect(d.out_port(*d.g.ports[b % len(d.g.ports)]), d.in_port(*e[1]))
    elif kind == "outputs":
        p, q = d.g.ports[a % len(d.g.ports)], d.g.ports[b % len(d.g.ports)]
        free = [d.in_port(*edge[1])] if edge is not None else []
        if p != q:
            ed.connect(*[d.out_port(*p), *free, d.out_port(*q)][:: 1 if a % 2 else -1])
    elif kind == "inputs" and edge is not None:
        later = [x for x in d.edges if x not in done and x != edge]
        ed.connect(d.in_port(*edge[1]), *(d.in_port(*x[1]) for x in later[a % 3 :][: 1 + b % 2]))
    elif kind == "extra":
        new = [ed.add(listed=["Addition", "Delay", "Output", "Negation"][(b + i) % 4]) for i in range(1 + a % 3)]
        for i, x in enumerate(new):
            ed.connect(d.out_port(*d.g.ports[(a + i) % len(d.g.ports)]), ed.port(x, "in", 0))
        if b % 2:
            ed.select(new)
            ed.delete_key()
        else:
            for x in new:
                x.remove()
    elif kind == "flip":
        d.btn[d.tokens[a % len(d.tokens)]]._flip()
    elif kind == "move":
        move(d.btn[d.tokens[a % len(d.tokens)]], 40 + a * 13, b * 17)
    qt.settle()
    got = len(ed.lines()), len(ed.buttons())
    ensure(got == (n_lines, n_ops), f"{got[0]} connections and {got[1]} operations after drawing and removing ({what}), before: {n_lines}, {n_ops}")


def move(button, dx, dy):
    from qtpy.QtCore import QEvent, QPointF, Qt
    from qtpy.QtGui import QMouseEvent
    from qtpy.QtWidgets import QApplication

    left, none, mod = Qt.MouseButton.LeftButton, Qt.MouseButton.NoButton, Qt.KeyboardModifier.NoModifier
    for kind, p, b, bs in [
        (QEvent.Type.MouseButtonPress, (2, 2), left, left),
        (QEvent.Type.MouseMove, (2 + dx, 2 + dy), none, left),
        (QEvent.Type.MouseButtonRelease, (2 + dx, 2 + dy), left, none),
    ]:
        QApplication.sendEvent(button, QMouseEvent(kind, QPointF(*p), QPointF(*p), b, bs, mod))


def save(ed, name, path):
    from b_asic.sfg_gui.select_sfg_window import SelectSFGWindow
    from qtpy.QtWidgets import QApplication, QComboBox, QPushButton

    old = [w for w in QApplication.topLevelWidgets() if isinstance(w, SelectSFGWindow)]
    with answers(save=path):
        ed.action("Save SFG")
        new = [w for w in QApplication.topLevelWidgets() if isinstance(w, SelectSFGWindow) and w not in old]
        ensure(len(new) == 1, "saving does not ask which graph to save")
        new[0].findChildren(QComboBox)[0].setCurrentText(name)
        (ok,) = (b for b in new[0].findChildren(QPushButton) if b.text() == "Ok")
        ok.click()
        new[0].deleteLater()
    ensure(os.path.exists(path), "nothing is saved")


def places(ed, names):
    return {b.operation.name: (b.pos().x(), b.pos().y(), b.is_flipped()) for b in ed.buttons() if b.operation.name in names}


def save_and_edit(case, rec, ed, d, sfg, timing):
    g = d.g
    names = {d.name(t) for t in d.tokens}
    path = os.path.join(env.scratch_dir(), f"c32-{os.getpid()}.py")
    for t in d.tokens[:: 1 + case["order"][0] % 3]:
        move(d.btn[t], 60 + 45 * t[1], 30 * len(t[0]) + 20 * t[1])
    where = places(ed, names)
    lines = sorted((a.operation.name, i, b.operation.name, j) for a, i, b, j in ed.lines())
    try:
        save(ed, "first", path)
        ed.clear()
        second = iter(["first", "second"])
        with answers(open=path, text=lambda: next(second)):
            ed.action("Load SFG")
            ensure(list(ed.sfgs()) == ["first"], f"loaded are {list(ed.sfgs())}")
            same(places(ed, names), where, "positions of the loaded operations")
            got = sorted((a.operation.name, i, b.operation.name, j) for a, i, b, j in ed.lines())
            same(got, lines, "connections drawn after loading")
            first = {b.operation.name: b for b in ed.buttons()}
            ed.action("Load SFG")
            ensure(list(ed.sfgs()) == ["first", "second"], f"after loading twice: {list(ed.sfgs())}")
        for n in ("first", "second"):
            matches_spec(ed.sfgs()[n], g, ctx=f"(loaded as {n})")
            check_latencies(ed.sfgs()[n], d, timing)
        other = {b.operation.name: b for b in ed.buttons() if b not in first.values()}
        # the graphs are moved and saved one at a time
        for b in other.values():
            move(b, 100, 100)
        os.unlink(path)
        save(ed, "first", path)
        text = open(path).read()
        space = {}
        exec(compile(text, path, "exec"), space)
        sf = ed.sfgs()["first"]
        got = {op.name: space["positions"].get(op.graph_id) for op in sf.split()}
        same({n: tuple(v) for n, v in got.items() if v}, where, "saved positions while another graph is shown")
        if case["rows"] is not None:
            simulate(ed, {"first": g, "second": g}, case, rec)
        edit(case, ed, d, first, sf)
    finally:
        if os.path.exists(path):
            os.unlink(path)


def edit(case, ed, d, first, sf):
    """Any edit of the drawing of a graph removes that graph; it can be created again."""
    g = d.g
    d.btn = {t: first[d.name(t)] for t in d.tokens}
    second = ed.sfgs()["second"]
    view = sfg_view(second)
    what = case["edit"]
    a = case["order"][0]
    n = len(ed.buttons())
    if what == "arrow":
        e = d.edges[a % len(d.edges)]
        (arrow,) = (x for x in ed.arrows() if x.destination_port_button is d.in_port(*e[1]))
        arrow.remove()
        ensure("first" not in ed.sfgs(), "the graph is kept although one of its connections was removed")
        ed.connect(d.in_port(*e[1]), d.out_port(*e[0]))
    elif what == "operation":
        t = d.tokens[a % len(d.tokens)]
        if case["key"]:
            ed.select([d.btn[t]])
            ed.delete_key()
        else:
            d.btn[t].remove()
        ensure("first" not in ed.sfgs(), f"the graph is kept although its operation {d.name(t)} was removed")
        ensure(len(ed.buttons()) == n - 1, "the operation is still shown")
        d.add(t, d.name(t), False)
        ed.properties(d.btn[t], d.name(t), d.value_text(t, False))
        for e in d.edges:
            if e[1][0] == t or ("n", e[0][0]) == t:
                ed.connect(d.in_port(*e[1]), d.out_port(*e[0]))
    else:
        new = ed.add(listed="Output")
        src = d.out_port(*g.ports[a % len(g.ports)])
        ed.connect(src, ed.port(new, "in", 0))
        ensure("first" not in ed.sfgs(), "the graph is kept although something was connected to it")
        new.remove()
    ensure(list(ed.sfgs()) == ["second"], f"the graphs after an edit ({what}) are {list(ed.sfgs())}")
    same(sfg_view(second), view, f"the other graph after an edit ({what})")
    created = d.create("third", "ports")
    matches_spec(created, g, ctx=f"(created again after an edit: {what})")
    same(sfg_view(second), view, "the other graph after creating one")
    if d.edges:
        e = d.edges[(a + 2) % len(d.edges)]
        (arrow,) = (x for x in ed.arrows() if x.destination_port_button is d.in_port(*e[1]))
        arrow.remove()
        ensure(list(ed.sfgs()) == ["second"], f"the graphs after removing a connection of the third one are {list(ed.sfgs())}")
        detour(ed, d, ("wrong", a, a), e, [])
        ed.connect(d.out_port(*e[0]), d.in_port(*e[1]))
        d.check_lines("after redrawing a connection of a created graph")
        matches_spec(d.create("third", "ports"), g, ctx="(created again after redrawing a connection)")
    t = d.tokens[(a + 1) % len(d.tokens)]
    d.btn[t].remove()
    ensure(list(ed.sfgs()) == ["second"], f"the graphs after removing {d.name(t)} from the third one are {list(ed.sfgs())}")


def generator(kind, p):
    """Fields of the dialog and values of a signal generator."""
    if kind == "Constant":
        return [repr(p[0])], lambda n: p[0]
    if kind == "Impulse":
        return [abs(p[1])], lambda n: 1 if n == abs(p[1]) else 0
    if kind == "Step":
        return [abs(p[1])], lambda n: 1 if n >= abs(p[1]) else 0
    if kind == "Sinusoid":
        return [repr(p[0]), repr(p[1] / 4)], lambda n: math.sin(math.pi * (p[0] * n + p[1] / 4))
    return [", ".join(map(repr, p))], lambda n: p[n] if n < len(p) else 0


def simulate(ed, graphs, case, rec):
    """Simulate through the dialog: the results of every graph."""
    from b_asic.sfg_gui.simulate_sfg_window import SimulateSFGWindow
    from b_asic.sfg_gui.simulation_worker import SimulationWorker
    from qtpy.QtWidgets import QApplication, QCheckBox, QComboBox, QLineEdit, QPushButton, QSpinBox

    old = [w for w in QApplication.topLevelWidgets() if isinstance(w, SimulateSFGWindow)]
    ed.win.simulate_sfg()
    (dlg,) = (w for w in QApplication.topLevelWidgets() if isinstance(w, SimulateSFGWindow) and w not in old)
    try:
        boxes = dlg.findChildren(QComboBox)
        ensure(len(boxes) == sum(g.ni for g in graphs.values()), f"{len(boxes)} inputs in the dialog")
        fields = lambda: [w for w in dlg.findChildren((QLineEdit, QSpinBox)) if w.objectName() != "qt_spinbox_lineedit"]
        counts = [w for w in fields() if isinstance(w, QSpinBox)]
        ensure(len(counts) == len(graphs), f"{len(counts)} iteration counts in the dialog")
        iters, funcs, left = {}, {}, list(boxes)
        for n, (name, g) in enumerate(graphs.items()):
            iters[name] = 1 + (case["rows"] + 3 * n) % 7
            counts[n].setValue(iters[name])
            funcs[name] = []
            for i in range(g.ni):
                kind, p = case["gens"][(i + n) % len(case["gens"])]
                texts, func = generator(kind, p)
                before = fields()
                box = left.pop(0)
                box.setCurrentText("Gaussian")  # so that there always is a change
                gone = fields()
                box.setCurrentText(kind)
                new = [w for w in fields() if w not in gone]
                ensure(len(new) == len(texts), f"{len(new)} fields for a {kind}: {len(before)}")
                for w, t in zip(new, texts):
                    (w.setValue if isinstance(w, QSpinBox) else w.setText)(t)
                funcs[name].append(func)
        boxes_all = dlg.findChildren(QCheckBox)
        for n in range(len(graphs)):
            boxes_all[2 * n].setChecked(bool(case["plot"]))
            boxes_all[2 * n + 1].setChecked(True)
        dlg.simulate.disconnect()  # the threads are not started
        (ok,) = (b for b in dlg.findChildren(QPushButton) if b.text() == "Simulate")
        ok.click()
        ensure(not _errors, f"simulation dialog: {_errors}")
        props = dlg.properties
        for name, g in graphs.items():
            sfg = ed.sfgs()[name]
            ensure(sfg in props, f"no simulation of {name}")
            got = []
            worker = SimulationWorker(sfg, props[sfg])
            worker.finished.connect(got.append)
            rows = [[f(n) for f in funcs[name]] for n in range(iters[name])]
            try:
                trace, _ = g.simulate(rows)
            except Unstable:
                continue
            # the dialog gives complex numbers, which minimum and maximum refuse
            if any(n["k"] in ("ser2p", "min", "max") for n in g.nodes):
                continue
            worker.start_simulation()
            ensure(len(got) == 1, "the simulation is not reported")
            res = got[0].results
            scale = trace_scale(trace)
            for k, (sn, sp) in enumerate(g.outs):
                key = sfg.output_operations[k].graph_id
                y = res.get(key)
                ensure(y is not None and len(y) == iters[name], f"{name}: {key} has {y} after {iters[name]} iterations")
                for n in range(len(trace)):
                    want = trace[n][sn, sp]
                    ensure(close(y[n], want, scale), f"{name}: output {k} is {y[n]} in iteration {n}, expected {want} (inputs {rows})")
            rec.label("simulated")
    finally:
        dlg.close()
        dlg.deleteLater()


INT = st.integers(0, 30)
HALF = st.sampled_from([0.5, 1.0, -0.25, 2.0, 0.0, -3.5])
CASES = st.fixed_dictionaries(
    {
        "spec": any_spec(("real", "linear_real", "cplx"), max_ops=7, max_delays=2),
        "naming": st.sampled_from(["before", "after", "after", "same"]),
        "listed": st.booleans(),
        "comma": st.booleans(),
        "batch": st.booleans(),
        "backwards": st.booleans(),
        "order": st.lists(INT, min_size=2, max_size=6),
        "select": st.sampled_from(["all", "mixed", "ports"]),
        "detours": st.lists(st.tuples(st.sampled_from(["wrong", "occupied", "outputs", "inputs", "extra", "flip", "move"]), INT, INT), max_size=4),
        "latencies": st.lists(st.tuples(INT, INT), max_size=3),
        "rows": st.one_of(st.none(), st.integers(0, 20)),
        "gens": st.lists(
            st.tuples(
                st.sampled_from(["Constant", "Impulse", "Step", "Sinusoid", "ZeroPad"]),
                st.tuples(HALF, st.integers(-3, 3), HALF),
            ),
            min_size=1,
            max_size=3,
        ),
        "plot": st.booleans(),
        "edit": st.sampled_from(["arrow", "operation", "connect"]),
        "key": st.booleans(),
    }
)

FACETS = [Facet("editor", CASES, draw, 320, 5000, shards=8)]
