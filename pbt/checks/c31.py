"""C31: the scheduler window edits the schedule like the schedule itself."""

import contextlib
import copy
import gc
import io
import os
import sys

from hypothesis import strategies as st

from .. import env, qt
from ..core import Facet, Violation, ensure
from ..schedmodel import TIM, check_valid, prepare
from ..sfggen import any_spec, spec_strategy
from .c12 import initial
from .c12 import view as schedule_view

RULE = (
    "Random schedules are opened in the scheduler window (without a display) and edited by generated mouse drags of operations "
    "and of the end of the schedule, menu actions, saving and opening. A copy of the schedule gets the same edits through its own "
    "methods; after every step both must be equal and valid, and the window must show them. Non-trivial: at least two steps that "
    "changed the schedule."
)

_win = None
_errors = []


def window():
    global _win
    if _win is None:
        qt.app()
        sys.excepthook = lambda t, v, tb: _errors.append(f"{t.__name__}: {v}")
        from b_asic.scheduler_gui.main_window import ScheduleMainWindow

        _win = ScheduleMainWindow()
        _win.resize(1600, 1200)
        _win.show()
    return _win


def view_of(s):
    return (*schedule_view(s), {i: s.get_y_location(i) for i in s.start_times}, s.cyclic)


def scheduler_item(win):
    from b_asic.scheduler_gui.scheduler_item import SchedulerItem

    found = [i for i in win.view.scene().items() if isinstance(i, SchedulerItem)]
    ensure(len(found) == 1, f"{len(found)} schedules are shown")
    return found[0]


def owner(item, cls):
    while item is not None and not isinstance(item, cls):
        item = item.parentItem()
    return item


def grip(win, item):
    """A point in the scene where a click grabs the item."""
    from b_asic.scheduler_gui.operation_item import OperationItem
    from b_asic.scheduler_gui.timeline_item import TimelineItem
    from qtpy.QtCore import QPointF

    grid = [0.5, *(x / 26 for x in range(1, 26, 4))]
    for part in [item, *item.childItems()]:
        r = part.boundingRect()
        for fy in grid:
            for fx in grid:
                p = part.mapToScene(QPointF(r.x() + fx * r.width(), r.y() + fy * r.height()))
                under = (owner(x, OperationItem) or owner(x, TimelineItem) for x in win.view.items(win.view.mapFromScene(p)))
                if next(filter(None, under), None) is item:
                    return p
    return None


def shown(win, sched, ctx):
    """The window shows the schedule."""
    from b_asic.scheduler_gui.operation_item import OperationItem
    from b_asic.scheduler_gui.scheduler_item import SchedulerItem
    from b_asic.scheduler_gui.timeline_item import TimelineItem

    g = scheduler_item(win)
    lonely = lambda: [
        type(x).__name__
        for x in win.view.scene().items()
        if isinstance(x, (TimelineItem, OperationItem)) and owner(x, SchedulerItem) is not g and x.isVisible()
    ]
    if lonely():
        gc.collect()
    ensure(not lonely(), f"{ctx}: shown are {lonely()} that do not belong to the schedule")
    items = {i.graph_id: i for i in g.components}
    ensure(set(items) == set(sched.start_times), f"{ctx}: shown are {sorted(items)}")
    if len(items) > 1:
        # the distance of the items from each other, in time
        pos = {i: it.x() for i, it in items.items()}
        first = min(pos, key=lambda i: (sched.start_times[i], i))
        base = pos[first] - sched.start_times[first]
        for i, x in pos.items():
            ensure(abs(x - base - sched.start_times[i]) < 1e-6, f"{ctx}: {i} starts at {sched.start_times[i]} and is shown at {x - base:g}")
    ys = sorted((sched.get_y_location(i), it.y(), i) for i, it in items.items())
    for (a, ya, i), (b, yb, j) in zip(ys, ys[1:]):
        ensure((a < b) == (ya < yb - 1e-6), f"{ctx}: {i} in row {a} at {ya}, {j} in row {b} at {yb}")


def table(win):
    t = win.info_table
    res = {}
    for r in range(t.rowCount()):
        k, v = t.item(r, 0), t.item(r, 1)
        if k is not None and v is not None:
            res[k.text()] = v.text()
    return res


def editing(case, rec):
    global _win
    try:
        edit(case, rec)
    except BaseException:
        # the next case gets a window of its own
        _win = None
        raise


def edit(case, rec):
    from b_asic.scheduler_gui.operation_item import OperationItem
    from b_asic.scheduler_gui.timeline_item import TimelineItem
    from qtpy.QtCore import QPointF
    from qtpy.QtWidgets import QFileDialog, QInputDialog

    g, con, sfg = prepare(case)
    con.own_lists()
    s = initial(case, con, sfg)
    if s is None:
        return
    win = window()
    del _errors[:]
    path = os.path.join(env.scratch_dir(), f"c31-{os.getpid()}.bsc")
    log = io.StringIO()
    changed = 0
    before = view_of(s)
    with contextlib.redirect_stdout(log):
        win.open(s)
    ensure(view_of(s) == before and view_of(win.schedule) == before, "opening changed the schedule")
    ensure(win.schedule is not s, "the window edits the schedule it was given")
    m = copy.deepcopy(s)
    for n, (kind, a, k, dy) in enumerate(case["cmds"]):
        old = view_of(m)
        T = m.schedule_time
        what = f"step {n}: "
        qt.settle()
        with contextlib.redirect_stdout(log):
            if kind == "drag":
                comps = sorted(scheduler_item(win).components, key=lambda i: i.graph_id)
                item = comps[a % len(comps)]
                i = item.graph_id
                start = m.start_times[i]
                p = grip(win, item)
                if p is None:
                    rec.label("hidden")
                    continue
                back, fwd = m.slacks(i)
                y = m.get_y_location(i)
                step = 1 if k > 0 else -1
                pts = [QPointF(p.x() + step * q, p.y()) for q in range(1, abs(k) + 1)]
                pts += [QPointF(p.x() + k, p.y() + (1 if dy > 0 else -1) * q) for q in range(1, abs(dy) + 1)]
                what += f"drag {i} from {start} by {k} and {dy} rows (slacks {back}, {fwd}, schedule time {T}, cyclic {m.cyclic})"
                got = qt.drag(win.view, p, pts)
                ensure(not _errors, f"{what}: {_errors}")
                if got is None or owner(got, OperationItem) is not item:
                    rec.label("not grabbed")
                    continue
                now = win.schedule.start_times[i]
                mv = [d for d in range(0, k + step, step) if (start + d - now) % T == 0]
                ensure(mv, f"{what}: now at {now}")
                # how far it may go
                op = m.sfg.find_by_id(i)
                room = T - start - (op.latency if op.input_count and op.output_count else 0)
                if k >= 0:
                    lim = fwd if m.cyclic else min(fwd, room)
                else:
                    lim = min(back, start + 1 if m.cyclic else start)
                goal = step * max(0, min(abs(k), lim))
                # rows only move as long as the horizontal position is allowed
                cands = [(goal, dy if goal == k else 0)]
                if start >= T or (room < 0 and not m.cyclic):
                    # at the edge, or with an unused output after it
                    cands = [(d, e) for d in mv for e in {dy, 0}]
                elif goal and not attempt(m, i, goal, 0):
                    rec.label("refused")
                    cands = [(0, dy if goal == k else 0)]
                trials = [t for t in (attempt(m, i, d, e) for d, e in cands) if t is not None]
                ensure(trials, f"{what}: now at {now}")
                m = next((t for t in trials if view_of(t) == view_of(win.schedule)), trials[0])
                t = table(win)
                ensure(t.get("ID") == i, f"{what}: information about {t.get('ID')} is shown")
                for key, v in zip(("Backward slack", "Forward slack"), m.slacks(i)):
                    txt = "∞" if v >= sys.maxsize else str(v)
                    ensure(t.get(key) == txt, f"{what}: {key} is shown as {t.get(key)}, expected {txt}")
            elif kind == "end":
                lines = [x for x in scheduler_item(win).axes.childItems() if isinstance(x, TimelineItem)]
                ensure(lines, "the end of the schedule is not shown")
                p = grip(win, max(lines, key=lambda x: x.scenePos().x()))
                if p is None:
                    rec.label("hidden")
                    continue
                step = 1 if k > 0 else -1
                least = m.get_max_end_time()
                what += f"drag the end by {k} (schedule time {T}, needed {least})"
                got = qt.drag(win.view, p, [QPointF(p.x() + step * q, p.y()) for q in range(1, abs(k) + 1)])
                ensure(not _errors, f"{what}: {_errors}")
                if owner(got, TimelineItem) is None:
                    rec.label("not grabbed")
                    continue
                # it moves in steps of one, to allowed times only
                new = T
                while new != T + k and new + step >= least:
                    new += step
                if new != T:
                    m.set_schedule_time(new)
                ensure(win.schedule.schedule_time == new, f"{what}: the schedule time is {win.schedule.schedule_time}")
                lines = got = None
                ensure(table(win).get("Schedule Time") == str(new), f"{what}: schedule time {table(win).get('Schedule Time')} is shown")
            elif kind == "rotate":
                f = k > 0
                what += "rotate " + ("forward" if f else "backward")
                (win.actionRotateForward if f else win.actionRotateBackward).trigger()
                try:
                    m = m.rotate_forward() if f else m.rotate_backward()
                except ValueError:
                    ensure(_errors, f"{what}: no error, the schedule refuses")
                    rec.label("refused")
                    del _errors[:]
            elif kind == "reorder":
                what += "reorder"
                win.actionReorder.trigger()
                m.reset_y_locations()
                m.sort_y_locations_on_start_times()
            elif kind == "finer":
                f, ok = 1 + a % 3, bool(k > 0)
                what += f"increase the time resolution by {f} (accepted {ok})"
                with replaced(QInputDialog, "getInt", lambda *x, **y: (f, ok)):
                    win.actionIncrease_time_resolution.trigger()
                if ok:
                    m.increase_time_resolution(f)
                    con.scale(lambda x, f=f: x * f)
            elif kind == "coarser":
                ok = bool(k > 0)
                fs = m.get_possible_time_resolution_decrements()
                f = fs[a % len(fs)]
                what += f"decrease the time resolution by {f} (accepted {ok})"
                seen = []

                def choose(parent, title, label, vals, *x, f=f, ok=ok, seen=seen, **y):
                    seen.extend(vals)
                    return str(f), ok

                with replaced(QInputDialog, "getItem", choose):
                    win.actionDecrease_time_resolution.trigger()
                ensure(sorted(map(int, seen)) == sorted(fs), f"{what}: offered are {seen}, possible are {fs}")
                if ok and f > 1:
                    m.decrease_time_resolution(f)
                    con.scale(lambda x, f=f: x // f)
            elif kind == "save":
                what += "save, close and open"
                name = path if a % 2 else path[:-4]
                with replaced(QFileDialog, "getSaveFileName", lambda *x, **y: (name, "")):
                    win.menu_save_as.trigger()
                if a % 3:
                    win.menu_close_schedule.trigger()
                    ensure(win.schedule is None, f"{what}: still open")
                with replaced(QFileDialog, "getOpenFileName", lambda *x, **y: (path, "B-ASIC schedule (*.bsc)")):
                    win.menu_open.trigger()
                os.remove(path)
        ensure(not _errors, f"{what}: {_errors}")
        ensure(win.schedule is not None, f"{what}: nothing is open")
        now = view_of(win.schedule)
        exp = view_of(m)
        ensure(now == exp, f"{what}: {diff(exp, now)}")
        check_valid(win.schedule, con, what, m.schedule_time)
        shown(win, win.schedule, what)
        changed += exp != old
        rec.label(kind)
    ensure(view_of(s) == before, "edits in the window changed the schedule that was passed to it")
    rec.nt(changed >= 2)


def attempt(s, i, d, dy):
    """A copy with the operation moved, None if refused."""
    s = copy.deepcopy(s)
    y = s.get_y_location(i)
    try:
        if d:
            s.move_operation(i, d)
    except ValueError:
        return None
    if dy:
        s.move_y_location(i, max(y + dy, 0), y + dy < 0)
    return s


def diff(exp, now):
    res = []
    for e, x in zip(exp, now):
        if e != x:
            if isinstance(e, dict):
                res.append(str({k: (x.get(k), "expected", v) for k, v in e.items() if x.get(k) != v}))
            else:
                res.append(f"{x}, expected {e}")
    return "; ".join(res)


@contextlib.contextmanager
def replaced(cls, name, f):
    """The dialog answers by itself."""
    old = cls.__dict__.get(name)
    setattr(cls, name, staticmethod(f))
    try:
        yield
    finally:
        if old is None:
            delattr(cls, name)
        else:
            setattr(cls, name, old)


SPEC = st.one_of(
    spec_strategy("linear_real", max_ops=6, sinks=False),
    any_spec(("real",), max_ops=5),
    spec_strategy("real", types=["add", "cmul", "sub", "sym2p", "r2bfly", "c"], min_delays=1, max_delays=3, max_ops=6),
)
CMD = st.tuples(
    st.sampled_from(["drag"] * 7 + ["end", "end", "rotate", "reorder", "finer", "coarser", "save"]),
    st.integers(0, 60),
    st.integers(-7, 7),
    st.sampled_from([0, 0, 0, 1, -1, 2, -3]),
).map(list)

FACETS = [
    Facet(
        "editing",
        st.fixed_dictionaries(
            {
                "spec": SPEC,
                "tim": st.lists(TIM, min_size=1, max_size=4),
                "T": st.integers(0, 8),
                "cyc": st.booleans(),
                "alg": st.integers(0, 1),
                "cmds": st.lists(CMD, min_size=2, max_size=9),
            }
        ),
        editing,
        1500,
        20000,
        shards=4,
    ),
]
