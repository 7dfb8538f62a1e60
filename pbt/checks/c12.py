"""C12: editing a schedule never makes it invalid."""

import sys

from hypothesis import strategies as st

from ..core import Facet, ensure
from ..obs import params_of
from ..schedmodel import INF, TIM, Contracted, State, break_delay_loops, check_slacks, check_valid, prepare, timing_of
from ..sfggen import any_spec, build, class_of, spec_strategy

RULE = (
    "Random graphs scheduled ASAP or ALAP, then up to twelve random edits. After every edit the start times, the delays per "
    "operand read from the schedule's graph, and the slacks are compared with a model that says which edges may change and "
    "by how much; whether an edit is to be refused is decided by the model. Non-trivial: at least three accepted edits, one "
    "of them moving an operation across the end of the schedule or changing delays."
)


class Model:
    """The schedule as it should be, edge slacks included."""

    def __init__(self, sched, con):
        self.sched, self.con = sched, con
        self.s = check_valid(sched, con, "initial")
        self.laps0 = 0

    def edge_key(self, e):
        return (e[2], e[3])

    def slacks(self, s=None):
        s = s or self.s
        return {self.edge_key(e): s.slack(self.con, e) for e in self.con.edges}

    def limits(self, nm):
        sl = self.slacks()
        f = min([sl[self.edge_key(e)] for e in self.con.fan_out[nm]], default=INF)
        b = min([sl[self.edge_key(e)] for e in self.con.fan_in[nm]], default=INF)
        return b, f

    def acceptable(self, nm, t):
        """Can nm move by t?  Slacks allow it, and the new position has a representation with non-negative laps."""
        b, f = self.limits(nm)
        if not -b <= t <= f:
            return False
        con, s, T = self.con, self.s, self.s.T
        x = s.start[nm] + t
        reps = [(x // T, x % T)]
        if x % T == 0:
            reps.append((x // T - 1, T))
        for k, new in reps:
            ok = True
            for e in con.fan_in[nm]:
                own = e[0] == nm
                d = s.d[nm, e[3]] + (0 if own else k)
                su = new if own else s.start[e[0]]
                ok = ok and d - (su + con.outo[e[0]][e[1]] > T) >= 0
            for e in con.fan_out[nm]:
                own = e[2] == nm
                d = s.d[e[2], e[3]] - (0 if own else k)
                ok = ok and d - (new + con.outo[nm][e[1]] > T) >= 0
            if ok:
                return True
        return False


def view(sched):
    ops = {op.graph_id: op for op in sched._sfg.operations}
    return (
        sched.schedule_time,
        dict(sched.start_times),
        {k: v for k, v in sched.laps.items() if v},
        {i: (dict(op.latency_offsets), op.execution_time, params_of(op)) for i, op in ops.items()},
    )


def attempt(f):
    try:
        f()
    except ValueError as e:
        return str(e) or "ValueError"
    return None


def step(m, cmd, rec, stats):
    sched, con = m.sched, m.con
    kind, a, b = cmd
    old = m.s
    T = old.T
    sl0 = m.slacks()
    names = con.names
    if kind in ("latency", "exec"):
        names = [x for x in names if con.kind[x] not in ("in", "out", "c", "sink")] or names
    elif kind == "swap":
        names = [x for x in names if con.kind[x] in ("add", "mul", "min", "max", "addsub")] or names
    nm = names[a % len(names)]
    names = con.names
    gid = old.ids[nm]
    before = view(sched)
    moved = {}
    newT = T
    err = None
    must = None  # None: may be refused, True: must be accepted, False: must be refused
    back, fwd = m.limits(nm)
    if kind in ("move", "far"):
        t = b if kind == "move" else (fwd + b % 3 - 1 if b >= 0 else -back + b % 3 - 1)
        if abs(t) > 10 * T + 50:
            t = b
        must = m.acceptable(nm, t)
        err = attempt(lambda: sched.move_operation(gid, t))
        moved = {nm: t}
        what = f"move {nm} by {t}"
    elif kind in ("alap", "asap"):
        what = f"{kind} {nm}"
        err = attempt(lambda: getattr(sched, f"move_operation_{kind}")(gid))
        must = True
        if err is None:
            s = State(sched, con, what)
            if kind == "alap":
                exp = T - old.start[nm] if fwd == INF else max((x for x in range(fwd + 1) if m.acceptable(nm, x)), default=0)
            else:
                exp = -old.start[nm] if back == INF else -max((x for x in range(back + 1) if m.acceptable(nm, -x)), default=0)
            moved = {nm: exp}
    elif kind == "rotate":
        what = f"rotate {b}"
        step1 = 1 if b >= 0 else -1
        err = attempt(sched.rotate_forward if step1 == 1 else sched.rotate_backward)
        must = False if not sched.cyclic else None
        if sched.cyclic and all(con.ino[e[2]][e[3]] == 0 for e in con.edges):
            must = True
        moved = dict.fromkeys(names, step1)
    elif kind == "time":
        newT = max(1, T + b)
        what = f"set schedule time {newT}"
        end = max([old.start[u] + o for u in names for o in con.outo[u]] + [old.start[u] for u in names if con.kind[u] in ("out", "sink")])
        must = newT >= end
        err = attempt(lambda: sched.set_schedule_time(newT))
    elif kind == "finer":
        f = b % 4
        what = f"increase time resolution {f}"
        if T * f > 600:
            return
        must = f > 0
        err = attempt(lambda: sched.increase_time_resolution(f))
        if err is None and must:
            newT = T * f
            con.scale(lambda x: x * f)
            old = scaled(old, lambda x: x * f)
            sl0 = {k: v * f for k, v in sl0.items()}
    elif kind == "coarser":
        vals = [T, *old.start.values()]
        for x in names:
            if con.kind[x] not in ("in", "out", "c", "sink"):
                vals += [*con.ino[x], *con.outo[x]] + ([con.ex[x]] if con.ex[x] is not None else [])
        poss = [x for x in range(1, max(vals) + 1) if not any(v % x for v in vals)]
        got = sorted(sched.get_possible_time_resolution_decrements())
        ensure(got == poss, f"possible time resolution decrements {got}, expected {poss}")
        f = poss[a % len(poss)] if b >= 0 else -b
        what = f"decrease time resolution {f}"
        must = f in poss
        err = attempt(lambda: sched.decrease_time_resolution(f))
        if err is None and must:
            newT = T // f
            con.scale(lambda x: x // f)
            old = scaled(old, lambda x: x // f)
            sl0 = {k: v // f for k, v in sl0.items()}
    elif kind in ("latency", "exec"):
        k = con.kind[nm]
        if k in ("in", "out", "c", "sink"):
            return
        mode = a // 64 % 3
        if mode == 2 and kind == "latency":
            targets, call = [nm], lambda v: sched.set_latency_of_type_name(gid, v)
        else:
            targets = [x for x in names if con.kind[x] == k]
            arg, suf = (class_of(k), "type") if mode else (k, "type_name")
            fn = getattr(sched, ("set_latency_of_" if kind == "latency" else "set_execution_time_of_") + suf)
            call = lambda v: fn(arg, v)  # noqa: E731
        if kind == "exec":
            val = b
            must = val >= 0
            err = attempt(lambda: call(val))
            what = f"execution time of {k} {val}"
            if err is None:
                for x in targets:
                    con.ex[x] = val
        else:
            val = abs(b) % (T + 1) if b >= -6 else -1
            what = f"latency of {targets} {val}"
            save = {x: (con.ino[x], con.outo[x]) for x in targets}
            new = {x: ([0] * len(con.ino[x]), [val] * len(con.outo[x])) for x in targets}
            for x in targets:
                con.ino[x], con.outo[x] = new[x]
            must = val >= 0 and all(old.slack(con, e) >= 0 for e in con.edges)
            # a value must not be needed more than a period after the start of the operation using it
            must = must and all(
                old.d[e[2], e[3]] - (old.start[x] + con.outo[x][e[1]] > T) >= 0 for x in targets for e in con.fan_out[x]
            )
            sl0 = m.slacks()
            err = attempt(lambda: call(val))
            if err is not None:
                for x in targets:
                    con.ino[x], con.outo[x] = save[x]
    elif kind == "swap":
        op = sched._sfg.find_by_id(gid)
        if con.kind[nm] not in ("add", "mul", "min", "max", "addsub") or not op.is_swappable:
            return
        what = f"swap operands of {nm}"
        must = True
        err = attempt(lambda: sched.swap_io_of_operation(gid))
        con.swap(nm)
        sl0 = {((nm, 1 - k[1]) if k[0] == nm else k): v for k, v in sl0.items()}
    elif kind == "unknown":
        what = "unknown operation"
        must = False
        for f in (
            lambda: sched.move_operation("nosuch", b),
            lambda: sched.move_operation_alap("nosuch"),
            lambda: sched.move_operation_asap("nosuch"),
            lambda: sched.start_time_of_operation("nosuch"),
            lambda: sched.slacks("nosuch"),
        ):
            err = attempt(f)
            ensure(err is not None, f"{what} accepted")
    else:
        raise KeyError(kind)

    if err is not None:
        ensure(must is not True, f"{what} refused: {err}")
        now = view(sched)
        ensure(now == before, f"refused edit ({what}: {err}) changed the schedule: {now}, before {before}")
        rec.label(f"refused {kind}")
        return
    ensure(must is not False, f"{what} accepted (start {m.s.start}, delays {m.s.d}, T {T})")
    s = check_valid(sched, con, what, T=newT)
    for x in names:
        t = moved.get(x, 0)
        ensure(
            (s.start[x] - old.start[x] - t) % newT == 0 if t else s.start[x] == old.start[x],
            f"{what}: {x} starts at {s.start[x]}, before {old.start[x]}",
        )
    for e in con.edges:
        key = m.edge_key(e)
        exp = sl0[key] + moved.get(e[2], 0) - moved.get(e[0], 0)
        if kind == "time":
            exp += (newT - T) * old.d[key]
        got = s.slack(con, e)
        ensure(got == exp, f"{what}: operand {e[3]} of {e[2]} waits {got} for its use, expected {exp}")
    check_slacks(sched, con, s, what)
    for op in sched._sfg.operations:
        x = op.name
        ensure(op.execution_time == con.ex[x] or con.kind[x] in ("in", "out", "sink", "c"), f"{what}: execution time of {x}")
        ensure(
            [p.latency_offset for p in op.inputs] == con.ino[x] and [p.latency_offset for p in op.outputs] == con.outo[x],
            f"{what}: latencies of {x} are {op.latency_offsets}",
        )
    stats["n"] += 1
    if s.d != m.s.d:
        stats["delays"] += 1
        rec.label("delays changed")
    rec.label(kind)
    m.s = s


def scaled(s, f):
    import copy

    s = copy.copy(s)
    s.start = {k: f(v) for k, v in s.start.items()}
    s.T = f(s.T)
    return s


def initial(case, con, sfg):
    from b_asic.schedule import Schedule
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler

    end = con.end(con.asap())
    if end == 0:
        return None
    return Schedule(
        sfg, [ASAPScheduler, ALAPScheduler][case["alg"]](), schedule_time=end + max(0, case["T"]), cyclic=case["cyc"]
    )


def edits(case, rec):
    g, con, sfg = prepare(case)
    con.own_lists()
    sched = initial(case, con, sfg)
    if sched is None:
        return
    m = Model(sched, con)
    stats = {"n": 0, "delays": 0}
    for cmd in case["cmds"]:
        step(m, cmd, rec, stats)
    rec.nt(stats["n"] >= 3 and stats["delays"] >= 1)


# ------------------------------------------------------------------ time resolution


def resolution(case, rec):
    """All times are multiples of f, except the ones that are changed by one."""
    f = case["f"]
    g = break_delay_loops(case["spec"])
    tm = timing_of(g, [{"in": [v * f for v in t["in"]], "out": [v * f for v in t["out"]], "ex": t["ex"] * f} for t in case["tim"]])
    timed = sorted(tm)
    for key, i, j in case["odd"]:
        if not timed:
            break
        t = tm[timed[i % len(timed)]]
        if key == "ex":
            t["ex"] += 1
        elif t[key]:
            t[key] = [v + (q == j % len(t[key])) for q, v in enumerate(t[key])]
            t["out"] = [max([v, *t["in"]]) for v in t["out"]]
    con = Contracted(g, tm)
    sfg = build(g, case["spec"]["sty"], timing=tm).sfg
    con.own_lists()
    end = con.end(con.asap())
    sched = initial({**case, "T": -end % f + f * case["T"]}, con, sfg)
    if sched is None:
        return
    m = Model(sched, con)
    stats = {"n": 0, "delays": 0}
    for i, nm in enumerate(con.names):
        k = -m.s.start[nm] % f
        if k and m.acceptable(nm, k):
            step(m, ["move", i, k], rec, stats)
    off = [x for x in con.names if m.s.start[x] % f]
    rec.label(f"{len(case['odd'])} odd latencies, {'all' if not off else 'not all'} starts on the grid")
    rec.nt(not off and len(con.names) > 3)
    for cmd in [["coarser", 0, -f], *case["cmds"]]:
        step(m, cmd, rec, stats)


# ------------------------------------------------------------------ rows


def rows(case, rec):
    """Rows in the schedule: a list of operations with a row each, without empty rows after a move."""
    g, con, sfg = prepare(case)
    sched = initial(case, con, sfg)
    if sched is None:
        return
    ids = sorted(sched.start_times)
    row = {i: sched.get_y_location(i) for i in ids}
    ensure(sorted(row.values()) == list(range(len(ids))), f"initial rows {row}")
    before = view(sched)
    changed = 0
    for kind, a, b in case["cmds"]:
        i = ids[a % len(ids)]
        y = b % (len(ids) + 2)
        if kind == 0:
            sched.move_y_location(i, y, insert=False)
            row[i] = y
        elif kind == 1:
            sched.move_y_location(i, y, insert=True)
            row = {k: v + (v >= y) for k, v in row.items()}
            row[i] = y
        elif kind == 2:
            sched.set_y_location(i, y)
            row[i] = y
        else:
            sched.sort_y_locations_on_start_times()
            row = {k: sched.get_y_location(k) for k in ids}
            ensure(sorted(row.values()) == list(range(len(ids))), f"rows after sorting {row}")
            plain = [
                k for k in sorted(ids, key=row.get) if sched._sfg.find_by_id(k).type_name() not in ("in", "out", "sink", "dontcare")
            ]
            starts = [sched.start_times[k] for k in plain]
            ensure(starts == sorted(starts), f"rows not sorted on start times: {plain} start at {starts}")
        if kind in (0, 1):
            used = sorted(set(row.values()))
            row = {k: used.index(v) for k, v in row.items()}
        got = {k: sched.get_y_location(k) for k in ids}
        ensure(got == row, f"rows after {(kind, i, y)}: {got}, expected {row}")
        changed += 1
    ensure(view(sched) == before, "changing rows changed the schedule")
    rec.nt(changed >= 3 and len(ids) > 4)


SPEC = st.one_of(
    spec_strategy("linear_real", max_ops=7),
    any_spec(("real",), max_ops=6),
    spec_strategy("real", types=["add", "cmul", "sub", "sym2p", "r2bfly", "c"], min_delays=1, max_delays=4, max_ops=7),
)
BASE = {
    "spec": SPEC,
    "tim": st.lists(TIM, min_size=1, max_size=4),
    "T": st.integers(-3, 6),
    "cyc": st.booleans(),
    "alg": st.integers(0, 1),
}
KINDS = ["move", "move", "move", "far", "far", "alap", "asap", "rotate", "rotate", "time", "finer", "coarser", "latency", "exec", "unknown", "swap"]
CMD = st.tuples(st.sampled_from(KINDS), st.integers(0, 191), st.integers(-8, 8)).map(list)
MOVE = st.tuples(
    st.sampled_from(["move", "far", "far", "alap", "asap", "rotate"]), st.integers(0, 63), st.integers(-9, 9)
).map(list)

FACETS = [
    Facet(
        "edits",
        st.fixed_dictionaries({**BASE, "cmds": st.lists(CMD, min_size=1, max_size=12)}),
        edits,
        900,
        20000,
        shards=4,
    ),
    Facet(
        "moves",
        st.fixed_dictionaries({**BASE, "cyc": st.just(True), "cmds": st.lists(MOVE, min_size=4, max_size=16)}),
        edits,
        500,
        15000,
        shards=3,
    ),
    Facet(
        "resolution",
        st.fixed_dictionaries(
            {
                **BASE,
                "T": st.integers(0, 3),
                "f": st.integers(2, 4),
                "odd": st.lists(
                    st.tuples(st.sampled_from(["in", "in", "out", "ex"]), st.integers(0, 15), st.integers(0, 3)).map(list), max_size=2
                ),
                "cmds": st.lists(
                    st.tuples(st.sampled_from(["coarser", "finer", "move", "time"]), st.integers(0, 63), st.integers(-4, 4)).map(list),
                    max_size=3,
                ),
            }
        ),
        resolution,
        600,
        10000,
    ),
    Facet(
        "rows",
        st.fixed_dictionaries(
            {
                **BASE,
                "cmds": st.lists(
                    st.tuples(st.integers(0, 3), st.integers(0, 30), st.integers(0, 30)).map(list), min_size=1, max_size=8
                ),
            }
        ),
        rows,
        400,
        8000,
    ),
]
