"""C10: ASAP and ALAP schedules are valid and extremal."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..obs import same, sfg_view
from ..schedmodel import TIM, State, check_slacks, check_valid, prepare
from ..sfggen import any_spec, spec_strategy

RULE = (
    "Random graphs with random port offsets; start times are compared with longest-path times computed on the plain-data "
    "graph, delays with those of the original graph up to a lap per operation, slacks with start times and delays read from "
    "the schedule's graph. Non-trivial: at least one delayed operand and more than two time units, several different "
    "requested output times, or a changed given schedule."
)


def schedule(sfg, scheduler=None, **kw):
    from b_asic.schedule import Schedule

    return Schedule(sfg, scheduler, **kw)


def empty(g):
    """Nothing to schedule: only inputs, constants and delays wired to outputs."""
    return all(n["k"] in ("in", "c", "t") for n in g.nodes)


def asap(case, rec):
    from b_asic.scheduler import ASAPScheduler

    g, con, sfg = prepare(case)
    view = sfg_view(sfg)
    t = con.asap()
    end = con.end(t)
    if end == 0 or empty(g):
        return
    T = None if case["T"] is None else end + case["T"]
    if case["T"] is not None and case["T"] < 0:
        try:
            s = schedule(sfg, ASAPScheduler(), schedule_time=max(T, 1))
        except ValueError:
            return
        if T >= 1:
            raise Violation(f"schedule time {T} accepted, critical path is {end}")
        return
    s = schedule(sfg, ASAPScheduler(), schedule_time=T, cyclic=case["cyc"])
    st_ = check_valid(s, con, "ASAP", T=end if T is None else T)
    for nm in con.names:
        if con.kind[nm] == "sink":
            continue
        ensure(st_.start[nm] == t[nm], f"ASAP start of {nm} is {st_.start[nm]}, expected {t[nm]}")
    check_slacks(s, con, st_, "ASAP")
    same(view, sfg_view(sfg), "scheduling changed the graph")
    rec.nt(any(e[4] for e in con.edges) and end > 2)


def alap(case, rec):
    from b_asic.scheduler import ALAPScheduler

    g, con, sfg = prepare(case)
    t0 = con.asap()
    end = con.end(t0)
    if end == 0 or empty(g):
        return
    T = end if case["T"] is None else end + max(0, case["T"])
    s = schedule(sfg, ALAPScheduler(), schedule_time=None if case["T"] is None else T, cyclic=case["cyc"])
    st_ = check_valid(s, con, "ALAP", T=T)
    check_slacks(s, con, st_, "ALAP")
    # absolute times: the outputs are at the end of their period
    t = {nm: st_.start[nm] + T * st_.L[nm] for nm in con.names}
    for nm in con.names:
        if con.kind[nm] == "out":
            ensure(t[nm] == T, f"ALAP: output {nm} at {t[nm]}, expected {T}")
    for u in con.names:
        if con.kind[u] in ("out", "sink"):
            continue
        now = [min(t[v] + con.ino[v][j], T * (1 + st_.L[v])) - con.outo[u][p] for _, p, v, j, d in con.fan_out[u] if d == 0 and con.kind[v] != "sink"]
        now += [T * (1 + d) - con.outo[u][p] for _, p, v, j, d in con.fan_out[u] if con.kind[v] == "sink"]
        late = [e for e in con.fan_out[u] if e[4] and con.kind[e[2]] != "sink"]
        # a value is never kept in the future of the period in which its user starts
        lo = min(now + [T * d + min(t0[v] + con.ino[v][j], T) - con.outo[u][p] for _, p, v, j, d in late], default=10**9)
        hi = min(
            now + [T * d + min(t[v] + con.ino[v][j], T * (1 + st_.L[v])) - con.outo[u][p] for _, p, v, j, d in late], default=10**9
        )
        if hi == 10**9:
            continue
        ensure(lo <= t[u] <= hi, f"ALAP: {u} at {t[u]}, expected between {lo} and {hi}")
    rec.nt(any(e[4] for e in con.edges) and end > 2)


SPEC = st.one_of(
    spec_strategy("linear_real", max_ops=8),
    any_spec(("real", "cplx"), max_ops=7),
    spec_strategy("real", types=["add", "cmul", "sub", "sym2p", "r2bfly", "ser3p", "c"], min_delays=1, max_delays=4, max_ops=8),
)


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def requested(case, rec):
    """Requested input and output times."""
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler

    g, con, sfg = prepare(case)
    if empty(g):
        return
    ids = {op.name: op.graph_id for op in sfg.operations}
    fixed = {f"n{i}": t for i, t in enumerate(case["ins"][: g.ni]) if t is not None}
    t0 = con.asap(fixed)
    avail = {nm: max([0] + [t0[u] + con.outo[u][p] for u, p, _, _, d in con.fan_in[nm] if d == 0]) for nm in con.names}
    outs = [nm for nm in con.names if con.kind[nm] == "out"]
    delta = {nm: x for nm, x in zip(outs, case["outs"] * len(outs), strict=False) if x is not None}
    nonout = max([t0[u] + o for u in con.names for o in con.outo[u]])
    if nonout == 0:
        return
    kw = {"input_times": {ids[nm]: t for nm, t in fixed.items()}} if fixed or case["none"] else {}
    if case["mode"] == 0:  # ASAP, relative output times
        place = {nm: avail[nm] for nm in outs}
        place.update({nm: nonout + x for nm, x in delta.items()})
        if delta:
            early = min(place[nm] - avail[nm] for nm in outs)
            place = {nm: x - early for nm, x in place.items()}
            kw["output_delta_times"] = {ids[nm]: x for nm, x in delta.items()}
        end = max([nonout, *place.values()])
        T = None if case["T"] is None else end + case["T"]
        if T is not None and T < end:
            if T > 0 and (not delta or T >= max(nonout, max(avail[nm] for nm in outs))):
                ensure(
                    refused(lambda: schedule(sfg, ASAPScheduler(**kw), schedule_time=T)),
                    f"schedule time {T} accepted, {end} needed",
                )
            return
        s = schedule(sfg, ASAPScheduler(**kw), schedule_time=T)
        st_ = check_valid(s, con, "ASAP", T=end if T is None else T)
        for nm in con.names:
            if con.kind[nm] == "out":
                ensure(st_.start[nm] == place[nm], f"ASAP: output {nm} at {st_.start[nm]}, expected {place[nm]} ({delta})")
            elif con.kind[nm] != "sink":
                ensure(st_.start[nm] == t0[nm], f"ASAP: {nm} at {st_.start[nm]}, expected {t0[nm]} (inputs at {fixed})")
        rec.nt(len(delta) >= 2 and len(set(delta.values())) > 1)
        return
    # ALAP with given input times and, for some outputs, given times
    end = con.end(t0)
    T = end + max(0, case["T"] or 0)
    want = {nm: avail[nm] + x % (T - avail[nm] + 1) for nm, x in delta.items()}
    if delta:
        kw["output_times"] = {ids[nm]: x for nm, x in want.items()}
    s = schedule(sfg, ALAPScheduler(**kw), schedule_time=T)
    st_ = check_valid(s, con, "ALAP", T=T)
    check_slacks(s, con, st_, "ALAP")
    for nm in outs:
        ensure(st_.start[nm] == want.get(nm, T), f"ALAP: output {nm} at {st_.start[nm]}, expected {want.get(nm, T)}")
    for nm, x in fixed.items():
        ensure(st_.start[nm] == x, f"ALAP: input {nm} at {st_.start[nm]}, expected {x}")
    rec.nt(bool(fixed) and bool(delta))


def provided(case, rec):
    """Given start times and laps are taken exactly when they are a valid schedule."""
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler

    g, con, sfg = prepare(case)
    t0 = con.asap()
    end = con.end(t0)
    if end == 0 or empty(g):
        return
    T = end + max(0, case["T"] or 0)
    s = schedule(sfg, [ASAPScheduler, ALAPScheduler][case["alg"]](), schedule_time=T)
    st_ = check_valid(s, con)
    start, laps = dict(s.start_times), dict(s.laps)
    s2 = schedule(sfg, schedule_time=T, start_times=dict(start), laps=dict(laps))
    b = State(s2, con, "given schedule")
    ensure(
        (b.T, b.start, b.d) == (st_.T, st_.start, st_.d),
        f"schedule built from start times and laps differs: {(b.T, b.start, b.d)}, expected {(st_.T, st_.start, st_.d)}",
    )
    check_slacks(s2, con, b, "given schedule")
    # something is changed
    kind, which, by = case["mut"]
    names = sorted(con.names)
    nm = names[which % len(names)]
    new = dict(start)
    if kind == 0:
        new[st_.ids[nm]] += by
        t = {x: new[st_.ids[x]] for x in names}
        # the laps of a signal are counted from the period in which the value becomes available
        wrap = {(u, p): int(t[u] + con.outo[u][p] > T) for u, p, _, _, _ in con.edges}
        wrap0 = {(u, p): int(st_.start[u] + con.outo[u][p] > T) for u, p, _, _, _ in con.edges}
        ok = all(0 <= x <= T for x in t.values()) and all(
            t[v] + con.ino[v][j] + T * (st_.d[v, j] - wrap0[u, p] + wrap[u, p]) - t[u] - con.outo[u][p] >= 0
            for u, p, v, j, _ in con.edges
        )
        r = refused(lambda: schedule(sfg, schedule_time=T, start_times=dict(new), laps=dict(laps)))
        ensure(r != ok, f"start of {nm} moved by {by} in a schedule of {T}: {'refused' if r else 'accepted'}")
        rec.label("accepted" if ok else "refused")
    elif kind == 1:
        del new[st_.ids[nm]]
        ensure(refused(lambda: schedule(sfg, schedule_time=T, start_times=new, laps=dict(laps))), "missing start time accepted")
    elif kind == 2:
        new["nosuchid"] = 0
        ensure(refused(lambda: schedule(sfg, schedule_time=T, start_times=new, laps=dict(laps))), "unknown operation accepted")
    elif kind == 3:
        sig = sorted(laps)[which % len(laps)]
        bad = {**laps, sig: -1 - abs(by)}
        ensure(refused(lambda: schedule(sfg, schedule_time=T, start_times=new, laps=bad)), "negative laps accepted")
    elif kind == 4:
        ensure(refused(lambda: schedule(sfg, schedule_time=T, start_times=new)), "start times without laps accepted")
        ensure(refused(lambda: schedule(sfg, schedule_time=T, laps=dict(laps))), "laps without start times accepted")
        ensure(refused(lambda: schedule(sfg, schedule_time=T + 0.5, start_times=new, laps=dict(laps))), "fractional time accepted")
    elif max(st_.start[u] + o for u in names for o in con.outo[u]) <= T:
        # without a schedule time it is the latest end; nothing wraps
        s3 = schedule(sfg, start_times=new, laps=dict(laps)) if all(d == e[4] for e in con.edges for d in [st_.d[e[2], e[3]]]) else None
        if s3 is not None:
            ends = [st_.start[u] + o for u in names for o in con.outo[u]]
            ends += [st_.start[u] for u in names if con.kind[u] in ("out", "sink")]
            ensure(s3.schedule_time == max(ends), f"schedule time {s3.schedule_time}, expected {max(ends)}")
    rec.nt(any(e[4] for e in con.edges) and len(names) > 4)


CASE = st.fixed_dictionaries(
    {
        "spec": SPEC,
        "tim": st.lists(TIM, min_size=1, max_size=4),
        "T": st.one_of(st.none(), st.integers(-3, 9)),
        "cyc": st.booleans(),
    }
)
BASE = {"spec": SPEC, "tim": st.lists(TIM, min_size=1, max_size=4)}
OPT = st.one_of(st.none(), st.integers(0, 7))

FACETS = [
    Facet("asap", CASE, asap, 1000, 30000, shards=2),
    Facet("alap", CASE, alap, 1500, 40000, shards=3),
    Facet(
        "requested times",
        st.fixed_dictionaries(
            {
                **BASE,
                "T": st.one_of(st.none(), st.integers(-4, 9)),
                "mode": st.integers(0, 1),
                "ins": st.lists(OPT, min_size=3, max_size=3),
                "outs": st.lists(OPT, min_size=1, max_size=4),
                "none": st.booleans(),
            }
        ),
        requested,
        1500,
        40000,
        shards=2,
    ),
    Facet(
        "provided",
        st.fixed_dictionaries(
            {
                **BASE,
                "T": st.one_of(st.none(), st.integers(0, 9)),
                "alg": st.integers(0, 1),
                "mut": st.tuples(st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5]), st.integers(0, 30), st.integers(-6, 6)).map(list),
            }
        ),
        provided,
        900,
        20000,
        shards=2,
    ),
]
