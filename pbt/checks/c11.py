"""C11: resource-constrained schedulers respect precedence and limits."""

import logging
from collections import Counter

from hypothesis import strategies as st

from ..core import Facet, ensure
from ..obs import same, sfg_view
from ..schedmodel import TIM, check_slacks, check_valid, prepare
from ..sfggen import any_spec, spec_strategy

logging.disable(logging.WARNING)

RULE = (
    "A case is a graph (feed-forward or recursive, with in- and output times per port), a scheduler, limits, requested times and "
    "a schedule time; non-trivial: a schedule was found, the graph has more than five operations and delays, and a schedule time "
    "was requested (list and recursive)."
)

LIST = ["EarliestDeadlineScheduler", "LeastSlackTimeScheduler", "MaxFanOutScheduler", "HybridScheduler"]


def scheduler(case, **kw):
    from b_asic import list_schedulers
    from b_asic.scheduler import ListScheduler, RecursiveListScheduler

    k = case["alg"]
    if k < len(LIST):
        return getattr(list_schedulers, LIST[k])(**kw)
    order = tuple((1 + x % 4, bool(x // 4)) for x in case["order"])
    if k == 5:
        return RecursiveListScheduler(sort_order=order, **kw)
    return ListScheduler(sort_order=order, **kw)


def usage(con, s, ops):
    """{type: Counter of executing operations per time slot}"""
    res = {}
    for nm in con.names:
        k = con.kind[nm]
        if k == "sink":
            continue
        ex = ops[nm].execution_time or 0
        c = res.setdefault(ops[nm].type_name(), Counter())
        for x in range(ex):
            c[(s.start[nm] + x) % s.T] += 1
    return res


def accesses(con, s):
    """(reads, writes) per time slot of values that are not used the moment they are produced."""
    reads, writes = Counter(), Counter()
    ports = {}
    for e in con.edges:
        ports.setdefault((e[0], e[1]), []).append(e)
    for (u, p), es in ports.items():
        w = s.start[u] + con.outo[u][p]
        lives = [s.slack(con, e) for e in es]
        if any(x > 0 for x in lives):
            writes[w % s.T] += 1
            for x in set(lives):
                if x > 0:
                    reads[(w + x) % s.T] += 1
    return reads, writes


def check_limits(con, s, sfg, limits, default, case):
    ops = {op.name: op for op in sfg.operations}
    for t, c in usage(con, s, ops).items():
        m = max(c.values(), default=0)
        lim = limits.get(t, default)
        ensure(lim is None or m <= lim, f"{m} operations of type {t} execute at the same time, allowed {lim}")
    reads, writes = accesses(con, s)
    if case.get("reads"):
        m = max(reads.values(), default=0)
        ensure(m <= case["reads"], f"{m} concurrent reads, allowed {case['reads']}")
    if case.get("writes"):
        m = max(writes.values(), default=0)
        ensure(m <= case["writes"], f"{m} concurrent writes, allowed {case['writes']}")


def check_deltas(con, s, delta, cyclic, ctx, exact=True):
    """Outputs with requested relative times are at these distances."""
    part = {nm: nm for nm in con.names}

    def root(x):
        while part[x] != x:
            x = part[x]
        return x

    for u, _, v, _, _ in con.edges:
        part[root(u)] = root(v)
    ref = None
    for nm in sorted(delta):
        a = s.start[nm] + s.T * s.L[nm] - delta[nm]
        if ref is None:
            ref = (nm, a)
            continue
        d = a - ref[1]
        ok = d == 0 if exact and (root(nm) == root(ref[0]) or not cyclic) else d % s.T == 0
        ensure(ok, f"{ctx}: outputs {nm} and {ref[0]} differ by {d} from the requested distance ({delta})")


def prepare_limits(case, sfg, con, g):
    types = sorted({str(t) for t in sfg.get_used_type_names()} - {"t", "sink", "dontcare"})
    limits = {t: 1 + x for t, x in zip(types, case["res"], strict=False) if x is not None}
    fixed = {f"n{i}": t for i, t in enumerate(case["ins"][: g.ni]) if t is not None}
    outs = [nm for nm in con.names if con.kind[nm] == "out"]
    delta = {nm: x for nm, x in zip(outs, case["outs"], strict=False) if x is not None}
    ids = {op.name: op.graph_id for op in sfg.operations}
    kw = {"max_resources": limits} if limits else {}
    if fixed:
        kw["input_times"] = {ids[nm]: t for nm, t in fixed.items()}
    if delta:
        kw["output_delta_times"] = {ids[nm]: t for nm, t in delta.items()}
    return types, limits, fixed, delta, kw


def other_graph():
    """A small graph that has nothing in common with the generated ones."""
    from b_asic.core_operations import Reciprocal
    from b_asic.sfg import SFG
    from b_asic.special_operations import Input, Output

    i = Input()
    r = Reciprocal(i)
    r.set_latency(2)
    r.execution_time = 1
    return SFG([i], [Output(r)])


def result(sfg, sch, **kw):
    from b_asic.schedule import Schedule

    try:
        s = Schedule(sfg, sch, **kw)
    except ValueError:
        return None, None
    return s, (dict(s.start_times), {k: v for k, v in s.laps.items() if v}, s.schedule_time)


def list_schedule(case, rec):
    g, con, sfg = prepare(case)
    end = con.end(con.asap())
    if end == 0:
        return
    types, limits, fixed, delta, kw = prepare_limits(case, sfg, con, g)
    rec_alg = case["alg"] == 5
    if not rec_alg:
        if case["reads"]:
            kw["max_concurrent_reads"] = case["reads"]
        if case["writes"]:
            kw["max_concurrent_writes"] = case["writes"]
    view = sfg_view(sfg)
    T = None if case["T"] is None else max(1, end + case["T"])
    kw0 = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    sch = scheduler(case, **kw)
    s, got = result(sfg, sch, schedule_time=T, cyclic=case["cyc"])
    ensure(kw == kw0, f"scheduling changed the given limits {kw0} to {kw}")
    same(view, sfg_view(sfg), "scheduling changed the graph")
    if case["reuse"]:
        result(other_graph(), sch)
        _, again = result(sfg, sch, schedule_time=T, cyclic=case["cyc"])
        ensure(again == got, f"the scheduler gives {again} when used again, {got} the first time")
    if s is None:
        n = Counter(op.type_name() for op in sfg.operations)
        must = T is None and not fixed and not delta
        if case["reads"] or case["writes"]:
            # without feedback any operation can be placed when no other operation accesses the memory
            must = must and not case["spec"]["d"]
            must = must and (not case["reads"] or all(len(x) <= case["reads"] for x in con.ino.values()))
            must = must and (not case["writes"] or all(len(x) <= case["writes"] for x in con.outo.values()))
        if rec_alg:
            must = must and all(limits.get(t, 1) >= n[t] for t in types)
        ensure(not must, "no schedule found although the time is not limited")
        rec.label("refused")
        return
    name = "recursive" if rec_alg else "list"
    st_ = check_valid(s, con, name, T=T)
    check_slacks(s, con, st_, name)
    if rec_alg:
        check_limits(con, st_, sfg, limits, 1, {})
    else:
        check_limits(con, st_, sfg, limits, 1, case)
    for nm, x in fixed.items():
        ensure(st_.start[nm] == x, f"input {nm} at {st_.start[nm]}, requested {x}")
    check_deltas(con, st_, delta, case["cyc"] or rec_alg, name, exact=case["cyc"] or not rec_alg)
    if not case["cyc"] and not rec_alg:
        for e in con.edges:
            ensure(st_.d[e[2], e[3]] == e[4], f"non-cyclic schedule, but other delays before {e[2]}")
    rec.label("scheduled")
    if case["cyc"] and T:
        rec.label("scheduled cyclic")
    if sfg.loops:
        rec.label("scheduled recursive")
    limited = not case["spec"]["d"] and bool(case["reads"] or case["writes"])
    rec.nt(len(con.names) > 5 and (limited or any(e[4] for e in con.edges) and T is not None))


def optimal(case, rec):
    import pulp
    from b_asic.scheduler import ILPScheduler

    g, con, sfg = prepare(case)
    end = con.end(con.asap())
    if end == 0 or not any(k not in ("c", "sink", "out") for k in con.kind.values()):
        return
    _, _, fixed, delta, kw = prepare_limits({**case, "res": []}, sfg, con, g)
    T = max(1, end + case["T"])
    if case["times"] and "output_delta_times" in kw:
        kw["output_times"] = kw.pop("output_delta_times")
        want, delta = delta, {}
    else:
        want = {}
    if case["max"] is not None and case["cyc"]:
        kw["max_time"] = T + case["max"]
    view = sfg_view(sfg)
    kw0 = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
    s, _ = result(sfg, ILPScheduler(solver=pulp.PULP_CBC_CMD(msg=False), **kw), schedule_time=T, cyclic=case["cyc"])
    ensure(kw == kw0, f"scheduling changed the given limits {kw0} to {kw}")
    same(view, sfg_view(sfg), "scheduling changed the graph")
    if s is None:
        ensure(fixed or delta or want or T < end or "max_time" in kw, f"no schedule found although {end} of {T} are needed and nothing is requested")
        rec.label("refused")
        return
    st_ = check_valid(s, con, "optimal", T=T)
    check_slacks(s, con, st_, "optimal")
    for nm, x in fixed.items():
        ensure((st_.start[nm] - x) % T == 0 if "max_time" in kw else st_.start[nm] == x, f"optimal: input {nm} at {st_.start[nm]}, requested {x}")
    for nm, x in want.items():
        ensure(st_.start[nm] % T == x % T, f"optimal: output {nm} at {st_.start[nm]}, requested {x} (schedule time {T})")
    check_deltas(con, st_, delta, case["cyc"], "optimal")
    if not case["cyc"]:
        for e in con.edges:
            ensure(st_.d[e[2], e[3]] == e[4], f"non-cyclic schedule, but other delays before {e[2]}")
    rec.label("scheduled")
    if "max_time" in kw:
        rec.label("scheduled with a longer horizon")
    rec.nt(len(con.names) > 5 and any(e[4] for e in con.edges))


SPEC = st.one_of(
    spec_strategy("linear_real", max_ops=8),
    any_spec(("real",), max_ops=9, sinks=False),
    spec_strategy("real", types=["add", "cmul", "sub", "sym2p", "r2bfly", "c"], min_delays=1, max_delays=4, max_ops=9),
)
def case_of(alg):
    return st.fixed_dictionaries(
        {
            "spec": SPEC,
            "tim": st.lists(TIM, min_size=1, max_size=4),
            "T": st.one_of(st.none(), st.integers(-6, 12)),
            "cyc": st.booleans(),
            "alg": alg,
            "reuse": st.booleans(),
            "outs": st.lists(st.one_of(st.none(), st.none(), st.integers(0, 6)), min_size=3, max_size=3),
            "order": st.lists(st.integers(0, 7), min_size=1, max_size=3),
            "res": st.lists(st.one_of(st.none(), st.integers(0, 2), st.integers(0, 12)), max_size=6),
            "reads": st.one_of(st.none(), st.none(), st.integers(1, 4)),
            "writes": st.one_of(st.none(), st.none(), st.integers(1, 4)),
            "ins": st.lists(st.one_of(st.none(), st.none(), st.integers(0, 5)), min_size=3, max_size=3),
        }
    )


PORTS = st.fixed_dictionaries(
    {
        "spec": spec_strategy(
            "real", types=["add", "cmul", "sub", "sym2p", "r2bfly", "abs", "mul"], max_delays=0, min_ops=3, max_ops=9, min_in=2
        ),
        "tim": st.lists(TIM, min_size=1, max_size=3),
        "T": st.one_of(st.none(), st.none(), st.integers(0, 8)),
        "cyc": st.booleans(),
        "alg": st.integers(0, 4),
        "reuse": st.just(False),
        "outs": st.just([]),
        "order": st.just([0]),
        "res": st.lists(st.one_of(st.none(), st.integers(0, 3)), max_size=6),
        "reads": st.one_of(st.none(), st.integers(1, 4)),
        "writes": st.one_of(st.none(), st.integers(1, 4)),
        "ins": st.just([]),
    }
)
ILP_CASE = st.fixed_dictionaries(
    {
        "spec": SPEC,
        "tim": st.lists(TIM, min_size=1, max_size=4),
        "T": st.one_of(st.integers(0, 6), st.integers(-6, 6)),
        "cyc": st.booleans(),
        "max": st.one_of(st.none(), st.integers(0, 6)),
        "times": st.booleans(),
        "ins": st.lists(st.one_of(st.none(), st.none(), st.integers(0, 5)), min_size=3, max_size=3),
        "outs": st.lists(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 8)), min_size=3, max_size=3),
    }
)
FACETS = [
    Facet("list", case_of(st.integers(0, 4)), list_schedule, 1500, 20000, shards=4),
    Facet("ports", PORTS, list_schedule, 700, 10000, shards=2),
    Facet("recursive", case_of(st.just(5)), list_schedule, 1500, 20000, shards=4),
    Facet("optimal", ILP_CASE, optimal, 240, 3000, shards=4),
]
