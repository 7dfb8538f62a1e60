"""C19: resource assignment places every operation and every variable within the limits."""

import itertools

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..procs import accesses, chromatic, quiet_solver, slots
from ..schedmodel import break_delay_loops, prepare
from .c12 import BASE, initial

RULE = (
    "Random graphs (equal timing for operations of the same type), scheduled, randomly moved and assigned to resources with "
    "every strategy and with limits around the numbers needed. Oracle: the operations and memory variables of the schedule, "
    "tables of the executions and accesses per time slot, smallest numbers of resources by exhaustive search and the "
    "assignments of the other strategies. Non-trivial: two resources of one type, two memories (or a limit that must be "
    "refused) and a direct connection."
)
STRATEGIES = ["left_edge", "greedy_graph_color", "ilp_graph_color", "ilp_min_mux"]


def typed(case):
    """The case with the same timing for all operations of a type."""
    g = break_delay_loops(case["spec"])
    types = []
    tim = []
    for n in g.nodes:
        if n["k"] not in types:
            types.append(n["k"])
        tim.append(case["tim"][types.index(n["k"]) % len(case["tim"])])
    return {**case, "tim": tim or case["tim"]}


def schedule_of(case):
    case = typed(case)
    g, con, sfg = prepare(case)
    con.own_lists()
    sched = initial(case, con, sfg)
    if case["same"]:
        # names of operations need not be unique
        for o in list(sched._sfg.operations) if sched is not None else []:
            o.name = "same"
    if sched is None:
        return None
    for o in list(sched._sfg.operations):
        if o.type_name() not in ("dontcare", "sink"):
            if o.type_name() in ("in", "out", "c") or o.execution_time is None:
                o.execution_time = case["ex"]
    ids = sorted(op.graph_id for op in sched.sfg.operations if op.type_name() != "dontcare")
    for a, b in case["mv"]:
        try:
            sched.move_operation(ids[a % len(ids)], b)
        except ValueError:
            pass
    return sched


def port_key(p):
    op = getattr(p, "operation", None)
    return (op.graph_id, p.index) if op is not None else "memory"


def var_key(var, reads=None):
    reads = var.reads if reads is None else reads
    return (var.name, port_key(var.write_port), var.start_time, tuple(sorted((str(port_key(p)), x) for p, x in reads.items())))


def wanted_variables(coll):
    """(keys of memory variables, keys of direct ones, (start, lives) of the former, whether chains are needed)."""
    mem, direct, data = [], [], []
    T = coll.schedule_time
    for v in coll:
        zero = {p: x for p, x in v.reads.items() if x == 0}
        rest = {p: x for p, x in v.reads.items() if x != 0}
        if zero:
            direct.append(var_key(v, zero))
        if rest:
            mem.append(var_key(v, rest))
            data.append((v.start_time, sorted(set(rest.values()))))
    chains = any(max(d[1]) > T for d in data)
    if chains:
        _, long = coll.split_on_length()[0], coll.split_on_length()[1]
        parts = list(long.split_into_chains())
        mem = [var_key(v) for v in parts]
        data = [(v.start_time, sorted(set(v.reads.values()))) for v in parts]
    return mem, direct, data, chains


def op_edges(ops, T):
    tab = [slots(p.start_time, p.execution_time, T) for p in ops]
    return [(i, j) for i, j in itertools.combinations(range(len(ops)), 2) if set(tab[i]) & set(tab[j])]


def mem_edges(data, T, total):
    res = []
    for i, j in itertools.combinations(range(len(data)), 2):
        W, R, A = accesses([data[i], data[j]], T)
        if max(W) > 1 or max(R) > 1 or max(A) > total:
            res.append((i, j))
    return res


def run(sched, strategy, total, limits, max_mems, mux, memory_type="RAM"):
    from b_asic.resource_assigner import assign_processing_elements_and_memories

    kw = {}
    if strategy.startswith("ilp"):
        kw["solver"] = quiet_solver()
    if limits is not None:
        kw["resources"] = limits
    if max_mems is not None:
        kw["max_mems"] = max_mems
    if mux is not None:
        kw["max_mux_size"] = mux
    return assign_processing_elements_and_memories(
        sched,
        strategy=strategy,
        memory_read_ports=1,
        memory_write_ports=1,
        memory_total_ports=total,
        memory_type=memory_type,
        **kw,
    )


def validate(result, sched, total, limits, max_mems, ctx, stats):
    """Check an assignment; returns the numbers of PEs per type and of memories."""
    pes, mems, direct = result
    T = sched.schedule_time
    ops = list(sched.get_operations())
    mem_w, direct_w, _, _ = wanted_variables(sched.get_memory_variables())
    names = [r.entity_name for r in [*pes, *mems]]
    ensure(len(set(names)) == len(names), f"{ctx}: names of resources are not unique: {names}")
    count = {}
    placed = {}
    for pe in pes:
        types = {p.operation.type_name() for p in pe.collection}
        ensure(len(types) == 1, f"{ctx}: {pe.entity_name} has operations of types {sorted(types)}")
        ty = types.pop()
        ensure(type(next(iter(pe.collection)).operation) is pe.operation_type, f"{ctx}: operation type of {pe.entity_name}")
        count[ty] = count.get(ty, 0) + 1
        ensure(pe.schedule_time == T, f"{ctx}: schedule time of {pe.entity_name} is {pe.schedule_time}, not {T}")
        used = []
        for p in pe.collection:
            gid = p.operation.graph_id
            ensure(gid not in placed, f"{ctx}: {gid} is in {placed.get(gid)} and {pe.entity_name}")
            placed[gid] = pe.entity_name
            used += slots(p.start_time, p.execution_time, T)
        ensure(len(set(used)) == len(used), f"{ctx}: {pe.entity_name} executes several operations at once: "
               f"{[(p.name, p.start_time, p.execution_time) for p in pe.collection]} with schedule time {T}")
    expected = {p.operation.graph_id: (p.start_time, p.execution_time) for p in ops}
    ensure(sorted(placed) == sorted(expected), f"{ctx}: operations {sorted(set(expected) ^ set(placed))} are missing or made up")
    for pe in pes:
        for p in pe.collection:
            gid = p.operation.graph_id
            ensure(
                (p.start_time, p.execution_time) == expected[gid],
                f"{ctx}: {gid} executes at {p.start_time} for {p.execution_time}, scheduled at {expected[gid]}",
            )
    got = []
    for mem in mems:
        ensure(mem.schedule_time == T, f"{ctx}: schedule time of {mem.entity_name} is {mem.schedule_time}, not {T}")
        data = []
        for v in mem.collection:
            got.append(var_key(v))
            data.append((v.start_time, sorted(set(v.reads.values()))))
        W, R, A = accesses(data, T)
        ensure(max(W) <= 1, f"{ctx}: {mem.entity_name} is written {max(W)} times at time {W.index(max(W))}")
        ensure(max(R) <= 1, f"{ctx}: {mem.entity_name} is read {max(R)} times at time {R.index(max(R))}")
        ensure(max(A) <= total, f"{ctx}: {mem.entity_name} is accessed {max(A)} times at time {A.index(max(A))}, {total} ports")
        ensure(mem.is_assigned, f"{ctx}: the cells of {mem.entity_name} are not assigned")
        cells = [sorted(id(v) for v in c) for c in mem.assignment]
        flat = sorted(x for c in cells for x in c)
        ensure(flat == sorted(id(v) for v in mem.collection), f"{ctx}: cells of {mem.entity_name} do not hold every variable once")
        for c in mem.assignment:
            used = [x for v in c for x in slots(v.start_time, v.execution_time, T)]
            ensure(
                len(set(used)) == len(used),
                f"{ctx}: a cell of {mem.entity_name} holds {[(v.name, v.start_time, v.execution_time) for v in c]} at once "
                f"(schedule time {T})",
            )
    ensure(sorted(got) == sorted(mem_w), f"{ctx}: memories hold {sorted(got)}, expected {sorted(mem_w)}")
    dk = sorted(var_key(v) for v in direct)
    ensure(dk == sorted(direct_w), f"{ctx}: direct connections {dk}, expected {sorted(direct_w)}")
    for ty, n in (limits or {}).items():
        ensure(count.get(str(ty), 0) <= n, f"{ctx}: {count.get(str(ty), 0)} resources for {ty}, limit {n}")
    if max_mems is not None:
        ensure(len(mems) <= max_mems, f"{ctx}: {len(mems)} memories, limit {max_mems}")
    stats["direct"] |= bool(dk)
    return count, len(mems)


def fan_in(result):
    """(largest multiplexer, all connections) of an assignment."""
    pes, mems, direct = result
    op_in, op_out = {}, {}
    for pe in pes:
        for p in pe.collection:
            op_in[p.operation.graph_id] = pe.entity_name
            op_out[p.operation.graph_id] = pe.entity_name
    where = {}
    for m in mems:
        for v in m.collection:
            where[id(v)] = m.entity_name
    to = {}
    for m in mems:
        for v in m.collection:
            k = port_key(v.write_port)
            if k == "memory":
                to.setdefault(("m", m.entity_name), set()).add(where[id(v.write_port.source_variable)])
            elif k[0] in op_out:
                to.setdefault(("m", m.entity_name), set()).add((op_out[k[0]], k[1]))
            for r in v.reads:
                q = port_key(r)
                if q != "memory" and q[0] in op_in:
                    to.setdefault((op_in[q[0]], q[1]), set()).add(m.entity_name)
    for v in direct:
        k = port_key(v.write_port)
        for r in v.reads:
            q = port_key(r)
            if q != "memory" and q[0] in op_in and k != "memory" and k[0] in op_out:
                to.setdefault((op_in[q[0]], q[1]), set()).add((op_out[k[0]], k[1]))
    sizes = [len(x) for x in to.values()]
    return max(sizes, default=0), sum(sizes)


def attempt(f, ctx):
    try:
        return f(), None
    except ValueError as e:
        return None, f"{ctx}: {e}"


def check(case, rec):
    from b_asic.graph_component import TypeName

    sched = schedule_of(case)
    if sched is None:
        return
    T = sched.schedule_time
    total = case["total"]
    ops = list(sched.get_operations())
    groups = {}
    for p in ops:
        groups.setdefault(str(p.operation.type_name()), []).append(p)
    _, direct_w, data, chains = wanted_variables(sched.get_memory_variables())
    impossible = any(p.execution_time > T for p in ops)
    for d in data:
        W, R, A = accesses([d], T)
        impossible |= max(W) > 1 or max(R) > 1 or max(A) > total
    need = {ty: chromatic(len(x), op_edges(x, T)) for ty, x in groups.items()}
    small = len(data) <= 14
    need_m = chromatic(len(data), mem_edges(data, T, total)) if small else None
    lat_ok = all(len({p.operation.latency for p in x}) == 1 for x in groups.values())
    stats = {"direct": False}
    refused = False
    # solving larger problems takes too long for many cases
    strategies = STRATEGIES if case["ilp"] and len(ops) <= 9 and len(data) <= 8 else STRATEGIES[:2]
    if total == 1:
        # the total number of ports with left edge: recorded for C16
        strategies = strategies[1:]
    results = {}
    for s in strategies:
        res, err = attempt(lambda s=s: run(sched, s, total, None, None, None), s)
        if impossible or not lat_ok:
            ensure(res is None or not impossible, f"{s}: accepted although an operation or a variable needs more than a resource")
            rec.label("impossible")
            continue
        ensure(err is None, f"refused without limits: {err} (schedule time {T})")
        count, nm = validate(res, sched, total, None, None, s, stats)
        results[s] = (res, count, nm)
        for ty, n in need.items():
            ensure(count[ty] >= n, f"{s}: {count[ty]} resources for {ty}")
            if s == "ilp_graph_color":
                ensure(count[ty] == n, f"{s}: {count[ty]} resources for {ty}, {n} are enough")
        if s == "ilp_graph_color" and small:
            ensure(nm == need_m, f"{s}: {nm} memories, {need_m} are enough")
    if impossible or not lat_ok:
        return
    # limits
    tys = sorted(groups)
    ty = tys[case["which"] % len(tys)]
    s = strategies[case["s"] % len(strategies)]
    _, count, nm = results[s]
    for limits, mm, must in (
        ({ty: count[ty]}, nm, True),
        ({ty: need[ty] - 1}, None, False),
        ({ty: need[ty]}, None, True if s.startswith("ilp") else None),
        ({t: n + case["slack"] for t, n in count.items()}, nm + case["slack"], True),
        (None, need_m - 1 if small else None, False if small else None),
    ):
        if limits is not None and min(limits.values()) < 1:
            continue
        if mm is not None and mm < 0:
            continue
        lim = None if limits is None else {TypeName(t): n for t, n in limits.items()}
        ctx = f"{s} with limits {limits} and {mm} memories"
        res, err = attempt(lambda lim=lim, mm=mm: run(sched, s, total, lim, mm, None), ctx)
        if err is not None:
            ensure(must is not True, f"refused: {err}")
            refused = True
            continue
        ensure(must is not False, f"{ctx}: accepted")
        validate(res, sched, total, lim, mm, ctx, stats)
    if "ilp_min_mux" in results:
        res, count, nm = results["ilp_min_mux"]
        mux, edges = fan_in(res)
        for other in [x for x in strategies if x != "ilp_min_mux"]:
            r, c, n = results[other]
            g, gc, gn = results["greedy_graph_color"]
            if all(c[t] <= gc[t] for t in c) and n <= gn:
                e2 = fan_in(r)[1]
                ensure(edges <= e2, f"ilp_min_mux has {edges} connections, {other} with as many resources only {e2}")
        for size in sorted({max(mux - 1, 1), max(mux, 1), mux + 2}):
            ctx = f"ilp_min_mux with multiplexers of {size}"
            res, err = attempt(lambda size=size: run(sched, "ilp_min_mux", total, None, None, size), ctx)
            if err is not None:
                ensure(size < mux, f"refused: {err}, possible with {mux}")
                rec.label("mux refused")
                continue
            validate(res, sched, total, None, None, ctx, stats)
            ensure(fan_in(res)[0] <= size, f"{ctx}: a multiplexer has {fan_in(res)[0]} inputs")
            rec.label("mux")
    big = results[strategies[0]]
    rec.nt(max(big[1].values()) >= 2 and (big[2] >= 2 or refused) and stats["direct"])
    if chains:
        rec.label("chains")


def refusals(case, rec):
    """Arguments that cannot be."""
    sched = schedule_of(case)
    if sched is None:
        return
    for kw, what in (
        ({"strategy": "left_edge", "mux": 2}, "multiplexer size with left edge"),
        ({"strategy": "greedy_graph_color", "mux": 1}, "multiplexer size with greedy"),
        ({"strategy": "ilp_graph_color", "mux": 3}, "multiplexer size with ilp_graph_color"),
        ({"strategy": "ilp_min_mux", "mux": 0}, "multiplexer size zero"),
        ({"strategy": "ilp_min_mux", "mux": -case["slack"]}, "negative multiplexer size"),
        ({"strategy": "none", "mux": None}, "unknown strategy"),
    ):
        try:
            run(sched, kw["strategy"], case["total"], None, None, kw["mux"])
        except ValueError:
            continue
        raise Violation(f"{what} accepted")
    rec.nt(len(sched.start_times) > 4)


STRAT = {
    **BASE,
    "ex": st.integers(0, 2),
    "same": st.sampled_from([False, False, False, True]),
    "mv": st.lists(st.tuples(st.integers(0, 63), st.integers(-6, 6)).map(list), max_size=5),
    "total": st.sampled_from([2, 2, 2, 1]),
    "which": st.integers(0, 9),
    "s": st.integers(0, 3),
    "slack": st.integers(0, 2),
}
FACETS = [
    Facet("heuristics", st.fixed_dictionaries({**STRAT, "ilp": st.just(False)}), check, 700, 20000, shards=4),
    Facet("ilp", st.fixed_dictionaries({**STRAT, "ilp": st.just(True)}), check, 60, 2500, shards=4),
    Facet("refusals", st.fixed_dictionaries(STRAT), refusals, 30, 300, shards=1),
]
