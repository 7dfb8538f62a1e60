"""C16: splitting on ports respects the number of memory ports."""

import itertools

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure, is_known
from ..procs import accesses, chromatic, ensure_partition, quiet_solver, variables
from ..schedmodel import prepare
from .c12 import BASE, Model, initial, step

RULE = (
    "Random memory variables (one write, up to three reads, life times up to twice the schedule time) or the memory variables "
    "of random edited schedules, split with every method for random numbers of ports. Oracle: a table of the writes and reads "
    "per time slot of each part; minimum numbers of memories and of writing ports per memory by exhaustive search. "
    "Non-trivial: at least two memories are needed and an access is past the end of the period."
)


def conform(part, where, total, T):
    """The recorded finding: accesses compared with the total before they are taken modulo the schedule time."""
    seen = []
    for p in part:
        s, lives = where[id(p)]
        _, _, tot = accesses(seen, T)
        for t in [s, *[s + x for x in lives]]:
            if t < T and tot[t] >= total:
                return False
        seen.append((s, lives))
    return True


def check_parts(parts, procs, data, T, r, w, t, ctx, left_edge, facet):
    where = {id(p): d for p, d in zip(procs, data, strict=True)}
    ensure_partition(parts, procs, T, ctx)
    for part in parts:
        desc = [(p.name, *where[id(p)]) for p in part]
        W, R, A = accesses([where[id(p)] for p in part], T)
        ensure(max(W) <= w, f"{ctx}: {max(W)} writes at time {W.index(max(W))} of {desc} (schedule time {T}), {w} write ports")
        ensure(max(R) <= r, f"{ctx}: {max(R)} reads at time {R.index(max(R))} of {desc} (schedule time {T}), {r} read ports")
        if max(A) > t:
            if left_edge and is_known("C16", facet, "left-edge-total") and conform(part, where, t, T):
                continue
            raise Violation(f"{ctx}: {max(A)} accesses at time {A.index(max(A))} of {desc} (schedule time {T}), {t} ports")


def impossible(data, T, r, w, t):
    """Some variable does not fit in a memory of its own."""
    for d in data:
        W, R, A = accesses([d], T)
        if max(W) > w or max(R) > r or max(A) > t:
            return True
    return False


def conflicts(data, T, r, w, t):
    res = []
    for i, j in itertools.combinations(range(len(data)), 2):
        W, R, A = accesses([data[i], data[j]], T)
        if max(W) > w or max(R) > r or max(A) > t:
            res.append((i, j))
    return res


GRAPH = ("greedy_graph_color", "equitable_graph_color", "ilp_graph_color", "ilp_min_input_mux", "ilp_min_output_mux", "ilp_min_mux")


def refused(split, ctx, why):
    try:
        parts = split()
    except ValueError:
        return
    raise Violation(f"{ctx}: {why}, but gives {[[p.name for p in x] for x in parts]}")


def plain(case, rec):
    from b_asic.resources import ProcessCollection

    T = case["T"]
    procs, data = variables(case)
    coll = ProcessCollection(list(procs), T, case["cyc"])
    r, w, t = case["ports"]
    method = case["method"]
    if method in GRAPH and case["usual"]:
        r, w, t = [(1, 1, 1), (1, 1, 2), (None, None, 1), (1, 1, None), (1, 1, 2)][case["usual"] - 1]
    par = {"solver": quiet_solver()} if method == "ilp_graph_color" else {}
    kw = {k: v for k, v in (("read_ports", r), ("write_ports", w), ("total_ports", t)) if v is not None}
    ctx = f"{method} with {kw}"

    def split():
        return coll.split_on_ports(strategy=method, alg_params=par or None, **kw)

    if t is None:
        if r is None or w is None:
            return refused(split, ctx, "number of ports not given")
        t = r + w
    r = t if r is None else r
    w = t if w is None else w
    if r > t or w > t:
        return refused(split, ctx, "more read or write ports than ports in total")
    if method in GRAPH:
        if (r, w) != (1, 1):
            return refused(split, ctx, "not for several read or write ports")
        if impossible(data, T, r, w, t):
            rec.label("impossible")
            return refused(split, ctx, f"{data} (schedule time {T}) contains a variable that needs more ports")
    elif any(max(accesses([d], T)[1]) > r for d in data):
        rec.label("impossible")
        return refused(split, ctx, f"{data} (schedule time {T}) contains a variable that needs more ports")
    try:
        parts = split()
    except ValueError:
        if impossible(data, T, r, w, t):
            return
        raise
    check_parts(parts, procs, data, T, r, w, t, ctx, method not in GRAPH, "plain")
    if method == "ilp_graph_color":
        best = chromatic(len(data), conflicts(data, T, r, w, t))
        ensure(len(parts) == best, f"{ctx}: {len(parts)} memories for {data} (schedule time {T}), {best} are enough")
    ensure([id(p) for p in coll] == [id(p) for p in procs], f"{ctx}: splitting changed the collection")
    rec.nt(len(parts) > 1 and any(s + x >= T for s, lives in data for x in lives) and any(len(x) > 1 for x in parts))


# ------------------------------------------------------------------ with processing elements


def least_connections(n, edges, port, k):
    """Smallest number of (port, memory) pairs over all valid assignments to at most k memories."""
    adj = [set() for _ in range(n)]
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    best = [10**9]
    col = [None] * n

    def place(v, used, pairs):
        if len(pairs) >= best[0]:
            return
        if v == n:
            best[0] = len(pairs)
            return
        for c in range(min(used + 1, k)):
            if all(col[w] != c for w in adj[v]):
                col[v] = c
                place(v + 1, max(used, c + 1), pairs | {(port[v], c)})
                col[v] = None

    place(0, 0, frozenset())
    return best[0]


def muxes(case, rec):
    from b_asic.architecture import ProcessingElement

    g, con, sfg = prepare(case)
    con.own_lists()
    if any(k in ("dontcare", "sink") for k in con.kind.values()):
        return
    sched = initial(case, con, sfg)
    if sched is None:
        return
    m = Model(sched, con)
    for cmd in case["cmds"]:
        step(m, cmd, rec, {"n": 0, "delays": 0})
    T = sched.schedule_time
    for op in sched._sfg.operations:
        op.execution_time = 1
    pes = []
    from b_asic.resources import ProcessCollection

    groups = {}
    for p in sched.get_operations():
        groups.setdefault((p.type_name, str(sorted(p.operation.latency_offsets.items()))), []).append(p)
    for x, coll in enumerate(groups.values()):
        for k, part in enumerate(ProcessCollection(coll, T).split_on_execution_time()):
            pes.append(ProcessingElement(part, f"pe{x}_{k}"))
    pe_of = {p.operation.graph_id: pe.entity_name for pe in pes for p in pe.collection}
    mv = sched.get_memory_variables()
    if case["direct"]:
        mv = mv.split_on_length(0)[1]
    procs = list(mv)
    if not procs or len(procs) > 9:
        return
    data = [(p.start_time, sorted(set(p.reads.values()))) for p in procs]
    method = case["method"]
    r, w, t = case["ports"]
    if method in GRAPH:
        r, w, t = 1, 1, 1 + case["two"]
    elif r > t or w > t:
        return
    if impossible(data, T, r, w, t):
        if method in GRAPH:
            refused(
                lambda: mv.split_on_ports(
                    strategy=method,
                    read_ports=r,
                    write_ports=w,
                    total_ports=t,
                    alg_params={"processing_elements": pes, "solver": quiet_solver()},
                ),
                method,
                "impossible",
            )
        return
    edges = conflicts(data, T, r, w, t)
    par = {"processing_elements": pes}
    k = None
    if method in GRAPH:
        par["solver"] = quiet_solver()
        k = chromatic(len(procs), edges) + case["more"]
        par["max_colors"] = k
    ctx = f"{method} with {r} read, {w} write, {t} ports"
    parts = mv.split_on_ports(strategy=method, read_ports=r, write_ports=w, total_ports=t, alg_params=par)
    check_parts(parts, procs, data, T, r, w, t, ctx, method not in GRAPH, "connections")
    if method in GRAPH:
        ensure(len(parts) <= k, f"{ctx}: {len(parts)} memories although at most {k} are allowed")
    if method == "ilp_min_input_mux":
        port = [(pe_of[p.write_port.operation.graph_id], p.write_port.index) for p in procs]
        best = least_connections(len(procs), edges, port, k)
        at = {id(p): x for x, part in enumerate(parts) for p in part}
        got = len({(pt, at[id(p)]) for pt, p in zip(port, procs, strict=True)})
        ensure(
            got == best,
            f"{ctx}: {got} connections from processing elements to at most {k} memories for {data} (schedule time {T}), "
            f"written by {port}; {best} are enough",
        )
    rec.nt(len(parts) > 1 and any(len(x) > 1 for x in parts))




@st.composite
def plain_case(draw, methods, n):
    T = draw(st.integers(1, 14))
    life = draw(st.sampled_from([T, T, 2 * T, max(1, T // 2)]))
    low = draw(st.sampled_from([0, 1, 1]))
    v = draw(
        st.lists(
            st.tuples(st.integers(0, 14), st.lists(st.integers(min(low, life), life), min_size=1, max_size=3)).map(list),
            min_size=0,
            max_size=n,
        )
    )
    return {
        "T": T,
        "v": v,
        "cyc": draw(st.booleans()),
        "ports": draw(
            st.sampled_from(
                [[1, 1, 2], [1, 1, None], [2, 1, 3], [1, 2, 3], [2, 2, None], [3, 1, None], [1, 3, 4], [2, 1, None], [1, 2, None]]
                + [[1, 1, 1], [None, None, 1], [None, None, 2], [2, 1, 2], [2, 2, 3], [2, 3, 4], [3, 2, 2], [1, None, None], [1, 2, 2]]
            )
        ),
        "method": draw(st.sampled_from(methods)),
        "usual": draw(st.integers(0, 5)),
    }


FACETS = [
    Facet(
        "plain",
        st.one_of(
            plain_case(["left_edge", "left_edge", "greedy_graph_color", "equitable_graph_color"], 12),
            plain_case(["left_edge", "greedy_graph_color", "equitable_graph_color"], 7),
        ),
        plain,
        4000,
        100000,
        shards=3,
    ),
    Facet("minimum", plain_case(["ilp_graph_color"], 8), plain, 350, 6000, shards=3),
    Facet(
        "connections",
        st.fixed_dictionaries(
            {
                **BASE,
                "cmds": st.lists(
                    st.tuples(st.sampled_from(["move", "far", "rotate", "time"]), st.integers(0, 63), st.integers(-9, 9)).map(list),
                    max_size=5,
                ),
                "direct": st.sampled_from([True, True, True, False]),
                "ports": st.sampled_from([[1, 1, 2], [2, 1, 3], [1, 2, 3], [3, 1, 4], [1, 3, 4], [2, 2, 4], [2, 1, 2]]),
                "method": st.sampled_from(
                    ["ilp_min_input_mux"] * 2
                    + ["ilp_min_output_mux", "ilp_min_mux", "left_edge_min_pe_to_mem", "left_edge_min_mem_to_pe"] * 2
                ),
                "two": st.sampled_from([1, 1, 1, 0]),
                "more": st.integers(0, 2),
            }
        ),
        muxes,
        450,
        8000,
        shards=5,
    ),
]
