"""C15: splitting on execution time gives conflict-free resources."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..procs import NX_STRATEGIES, chromatic, ensure_partition, quiet_solver, slots

RULE = (
    "Random collections of up to nine operator processes or memory variables with start times in the period and execution "
    "times from zero to the schedule time (sometimes longer, to be refused), split with every method. Oracle: an explicit "
    "table of the time slots each part occupies; the optimum by exhaustive colouring. Non-trivial: at least two parts are "
    "needed, a process crosses the end of the period and some part holds several processes."
)


def make(case):
    from b_asic.core_operations import Addition, ConstantMultiplication
    from b_asic.process import OperatorProcess, PlainMemoryVariable

    T = case["T"]
    long = case["long"]
    procs, data = [], []
    for k, (a, b) in enumerate(case["p"]):
        s = a % (T + 1)
        e = b % (T + 1 + long)
        if case["kind"] == 0:
            op = Addition(execution_time=e) if k % 2 else ConstantMultiplication(2, execution_time=e)
            procs.append(OperatorProcess(s, op, f"p{k}"))
        else:
            procs.append(PlainMemoryVariable(s, 0, {0: e, 1: e // 2}, f"p{k}"))
        data.append((s, e))
    return procs, data


def check(case, rec):
    from b_asic.resources import ProcessCollection

    T = case["T"]
    procs, data = make(case)
    coll = ProcessCollection(list(procs), T, case["cyc"])
    method = case["method"]
    par = {}
    if method == "greedy_graph_color":
        par = {"coloring_strategy": NX_STRATEGIES[case["nx"] % len(NX_STRATEGIES)]}
    elif method == "ilp_graph_color":
        par = {"solver": quiet_solver()}
    ctx = f"{method} {par.get('coloring_strategy', '')}"

    def split(par):
        return coll.split_on_execution_time(strategy=method, alg_params=par or None)

    if any(e > T for _, e in data):
        try:
            parts = split(par)
        except ValueError:
            rec.label("refused")
        else:
            raise Violation(f"{ctx}: {data} split into {[[p.name for p in x] for x in parts]}, schedule time {T}")
        return
    parts = split(par)
    ensure_partition(parts, procs, T, ctx)
    where = {id(p): d for p, d in zip(procs, data, strict=True)}
    for part in parts:
        used = {}
        for p in part:
            for t in slots(*where[id(p)], T):
                ensure(t not in used, f"{ctx}: {p.name} and {used.get(t)} execute in the same part at {t} (schedule time {T})")
                used[t] = p.name
    occ = [set(slots(s, e, T)) for s, e in data]
    n = len(procs)
    bound = max([sum(t in o for o in occ) for t in range(T)])
    got = coll.processing_element_bound()
    ensure(got == bound, f"bound on the number of processing elements is {got}, at most {bound} execute at the same time")
    edges = [(i, j) for i in range(n) for j in range(i) if occ[i] & occ[j]]
    if method == "ilp_graph_color":
        best = chromatic(n, edges)
        ensure(len(parts) == best, f"{ctx}: {len(parts)} parts, {best} are enough")
        if best > 1 and case["limit"]:
            try:
                parts2 = split({**par, "max_colors": best - 1})
            except Exception:
                rec.label("too few colours refused")
            else:
                raise Violation(f"{ctx}: {len(parts2)} parts with at most {best - 1} colours, {best} are needed")
            parts2 = split({**par, "max_colors": best + case["limit"] - 1})
            ensure(len(parts2) == best, f"{ctx}: {len(parts2)} parts with {best} needed and more allowed")
    elif method == "left_edge" and all(s + e <= T and e > 0 for s, e in data) and n:
        ensure(len(parts) == bound, f"{ctx}: {len(parts)} parts, {bound} are enough as no process crosses the end of the period")
    ensure([id(p) for p in coll] == [id(p) for p in procs], f"{ctx}: splitting changed the collection")
    rec.nt(bound > 1 and any(s + e > T for s, e in data) and any(len(x) > 1 for x in parts))


def cases(methods, n):
    return st.fixed_dictionaries(
        {
            "T": st.integers(1, 14),
            "p": st.lists(st.tuples(st.integers(0, 200), st.integers(0, 200)).map(list), min_size=0, max_size=n),
            "long": st.sampled_from([0, 0, 0, 0, 1, 3]),
            "kind": st.integers(0, 1),
            "cyc": st.booleans(),
            "method": st.sampled_from(methods),
            "nx": st.integers(0, 63),
            "limit": st.integers(0, 2),
        }
    )


def short(s):
    """Processes short compared with the period, so that parts hold several."""
    return s.map(lambda c: {**c, "p": [[a, b % max(1, c["T"] // 2 + 1)] for a, b in c["p"]]})


FACETS = [
    Facet(
        "heuristics",
        st.one_of(cases(["left_edge", "greedy_graph_color"], 9), short(cases(["left_edge", "left_edge", "greedy_graph_color"], 12))),
        check,
        4000,
        100000,
        shards=4,
    ),
    Facet(
        "optimal",
        st.one_of(cases(["ilp_graph_color"], 8), short(cases(["ilp_graph_color"], 8))),
        check,
        450,
        6000,
        shards=6,
    ),
]
