"""C18: the bounds and queries of process collections are exact."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..procs import accesses, slots

RULE = (
    "Random histories of adding and removing processes (operator processes, memory variables, plain memory variables) with "
    "all queries after each step, compared with a plain list. Non-trivial: at least four processes at some time, one crossing "
    "the end of the period, and a removal."
)


def make(case):
    from b_asic.core_operations import Addition, ConstantMultiplication, Subtraction
    from b_asic.process import MemoryVariable, OperatorProcess, PlainMemoryVariable

    T = case["T"]
    pool = []
    for k, (kind, start, lives) in enumerate(case["v"]):
        s = start % (T + 1)
        if kind < 3:
            cls = [Addition, Subtraction, ConstantMultiplication][kind]
            op = cls(execution_time=lives[0]) if kind < 2 else cls(3, execution_time=lives[0])
            pool.append((OperatorProcess(s, op, f"o{k}"), "op", op.type_name(), cls, s, [lives[0]]))
        elif kind == 3:
            pool.append((PlainMemoryVariable(s, k, dict(enumerate(lives)), f"p{k}"), "plain", None, None, s, sorted(set(lives))))
        else:
            ports = [Addition().input(0) for _ in lives]
            var = MemoryVariable(s, Addition().output(0), dict(zip(ports, lives, strict=True)), f"m{k}")
            pool.append((var, "mem", None, None, s, sorted(set(lives))))
    return T, pool


def attempt(f, kinds):
    try:
        f()
    except kinds:
        return True
    return False


def graph(g):
    return {frozenset((id(a), id(b))) for a, b in g.edges()}


def queries(coll, now, absent, T, ctx):
    procs = [x[0] for x in now]
    ensure(len(coll) == len(procs), f"{ctx}: {len(coll)} processes, expected {len(procs)}")
    ensure({id(p) for p in coll} == {id(p) for p in procs} and len(list(coll)) == len(procs), f"{ctx}: contains {list(coll)}")
    for x in now:
        ensure(x[0] in coll, f"{ctx}: {x[0].name} is said not to be in the collection")
        ensure(coll.from_name(x[0].name) is x[0], f"{ctx}: from_name({x[0].name}) is {coll.from_name(x[0].name)}")
    for x in absent:
        ensure(x[0] not in coll, f"{ctx}: {x[0].name} is said to be in the collection")
        ensure(attempt(lambda x=x: coll.from_name(x[0].name), KeyError), f"{ctx}: found {x[0].name} by its name")
    data = [(x[4], x[5]) for x in now]
    W, R, A = accesses(data, T)
    E = [0] * T
    for s, lives in data:
        for t in slots(s, max(lives), T):
            E[t] += 1
    for what, got, exp in (
        ("write_port_accesses", coll.write_port_accesses(), W),
        ("read_port_accesses", coll.read_port_accesses(), R),
        ("total_port_accesses", coll.total_port_accesses(), A),
        ("total_execution_times", coll.total_execution_times(), E),
    ):
        exp = {t: n for t, n in enumerate(exp) if n}
        got = {t: n for t, n in got.items() if n}
        ensure(got == exp, f"{ctx}: {what} is {got}, expected {exp} for {data} with schedule time {T}")
    for what, got, exp in (
        ("write_ports_bound", coll.write_ports_bound(), W),
        ("read_ports_bound", coll.read_ports_bound(), R),
        ("total_ports_bound", coll.total_ports_bound(), A),
        ("processing_element_bound", coll.processing_element_bound(), E),
    ):
        ensure(got == max(exp), f"{ctx}: {what} is {got}, expected {max(exp)} for {data} with schedule time {T}")
    for t in range(T + 2):
        found = coll.find_by_time(t)
        ensure(
            {id(p) for p in found} == {id(x[0]) for x in now if x[4] == t} and found.schedule_time == T,
            f"{ctx}: at time {t} there are {[p.name for p in found]} for {[(x[0].name, x[4]) for x in now]}",
        )
    for tn in ("add", "sub", "cmul", "neg"):
        found = coll.get_by_type_name(tn)
        ensure({id(p) for p in found} == {id(x[0]) for x in now if x[2] == tn}, f"{ctx}: of type {tn}: {[p.name for p in found]}")
        ensure(found.schedule_time == T and len(found) == sum(x[2] == tn for x in now), f"{ctx}: of type {tn}: {found}")
    if all(x[1] == "op" for x in now):
        parts = coll.split_on_type_name()
        ensure(sorted(parts) == sorted({x[2] for x in now}), f"{ctx}: types {sorted(parts)}, expected {sorted({x[2] for x in now})}")
        for tn, part in parts.items():
            ensure(
                sorted(id(p) for p in part) == sorted(id(x[0]) for x in now if x[2] == tn) and part.schedule_time == T,
                f"{ctx}: split on type name, {tn}: {[p.name for p in part]}",
            )
        for cls in {x[3] for x in now}:
            found = coll.get_by_type(cls)
            ensure(
                sorted(id(p) for p in found) == sorted(id(x[0]) for x in now if issubclass(x[3], cls)),
                f"{ctx}: of type {cls.__name__}: {[p.name for p in found]}",
            )
    else:
        ensure(attempt(coll.split_on_type_name, ValueError), f"{ctx}: split on type name although there are memory variables")
    order = sorted(now, key=lambda x: (x[4], -max(x[5]), x[0].name))
    got = [p.name for p in sorted(coll)]
    ensure(got == [x[0].name for x in order], f"{ctx}: sorted {got}, expected {[x[0].name for x in order]}")
    if all(max(x[5]) <= T for x in now):
        occ = {id(x[0]): set(slots(x[4], max(x[5]), T)) for x in now}
        exp = {frozenset((a, b)) for a in occ for b in occ if a != b and occ[a] & occ[b]}
        g = coll.exclusion_graph_from_execution_time()
        ensure({id(n) for n in g} == set(occ), f"{ctx}: nodes of the exclusion graph on execution times")
        ensure(graph(g) == exp, f"{ctx}: {len(graph(g))} pairs exclude each other on execution time, expected {len(exp)} for {data} {T}")
    for total in (1, 2):
        own = any(max(accesses([d], T)[1]) > 1 or max(accesses([d], T)[2]) > total for d in data)
        try:
            g = coll.exclusion_graph_from_ports(1, 1, total)
        except ValueError:
            ensure(own, f"{ctx}: exclusion graph on {total} ports refused for {data} with schedule time {T}")
            continue
        ensure(not own, f"{ctx}: exclusion graph on {total} ports for {data} with schedule time {T}, one needs more ports")
        exp = set()
        for i, x in enumerate(now):
            for j in range(i):
                w, r, a = accesses([data[i], data[j]], T)
                if max(w) > 1 or max(r) > 1 or max(a) > total:
                    exp.add(frozenset((id(x[0]), id(now[j][0]))))
        ensure(graph(g) == exp, f"{ctx}: {len(graph(g))} pairs exclude each other on {total} ports, expected {len(exp)} for {data} {T}")


def history(case, rec):
    from b_asic.resources import ProcessCollection

    T, pool = make(case)
    n0 = case["n0"] % (len(pool) + 1)
    now = list(pool[:n0])
    absent = list(pool[n0:])
    given = [x[0] for x in now]
    coll = ProcessCollection(given, T, case["cyc"])
    queries(coll, now, absent, T, "initially")
    removed = 0
    most = len(now)
    for n, (add, k) in enumerate(case["cmds"]):
        ctx = f"after {n + 1} steps"
        src, dst = (absent, now) if add else (now, absent)
        if not src or k % 7 == 6:
            # the same process again, or one that is not there
            if dst:
                x = dst[k % len(dst)]
                if add:
                    ensure(attempt(lambda x=x: coll.add_process(x[0]), ValueError), f"{ctx}: {x[0].name} could be added twice")
                else:
                    ensure(attempt(lambda x=x: coll.remove_process(x[0]), KeyError), f"{ctx}: removed {x[0].name}, which is not there")
        else:
            x = src.pop(k % len(src))
            dst.append(x)
            (coll.add_process if add else coll.remove_process)(x[0])
            removed += not add
        most = max(most, len(now))
        queries(coll, now, absent, T, ctx)
    ensure([id(p) for p in given] == [id(x[0]) for x in pool[:n0]], "the list the collection was made from has changed")
    rec.nt(most >= 4 and removed and any(x[4] + max(x[5]) > T for x in pool))


def refuse(case, rec):
    """Invalid requests."""
    from b_asic.resources import ProcessCollection

    T, pool = make(case)
    coll = ProcessCollection([x[0] for x in pool], T)
    for kw in ({"strategy": "no such"}, {"strategy": ""}):
        for f in (coll.split_on_execution_time, lambda **k: coll.split_on_ports(read_ports=1, write_ports=1, **k)):
            try:
                res = f(**kw)
            except ValueError:
                continue
            raise Violation(f"splitting with {kw} gives {res}")
    rec.nt(len(pool) > 1)


VAR = st.tuples(st.integers(0, 5), st.integers(0, 20), st.lists(st.integers(0, 22), min_size=1, max_size=3)).map(list)
OPS = st.tuples(st.integers(0, 2), st.integers(0, 20), st.lists(st.integers(0, 9), min_size=1, max_size=1)).map(list)
BASE = {
    "T": st.integers(1, 14),
    "v": st.one_of(st.lists(VAR, min_size=0, max_size=9), st.lists(OPS, min_size=3, max_size=9)),
    "cyc": st.booleans(),
}
FACETS = [
    Facet(
        "history",
        st.fixed_dictionaries(
            {
                **BASE,
                "n0": st.integers(0, 9),
                "cmds": st.lists(st.tuples(st.booleans(), st.integers(0, 60)).map(list), max_size=8),
            }
        ),
        history,
        2500,
        60000,
        shards=7,
    ),
    Facet("refused", st.fixed_dictionaries(BASE), refuse, 200, 2000),
]
