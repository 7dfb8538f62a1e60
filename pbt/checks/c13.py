"""C13: the graph of a schedule behaves as the scheduled graph."""

from hypothesis import strategies as st

from ..core import Facet, ensure
from ..obs import params_of
from ..schedmodel import check_valid
from ..sfggen import Unstable, close, rows_any, spec_strategy, take_rows, trace_scale
from .c12 import BASE, KINDS, Model, initial, step
from ..schedmodel import prepare

RULE = (
    "Random linear graphs with delays starting at zero, scheduled and edited as in C12. The graph obtained from the schedule "
    "is simulated with every input delayed by the iterations the schedule moved it, and its outputs compared, moved likewise, "
    "with the reference evaluation of the original graph. Non-trivial: some operation was moved to another iteration and "
    "there is a delay."
)


def check_graph(sched, con, s, original, ctx):
    """Operations, parameters and the order of inputs and outputs."""
    sfg = sched.sfg
    ops = {op.name: op for op in sfg.operations if op.type_name() != "t"}
    ensure(sorted(ops) == sorted(original), f"{ctx}: operations {sorted(ops)}")
    for nm, (cls, params) in original.items():
        ensure(type(ops[nm]) is cls and params_of(ops[nm]) == params, f"{ctx}: {nm} is {ops[nm]} with {params_of(ops[nm])}")
    g = con.g
    ensure([o.name for o in sfg.input_operations] == [f"n{i}" for i in range(g.ni)], f"{ctx}: order of inputs")
    ensure([o.name for o in sfg.output_operations] == [f"out{k}" for k in range(len(g.outs))], f"{ctx}: order of outputs")
    return sfg


def io_latency(sched, con, s, ctx):
    got = sched.get_io_latency()
    ins = [nm for nm in con.names if con.kind[nm] == "in"]
    exp = {}
    for i in ins:
        dist = {i: 0}
        changed = True
        while changed:
            changed = False
            for u, p, v, j, _ in con.edges:
                if u in dist and dist[u] + s.d[v, j] < dist.get(v, 1 << 60):
                    dist[v] = dist[u] + s.d[v, j]
                    changed = True
        for o in con.names:
            if con.kind[o] == "out" and o in dist:
                exp.setdefault(s.ids[i], {})[s.ids[o]] = dist[o] * s.T + s.start[o] - s.start[i]
    ensure(got == exp, f"{ctx}: input-output latencies {got}, expected {exp}")


def behaviour(case, rec):
    from b_asic.simulation import Simulation

    g, con, sfg = prepare(case)
    con.own_lists()
    original = {op.name: (type(op), params_of(op)) for op in sfg.operations if op.type_name() != "t"}
    sched = initial(case, con, sfg)
    if sched is None:
        return
    rows = take_rows(case["rows"], g.ni) if case["rows"] else []
    rows = [r[: g.ni] for r in rows]
    trace, _ = g.simulate(rows)
    rows = rows[: len(trace)]
    scale = trace_scale(trace)
    m = Model(sched, con)
    stats = {"n": 0, "delays": 0}
    moved = False
    todo = [None, *case["cmds"]]
    for x, cmd in enumerate(todo):
        if cmd is not None:
            step(m, cmd, rec, stats)
        if cmd is not None and x % 3 and x != len(todo) - 1:
            continue
        s = m.s
        ctx = f"after {x} edits"
        new = check_graph(sched, con, s, original, ctx)
        io_latency(sched, con, s, ctx)
        L = s.potentials(con, ctx)
        low = min(L.values())
        L = {k: v - low for k, v in L.items()}
        moved = moved or max(L.values()) > 0
        n_sim = len(rows) + max(L.values())
        if n_sim == 0 or not rows:
            continue
        ins = []
        for i in range(g.ni):
            lag = L[f"n{i}"]
            ins.append([rows[n - lag][i] if 0 <= n - lag < len(rows) else 0 for n in range(n_sim)])
        sim = Simulation(new, ins)
        outs = [list(sim.step()) for _ in range(n_sim)]
        for k, src in enumerate(g.outs):
            res = [complex(o[k]) for o in outs]
            lag = L[f"out{k}"]
            ref = [0] * lag + [t[src] for t in trace]
            for n in range(min(len(ref), len(res))):
                ensure(
                    close(res[n], ref[n], scale),
                    f"{ctx}: output {k} of the schedule's graph is {res[n]} in iteration {n}, expected {ref[n]} "
                    f"(moved {lag} iterations; inputs moved {[L[f'n{i}'] for i in range(g.ni)]})",
                )
    rec.nt(moved and any(e[4] for e in con.edges) and len(rows) >= 2)


CMD = st.tuples(st.sampled_from([*KINDS, "rotate", "far", "far", "move"]), st.integers(0, 191), st.integers(-8, 8)).map(list)
LINEAR = st.one_of(
    spec_strategy("linear_real", max_ops=7, init=False),
    spec_strategy("linear_cplx", max_ops=6, init=False, max_in=2),
    spec_strategy("real", types=["add", "cmul", "sub", "sym2p", "r2bfly"], min_delays=1, max_delays=4, max_ops=7, init=False),
)
FACETS = [
    Facet(
        "behaviour",
        st.fixed_dictionaries(
            {
                **BASE,
                "spec": LINEAR,
                "cyc": st.sampled_from([True, True, False]),
                "cmds": st.lists(CMD, min_size=0, max_size=10),
                "rows": rows_any(False, 2, 6),
            }
        ),
        behaviour,
        900,
        20000,
        shards=8,
    ),
]
