"""C01: simulation computes the recurrence the graph describes."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..sfggen import (
    Graph,
    any_spec,
    build,
    close,
    find,
    rows_any,
    spec_strategy,
    take_rows,
    trace_scale,
)

RULE = (
    "Random graphs (inputs, delays with initial values, feedback, real/complex, multi-output "
    "operations, nested graphs) driven with random input rows through random sequences of "
    "step/run_for/run_until/run. Non-trivial: at least two comparable iterations and at least "
    "one delay or multi-output operation or nested graph in the graph."
)
ASSUMPTIONS = [
    "Values are compared with relative tolerance 1e-9; iterations after the reference leaves "
    "|v| <= 1e8, divides by less than 1e-6 or comes near the branch cut of a root are not compared.",
]


def key_of(op, port, no):
    return f"{op.graph_id}.{port}" if no > 1 else op.graph_id


def check_results(sim_results, sfg, g, trace, sel, scale, ctx=""):
    """Every node's recorded series equals the reference on the recorded iterations."""
    for i, n in enumerate(g.nodes):
        op = find(sfg, f"n{i}")
        if n["k"] == "in":
            continue
        for j in range(n["no"]):
            key = key_of(op, j, n["no"])
            needed = getattr(sim_results, "needed", None)
            used = bool(op.output(j).signals) if needed is None else key in needed
            if key not in sim_results:
                ensure(not used, f"no recorded results for {n['k']} output {j} under {key!r} {ctx}")
                continue
            got = list(sim_results[key])
            ensure(
                len(got) == len(sel),
                f"{key}: {len(got)} recorded values for {len(sel)} recorded iterations {ctx}",
            )
            for k, it in enumerate(sel):
                ensure(
                    close(got[k], trace[it][i, j], scale),
                    f"{key} ({n['k']}) at iteration {it}: {got[k]} expected {trace[it][i, j]} {ctx}",
                )
    for k, src in enumerate(g.outs):
        op = find(sfg, f"out{k}")
        got = list(sim_results.get(op.graph_id, []))
        ensure(len(got) == len(sel), f"{op.graph_id}: {len(got)} values for {len(sel)} iterations")
        for idx, it in enumerate(sel):
            ensure(
                close(got[idx], trace[it][src], scale),
                f"{op.graph_id} at iteration {it}: {got[idx]} expected {trace[it][src]} {ctx}",
            )


def expected_outs(g, trace, it):
    return [trace[it][s] for s in g.outs]


def provider(kind, values):
    if kind == 0:
        return list(values)
    if kind == 1:
        return lambda n: values[n]
    if kind == 2:
        import numpy as np

        # one dtype per array: do not turn real values into complex ones
        if any(isinstance(v, complex) for v in values):
            return list(values)
        return np.array(values)
    if kind == 4:
        return values[0]
    return tuple(values)


def chunk_history(case, rec, Simulation=None):
    """All ways of advancing agree with the reference, at every stop."""
    if Simulation is None:
        from b_asic.simulation import Simulation

    g = Graph(case["spec"])
    rows = [list(r) for r in take_rows(case["rows"], g.ni)]
    kinds = [case["prov"][i % len(case["prov"])] for i in range(g.ni)]
    for i, k in enumerate(kinds):
        if k == 4:
            for r in rows:
                r[i] = rows[0][i]
    trace, _ = g.simulate(rows)
    n = len(trace)
    if n == 0:
        return
    scale = trace_scale(trace)
    b = build(g, case["spec"]["sty"])
    provs = [provider(k, [r[i] for r in rows]) for i, k in enumerate(kinds)]
    finite = any(k not in (1, 4) for k in kinds)
    sim = Simulation(b.sfg)
    if case["set"] == 0:
        sim = Simulation(b.sfg, provs) if g.ni != 1 else Simulation(b.sfg, [provs[0]])
    elif case["set"] == 1:
        for i, p in enumerate(provs):
            sim.set_input(i, p)
    else:
        sim.set_inputs(provs)
    it = 0
    sel = []
    hist = []
    for kind, amount, save in case["acts"]:
        hist.append((kind, amount, save))
        start = it
        if kind == 0:
            if it + 1 > n:
                continue
            res = sim.step(save_results=save)
            it += 1
        elif kind == 1:
            k = min(amount, n - it)
            if k == 0:
                continue
            res = sim.run_for(k, save_results=save)
            it += k
        elif kind == 2:
            t = max(it + 1, min(amount, n))
            if t > n:
                continue
            res = sim.run_until(t, save_results=save)
            it = t
        elif kind == 3:
            if n < len(rows) or it >= n or not finite:
                continue
            res = sim.run(save_results=save)
            it = n
        elif kind == 5:
            # another source for one input from here on
            i = amount % g.ni if g.ni else 0
            if it >= n or not g.ni:
                continue
            k = amount % 5
            new = [r[i] for r in reversed(rows)]
            if k == 4:
                new = [new[0]] * len(rows)
            sim.set_input(i, provider(k, new))
            finite = finite or k not in (1, 4)
            rows = [[*r[:i], v, *r[i + 1 :]] if t >= it else r for t, (r, v) in enumerate(zip(rows, new))]
            trace, _ = g.simulate(rows)
            n = len(trace)
            scale = trace_scale(trace)
            rec.label("input changed on the way" if it else "input changed")
            continue
        else:
            sim.clear_results()
            sel = []
            continue
        if save:
            sel.extend(range(start, it))
        ensure(sim.iteration == it, f"iteration is {sim.iteration}, expected {it}", hist=hist)
        exp = expected_outs(g, trace, it - 1)
        ensure(len(res) == len(exp), f"{len(res)} outputs returned, expected {len(exp)}")
        for o, (x, y) in enumerate(zip(res, exp)):
            ensure(
                close(x, y, scale),
                f"output {o} after {it} iterations: {x} expected {y}",
                hist=hist,
            )
        if sel:
            check_results(sim.results, sim.sfg, g, trace, sel, scale, f"history {hist}")
    multi = any(x["no"] > 1 for x in g.nodes)
    rec.nt(it >= 2 and (g.nd > 0 or multi))
    if g.has_feedback():
        rec.label("feedback")
    if g.nd:
        rec.label("delays")
    if multi:
        rec.label("multi-output")
    if len(case["acts"]) > 1:
        rec.label("several advances")


ACT = st.tuples(st.integers(0, 5), st.integers(1, 6), st.booleans()).map(list)

chunk_case = st.fixed_dictionaries(
    {
        "spec": any_spec(("real", "cplx", "linear_real")),
        "rows": st.one_of(rows_any(False, 1, 7), rows_any(True, 2, 5)),
        "prov": st.lists(st.integers(0, 4), min_size=1, max_size=3),
        "set": st.integers(0, 2),
        "acts": st.lists(ACT, min_size=1, max_size=6),
    }
)


def state_reset(case, rec, Simulation=None):
    """clear_state restarts the recurrence from the initial values; other instances unaffected."""
    if Simulation is None:
        from b_asic.simulation import Simulation

    g = Graph(case["spec"])
    rows = take_rows(case["rows"], g.ni)
    k = min(case["k"], len(rows))
    t1, _ = g.simulate(rows[:k])
    t2, _ = g.simulate(rows[k:])
    if len(t1) < k or not t2:
        return
    b = build(g, case["spec"]["sty"])
    cols = [[r[i] for r in rows] for i in range(g.ni)]
    sims = [Simulation(b.sfg, [(lambda n, c=c: c[n]) for c in cols]) for _ in range(2)]
    sims[0].run_for(k)
    sims[1].run_for(k)
    sims[0].clear_state()
    r = sims[0].run_for(len(t2))
    scale = max(trace_scale(t1), trace_scale(t2))
    for o, s in enumerate(g.outs):
        ensure(
            close(r[o], t2[-1][s], scale),
            f"output {o} after clear_state: {r[o]} expected {t2[-1][s]}",
        )
    full, _ = g.simulate(rows)
    if len(full) > k:
        r = sims[1].run_for(len(full) - k)
        for o, s in enumerate(g.outs):
            ensure(
                close(r[o], full[-1][s], trace_scale(full)),
                f"a second simulation was disturbed: output {o} {r[o]} expected {full[-1][s]}",
            )
    rec.nt(g.nd > 0)


reset_case = st.fixed_dictionaries(
    {
        "spec": any_spec(("real", "linear_real"), min_delays=1),
        "rows": rows_any(False, 3, 7),
        "k": st.integers(1, 4),
    }
)


def nested(case, rec, Simulation=None):
    """A graph used as an operation of another behaves as its contents."""
    if Simulation is None:
        from b_asic.simulation import Simulation
    from b_asic.sfg import SFG
    from b_asic.special_operations import Input, Output
    from b_asic.core_operations import Addition, ConstantMultiplication

    gi = Graph(case["inner"])
    go = Graph(case["outer"])
    # inner graph's inputs are fed from outer ports, its outputs summed
    rows = take_rows(case["rows"], go.ni)
    inner_state = gi.initial_state()
    ostate = go.initial_state()
    from ..sfggen import Unstable

    expected = []
    expected_inner = []
    for row in rows:
        try:
            val, ostate2 = go.step(ostate, row)
            ports = go.ports
            ivals = [val[ports[r % len(ports)]] for r in (case["conn"] * 4)[: gi.ni]]
            iv, inner_state2 = gi.step(inner_state, ivals)
        except Unstable:
            break
        ostate, inner_state = ostate2, inner_state2
        expected.append([val[s] for s in go.outs] + [iv[s] for s in gi.outs])
        expected_inner.append(iv)
    if not expected:
        return
    bi = build(gi, case["inner"]["sty"], sfg_name="inner", prefix="i")
    bo = build(go, case["outer"]["sty"])
    ports = go.ports
    srcs = [bo.ops[ports[r % len(ports)][0]].output(ports[r % len(ports)][1])
            for r in (case["conn"] * 4)[: gi.ni]]
    inst = bi.sfg
    if case["call"]:
        inst = inst(*srcs)
    else:
        for i, s in enumerate(srcs):
            inst.input(i).connect(s)
    outs = list(bo.outs) + [
        Output(inst.output(j), name=f"iout{j}x") for j in range(len(gi.outs))
    ]
    top = SFG(inputs=bo.ins, outputs=outs)
    if case["flat"]:
        top = top.flatten()
        rec.label("flattened")
    cols = [[r[i] for r in rows] for i in range(go.ni)]
    sim = Simulation(top, [(lambda n, c=c: c[n]) for c in cols])
    scale = max(max((abs(v) for e in expected for v in e), default=1.0), 1.0)
    for it, exp in enumerate(expected):
        got = sim.step()
        ensure(len(got) == len(exp), "wrong number of outputs")
        for o, (x, y) in enumerate(zip(got, exp)):
            ensure(close(x, y, scale), f"output {o} at iteration {it}: {x} expected {y}")
    agrees = getattr(sim, "agrees", None)
    if agrees is not None:
        agrees(cols, len(expected), scale)
    rec.nt(len(expected) >= 2 and (gi.nd > 0 or len(gi.outs) > 1))
    if gi.nd:
        rec.label("inner delays")


nested_case = st.fixed_dictionaries(
    {
        "inner": any_spec(("real", "linear_real"), max_ops=5, max_delays=2),
        "outer": any_spec(("real", "linear_real"), max_ops=4, max_delays=2),
        "rows": rows_any(False, 2, 5),
        "conn": st.lists(st.integers(0, 63), min_size=1, max_size=4),
        "call": st.booleans(),
        "flat": st.booleans(),
    }
)


def direct_evaluate(case, rec):
    """Evaluating a graph as an operation: one step from the initial state."""
    g = Graph(case["spec"])
    row = take_rows([case["row"]], g.ni)[0]
    trace, _ = g.simulate([row])
    if not trace:
        return
    b = build(g, case["spec"]["sty"])
    scale = trace_scale(trace)
    res = b.sfg.evaluate(*row)
    exp = [trace[0][s] for s in g.outs]
    got = [res] if len(exp) == 1 else list(res)
    ensure(len(got) == len(exp), "wrong number of outputs")
    for o, (x, y) in enumerate(zip(got, exp)):
        ensure(close(x, y, scale), f"evaluate: output {o} is {x}, expected {y}")
        z = b.sfg.evaluate_output(o, row)
        ensure(close(z, y, scale), f"evaluate_output({o}) is {z}, expected {y}")
    rec.nt(len(g.nodes) > g.ni + 1)


direct_case = st.fixed_dictionaries(
    {
        "spec": any_spec(("real", "cplx")),
        "row": rows_any(True, 1, 1).map(lambda r: r[0]),
    }
)

FACETS = [
    Facet("histories", chunk_case, chunk_history, quick=4000, shards=4),
    Facet("reset", reset_case, state_reset, quick=700, shards=1),
    Facet("nested", nested_case, nested, quick=1400, shards=2),
    Facet("evaluate", direct_case, direct_evaluate, quick=700, shards=1),
]
