"""C02: building, instantiating and copying keep everything and share nothing."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..obs import loose_view, matches_spec, op_view, same, sfg_view
from ..sfggen import (
    OPS,
    Graph,
    any_spec,
    apply_timing,
    build,
    build_ops,
    class_of,
    close,
    find,
    make_op,
    params_strategy,
    ref_op,
    rows_any,
    take_rows,
    trace_scale,
    Unstable,
)

RULE = (
    "Random graphs and single operations with random parameters, names, ids, word lengths and timing are copied, "
    "instantiated and edited. Non-trivial: the graph has at least three operations and the history contains an edit "
    "of a copy (graphs), or the operation has a parameter or explicit timing (operations)."
)

TIMING = st.fixed_dictionaries(
    {
        "in": st.lists(st.integers(0, 4), min_size=1, max_size=3),
        "out": st.lists(st.integers(0, 9), min_size=1, max_size=3),
        "ex": st.one_of(st.none(), st.integers(0, 6)),
    }
)


def timing_of(case, g):
    res = {}
    for i, n in enumerate(g.nodes):
        t = case["tim"][i % len(case["tim"])]
        if t is not None and n["k"] not in ("in", "t", "c"):
            res[i] = t
    return res


def simulate_like(sfg, g, rows, trace, msg):
    from b_asic.simulation import Simulation

    cols = [[r[i] for r in rows] for i in range(g.ni)]
    sim = Simulation(sfg, [(lambda n, c=c: c[n]) for c in cols])
    scale = trace_scale(trace)
    for it in range(len(trace)):
        res = sim.step()
        for k, s in enumerate(g.outs):
            ensure(
                close(res[k], trace[it][s], scale),
                f"{msg}: output {k} at {it}: {res[k]} expected {trace[it][s]}",
            )


def edit(sfg, choice, value, rec):
    """One edit of some component of the graph; returns a description."""
    ops = list(sfg.operations)
    k, which, v = choice, value[0], value[1]
    op = ops[which % len(ops)]
    if k == 0:
        op.name = f"edited{v}"
    elif k == 1:
        for p in op.outputs:
            p.latency_offset = v + 20
        for p in op.inputs:
            p.latency_offset = v + 3
    elif k == 2:
        op.execution_time = v + 30
    elif k == 3:
        cand = [o for o in ops if "value" in o.params or "initial_value" in o.params]
        if not cand:
            return
        op = cand[which % len(cand)]
        key = "value" if "value" in op.params else "initial_value"
        cur = op.param(key)
        if isinstance(cur, (list, tuple)):
            return
        op.set_param(key, cur + 1)
    elif k == 4:
        sigs = [s for o in ops for s in o.output_signals]
        sigs[which % len(sigs)].bits = v + 2
    elif k == 5:
        sigs = [s for o in ops for s in o.output_signals]
        sigs[which % len(sigs)].name = f"esig{v}"
    elif k == 6:
        sigs = [s for o in ops for s in o.output_signals]
        sigs[which % len(sigs)].remove_source()
    elif k == 7:
        op.set_param("extra", v)
    elif k == 8:
        if op.is_swappable and op.input_count == 2 and op.output_count == 1:
            op.swap_io()
    elif k == 9:
        cand = [o for o in ops if hasattr(o, "is_add")]
        if cand:
            o = cand[which % len(cand)]
            o.is_add = not o.is_add
    rec.label(f"edit {k}")


def graphs(case, rec):
    g = Graph(case["spec"])
    tim = timing_of(case, g)
    b = build_ops(g, case["spec"]["sty"], timing=tim)
    from b_asic.sfg import SFG

    sigs = [s for o in b.ops for s in o.output_signals]
    for i, v in case["bits"]:
        sigs[i % len(sigs)].bits = v
    for i, v in case["signames"]:
        sigs[i % len(sigs)].name = f"sig{v}"
    everything = b.ops + b.outs + b.sinks
    before = loose_view(everything)
    off = case["off"]
    sfg = SFG(inputs=b.ins, outputs=b.outs, name="graph", id_number_offset=off)
    same(before, loose_view(everything), "constructing a graph changed the given operations")
    matches_spec(sfg, g, tim)
    ensure(
        sorted(repr((s.name, s.bits)) for s in sigs if s.bits is not None or s.name)
        == sorted(
            repr((s.name, s.bits))
            for o in sfg.operations
            for s in o.output_signals
            if s.bits is not None or s.name
        ),
        "word lengths or names of signals were lost",
    )
    orig = {id(x) for x in everything} | {id(s) for s in sigs}
    for o in sfg.operations:
        ensure(id(o) not in orig, "the graph contains an operation that was given")
        for s in o.output_signals:
            ensure(id(s) not in orig, "the graph contains a signal that was given")
    if off:
        for o in sfg.operations:
            num = int(o.graph_id[len(str(o.type_name())):])
            ensure(num >= off, f"id {o.graph_id} with id offset {off}")
        rec.label("id offset")
    view = sfg_view(sfg)
    cur = sfg
    copies = [(sfg, view)]
    for kind, choice, val in case["acts"]:
        src = copies[val[0] % len(copies)][0]
        sview = sfg_view(src)
        if kind == 0:
            new = src()
        elif kind == 1:
            new = src.copy()
        elif kind == 2:
            new = SFG(
                inputs=list(src.input_operations),
                outputs=list(src.output_operations),
                name=src.name,
            )
        else:
            new = src(name="renamed")
            sview["name"] = "renamed"
        same(sview, sfg_view(new), f"a copy differs from its original ({kind})")
        ensure(new.id_number_offset == src.id_number_offset or kind == 2, "id offset was lost")
        own = {id(o) for s, _ in copies for o in s.operations}
        ensure(not any(id(o) in own for o in new.operations), "a copy shares operations")
        nview = sfg_view(new)
        if choice == 6:
            # leaves the edited copy unusable: not kept
            edit(new, choice, val, rec)
        else:
            edit(new, choice, val, rec)
            copies.append((new, sfg_view(new)))
        for i, (s, v) in enumerate(copies):
            same(v, sfg_view(s), f"editing a copy changed graph {i} of {len(copies)} ({choice})")
        same(before, loose_view(everything), "copying changed the given operations")
        del nview
    rows = take_rows(case["rows"], g.ni)
    trace, _ = g.simulate(rows)
    if trace:
        simulate_like(sfg, g, rows, trace, "original after copies were edited")
        simulate_like(sfg(), g, rows, trace, "new instance")
        simulate_like(sfg.copy(), g, rows, trace, "copy")
    rec.nt(len(g.nodes) >= 3 and len(copies) > 1)
    for n in g.nodes:
        rec.label(n["k"])


ACTS = st.tuples(
    st.integers(0, 3), st.integers(0, 9), st.tuples(st.integers(0, 40), st.integers(0, 9)).map(list)
).map(list)

graph_case = st.fixed_dictionaries(
    {
        "spec": any_spec(("real", "cplx", "linear_real")),
        "tim": st.lists(st.one_of(st.none(), TIMING), min_size=1, max_size=5),
        "bits": st.lists(st.tuples(st.integers(0, 40), st.integers(0, 20)).map(list), max_size=3),
        "signames": st.lists(st.tuples(st.integers(0, 40), st.integers(0, 20)).map(list), max_size=3),
        "off": st.sampled_from([0, 0, 0, 1, 7, 100]),
        "acts": st.lists(ACTS, min_size=1, max_size=4),
        "rows": rows_any(False, 1, 4),
    }
)


def by_signals(case, rec):
    """Cutting a graph out of a larger one by signals leaves the larger one alone."""
    from b_asic.sfg import SFG

    g = Graph(case["spec"])
    b = build_ops(g, case["spec"]["sty"])
    rows = take_rows(case["rows"], g.ni)
    everything = b.ops + b.outs + b.sinks
    before = loose_view(everything)
    # inputs by signal where the input has exactly one consumer that is not an output
    sig_in, op_in = [], []
    for i, o in enumerate(b.ins):
        ss = o.output(0).signals
        use = (
            case["how"][i % len(case["how"])]
            and len(ss) == 1
            and ss[0].destination.operation not in b.outs
        )
        (sig_in if use else op_in).append(i)
    sig_out, op_out = [], []
    for k, o in enumerate(b.outs):
        src = g.outs[k]
        use = case["how"][(k + 1) % len(case["how"])] and g.nodes[src[0]]["k"] != "in"
        (sig_out if use else op_out).append(k)
    sfg = SFG(
        inputs=[b.ins[i] for i in op_in],
        outputs=[b.outs[k] for k in op_out],
        input_signals=[b.ins[i].output(0).signals[0] for i in sig_in],
        output_signals=[b.outs[k].input(0).signals[0] for k in sig_out],
    )
    same(before, loose_view(everything), "constructing a graph from signals changed the operations")
    perm_in = sig_in + op_in
    perm_out = sig_out + op_out
    ensure(sfg.input_count == g.ni and sfg.output_count == len(g.outs), "wrong number of ports")
    trace, _ = g.simulate(rows)
    if not trace:
        return
    from b_asic.simulation import Simulation

    cols = [[r[i] for r in rows] for i in perm_in]
    for s in (sfg, sfg(), sfg.copy()):
        sim = Simulation(s, [(lambda n, c=c: c[n]) for c in cols])
        for it in range(len(trace)):
            res = sim.step()
            for pos, k in enumerate(perm_out):
                y = trace[it][g.outs[k]]
                ensure(
                    close(res[pos], y, trace_scale(trace)),
                    f"output {k} at {it}: {res[pos]} expected {y}",
                )
    rec.nt(bool(sig_in or sig_out) and len(g.nodes) >= 3)


sig_case = st.fixed_dictionaries(
    {
        "spec": any_spec(("real", "linear_real"), sinks=False),
        "rows": rows_any(False, 1, 4),
        "how": st.lists(st.booleans(), min_size=1, max_size=4),
    }
)


def operations(case, rec):
    """Copy of a single operation, before and after edits of both."""
    t, p = case["t"], dict(case["p"])
    if t == "recsqrt":
        p["real_valued"] = case["aslist"]
    if isinstance(p.get("value"), list) and case["aslist"]:
        p["value"] = list(p["value"])
    op = make_op(t, p, name=case["name"])
    if case["tim"] and t != "c":
        apply_timing(op, case["tim"])
    op.graph_id = case["gid"]
    if case["extra"] is not None:
        op.set_param("note", {"k": [case["extra"]]})
    view = op_view(op)
    coords = None
    timed = t != "c" and None not in op.latency_offsets.values()
    if timed:
        coords = (op.get_plot_coordinates(), op.get_input_coordinates(), op.get_output_coordinates())
    c = op.copy()
    ensure(type(c) is type(op) and c is not op, "copy has another type")
    same(view, op_view(c), f"copy of {t} differs")
    ensure(all(q.signal_count == 0 for q in [*c.inputs, *c.outputs]), "copy is connected")
    if timed:
        ensure(c.latency == op.latency, "latency of the copy")
        ensure(
            (c.get_plot_coordinates(), c.get_input_coordinates(), c.get_output_coordinates()) == coords,
            "plot coordinates of the copy",
        )
    for k, v in p.items():
        ensure(getattr(c, k) == getattr(op, k), f"{k} of the copy")
    # edits
    for e in case["edits"]:
        if e == 0:
            c.name = "other"
        elif e == 1:
            for q in [*c.inputs, *c.outputs]:
                q.latency_offset = 77
        elif e == 2:
            c.execution_time = 78
        elif e == 3:
            for k in list(c.params):
                c.set_param(k, "changed")
        elif e == 4:
            c.graph_id = "elsewhere"
        elif e == 5:
            for k, v in c.params.items():
                if isinstance(v, list):
                    v.append(5)
                elif isinstance(v, dict):
                    v["k"].append(6)
        elif e == 6 and 3 not in case["edits"] and c.is_swappable and c.input_count == 2:
            c.swap_io()
        rec.label(f"edit {e}")
    same(view, op_view(op), f"editing a copy of {t} changed the original ({case['edits']})")
    # and the other way round
    c2 = op.copy()
    v2 = op_view(c2)
    op.name = "renamed"
    for k in op.params:
        op.set_param(k, 99)
    same(v2, op_view(c2), "editing the original changed its copy")
    # behaviour
    if OPS[t].ni and t not in ("min", "max"):
        z = [complex(a + 1, 2 * a - 3) for a in case["x"][: OPS[t].ni]]
        r1, r2 = make_op(t, p).evaluate(*z), make_op(t, p).copy().evaluate(*z)
        ensure(r1 == r2, f"{t} {p}: the copy evaluates {z} to {r2}, the original to {r1}")
    vals = case["x"][: OPS[t].ni]
    try:
        exp = ref_op(t, case["p"] if t not in ("ser3p",) else {"value": tuple(case["p"]["value"])}, vals)
    except Unstable:
        exp = None
    if exp is not None and OPS[t].ni:
        got = c2.evaluate(*vals)
        got = [got] if OPS[t].no == 1 else list(got)
        for a, y in zip(got, exp):
            ensure(close(a, y, 20), f"{t} copy evaluates to {got}, expected {exp}")
    rec.nt(bool(p) or case["tim"] is not None)
    rec.label(t)


def one_op(t):
    return st.fixed_dictionaries(
        {
            "t": st.just(t),
            "p": params_strategy(t, True) if t != "c" else params_strategy(t, False),
            "name": st.sampled_from(["", "a", "foo bar"]),
            "gid": st.sampled_from(["", "x1", f"{t}3"]),
            "tim": st.one_of(st.none(), TIMING),
            "extra": st.one_of(st.none(), st.integers(0, 3)),
            "aslist": st.booleans(),
            "edits": st.lists(st.integers(0, 6), min_size=1, max_size=3),
            "x": st.lists(st.integers(-9, 9), min_size=7, max_size=7),
        }
    )


def nested(case, rec):
    """Graphs inside graphs are copied too."""
    from b_asic.sfg import SFG
    from b_asic.special_operations import Input, Output
    from b_asic.simulation import Simulation

    gi = Graph(case["inner"])
    bi = build(gi, case["inner"]["sty"], sfg_name="inner")
    rows = take_rows(case["rows"], gi.ni)
    ins = [Input(f"i{k}") for k in range(gi.ni)]
    inner = bi.sfg(*ins) if case["call"] else bi.sfg
    if not case["call"]:
        for k, i in enumerate(ins):
            inner.input(k).connect(i)
    top = SFG(
        inputs=ins, outputs=[Output(inner.output(k), name=f"o{k}") for k in range(inner.output_count)]
    )
    before = sfg_view(inner)
    cp = top.copy() if case["how"] else top()
    same(sfg_view(top), sfg_view(cp), "copy of a graph with a nested graph differs")
    tv = sfg_view(top)
    nested_op = next(o for o in cp.operations if isinstance(o, SFG))
    own = {id(o) for o in inner.operations} | {
        id(o) for t in top.operations if isinstance(t, SFG) for o in t.operations
    }
    ensure(not any(id(o) in own for o in nested_op.operations), "nested operations are shared")
    edit(nested_op, case["edit"], case["val"], rec)
    same(tv, sfg_view(top), "editing inside a copy changed the original")
    same(before, sfg_view(inner), "editing inside a copy changed the nested original")
    trace, _ = gi.simulate(rows)
    cols = [[r[i] for r in rows] for i in range(gi.ni)]
    sim = Simulation(top, [(lambda n, c=c: c[n]) for c in cols])
    for it in range(len(trace)):
        res = sim.step()
        for k, s in enumerate(gi.outs):
            ensure(close(res[k], trace[it][s], trace_scale(trace)), f"output {k} at {it}")
    rec.nt(len(gi.nodes) >= 3)


nested_case = st.fixed_dictionaries(
    {
        "inner": any_spec(("real", "linear_real"), max_ops=6, max_delays=2),
        "rows": rows_any(False, 1, 3),
        "call": st.booleans(),
        "how": st.booleans(),
        "edit": st.integers(0, 9),
        "val": st.tuples(st.integers(0, 40), st.integers(0, 9)).map(list),
    }
)

FACETS = [
    Facet("graphs", graph_case, graphs, quick=1500, shards=4),
    Facet("signals", sig_case, by_signals, quick=600, shards=1),
    Facet(
        "operations",
        st.sampled_from(sorted(OPS)).flatmap(one_op),
        operations,
        quick=2000,
        shards=1,
    ),
    Facet("nested", nested_case, nested, quick=500, shards=2),
]
