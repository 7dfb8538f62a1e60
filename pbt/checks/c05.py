"""C05: an unfolded graph computes consecutive iterations of the original."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..obs import same, sfg_view
from ..sfggen import Graph, any_spec, build, close, rows_any, take_rows, trace_scale

RULE = (
    "Random graphs (feedback, delay chains, delays with initial values, multi-output operations, names that look like "
    "generated ones) are unfolded by random factors, once or twice, and simulated against the reference run of the "
    "original. Non-trivial: factor at least two and at least one delay."
)


def run(sfg, g, rows, total, what):
    """sfg takes total consecutive iterations of g per step."""
    from b_asic.simulation import Simulation

    ni, no = g.ni, len(g.outs)
    ensure(sfg.input_count == ni * total, f"{what}: {sfg.input_count} inputs, expected {ni * total}")
    ensure(sfg.output_count == no * total, f"{what}: {sfg.output_count} outputs, expected {no * total}")
    steps = len(rows) // total
    trace, _ = g.simulate(rows)
    if not trace:
        return 0
    scale = trace_scale(trace)
    cols = []
    for f in range(total):
        for i in range(ni):
            cols.append([rows[s * total + f][i] for s in range(steps)])
    sim = Simulation(sfg, [(lambda n, c=c: c[n]) for c in cols])
    compared = 0
    for s in range(steps):
        res = sim.step()
        for f in range(total):
            it = s * total + f
            if it >= len(trace):
                return compared
            for k, port in enumerate(g.outs):
                ensure(
                    close(res[f * no + k], trace[it][port], scale),
                    f"{what}: output {k} of iteration {it} (step {s}) is {res[f * no + k]}, "
                    f"expected {trace[it][port]}",
                )
                compared += 1
    return compared


def unfold(case, rec):
    from b_asic.special_operations import Delay

    g = Graph(case["spec"])
    b = build(g, case["spec"]["sty"])
    sfg = b.sfg
    if case["names"]:
        # names that start like the ones unfolding uses itself
        for i, (which, name) in enumerate(case["names"]):
            ops = list(sfg.operations)
            ops[which % len(ops)].name = name if i == 0 else f"{name}{i}"
        sfg = sfg()
        rec.label("odd names")
    view = sfg_view(sfg)
    nd = len(g.delays)
    total = 1
    cur = sfg
    for f in case["factors"]:
        nxt = cur.unfold(f)
        ensure(nxt is not cur, "the graph itself is returned")
        total *= f
        cur = nxt
        v = sfg_view(cur)
        same(view, sfg_view(sfg), f"unfolding by {f} changed the graph")
        ensure(
            len(cur.find_by_type(Delay)) == nd,
            f"unfolded {total} times: {len(cur.find_by_type(Delay))} delays, expected {nd}",
        )
        ensure(
            sorted(str(d.initial_value) for d in cur.find_by_type(Delay))
            == sorted(str(g.nodes[d]["p"]["initial_value"]) for d in g.delays),
            f"unfolded {total} times: the initial values of the delays changed",
        )
        count = {}
        for n in g.nodes:
            if n["k"] != "t":
                count[n["k"]] = count.get(n["k"], 0) + total
        count["out"] = total * len(g.outs)
        got = {}
        for o in cur.operations:
            t = str(o.type_name())
            if t not in ("t", "sink"):
                got[t] = got.get(t, 0) + 1
        ensure(got == {k: c for k, c in count.items() if c}, f"operations {got}, expected {count}")
        # inputs and outputs: copies in order of time
        del v
    rows = take_rows(case["rows"], g.ni)
    n = run(cur, g, rows, total, f"unfolded by {case['factors']}")
    rec.nt(total >= 2 and nd >= 1 and n > 0)
    rec.label(f"factor {total}")


def params(case, rec):
    """Each of the copies has the parameters, latencies and names' stems of the original."""
    from ..sfggen import apply_timing

    g = Graph(case["spec"])
    b = build(g, case["spec"]["sty"])
    sfg = b.sfg
    for i, o in enumerate(sfg.operations):
        t = case["tim"][i % len(case["tim"])]
        if t is not None and o.input_count and str(o.type_name()) not in ("t", "in", "out", "c"):
            apply_timing(o, t)
    f = case["f"]
    u = sfg.unfold(f)

    def key(o):
        return (
            type(o).__name__,
            str(sorted((k, str(v)) for k, v in o.params.items())),
            str(sorted(o.latency_offsets.items())),
            o.execution_time,
        )

    from b_asic.special_operations import Delay, Input

    exp = sorted(
        str(key(o)) for o in sfg.operations if not isinstance(o, (Delay, Input)) for _ in range(f)
    )
    got = sorted(str(key(o)) for o in u.operations if not isinstance(o, (Delay, Input)))
    ensure(exp == got, f"operations of the unfolded graph: {[x for x in got if x not in exp][:3]}, expected {[x for x in exp if x not in got][:3]}")
    for i in range(g.ni):
        for k in range(f):
            ensure(
                u.input_operations[k * g.ni + i].name.startswith(f"n{i}"),
                f"input {k * g.ni + i} is called {u.input_operations[k * g.ni + i].name}",
            )
    for i in range(len(g.outs)):
        for k in range(f):
            ensure(
                u.output_operations[k * len(g.outs) + i].name.startswith(f"out{i}"),
                f"output {k * len(g.outs) + i} is called {u.output_operations[k * len(g.outs) + i].name}",
            )
    rec.nt(f >= 2 and len(g.nodes) >= 3)


def refuse(case, rec):
    g = Graph(case["spec"])
    sfg = build(g, case["spec"]["sty"]).sfg
    view = sfg_view(sfg)
    try:
        sfg.unfold(case["f"])
    except ValueError:
        pass
    else:
        raise Violation(f"unfolding by {case['f']} was not refused")
    same(view, sfg_view(sfg), "refused unfolding changed the graph")
    rec.nt()


SPEC = st.one_of(
    any_spec(("real", "cplx", "linear_real")),
    any_spec(("real", "linear_real"), min_delays=2, max_delays=5, max_ops=4),
    any_spec(("linear_real",), min_delays=1, max_delays=4, max_ops=2, min_in=0, max_in=1),
)
TIM = st.fixed_dictionaries(
    {
        "in": st.lists(st.integers(0, 4), min_size=1, max_size=3),
        "out": st.lists(st.integers(0, 9), min_size=1, max_size=3),
        "ex": st.one_of(st.none(), st.integers(0, 6)),
    }
)
NAMES = st.lists(
    st.tuples(
        st.integers(0, 30),
        st.sampled_from(["", "input_t0", "output_total", "input_x", "t0", "add0_1", "same", "0", "in0"]),
    ).map(list),
    max_size=3,
)

FACETS = [
    Facet(
        "unfold",
        st.fixed_dictionaries(
            {
                "spec": SPEC,
                "rows": rows_any(False, 6, 14),
                "names": NAMES,
                "factors": st.one_of(
                    st.sampled_from([2, 3, 2, 4, 1, 5, 7]).map(lambda f: [f]),
                    st.lists(st.integers(1, 3), min_size=2, max_size=2),
                ),
            }
        ),
        unfold,
        1500,
        40000,
        shards=6,
    ),
    Facet(
        "parameters",
        st.fixed_dictionaries(
            {
                "spec": any_spec(("real", "cplx")),
                "tim": st.lists(st.one_of(st.none(), TIM), min_size=1, max_size=4),
                "f": st.integers(1, 4),
            }
        ),
        params,
        300,
        8000,
        shards=1,
    ),
    Facet(
        "refusal",
        st.fixed_dictionaries({"spec": any_spec(), "f": st.integers(-5, 0)}),
        refuse,
        60,
        1000,
    ),
]
