"""C08: linear analysis agrees with the simulated impulse response."""

import cmath

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..obs import same, sfg_view
from ..sfggen import (
    LINEAR_CPLX,
    LINEAR_REAL,
    Graph,
    Unstable,
    any_spec,
    build,
    close,
    ref_op,
    rows_any,
    spec_strategy,
    take_rows,
    trace_scale,
)

RULE = (
    "Random linear graphs (feedback, delays with non-zero initial values, multi-output operations, several inputs and outputs, "
    "real and complex, products with constants) are analysed and compared with an independent zero-state evaluation of unit "
    "impulses at every input, operation and delay. Linearity and constness are also judged on graphs with non-linear "
    "operations, by superposition. Non-trivial: the graph has a delay and a response of at least two samples (or, for "
    "linearity, operations of both kinds)."
)


def linearise(g):
    """Make a graph linear: products need a constant factor, constants are only used as factors and divisors."""
    kind = {}

    def const(port):
        return kind.get(port) == "c"

    nodes = g.nodes
    for i, n in enumerate(nodes):
        k = n["k"]
        if k in ("in", "t"):
            kind[i, 0] = "l"
            continue
        src = n["src"]
        if k == "c":
            if abs(n["p"]["value"]) < 1e-3:
                n["p"] = {"value": 1.5}
            kind[i, 0] = "c"
            continue
        allc = bool(src) and all(map(const, src))
        anyc = any(map(const, src))
        if k == "div" and const(src[1]) and not allc:
            kind[i, 0] = "l"
        elif k == "mul" and anyc and not allc:
            kind[i, 0] = "l"
        elif k == "mad" and (const(src[0]) != const(src[1])) and not const(src[2]):
            kind[i, 0] = "l"
        elif k == "mads" and (const(src[1]) != const(src[2])) and not const(src[0]):
            kind[i, 0] = "l"
        elif anyc or k in ("mul", "div", "mad", "mads"):
            # not linear like this: the constants become unused, the operation a sum or negation
            s = [x for x in src if not const(x)] or None
            if s is None:
                n["k"], n["p"], n["src"] = "c", {"value": 0.75}, []
                n["no"], kind[i, 0] = 1, "c"
                if len([1 for m in nodes for x in m["src"] if x[0] == i and x[1] > 0]) or any(
                    o[0] == i and o[1] > 0 for o in g.outs + g.sinks
                ):
                    return None
            else:
                if n["no"] != 1:
                    return None
                n["k"], n["p"], n["src"] = (
                    ("add", {"mul_j": False, "shift_output": 0}, [s[0], s[-1]]) if len(s) > 1 else ("neg", {}, s[:1])
                )
                kind[i, 0] = "l"
        else:
            for j in range(n["no"]):
                kind[i, j] = "l"
    for d in g.delays:
        if const(nodes[d]["src"][0]):
            return None
    g.outs = [o for o in g.outs if not const(o)]
    used = {s for n in nodes for s in n["src"]} | set(g.outs)
    g.unused = {i for i, n in enumerate(nodes) if n["k"] == "c" and (i, 0) not in used}
    g.sinks = [x for x in g.sinks if x[0] not in g.unused]
    for i, n in enumerate(nodes):
        for j in range(n["no"]):
            if (i, j) not in used and (i, j) not in g.sinks and i not in g.unused:
                g.sinks.append((i, j))
    g.const = {i for i, n in enumerate(nodes) if n["k"] in ("c",) or const((i, 0))}
    if not g.outs:
        return None
    return g


def response(g, n, at_input=None, at_port=None, at_state=None):
    """Zero-state response to a unit impulse: list of port values."""
    state = {d: 0 for d in g.delays}
    if at_state is not None:
        state[at_state] = 1
    trace = []
    for t in range(n):
        val = {}
        for i, nd in enumerate(g.nodes):
            if nd["k"] == "in":
                val[i, 0] = 1 if (t == 0 and i == at_input) else 0
            elif nd["k"] == "t":
                val[i, 0] = state[i]
            else:
                continue
            if t == 0 and (i, 0) == at_port:
                val[i, 0] += 1
        for i, nd in enumerate(g.nodes):
            if nd["k"] in ("in", "t"):
                continue
            for j, v in enumerate(ref_op(nd["k"], nd["p"], [val[s] for s in nd["src"]])):
                if t == 0 and (i, j) == at_port:
                    v = v + 1
                if abs(v) > 1e12:
                    raise Unstable
                val[i, j] = v
        state = {d: val[g.nodes[d]["src"][0]] for d in g.delays}
        trace.append(val)
    return trace


LONG = 260


def decayed(g, trace, t, thr):
    """None if it cannot be told because of rounding."""
    vals = [abs(trace[t][p]) for p in [*g.outs, *((d, 0) for d in g.delays)]]
    if any(abs(v - thr) < 1e-3 * thr for v in vals):
        return None
    return all(v <= thr for v in vals)


def stop_after(g, trace, thr, limit):
    """Number of simulated iterations, None if unknown or never."""
    for n in range(1, len(trace) + 1):
        if n == limit:
            return n
        if n > 1:
            d = decayed(g, trace, n - 1, thr)
            if d is None:
                return None
            if d:
                return n
    return None


def make(case):
    g = Graph(case["spec"])
    g = linearise(g)
    if g is None:
        return None, None
    if not any(n["k"] == "in" for n in g.nodes):
        return None, None
    b = build(g, case["spec"]["sty"])
    return g, b.sfg


def compare(h, trace, port, n, thr, what, scale):
    """h is the response cut after its last value above the threshold."""
    ref = [tr[port] for tr in trace[:n]]
    h = list(np.asarray(h))
    ensure(len(h) <= n, f"{what}: {len(h)} samples, expected at most {n}")
    for t in range(n):
        got = h[t] if t < len(h) else 0
        tol = thr if t >= len(h) else 0
        ensure(
            close(got, ref[t], scale) or abs(got - ref[t]) <= tol * (1 + 1e-6),
            f"{what}: sample {t} is {got}, expected {ref[t]} ({len(h)} samples)",
        )
    if h:
        ensure(abs(h[-1]) > thr, f"{what}: the last sample {h[-1]} is not above the threshold")


def nodes_by_name(sfg):
    return {o.name: o for o in sfg.operations}


def impulse(case, rec):
    g, sfg = make(case)
    if sfg is None:
        return
    thr = case["thr"]
    traces = []
    lim = case["max"]
    try:
        for i in range(g.ni):
            traces.append(response(g, LONG if lim < 0 else lim, at_input=i))
    except Unstable:
        if lim < 0 or not traces:
            return
    if len(traces) < g.ni:
        return
    ns = [stop_after(g, tr, thr, lim) for tr in traces]
    if any(n is None for n in ns):
        if lim < 0:
            # never ends, or not to be told: limit it
            lim = 9
            ns = [stop_after(g, tr, thr, lim) for tr in traces]
        if any(n is None for n in ns):
            return
    scale = max(trace_scale(tr[:n]) for tr, n in zip(traces, ns))
    kw = {} if lim < 0 else {"max_iters": lim}
    if thr != 1e-12:
        kw["threshold"] = thr
    view = sfg_view(sfg)
    alln = case["all"]
    res = sfg.get_impulse_responses(all_nodes=alln, **kw)
    same(view, sfg_view(sfg), "get_impulse_responses changed the graph")
    byname = nodes_by_name(sfg)
    expected = {}
    for k, port in enumerate(g.outs):
        expected[byname[f"out{k}"].graph_id] = port
    if alln:
        for i, n in enumerate(g.nodes):
            if n["k"] == "in" or i in g.unused:
                continue
            op = byname[f"n{i}"]
            for j in range(n["no"]):
                expected[op.key(j, op.graph_id)] = (i, j)
    ensure(set(res) == set(expected), f"keys {sorted(res)}, expected {sorted(expected)}")
    lengths = []
    l1, l2 = {}, {}
    tail = False
    for key, port in expected.items():
        if g.nodes[port[0]]["k"] == "c":
            continue
        ensure(len(res[key]) == g.ni, f"{key}: {len(res[key])} responses")
        s1 = s2 = 0
        for i in range(g.ni):
            compare(res[key][i], traces[i], port, ns[i], thr, f"response of {key} to input {i}", scale)
            lengths.append(len(res[key][i]))
            vals = [abs(tr[port]) for tr in traces[i][: ns[i]]]
            if any(v <= thr and v > 0 for v in vals):
                tail = True
            while vals and vals[-1] <= thr:
                vals.pop()
            s1 += sum(vals)
            s2 += sum(v * v for v in vals)
        l1[key], l2[key] = s1, s2**0.5
    g1 = sfg.get_l1_norms(all_nodes=alln, **kw)
    g2 = sfg.get_l2_norms(all_nodes=alln, **kw)
    for name, got, exp in (("l1", g1, l1), ("l2", g2, l2)):
        ensure(set(got) == set(expected), f"{name} norm keys {sorted(got)}")
        for key in exp:
            ensure(
                abs(got[key] - exp[key]) <= 1e-9 * scale * 300 + (thr * 10 if tail else 0),
                f"{name} norm of {key} is {got[key]}, expected {exp[key]}",
            )
    rec.nt(bool(g.delays) and max(lengths, default=0) >= 2)
    rec.label("decays" if lim < 0 else "limited")
    if any(isinstance(v, complex) and v.imag for tr in traces for val in tr for v in val.values()):
        rec.label("complex")


def from_nodes(case, rec):
    g, sfg = make(case)
    if sfg is None:
        return
    byname = nodes_by_name(sfg)
    lim = case["max"]
    if lim < 0:
        lim = 7
    wanted = None
    ids = [byname[f"n{i}"].graph_id if i not in g.unused else None for i in range(len(g.nodes))]
    if case["nodes"] is not None:
        wanted = [ids[k % len(ids)] for k in case["nodes"]]
        wanted = [x for x in dict.fromkeys(wanted) if x is not None and ids.index(x) not in g.const]
    else:
        wanted = [ids[i] for i, n in enumerate(g.nodes) if n["k"] not in ("in", "t") and i not in g.const]
    if not wanted:
        return
    view = sfg_view(sfg)
    try:
        res_ref = {}
        for gid in wanted:
            i = ids.index(gid)
            for j in range(g.nodes[i]["no"]):
                key = byname[f"n{i}"].key(j, gid)
                res_ref[key] = response(g, lim, at_port=(i, j))
    except Unstable:
        return
    scale = max(trace_scale(tr) for tr in res_ref.values())
    res = sfg.get_impulse_responses_from_nodes(
        nodes=None if case["nodes"] is None else [*wanted, "nothing7"], max_iters=lim
    )
    same(view, sfg_view(sfg), "get_impulse_responses_from_nodes changed the graph")
    outs = {byname[f"out{k}"].graph_id: port for k, port in enumerate(g.outs)}
    ensure(set(res) == set(outs), f"outputs {sorted(res)}, expected {sorted(outs)}")
    longest = 0
    for o, port in outs.items():
        ensure(set(res[o]) == set(res_ref), f"{o}: nodes {sorted(res[o])}, expected {sorted(res_ref)}")
        for key, tr in res_ref.items():
            n = stop_after(g, tr, 1e-12, lim)
            if n is None:
                continue
            if any(g.nodes[q[0]]["k"] == "c" for q in [port]):
                continue
            compare(res[o][key], tr, port, n, 1e-12, f"response of {o} to {key}", scale)
            longest = max(longest, len(res[o][key]))
    rec.nt(bool(g.delays) and longest >= 2)


def series(num, den, n):
    """Power series of num/den in z^-1."""
    num = [*num, *([0] * n)]
    den = [*den, *([0] * n)]
    h = []
    for t in range(n):
        v = num[t] - sum(den[k] * h[t - k] for k in range(1, t + 1))
        h.append(v / den[0])
    return h


def spaces(case, rec):
    g, sfg = make(case)
    if sfg is None:
        return
    nd = len(g.delays)
    n = nd + 5
    try:
        traces = [response(g, n, at_input=i) for i in range(g.ni)]
        for d in g.delays:
            response(g, n, at_state=d)
    except Unstable:
        return
    scale = max(trace_scale(tr) for tr in traces)
    view = sfg_view(sfg)
    ss = sfg.to_ss()
    A, B, C, D = (np.asarray(m) for m in (ss.A, ss.B, ss.C, ss.D))
    no = len(g.outs)
    ensure(
        A.shape == (nd, nd) and B.shape == (nd, g.ni) and C.shape == (no, nd) and D.shape == (no, g.ni),
        f"state space shapes {A.shape} {B.shape} {C.shape} {D.shape} for {nd} delays, {g.ni} inputs, {no} outputs",
    )
    big = max([1.0, *(abs(v) for m in (A, B, C, D) for v in m.ravel())])
    X = B
    hs = [D]
    for _ in range(1, n):
        hs.append(C @ X)
        X = A @ X
    for i in range(g.ni):
        for k, port in enumerate(g.outs):
            for t in range(n):
                ensure(
                    close(complex(hs[t][k, i]), traces[i][t][port], scale * 10),
                    f"state space: response of output {k} to input {i} at {t} is {hs[t][k, i]}, "
                    f"expected {traces[i][t][port]}",
                )
    # the matrices row by row: next state and output for unit states, in the order of the graph's delays
    from b_asic.special_operations import Delay

    order = [int(o.name[1:]) for o in sfg.find_by_type(Delay)]
    for c, d in enumerate(order):
        tr = response(g, 2, at_state=d)
        for r, e in enumerate(order):
            ensure(close(complex(A[r, c]), tr[1][e, 0], scale), f"A[{r},{c}] is {A[r, c]}, expected {tr[1][e, 0]}")
        for k, port in enumerate(g.outs):
            ensure(close(complex(C[k, c]), tr[0][port], scale), f"C[{k},{c}] is {C[k, c]}, expected {tr[0][port]}")
    tf = sfg.to_tf()
    zpk = sfg.to_zpk()
    tol = 1e-7 * scale * max(1.0, big) ** (nd + 1)
    if tol < 1e-2 * scale:
        for i in range(g.ni):
            num, den = tf[f"in{i}"]
            z, p, gain = zpk[f"in{i}"]
            for k, port in enumerate(g.outs):
                nk = num if no == 1 else num[k]
                ensure(np.ndim(nk) == 1, f"numerator of input {i}: {num!r} for {no} outputs")
                h = series(list(nk), list(den), n)
                for t in range(n):
                    ref = traces[i][t][port]
                    ensure(
                        abs(h[t] - ref) <= tol,
                        f"transfer function from input {i} to output {k}: {nk} / {den} has response {h}, "
                        f"expected {[tr[port] for tr in traces[i]]}",
                    )
                zk, gk = (z, gain) if no == 1 else (z[k], gain[k])
                check_zpk(zk, p, gk, nk, den, f"zeros, poles, gain from input {i} to output {k}")
        rec.label("transfer function")
    same(view, sfg_view(sfg), "the analysis changed the graph")
    rec.nt(nd >= 1 and any(abs(v) > 1e-9 for tr in traces for val in tr[1:] for v in [val[o] for o in g.outs]))
    rec.label(f"{nd} delays")


def check_zpk(z, p, k, num, den, what):
    """gain * prod(x - z) / prod(x - p) is num/den, up to a power of x."""
    num, den = list(num), list(den)
    if all(abs(c) < 1e-13 for c in num):
        ensure(abs(k) < 1e-12, f"{what}: gain {k} for a zero transfer function")
        return
    lead = next(c for c in num if c != 0)
    if abs(lead) < 1e-6:
        return  # the leading coefficient is rounding: nothing to compare
    pts = [cmath.exp(1j * a) for a in (0.3, 1.1, 1.9, 2.7, -0.7)]
    ratios = []
    for x in pts:
        dd = sum(c * x ** -e for e, c in enumerate(den))
        nn = sum(c * x ** -e for e, c in enumerate(num))
        pp = np.prod([x - r for r in p]) if len(p) else 1
        zz = np.prod([x - r for r in z]) if len(z) else 1
        if abs(dd) < 1e-3 or abs(nn) < 1e-3 or abs(pp) < 1e-3:
            continue
        ratios.append((x, (k * zz / pp) / (nn / dd)))
    for x, r in ratios:
        ensure(abs(abs(r) - 1) < 1e-4, f"{what}: {z}, {p}, {k} against {num} / {den}: off by {abs(r)}")
    if len(ratios) >= 3:
        n = len(num) + len(den) + 1
        ensure(
            any(all(abs(r - x**m) < 1e-3 for x, r in ratios) for m in range(-n, n + 1)),
            f"{what}: {z}, {p}, {k} is not {num} / {den}",
        )


# ------------------------------------------------------------------ linearity

LIN = set(LINEAR_CPLX) | {"c"}


def judged(g):
    """What is constant and whether everything is linear, by the documented rules."""
    const = {}
    allok = True
    for i, n in enumerate(g.nodes):
        k = n["k"]
        if k in ("in", "t"):
            const[i] = False
            continue
        c = k == "c" or all(const[s[0]] for s in n["src"])
        const[i] = c
        ks = [const[s[0]] for s in n["src"]]
        if k in LIN or c:
            continue
        if k == "mul" and any(ks):
            continue
        if k == "div" and ks[1]:
            continue
        if k == "mad" and (ks[0] or ks[1]):
            continue
        if k == "mads" and (ks[1] or ks[2]):
            continue
        allok = False
    return const, allok


def linearity(case, rec):
    g = Graph(case["spec"])
    sfg = build(g, case["spec"]["sty"]).sfg
    const, lin = judged(g)
    got = sfg.is_linear
    ensure(got is lin or bool(got) == lin, f"is_linear is {got}, expected {lin}")
    byname = nodes_by_name(sfg)
    for i in range(len(g.nodes)):
        op = byname[f"n{i}"]
        ensure(bool(op.is_constant) == const[i], f"{op.graph_id}: is_constant is {op.is_constant}, expected {const[i]}")
    ensure(
        bool(sfg.is_constant) == all(const[o[0]] for o in g.outs), f"graph: is_constant is {sfg.is_constant}"
    )
    if got:
        # superposition, simulated by the library
        from b_asic.simulation import Simulation

        rows = take_rows(case["rows"], 2 * g.ni) if g.ni else []
        if rows:
            runs = []
            for f in (
                lambda r, i: r[i],
                lambda r, i: r[g.ni + i],
                lambda r, i: r[i] + r[g.ni + i],
                lambda r, i: 0,
            ):
                sim = Simulation(sfg, [[f(r, i) for r in rows] for i in range(g.ni)])
                runs.append([sim.step() for _ in rows])
            scale = max([1.0, *(abs(v) for run in runs for res in run for v in res)])
            if scale < 1e12:
                for t in range(len(rows)):
                    for k in range(len(g.outs)):
                        a, b_, s, z = (run[t][k] for run in runs)
                        ensure(close(a + b_ - s, z, scale), f"reported linear, but superposition fails at output {k}")
    else:
        for f in (
            lambda: sfg.get_impulse_responses(max_iters=2),
            lambda: sfg.get_impulse_responses_from_nodes(max_iters=2),
            lambda: sfg.get_l1_norms(max_iters=2),
            lambda: sfg.get_l2_norms(max_iters=2),
            sfg.to_ss,
            sfg.to_tf,
            sfg.to_zpk,
        ):
            try:
                f()
            except ValueError:
                pass
            else:
                raise Violation("linear analysis of a non-linear graph was not refused")
    kinds = {n["k"] for n in g.nodes} - {"in", "t", "c"}
    rec.nt(len(kinds & LIN) >= 1 and ("c" in {n["k"] for n in g.nodes} or bool(kinds - LIN)))
    rec.label("linear" if got else "not linear")
    if got and kinds - LIN:
        rec.label("linear by constants")


def linspec(max_delays=3, max_ops=7, min_delays=0):
    return st.sampled_from(["linear_real", "linear_cplx", "cmix", "fir"]).flatmap(
        lambda p: spec_strategy(
            "real",
            types=[*LINEAR_REAL, "c", "c", "mul", "mul", "div", "mad", "mads"],
            max_ops=max_ops,
            max_delays=max_delays,
            min_delays=min_delays,
            min_in=1,
        )
        if p == "cmix"
        else spec_strategy(
            "real", types=["add", "sub", "cmul", "cmul", "rshift", "neg", "shift"], max_ops=max_ops,
            max_delays=max_delays + 1, min_delays=min_delays, min_in=1, max_in=2,
        )
        if p == "fir"
        else spec_strategy(p, max_ops=max_ops, max_delays=max_delays, min_delays=min_delays, min_in=1)
    )


def linear_case(**kw):
    return st.fixed_dictionaries(kw)


FACETS = [
    Facet(
        "responses",
        st.fixed_dictionaries(
            {
                "spec": linspec(),
                "thr": st.sampled_from([1e-12, 1e-12, 1e-12, 1e-3, 0.3]),
                "max": st.sampled_from([-1, -1, 1, 2, 3, 5, 9]),
                "all": st.booleans(),
            }
        ),
        impulse,
        1200,
        30000,
        shards=3,
    ),
    Facet(
        "from nodes",
        st.fixed_dictionaries(
            {
                "spec": linspec(),
                "max": st.sampled_from([2, 3, 5, 9]),
                "nodes": st.one_of(st.none(), st.lists(st.integers(0, 30), min_size=1, max_size=4)),
            }
        ),
        from_nodes,
        500,
        12000,
        shards=2,
    ),
    Facet(
        "state space",
        st.fixed_dictionaries({"spec": st.one_of(linspec(), linspec(4, 5, 1))}),
        spaces,
        1000,
        25000,
        shards=2,
    ),
    Facet(
        "linearity",
        st.fixed_dictionaries(
            {
                "spec": st.one_of(
                    any_spec(("real", "cplx")),
                    spec_strategy("real", types=["c", "c", "mul", "mad", "mads", "div", "add", "cmul", "sub", "neg"]),
                    spec_strategy("cplx", types=["c", "c", "c", "mul", "conj", "sqrt", "add", "r2bfly"]),
                ),
                "rows": rows_any(False, 2, 4),
            }
        ),
        linearity,
        1500,
        40000,
        shards=2,
    ),
]
