"""C30: printed and drawn forms describe the graph."""

import ast
import contextlib
import io
import re
import sys
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..obs import same, sfg_view
from ..schedmodel import break_delay_loops
from ..sfggen import OPS, Graph, Unstable, any_spec, build, close, rows_any, spec_strategy, take_rows

RULE = (
    "Random graphs are printed and drawn. Expressions are parsed and evaluated with the values an independent model gives the "
    "inputs, constants and delays; drawings and tables are parsed and compared with the connections the graph was generated "
    "from. Non-trivial: an expression or graph with at least three operations, a state, or a schedule with positive slack."
)

# ---------------------------------------------------------------- expressions

NUM = (int, float, complex)


class Cannot(Exception):
    pass


class Reader:
    """Evaluates printed expressions; calls are looked up among the operations of the type with the same operands."""

    def __init__(self, env, calls, scale):
        self.env, self.calls, self.scale = env, calls, scale

    def read(self, text):
        py = re.sub(r"\)\.(\d+)", r")[\1]", text)
        try:
            tree = ast.parse(py, mode="eval").body
        except SyntaxError:
            raise Violation(f"cannot be read: {text!r}") from None
        return self.ev(tree, text)

    def ev(self, t, text):
        if isinstance(t, ast.Constant) and type(t.value) in NUM:
            return t.value
        if isinstance(t, ast.Name):
            if t.id == "j" and t.id not in self.env:
                return 1j
            ensure(t.id in self.env, f"{t.id} in {text!r} is not an input, constant or delay")
            return self.env[t.id]
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, (ast.USub, ast.UAdd)):
            v = self.ev(t.operand, text)
            return -v if isinstance(t.op, ast.USub) else v
        if isinstance(t, ast.BinOp):
            a, b = self.ev(t.left, text), self.ev(t.right, text)
            if isinstance(t.op, ast.Add):
                return a + b
            if isinstance(t.op, ast.Sub):
                return a - b
            if isinstance(t.op, ast.Mult):
                return a * b
            if isinstance(t.op, ast.Div):
                if b == 0:
                    raise Cannot
                return a / b
            if isinstance(t.op, ast.RShift):
                return a / 2**b
            if isinstance(t.op, ast.LShift):
                return a * 2**b
        if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant):
            v = self.ev(t.value, text)
            ensure(isinstance(v, list) and t.slice.value < len(v), f"no port {t.slice.value} in {text!r}")
            return v[t.slice.value]
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and not t.keywords:
            args = [self.ev(a, text) for a in t.args]
            found = [
                out for cls, xs, out in self.calls
                if cls == t.func.id and len(xs) == len(args) and all(same_value(x, a, self.scale) for x, a in zip(xs, args))
            ]
            ensure(found, f"{text!r}: no {t.func.id} has operands {args}")
            if any(not same_value(x, y, self.scale) for o in found[1:] for x, y in zip(found[0], o)):
                raise Cannot  # two operations with these operands but different parameters
            return found[0] if len(found[0]) > 1 else found[0][0]
        raise Violation(f"cannot be read: {text!r}")


def same_value(a, b, scale):
    return not isinstance(a, list) and not isinstance(b, list) and close(a, b, scale)


def expressions(case, rec):
    from b_asic.special_operations import Delay

    g = Graph(case["spec"])
    sfg = build(g, case["spec"]["sty"]).sfg
    row = take_rows(case["rows"], g.ni)[0]
    state = {d: v for d, v in zip(g.delays, case["state"] * 3)}
    try:
        val, _ = g.step(state, row)
    except Unstable:
        return
    scale = max([1.0, *(abs(v) for v in val.values())])
    ids, cls = {}, {}
    for o in sfg.operations:
        if o.name.startswith("n"):
            ids[int(o.name[1:])] = o.graph_id
            cls[int(o.name[1:])] = type(o).__name__
    live = set(ids)
    env = {ids[i]: val[i, 0] for i in live if g.nodes[i]["k"] in ("in", "t", "c", "dontcare") and g.nodes[i]["no"] == 1}
    calls = [
        (cls[i], [val[s] for s in g.nodes[i]["src"]], [val[i, j] for j in range(g.nodes[i]["no"])])
        for i in live
        if g.nodes[i]["k"] not in ("in", "t", "c")
    ]
    view = sfg_view(sfg)
    text = sfg.expression
    same(view, sfg_view(sfg), "printing changed the graph")
    lines = text.split("\n")
    want = {o.graph_id: val[g.outs[k]] for k, o in enumerate(sfg.output_operations)}
    init = {}
    for o in sfg.find_by_type(Delay):
        i = int(o.name[1:])
        want[o.graph_id + "+"] = val[g.nodes[i]["src"][0]]
        init[o.graph_id + "+"] = g.nodes[i]["p"]["initial_value"]
    reader = Reader(env, calls, scale)

    def judge(what, rhs, exp):
        try:
            v = reader.read(rhs)
        except Cannot:
            rec.label("ambiguous")
            return
        ensure(same_value(v, exp, scale), f"{what}: {rhs!r} is {v}, the graph computes {exp}")

    seen = []
    for line in lines:
        ensure(" = " in line, f"no equation: {line!r}")
        lhs, rhs = line.split(" = ", 1)
        seen.append(lhs)
        ensure(lhs in want, f"{line!r}: no output or delay {lhs}")
        if lhs in init:
            m = re.fullmatch(r"(.*), init=(.*)", rhs)
            given = 0
            if m:
                rhs = m.group(1)
                given = complex(ast.literal_eval(m.group(2)))
            ensure(given == init[lhs], f"{line!r}: initial value {given}, expected {init[lhs]}")
        judge("expression", rhs, want[lhs])
    ensure(sorted(seen) == sorted(want), f"expressions for {sorted(seen)}, expected {sorted(want)}")
    # single operations
    for o in sfg.operations:
        if not o.name.startswith("n"):
            continue
        i = int(o.name[1:])
        n = g.nodes[i]
        e = o.expression
        if not n["src"]:
            ensure(e == o.graph_id, f"expression of {o.graph_id} is {e!r}")
            ensure(str(o) == o.graph_id, f"{o.graph_id} is printed as {o!s}")
            continue
        if n["k"] == "t":
            ensure(e in lines, f"expression {e!r} of {o.graph_id} is not the one of the graph")
            continue
        if n["no"] == 1:
            ensure(e.startswith(f"{o.graph_id} = "), f"expression of {o.graph_id} is {e!r}")
            judge("operation", e.split(" = ", 1)[1], val[i, 0])
        else:
            a = ", ".join
            ensure(e.startswith(f"{o.graph_id} = {type(o).__name__}("), f"expression of {o.graph_id} is {e!r} {a('')}")
            try:
                v = reader.read(e.split(" = ", 1)[1])
            except Cannot:
                continue
            ensure(
                isinstance(v, list) and all(same_value(x, val[i, j], scale) for j, x in enumerate(v)),
                f"{e!r} is {v}, the graph computes {[val[i, j] for j in range(n['no'])]}",
            )
        # the short form has the identifiers of the sources
        if all(g.nodes[s]["no"] == 1 for s, _ in n["src"]):
            short = Reader({ids[s]: val[s, q] for s, q in n["src"]}, calls, scale)
            t = str(o)
            ensure(t.startswith(f"{o.graph_id} = "), f"{o.graph_id} is printed as {t!r}")
            try:
                v = short.read(t.split(" = ", 1)[1])
            except Cannot:
                continue
            v = v if isinstance(v, list) else [v]
            ensure(
                len(v) == n["no"] and all(same_value(x, val[i, j], scale) for j, x in enumerate(v)),
                f"{t!r} is {v}, the graph computes {[val[i, j] for j in range(n['no'])]}",
            )
    rec.nt(sum(n["k"] not in ("in", "t", "c") for n in g.nodes) >= 3)
    rec.label(f"{len(init)} delays")


# ------------------------------------------------------------- state equations


def equations(case, rec):
    """Symbolic equations against the matrices they are made of."""
    tools = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    try:
        import sympy as sp
    except ImportError:
        sys.path.append(tools)
        import sympy as sp
    from b_asic.state_space import StateSpace

    n, m, p = case["n"], case["m"], case["p"]
    vals = case["vals"]
    it = iter(vals * 40)

    def mat(r, c):
        return np.array([[next(it) for _ in range(c)] for _ in range(r)]).reshape(r, c)

    A, B, C, D = mat(n, n), mat(n, m), mat(p, n), mat(p, m)
    ss = StateSpace(A, B, C, D)
    s, y = ss.equations
    rows = [("state", s, "x^+", A, B, n), ("output", y, "y", C, D, p)]
    for what, eq, name, P, Q, size in rows:
        if size == 0:
            ensure(eq is None, f"{what} equation without {what}s: {eq}")
            continue
        ensure(eq is not None, f"there is no {what} equation")
        ensure(eq.lhs.name == name and eq.lhs.shape == (size, 1), f"{what} equation for {eq.lhs}")
        e = sp.Matrix(eq.rhs.as_explicit()) if hasattr(eq.rhs, "as_explicit") else sp.Matrix(eq.rhs)
        ensure(e.shape == (size, 1), f"{what} equation has shape {e.shape}")
        for trial in range(2):
            xs = [(3 * i + 2 * trial + 1) % 7 - 2.5 for i in range(n)]
            us = [(5 * i + trial + 2) % 11 - 4.5 for i in range(m)]
            sub = {}
            for sym in e.atoms(sp.matrices.expressions.matexpr.MatrixElement):
                src = {"x": xs, "u": us}[sym.parent.name]
                sub[sym] = src[int(sym.indices[0])]
            got = [complex(v.subs(sub)) for v in e]
            exp = P @ np.array(xs) + Q @ np.array(us) if n else Q @ np.array(us)
            ensure(np.allclose(got, exp, atol=1e-9), f"{what} equation {eq} gives {got}, expected {exp}")
    rec.nt(n > 0 and (A != 0).any())


eq_case = st.fixed_dictionaries(
    {
        "n": st.integers(0, 3),
        "m": st.integers(1, 3),
        "p": st.integers(1, 3),
        "vals": st.lists(st.sampled_from([0, 1, -1, 0.5, -2.25, 3, 0.125, 7]), min_size=3, max_size=13),
    }
)


# ------------------------------------------------------------------- drawings

TOKEN = re.compile(r'"((?:[^"\\]|\\.)*)"|<([^<>]*)>|(->|[{}\[\]=;,:])|([^\s"{}\[\]=;,:<>]+?(?=->|[\s"{}\[\]=;,:<>]|$))', re.S)


class Dot:
    """Nodes, edges and groups of a drawing in the language of Graphviz."""

    def __init__(self, text):
        toks = [(m.group(3), None) if m.group(3) else (None, m.group(1) if m.group(1) is not None else m.group(2) or m.group(4))
                for m in TOKEN.finditer(text)]
        self.t, self.i = toks, 0
        self.nodes, self.edges, self.groups = {}, [], []
        while self.peek() != ("{", None):
            self.i += 1
        self.i += 1
        self.block([])

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("}", None)

    def attrs(self):
        res = {}
        while self.peek() == ("[", None):
            self.i += 1
            while self.peek() != ("]", None):
                k = self.t[self.i][1]
                if k is None:
                    self.i += 1
                    continue
                self.i += 2
                res[k] = self.t[self.i][1]
                self.i += 1
            self.i += 1
        return res

    def name(self):
        n = self.t[self.i][1]
        self.i += 1
        port = None
        while self.peek() == (":", None):
            self.i += 1
            port = self.t[self.i][1]
            self.i += 1
        return n, port

    def block(self, inside):
        group = {"attrs": {}, "nodes": []}
        while self.peek() != ("}", None):
            k, w = self.peek()
            if k == ";":
                self.i += 1
            elif k == "{":
                self.i += 1
                self.groups.append(self.block([*inside, group]))
            elif w == "subgraph":
                self.i += 1
                if self.peek()[1] is not None:
                    self.i += 1
                self.i += 1
                self.groups.append(self.block([*inside, group]))
            elif w in ("graph", "node", "edge"):
                self.i += 1
                a = self.attrs()
                if w == "graph":
                    group["attrs"].update(a)
            else:
                n, _ = self.name()
                if self.peek() == ("=", None):
                    self.i += 1
                    group["attrs"][n] = self.t[self.i][1]
                    self.i += 1
                elif self.peek() == ("->", None):
                    self.i += 1
                    m, _ = self.name()
                    self.edges.append((n, m, self.attrs()))
                else:
                    self.nodes.setdefault(n, {}).update(self.attrs())
                    group["nodes"].append(n)
        self.i += 1
        return group


def connections(sfg):
    return [
        (s.graph_id, s.source.operation, s.source.index, s.destination.operation, s.destination.index)
        for o in sfg.operations
        for p in o.outputs
        for s in p.signals
    ]


def made_of(g, sfg):
    """(source, port, destination, port) by name from the generated graph, limited to what the graph has."""
    res = Counter()
    names = {o.name for o in sfg.operations}
    for i, n in enumerate(g.nodes):
        for j, (s, q) in enumerate(n["src"]):
            if f"n{i}" in names:
                res[f"n{s}", q, f"n{i}", j] += 1
    for k, (s, q) in enumerate(g.outs):
        res[f"n{s}", q, f"out{k}", 0] += 1
    return res


def drawings(case, rec):
    g = Graph({**case["spec"], "dangle": min(case["spec"].get("dangle", 0), 1)})
    sfg = build(g, case["spec"]["sty"]).sfg
    if case["plain"]:
        for o in sfg.operations:
            if hash_of(o.graph_id) % 3 == 0:
                o.name = ""
    view = sfg_view(sfg)
    byid = {o.graph_id: o for o in sfg.operations}
    kw = {}
    if not case["branch"]:
        kw["branch_node"] = False
    if not case["numbers"]:
        kw["port_numbering"] = False
    if case["info"] != "none":
        kw["signal_info"] = case["info"]
    if case["params"]:
        kw["show_op_params"] = True
    if case["tb"]:
        kw["direction"] = "TB"
    ins = [o.graph_id for o in sfg.input_operations]
    outs = [o.graph_id for o in sfg.output_operations]
    r = case["rot"]
    if case["order"]:
        ins = ins[r % len(ins):] + ins[: r % len(ins)] if ins else ins
        outs = outs[r % len(outs):] + outs[: r % len(outs)]
        kw["input_order"] = ins
        kw["output_order"] = outs
    norms = None
    if case["info"] in ("l1-norm", "l2-norm"):
        if g.has_feedback() or not sfg.is_linear or any(n["k"] == "c" for n in g.nodes):
            kw.pop("signal_info")
        else:
            try:
                norms = getattr(sfg, f"get_{case['info'][:2]}_norms")(all_nodes=True)
            except (ValueError, TypeError, OverflowError):
                kw.pop("signal_info")
    d = Dot(sfg.sfg_digraph(**kw).source)
    same(view, sfg_view(sfg), "drawing changed the graph")
    shown = {n: a for n, a in d.nodes.items() if a.get("shape") != "point"}
    points = {n for n, a in d.nodes.items() if a.get("shape") == "point"}
    ensure(set(shown) == set(byid), f"drawn are {sorted(shown)}, the graph has {sorted(byid)}")
    for n, a in shown.items():
        o = byid[n]
        label = a.get("label", n)
        ensure(n in label and o.name in label, f"{n} ({o.name!r}) has the label {label!r}")
        if case["params"] and g is not None:
            for k, v in o.params.items():
                if k in ("value", "w") and v not in (0, 1, None):
                    ensure(f"{k}={v}" in label, f"{n} with {k} {v} has the label {label!r}")
    # join the edges at the branch points
    into = {}
    edges = []
    invisible = []
    for a, b, at in d.edges:
        if at.get("style") == "invis":
            invisible.append((a, b))
        elif b in points:
            ensure(b not in into, f"branch point {b} has two sources")
            into[b] = (a, at)
        else:
            edges.append((a, b, at))
    got = Counter()
    for a, b, at in edges:
        tail = at.get("taillabel")
        if a in points:
            ensure(a in into and tail is None, f"branch point {a} has no source")
            a, at0 = into[a]
            tail = at0.get("taillabel")
        got[a, tail, b, at.get("headlabel"), at.get("label")] += 1
    exp = Counter()
    fan = Counter((o.graph_id, q) for _, o, q, _, _ in connections(sfg))
    for sid, o, q, e, j in connections(sfg):
        label = None
        if kw.get("signal_info") == "id":
            label = sid
        elif norms is not None and "signal_info" in kw:
            if o.graph_id in ins:
                v = 1.0
            else:
                key = o.graph_id if o.output_count == 1 else f"{o.graph_id}.{q}"
                v = norms.get(key)
            label = None if v is None else f"{v:.4g}"
        exp[
            o.graph_id,
            str(q) if o.output_count > 1 and case["numbers"] else None,
            e.graph_id,
            str(j) if e.input_count > 1 and case["numbers"] else None,
            label,
        ] += 1
    ensure(got == exp, f"drawn signals {sorted(map(str, got - exp))} instead of {sorted(map(str, exp - got))} with {kw}")
    if not case["branch"]:
        ensure(not points, f"branch points {points} though there should be none")
    else:
        ensure(len(points) == sum(v > 1 for v in fan.values()), f"{len(points)} branch points for {fan}")
    want = Counter()
    for lst in (ins, outs):
        want.update(zip(lst, lst[1:]))
    ensure(Counter(invisible) == want, f"order {invisible}, expected {ins} and {outs}")
    # the connections themselves, against the generated graph
    if not case["plain"]:
        conn = Counter((o.name, q, e.name, j) for _, o, q, e, j in connections(sfg))
        ensure(conn == made_of(g, sfg), f"connections {conn - made_of(g, sfg)}, expected {made_of(g, sfg) - conn}")
    rec.label(case["info"])
    rec.nt(len(g.nodes) >= 4 and len(exp) >= 4)


def hash_of(s):
    return sum(map(ord, str(s)))


def precedence(case, rec):
    """The precedence drawing, the printed precedence list and the printed graph."""
    from b_asic.special_operations import Delay

    g = Graph(case["spec"])
    sfg = build(g, case["spec"]["sty"], sfg_name="top").sfg
    byid = {o.graph_id: o for o in sfg.operations}
    levels = [list(x) for x in sfg.get_precedence_list()]
    at = {(p.operation.graph_id, p.index): i for i, l in enumerate(levels) for p in l}
    view = sfg_view(sfg)
    d = Dot(sfg.precedence_graph.source)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sfg.print_precedence_graph()
    text = str(sfg)
    same(view, sfg_view(sfg), "printing changed the graph")

    def isdelay(i):
        return isinstance(byid[i], Delay)

    # every port in the group of its level
    got = {}
    for gr in d.groups:
        label = gr["attrs"].get("label", "")
        ensure(re.fullmatch(r"N\d+", label) is not None, f"group {label!r}")
        for n in gr["nodes"]:
            ensure(n not in got, f"port {n} is drawn twice")
            got[n] = int(label[1:])
    exp = {f"{i}.{q}": lv for (i, q), lv in at.items()}
    ensure(got == exp, f"levels drawn {got}, expected {exp}")
    for (i, q) in at:
        label = d.nodes[f"{i}.{q}"].get("label", f"{i}.{q}")
        ensure(label == (i if byid[i].output_count == 1 else f"{i}.{q}"), f"port {q} of {i} is drawn as {label!r}")
    edges = Counter((a, b) for a, b, _ in d.edges)
    want = Counter()
    labels = {}
    for (i, q) in at:
        n = i + "Out" if isdelay(i) else i
        want[n, f"{i}.{q}"] += 1
        labels[n] = i
    for _, o, q, e, j in connections(sfg):
        n = e.graph_id + "In" if isdelay(e.graph_id) else e.graph_id
        want[f"{o.graph_id}.{q}", n] += 1
        labels[n] = e.graph_id
    ensure(edges == want, f"edges {edges - want} instead of {want - edges}")
    for n, i in labels.items():
        ensure(d.nodes.get(n, {}).get("label") == i, f"node {n} is drawn as {d.nodes.get(n)}")
    ensure(
        set(d.nodes) == set(labels) | set(exp), f"nodes {set(d.nodes) ^ (set(labels) | set(exp))} too many or missing"
    )
    # the printed list
    rows = re.findall(r"^(\d+)\.(\d+) \tid: (\w+),", out.getvalue(), re.M)
    want_rows = [(str(i), str(k), p.operation.graph_id) for i, l in enumerate(levels, 1) for k, p in enumerate(l, 1)]
    ensure(rows == want_rows, f"printed precedence list {rows}, expected {want_rows}")
    # every operation once, with its neighbours
    body = text.split("Internal Operations:")[1]
    found = {}
    for line in body.split("\n"):
        m = re.match(r"id: (\w+), \tname: (\S+?)(?:, \t|$)", line)
        if not m:
            continue
        io_ = re.search(r"\tinputs: (\{.*?\}), \toutputs: (\{.*?\})$", line)
        ensure(m.group(1) not in found and io_ is not None, f"operation {m.group(1)} is printed twice or without connections")
        found[m.group(1)] = (m.group(2), ast.literal_eval(io_.group(1)), ast.literal_eval(io_.group(2)), line)
    ensure(set(found) == set(byid), f"printed are {sorted(found)}, the graph has {sorted(byid)}")
    for i, (name, inp, outp, line) in found.items():
        o = byid[i]
        ensure(name == (o.name or "no_name"), f"{i} is printed with the name {name}")
        ensure(
            inp == {j: [p.connected_source.operation.graph_id] for j, p in enumerate(o.inputs)},
            f"inputs of {i} are printed as {inp}",
        )
        for j, p in enumerate(o.outputs):
            dst = sorted(s.destination.operation.graph_id for s in p.signals)
            if not dst:
                ensure(outp.get(j) == "-", f"open output {j} of {i} is printed as {outp}")
                break
            ensure(sorted(outp.get(j, [])) == dst, f"output {j} of {i} is printed as {outp}, expected {dst}")
        for k, v in o.params.items():
            ensure(f"\t{k}: {v!s}" in line, f"{i}: parameter {k} with value {v} is not in {line!r}")
    rec.nt(len(byid) >= 5 and len(levels) >= 2)


# ---------------------------------------------------------------------- tables


def tables(case, rec):
    """Tables of start times and slacks of a schedule."""
    from b_asic.schedule import Schedule
    from b_asic.scheduler import ALAPScheduler, ASAPScheduler

    g = break_delay_loops(case["spec"])
    if all(n["k"] in ("in", "c", "t") for n in g.nodes):
        return
    sfg = build(g, case["spec"]["sty"]).sfg
    for n, (lat, ex) in enumerate(case["timing"]):
        for k, o in enumerate(sfg.operations):
            if o.input_count and o.output_count and k % len(case["timing"]) == n:
                o.set_latency(lat)
                o.execution_time = ex
    for o in sfg.operations:
        if None in o.latency_offsets.values() and o.input_count and o.output_count:
            o.set_latency(1)
    if not sfg.critical_path_time():
        return
    try:
        sch = Schedule(sfg, ALAPScheduler() if case["alap"] else ASAPScheduler(), cyclic=case["cyclic"])
        sch.set_schedule_time(sch.schedule_time + case["more"])
    except (ValueError, TypeError):
        return
    whole = sfg
    ops = {i: whole.find_by_id(i) for i in sch.start_times}
    want = {
        i: (sch.start_time_of_operation(i), sch.backward_slack(i), sch.forward_slack(i)) for i in ops
    }

    def num(s):
        return sys.maxsize if s.strip() == "oo" else int(s)

    rows = {}
    order = []
    for line in str(sch).split("\n")[2:]:
        if not line.strip():
            continue
        c = [x.strip() for x in line.split("|")]
        ensure(len(c) == 4 and c[0] not in rows, f"row {line!r}")
        rows[c[0]] = (int(c[1]), num(c[2]), num(c[3]))
        order.append(c[0])
    ensure(rows == want, f"table {rows}, expected {want}")

    def natural(i):
        m = re.fullmatch(r"(\D*)(\d*)", i)
        return (m.group(1), int(m.group(2) or -1)) if m else (i, -1)

    plain = [i for i in order if re.fullmatch(r"[a-z]+\d+", i)]
    ensure(plain == sorted(plain, key=natural), f"order of the table: {order}")
    key = case["order"]
    typ = type(list(ops.values())[case["rot"] % len(ops)]) if case["typed"] else None
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sch.print_slacks(key, typ) if typ else sch.print_slacks(key)
    got = []
    for line in out.getvalue().split("\n")[2:]:
        if line.strip():
            c = line.split("|")
            ensure(len(c) == 3, f"row {line!r}")
            got.append((c[0].strip(), num(c[1]), num(c[2])))
    sel = {i: v[1:] for i, v in want.items() if typ is None or isinstance(ops[i], typ)}
    ensure(len(got) == len(sel) and {i: v for i, *v in got} == {i: list(v) for i, v in sel.items()},
           f"slacks {got}, expected {sel} (type {typ})")
    if key:
        ensure([x[key] for x in got] == sorted(x[key] for x in got), f"slacks sorted by {key}: {got}")
    else:
        plain = [x[0] for x in got if re.fullmatch(r"[a-z]+\d+", x[0])]
        ensure(plain == sorted(plain, key=natural), f"slacks sorted by identifier: {got}")
    rec.nt(any(0 < v[2] < sys.maxsize for v in want.values()))
    rec.label(f"order {key}")


SPEC = any_spec(("real", "cplx", "linear_real", "linear_cplx"), max_ops=7, max_delays=2)
NOTED = ["mad", "mads", "add", "sub", "addsub", "shiftaddsub", "mul", "div", "cmul", "neg", "imul", "rshift", "lshift"]
NOTED = [t for t in NOTED if t in OPS]

EXPR = st.fixed_dictionaries(
    {
        "spec": st.one_of(SPEC, spec_strategy("real", types=NOTED, max_ops=7, max_delays=2)),
        "rows": rows_any(False, 1, 1),
        "state": st.lists(st.integers(-6, 6).map(lambda v: v / 2), min_size=3, max_size=3),
    }
)
DRAW = st.fixed_dictionaries(
    {
        "spec": st.one_of(SPEC, any_spec(("linear_real",), max_ops=6, max_delays=1)),
        "plain": st.booleans(),
        "branch": st.booleans(),
        "numbers": st.booleans(),
        "params": st.booleans(),
        "tb": st.booleans(),
        "order": st.booleans(),
        "rot": st.integers(0, 5),
        "info": st.sampled_from(["none", "id", "id", "l1-norm", "l2-norm"]),
    }
)
PREC = st.fixed_dictionaries({"spec": SPEC})
TAB = st.fixed_dictionaries(
    {
        "spec": any_spec(("real",), max_ops=7, max_delays=2),
        "timing": st.lists(st.tuples(st.integers(0, 4), st.integers(1, 3)).map(list), min_size=1, max_size=4),
        "alap": st.booleans(),
        "cyclic": st.booleans(),
        "more": st.integers(0, 5),
        "order": st.integers(0, 2),
        "typed": st.booleans(),
        "rot": st.integers(0, 11),
    }
)

FACETS = [
    Facet("expressions", EXPR, expressions, 1500, 40000, shards=3),
    Facet("state equations", eq_case, equations, 150, 3000),
    Facet("drawings", DRAW, drawings, 900, 20000, shards=2),
    Facet("precedence", PREC, precedence, 700, 15000, shards=2),
    Facet("tables", TAB, tables, 700, 15000, shards=2),
]
