"""C04: transformations of a graph keep the function it computes."""

import warnings

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..obs import same, sfg_view
from ..sfggen import (
    BIG,
    OPS,
    Graph,
    Unstable,
    any_spec,
    build,
    close,
    make_op,
    params_strategy,
    ref_op,
    rows_any,
    take_rows,
)

RULE = (
    "A random graph goes through a random history of transformations; after every step its simulated outputs are "
    "compared with an independent model that went through the corresponding steps. Non-trivial: at least three "
    "operations and two transformations that changed the structure (histories), or a nested graph with at least two "
    "operations (flattening)."
)


class Loop(Exception):
    pass


class Model:
    """A graph as a dictionary, evaluated on demand."""

    def __init__(self, g):
        self.n = {}
        for i, n in enumerate(g.nodes):
            self.n[f"n{i}"] = {
                "k": n["k"],
                "p": dict(n["p"]),
                "src": [(f"n{a}", b) for a, b in n["src"]],
                "no": n["no"],
            }
        self.ins = [f"n{i}" for i in range(g.ni)]
        self.outs = [(f"n{a}", b) for a, b in g.outs]
        self.sinks = [(f"n{a}", b) for a, b in g.sinks]

    def copy(self):
        m = Model.__new__(Model)
        m.n = {
            k: {"k": v["k"], "p": dict(v["p"]), "src": list(v["src"]), "no": v["no"]}
            for k, v in self.n.items()
        }
        m.ins, m.outs, m.sinks = list(self.ins), list(self.outs), list(self.sinks)
        return m

    def consumers(self, port):
        res = [(k, j) for k, v in self.n.items() for j, s in enumerate(v["src"]) if s == port]
        return res

    def rewire(self, old, new, keep=None):
        for k, v in self.n.items():
            if k != keep:
                v["src"] = [new if s == old else s for s in v["src"]]
        self.outs = [new if s == old else s for s in self.outs]
        self.sinks = [new if s == old else s for s in self.sinks]

    def run(self, rows):
        """Output rows and the largest magnitude met; stops early when unstable."""
        state = {k: v["p"]["initial_value"] for k, v in self.n.items() if v["k"] == "t"}
        res = []
        scale = 1.0
        for row in rows:
            val = {}
            busy = set()

            def get(port):
                if port in val:
                    return val[port]
                name = port[0]
                v = self.n[name]
                if v["k"] == "in":
                    out = [row[self.ins.index(name)]]
                elif v["k"] == "t":
                    out = [state[name]]
                else:
                    if name in busy:
                        raise Loop
                    busy.add(name)
                    out = ref_op(v["k"], v["p"], [get(s) for s in v["src"]])
                    busy.discard(name)
                for j, x in enumerate(out):
                    val[name, j] = x
                return val[port]

            try:
                for name in self.n:
                    get((name, 0))
                nxt = {k: get(self.n[k]["src"][0]) for k in state}
                for x in val.values():
                    m = abs(x)
                    if not m <= BIG:
                        raise Unstable
                    scale = max(scale, m)
            except (Unstable, OverflowError, ZeroDivisionError):
                break
            res.append([val[o] for o in self.outs])
            state = nxt
        return res, scale


def compare(sfg, m, rows, what):
    from b_asic.simulation import Simulation

    exp, scale = m.run(rows)
    ensure(
        sfg.input_count == len(m.ins) and sfg.output_count == len(m.outs),
        f"{what}: {sfg.input_count} inputs and {sfg.output_count} outputs, expected "
        f"{len(m.ins)} and {len(m.outs)}",
    )
    if not exp:
        return
    sim = Simulation(sfg, [(lambda n, c=[r[i] for r in rows]: c[n]) for i in range(len(m.ins))])
    for it, row in enumerate(exp):
        res = sim.step()
        for k, y in enumerate(row):
            ensure(
                close(res[k], y, scale),
                f"{what}: output {k} in iteration {it} is {res[k]}, expected {y}",
            )


def named(sfg, m):
    """Nodes of the model that are one component of the graph."""
    res = []
    for name in m.n:
        found = sfg.find_by_name(name)
        if len(found) == 1 and str(found[0].type_name()) == m.n[name]["k"]:
            res.append((name, found[0]))
    return res


def has_loop(m):
    try:
        m.run([[1] * len(m.ins)])
    except Loop:
        return True
    return False


TWO_BY_TWO = [
    ("r2bfly", {}),
    ("sym2p", {"value": 0.5}),
    ("r2tfbfly", {"w0": 0.5, "w1": -2}),
]
REWRITES = ["AddSub", "ShiftAddSub", "Shift"]


def history(case, rec):
    import b_asic.core_operations as co
    from b_asic.sfg import SFG
    from b_asic.signal import Signal
    from b_asic.special_operations import Delay, Output

    g = Graph(case["spec"])
    m = Model(g)
    rows = take_rows(case["rows"], g.ni)
    sfg = build(g, case["spec"]["sty"], sfg_name="top").sfg
    changed = 0
    for step, (kind, a, b, new) in enumerate(case["acts"]):
        view = sfg_view(sfg)
        cand = named(sfg, m)
        what = f"step {step}: "
        nxt = None
        if kind == "flatten":
            nxt = sfg.flatten(expand=bool(b % 2))
            what += f"flatten(expand={bool(b % 2)})"
            ensure(not any(isinstance(o, SFG) for o in nxt.operations), what + " left a nested graph")
        elif kind == "replace":
            # an operation by the graph of the same operation
            c = [(k, o) for k, o in cand if m.n[k]["k"] not in ("in", "t", "c")]
            if not c:
                continue
            k, o = c[a % len(c)]
            sub = o.to_sfg()
            what += f"replace {k} ({m.n[k]['k']} {m.n[k]['p']}) by its own graph"
            nxt = sfg.replace(o.graph_id, sub)
            if b % 2:
                nxt = nxt.flatten()
                what += ", flattened"
        elif kind == "rewrite":
            t = getattr(co, REWRITES[b % 3])
            srcs = {
                "AddSub": ("add", "sub"),
                "ShiftAddSub": ("add", "sub", "addsub", "cmul"),
                "Shift": ("cmul",),
            }[t.__name__]
            c = [
                (k, o)
                for k, o in cand
                if m.n[k]["k"] in srcs
                and not isinstance(m.n[k]["p"].get("value"), complex)
            ]
            if not c:
                continue
            n = 1 + a % 3
            c = (c[a % len(c):] + c[: a % len(c)])[:n]
            what += f"rewrite {[(m.n[k]['k'], m.n[k]['p']) for k, _ in c]} to {t.__name__}"
            arg = [o.graph_id for _, o in c]
            form = (a // 7) % 4
            if form == 1:
                arg = [o for _, o in c]
            elif form == 2:
                arg, c = arg[0], c[:1]
            elif form == 3:
                arg, c = type(c[0][1]), None
                if arg is co.ConstantMultiplication and any(
                    isinstance(o.value, complex) for o in sfg.find_by_type(arg)
                ):
                    continue
            nxt = sfg.rewrite(t, arg)
            if form == 3:
                ensure(not nxt.find_by_type(arg), what + f": {arg.__name__} left over")
            else:
                for k, o in c:
                    ensure(
                        not any(type(x) is type(o) for x in nxt.find_by_name(k)),
                        what + f": {k} was not rewritten",
                    )
        elif kind == "join":
            c = [(k, o) for k, o in cand if m.n[k]["k"] == "imul"]
            if not c:
                continue
            k, o = c[a % len(c)]
            what += f"join {k} with its successors"
            dests = [x.destination for x in o.output(0).signals]
            can = len({d.operation for d in dests}) == len(dests) and all(
                isinstance(d.operation, (co.Addition, co.Subtraction, co.AddSub, co.ShiftAddSub))
                and (d.index == 1 or d.operation.is_swappable)
                for d in dests
            )
            try:
                nxt = sfg.join(o.graph_id, "forward")
            except ValueError as e:
                ensure(not can, what + f" is refused: {e}")
                rec.label("join refused")
                same(view, sfg_view(sfg), what + " (refused) changed the graph")
                continue
        elif kind == "swap":
            c = [(k, o) for k, o in cand if o.is_swappable and m.n[k]["k"] != "ser2p"]
            if not c:
                continue
            k, o = c[a % len(c)]
            what += f"swap the inputs and outputs of {k} ({m.n[k]['k']} {m.n[k]['p']})"
            nxt = sfg.copy()
            nxt.swap_io_of_operation(o.graph_id)
            m2 = m.copy()
            v = m2.n[k]
            t = v["k"]
            if t == "mads":
                v["src"] = [v["src"][0], v["src"][2], v["src"][1]]
            elif t == "mad":
                v["src"] = [v["src"][1], v["src"][0], v["src"][2]]
            elif len(v["src"]) == 2:
                v["src"].reverse()
            if t in ("sym2p", "par2p"):
                # the outputs change places too, and so does the adaptor coefficient
                m2.rewire((k, 0), (k, "x"))
                m2.rewire((k, 1), (k, 0))
                m2.rewire((k, "x"), (k, 1))
                v["p"]["value"] = -v["p"]["value"] if t == "sym2p" else 2 - v["p"]["value"]
            m = m2
        elif kind == "simplify":
            nxt = sfg.simplify_delay_element_placement()
            what += "simplify delay placement"
            seen = set()
            for d in nxt.find_by_type(Delay):
                s = d.input(0).connected_source
                key = (s.operation.graph_id, s.index, d.initial_value)
                ensure(key not in seen, what + f": two equal delays after {key}")
                seen.add(key)
            m = m.copy()
            alive = {k for k, _ in named(nxt, m)}
            again = True
            while again:
                again = False
                for k, v in list(m.n.items()):
                    if v["k"] != "t" or k in alive:
                        continue
                    for k2 in sorted(alive):
                        w = m.n[k2]
                        if (w["k"], w["p"], w["src"]) == ("t", v["p"], v["src"]):
                            del m.n[k]
                            m.rewire((k, 0), (k2, 0))
                            again = True
                            break
        elif kind == "extract":
            ops = [o for o in sfg.operations if o.input_count and o.output_count]
            if not ops:
                continue
            pick = [o for i, o in enumerate(ops) if (a >> (i % 12)) & 1] or [ops[b % len(ops)]]
            ids = [o.graph_id for o in pick]
            if b % 3 == 1:
                ids.reverse()
            what += f"extract {ids}"
            nxt = sfg.extract(ids)
            ensure(
                len(nxt.find_by_type(SFG)) >= 1, what + ": there is no nested graph"
            )
            if b % 2:
                nxt = nxt.flatten()
                what += ", flattened"
        elif kind in ("after2", "before2"):
            # an operation with two inputs and two outputs on a pair of ports
            aft = kind == "after2"
            c = [(k, o) for k, o in cand if (m.n[k]["no"] if aft else len(m.n[k]["src"])) == 2]
            if not c:
                continue
            k, o = c[a % len(c)]
            t, p = TWO_BY_TWO[(b // 2) % len(TWO_BY_TWO)]
            name = f"x{step}"
            m2 = m.copy()
            m2.n[name] = {"k": t, "p": dict(p), "src": [], "no": 2}
            if aft:
                for q in range(2):
                    m2.rewire((k, q), (name, q), keep=name)
                m2.n[name]["src"] = [(k, 0), (k, 1)]
            else:
                m2.n[name]["src"] = list(m2.n[k]["src"])
                m2.n[k]["src"] = [(name, 0), (name, 1)]
            if has_loop(m2):
                continue
            target = o.graph_id if b % 2 else o.name
            what += f"insert {t} {p} {kind[:-1]} {target}"
            f = sfg.insert_operation_after if aft else sfg.insert_operation_before
            nxt = f(target, make_op_d(t, p, name))
            m = m2
        elif kind == "insert":
            # the older name of insert_operation_after
            if not cand:
                continue
            k, o = cand[a % len(cand)]
            t, p = new
            name = f"x{step}"
            j = (b // 4) % m.n[k]["no"]
            m2 = m.copy()
            m2.n[name] = {"k": t, "p": dict(p), "src": [(k, j)], "no": 1}
            m2.rewire((k, j), (name, 0), keep=name)
            if has_loop(m2):
                continue
            what += f"insert_operation {t} {p} at {o.graph_id} port {j}"
            op = make_op_d(t, p, name)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore", DeprecationWarning)
                if b % 4 == 0 and m.n[k]["no"] == 1 and len(o.output_signals) == 1:
                    nxt = sfg.insert_operation(op, o.graph_id)
                elif b % 4 < 2:
                    nxt = sfg.insert_operation(op, f"{o.graph_id}.{j}")
                else:
                    nxt = sfg.insert_operation(op, o.graph_id, j)
            m = m2
        elif kind in ("after", "before"):
            if not cand:
                continue
            t, p = new
            m2 = m.copy()
            name = f"x{step}"

            def node():
                return {"k": t, "p": p, "src": [], "no": 1}

            if kind == "after":
                k, o = cand[a % len(cand)]
                form = b % 4
                j = (b // 4) % m.n[k]["no"]
                p = dict(p)
                if form == 3:
                    sigs = [s for s in o.output_signals]
                    if not sigs:
                        continue
                    s = sigs[(b // 4) % len(sigs)]
                    dst = s.destination
                    j = s.source.index
                    m2.n[name] = {**node(), "src": [(k, j)]}
                    dn = dst.operation.name
                    if dn in m2.n:
                        m2.n[dn]["src"][dst.index] = (name, 0)
                    elif isinstance(dst.operation, Output):
                        i = list(sfg.output_operations).index(dst.operation)
                        m2.outs[i] = (name, 0)
                    else:
                        continue
                    target = s.graph_id
                    port = None
                elif form == 2 and m.n[k]["no"] == 1 or form == 0:
                    # every output port gets one
                    for q in range(m.n[k]["no"]):
                        m2.n[f"{name}_{q}"] = {**node(), "src": [(k, q)]}
                        m2.rewire((k, q), (f"{name}_{q}", 0), keep=f"{name}_{q}")
                    target, port = (o.graph_id if b % 8 < 4 else o.name), None
                else:
                    m2.n[name] = {**node(), "src": [(k, j)]}
                    m2.rewire((k, j), (name, 0), keep=name)
                    if form == 1:
                        target, port = f"{o.graph_id}.{j}", None
                    else:
                        target, port = o.graph_id, j
                what += f"insert {t} {p} after {target} port {port}"
                if has_loop(m2):
                    continue
                nxt = sfg.insert_operation_after(target, make_op_d(t, p, name), port)
            else:
                c = [(k, o) for k, o in cand if m.n[k]["src"]]
                if not c:
                    continue
                k, o = c[a % len(c)]
                nj = len(m.n[k]["src"])
                j = (b // 4) % nj
                form = b % 4
                if form == 3:
                    s = o.input(j).signals[0]
                    m2.n[name] = {**node(), "src": [m.n[k]["src"][j]]}
                    m2.n[k]["src"][j] = (name, 0)
                    target, port = s.graph_id, None
                elif form == 0:
                    for q in range(nj):
                        m2.n[f"{name}_{q}"] = {**node(), "src": [m.n[k]["src"][q]]}
                        m2.n[k]["src"][q] = (f"{name}_{q}", 0)
                    target, port = (o.graph_id if b % 8 < 4 else o.name), None
                else:
                    m2.n[name] = {**node(), "src": [m.n[k]["src"][j]]}
                    m2.n[k]["src"][j] = (name, 0)
                    target, port = (o.graph_id, j) if form == 1 else (f"{o.graph_id}.{j}", None)
                what += f"insert {t} {p} before {target} port {port}"
                nxt = sfg.insert_operation_before(target, make_op_d(t, p, name), port)
            m = m2
        elif kind == "remove":
            c = [
                (k, o)
                for k, o in cand
                if len(m.n[k]["src"]) == m.n[k]["no"]
                and not any(s[0] == k for s in m.n[k]["src"])
            ]
            if not c:
                continue
            k, o = c[a % len(c)]
            m2 = m.copy()
            old = m2.n.pop(k)
            for q in range(old["no"]):
                m2.rewire((k, q), old["src"][q])
            if has_loop(m2) or not live(m2):
                continue
            what += f"remove {k} ({old['k']})"
            nxt = sfg.remove_operation(o.graph_id)
            ensure(not nxt.find_by_name(k), what + ": still there")
            m = m2
        elif kind == "change":
            c = [(k, o) for k, o in cand if len(m.n[k]["src"]) == 1 and m.n[k]["no"] == 1]
            if not c:
                continue
            k, o = c[a % len(c)]
            m2 = m.copy()
            m2.n[k]["k"], m2.n[k]["p"] = new[0], dict(new[1])
            if has_loop(m2):
                continue
            what += f"replace {k} ({m.n[k]['k']}) by {new}"
            nxt = sfg.replace(o.graph_id, make_op_d(new[0], new[1], k))
            m = m2
        elif kind == "copy":
            nxt = sfg()
            what += "copy"
        ensure(nxt is not sfg, what + ": the graph itself is returned")
        same(view, sfg_view(sfg), what + " changed the graph it was applied to")
        sfg_view(nxt)
        ensure(nxt.name == "top" or kind == "rename", what + f": name is {nxt.name!r}")
        if closes_loop(nxt):
            what += ", flattened"
            nxt = nxt.flatten()
            sfg_view(nxt)
        compare(nxt, m, rows, what)
        sfg = nxt
        changed += kind != "copy"
        rec.label(kind)
    rec.nt(len(g.nodes) >= 3 and changed >= case.get("need", 2))


def make_op_d(t, p, name):
    if t == "t":
        from b_asic.special_operations import Delay

        return Delay(initial_value=p["initial_value"], name=name)
    return make_op(t, p, name=name)


def live(m):
    """No operation lost all its consumers, and none is cut off from the outputs."""
    used = {s for v in m.n.values() for s in v["src"]} | set(m.outs)
    for k, v in m.n.items():
        if not any((k, j) in used for j in range(v["no"])):
            return False
    seen = set()
    stack = [s[0] for s in m.outs]
    while stack:
        k = stack.pop()
        if k in seen:
            continue
        seen.add(k)
        stack.extend(s[0] for s in m.n[k]["src"])
    return len(seen) == len(m.n)


def closes_loop(sfg):
    """A loop without a delay outside the nested graphs (not supported by the simulation)."""
    from b_asic.special_operations import Delay

    done = set()
    for o in sfg.operations:
        stack = [(o, False)]
        path = set()
        while stack:
            x, leave = stack.pop()
            if leave:
                path.discard(x.graph_id)
                done.add(x.graph_id)
                continue
            if x.graph_id in path:
                return True
            if x.graph_id in done or isinstance(x, Delay):
                continue
            path.add(x.graph_id)
            stack.append((x, True))
            stack.extend((s.destination.operation, False) for s in x.output_signals)
    return False


def one_in_one_out():
    def one(t):
        if t == "t":
            return st.tuples(st.just("t"), st.fixed_dictionaries({"initial_value": st.integers(-3, 3)}))
        return st.tuples(st.just(t), params_strategy(t, False))

    return st.sampled_from(["cmul", "neg", "rshift", "lshift", "t", "shift", "abs"]).flatmap(one)


KINDS = [
    "flatten", "replace", "replace", "rewrite", "rewrite", "rewrite", "join", "join", "swap", "swap",
    "simplify", "extract", "extract", "after", "after", "before", "before", "remove", "remove",
    "change", "copy",
]
ACT = st.tuples(
    st.sampled_from(KINDS), st.integers(0, 4095), st.integers(0, 23), one_in_one_out().map(list)
).map(list)

REWRITABLE = ["add", "sub", "addsub", "cmul", "cmul", "r2bfly", "neg", "shift", "sym2p"]
JOINABLE = ["imul", "imul", "add", "sub", "addsub", "shiftaddsub", "cmul", "r2bfly"]


def spec_for(**kw):
    return st.one_of(
        any_spec(("real", "cplx", "linear_real", "linear_cplx"), **kw),
        any_spec(("real",), types=REWRITABLE, **kw),
        any_spec(("cplx",), types=JOINABLE, **kw),
    )


def hist_case(kinds=None, **kw):
    spec = any_spec(("cplx",), **kw) if "types" in kw else spec_for(**kw)
    act = ACT
    if kinds:
        act = st.tuples(
            st.sampled_from(kinds), st.integers(0, 4095), st.integers(0, 23),
            one_in_one_out().map(list),
        ).map(list)
    return st.fixed_dictionaries(
        {
            "spec": spec,
            "rows": rows_any(False, 2, 5),
            "acts": st.lists(act, min_size=2, max_size=6),
        }
    )


def join_case():
    """An imaginary multiplication in front of adders and other operations."""
    t = ["add", "sub", "addsub", "shiftaddsub", "add", "sub", "addsub", "cmul", "imul", "r2bfly"]

    def one(t):
        return st.fixed_dictionaries(
            {
                "t": st.just(t),
                "p": params_strategy(t, True),
                "s": st.lists(st.sampled_from([1, 2, 3, 3, 4]), min_size=2, max_size=2).map(
                    lambda s: s[: OPS[t].ni]
                ),
            }
        )

    ops = st.lists(st.sampled_from(t).flatmap(one), min_size=1, max_size=3)
    act = st.tuples(
        st.sampled_from(["join", "join", "join", "swap", "rewrite"]), st.integers(0, 4095),
        st.integers(0, 23), one_in_one_out().map(list),
    ).map(list)
    return st.fixed_dictionaries(
        {
            "spec": st.fixed_dictionaries(
                {
                    "ni": st.just(3), "d": st.just([]),
                    "o": ops.map(lambda o: [{"t": "imul", "p": {}, "s": [0]}, *o]),
                    "out": st.just([]), "sty": st.integers(0, 3), "dangle": st.just(0),
                }
            ),
            "rows": rows_any(True, 2, 3),
            "acts": st.lists(act, min_size=1, max_size=3).map(
                lambda a: [*a, ["join", 0, 0, ["neg", {}]]]
            ),
        }
    )


def flattening(case, rec):
    """Graphs inside graphs, written by hand: side by side, in series and two deep."""
    from b_asic.sfg import SFG
    from b_asic.special_operations import Input, Output

    gs = [Graph(s) for s in case["inner"]]
    ms = [Model(g) for g in gs]
    subs = []
    for i, (g, s) in enumerate(zip(gs, case["inner"])):
        sub = build(g, s["sty"], sfg_name=f"sub{i}", prefix=f"s{i}_").sfg
        if case["deep"][i % len(case["deep"])]:
            ins = [Input() for _ in range(g.ni)]
            inner = sub(*ins)
            sub = SFG(ins, [Output(inner.output(k)) for k in range(inner.output_count)], name=f"deep{i}")
            rec.label("two deep")
        subs.append(sub)
    nin = case["nin"]
    ins = [Input(f"i{k}") for k in range(nin)]
    ports = list(ins)
    mp = [("in", k) for k in range(nin)]
    order = []
    ops = []
    for i, sub in enumerate(subs):
        w = case["wire"][i]
        srcs = [w[q % len(w)] % len(ports) for q in range(sub.input_count)]
        if i % 2:
            op = sub(*[ports[q] for q in srcs])
        else:
            op = sub
            for q, s in enumerate(srcs):
                op.input(q).connect(ports[s])
        order.append([mp[s] for s in srcs])
        ops.append(op)
        for q in range(op.output_count):
            ports.append(op.output(q))
            mp.append((i, q))
    used = {s for o in order for s in o}
    outs = [q for q, s in enumerate(mp) if s not in used or case["more"][q % len(case["more"])]]
    top = SFG(ins, [Output(ports[q], name=f"o{q}") for q in outs], name="top")
    view = sfg_view(top)
    flat = top.flatten(expand=case["expand"])
    same(view, sfg_view(top), "flatten changed the graph")
    ensure(not any(isinstance(o, SFG) for o in flat.operations), "a nested graph is left")
    sfg_view(flat)
    ensure(flat.name == "top", "the name is lost")
    # reference: run the parts in order
    rows = take_rows(case["rows"], nin)
    states = [None] * len(gs)
    from b_asic.simulation import Simulation

    sims = [
        Simulation(f, [(lambda n, c=[r[i] for r in rows]: c[n]) for i in range(nin)])
        for f in (top, flat)
    ]
    scale = 1.0
    for it, row in enumerate(rows):
        vals = {("in", k): v for k, v in enumerate(row)}
        try:
            for i, g in enumerate(gs):
                st_ = g.initial_state() if states[i] is None else states[i]
                v, nx = g.step(st_, [vals[s] for s in order[i]])
                scale = max([scale, *(abs(x) for x in v.values())])
                states[i] = nx
                for q, o in enumerate(g.outs):
                    vals[i, q] = v[o]
        except Unstable:
            break
        for which, sim in zip(("nested", "flat"), sims):
            res = sim.step()
            for pos, q in enumerate(outs):
                y = vals[mp[q]]
                ensure(
                    close(res[pos], y, scale),
                    f"{which} graph: output {pos} in iteration {it} is {res[pos]}, expected {y}",
                )
    if case["expand"]:
        rec.label("expand")
    rec.nt(sum(len(g.nodes) for g in gs) >= 3)


def flat_case():
    spec = any_spec(("real", "cplx", "linear_real"), max_ops=5, max_delays=2, sinks=False)
    return st.fixed_dictionaries(
        {
            "inner": st.lists(spec, min_size=1, max_size=3),
            "deep": st.lists(st.booleans(), min_size=1, max_size=3),
            "nin": st.integers(1, 3),
            "wire": st.lists(
                st.lists(st.integers(0, 20), min_size=1, max_size=3), min_size=3, max_size=3
            ),
            "more": st.lists(st.booleans(), min_size=1, max_size=4),
            "expand": st.booleans(),
            "rows": rows_any(False, 2, 5),
        }
    )


def refusals(case, rec):
    """Transformations that cannot be done are refused and leave everything alone."""
    from b_asic.core_operations import Addition, ConstantMultiplication
    from b_asic.fft_operations import R2Butterfly
    from b_asic.special_operations import Output

    g = Graph(case["spec"])
    sfg = build(g, case["spec"]["sty"]).sfg
    view = sfg_view(sfg)
    ops = list(sfg.operations)
    o = ops[case["a"] % len(ops)]
    tries = [
        ("replace unknown", lambda: sfg.replace("nothing7", Addition()), ValueError),
        ("replace None", lambda: sfg.replace(None, Addition()), ValueError),
        ("replace by None", lambda: sfg.replace(o.graph_id, None), ValueError),
        ("insert after unknown", lambda: sfg.insert_operation_after("nothing7", ConstantMultiplication(2)), ValueError),
        ("insert before unknown", lambda: sfg.insert_operation_before("nothing7", ConstantMultiplication(2)), ValueError),
        ("insert after an output", lambda: sfg.insert_operation_after(sfg.output_operations[0].graph_id, ConstantMultiplication(2)), TypeError),
        ("extract unknown", lambda: sfg.extract(["nothing7"]), ValueError),
        ("join unknown", lambda: sfg.join("nothing7", "forward"), ValueError),
    ]
    if (o.input_count, o.output_count) != (2, 1):
        tries.append(("replace with other ports", lambda: sfg.replace(o.graph_id, Addition()), TypeError))
    if o.input_count not in (0, 2):
        tries.append(("insert before with other ports", lambda: sfg.insert_operation_before(o.graph_id, R2Butterfly()), TypeError))
    if o.output_count not in (0, 2):
        tries.append(("insert after with other ports", lambda: sfg.insert_operation_after(o.graph_id, R2Butterfly()), TypeError))
    if o.input_count == 0:
        tries.append(("insert before an input", lambda: sfg.insert_operation_before(o.graph_id, ConstantMultiplication(2)), TypeError))
    if o.input_count != o.output_count:
        tries.append(("remove", lambda: sfg.remove_operation(o.graph_id), ValueError))
    if not isinstance(o, Output) and not o.is_swappable:
        tries.append(("swap", lambda: sfg.swap_io_of_operation(o.graph_id), TypeError))
    new = (Addition, R2Butterfly)[case["a"] // 16 % 2]
    if o.output_count:
        j = case["a"] // 32 % o.output_count
        tries.append(("insert after a port", lambda: sfg.insert_operation_after(o.graph_id, new(), j), TypeError))
        tries.append(("insert after a port by name", lambda: sfg.insert_operation_after(f"{o.graph_id}.{j}", new()), TypeError))
    if o.output_count == 2:
        tries.append(("insert after with less outputs", lambda: sfg.insert_operation_after(o.graph_id, Addition()), TypeError))
    if o.input_count:
        i = case["a"] // 32 % o.input_count
        tries.append(("insert before a port", lambda: sfg.insert_operation_before(o.graph_id, new(), i), TypeError))
    if o.input_count == 2:
        tries.append(("insert before with less outputs", lambda: sfg.insert_operation_before(o.graph_id, Addition()), TypeError))
    signals = sorted(s.graph_id for s in sfg.find_by_type_name("s"))
    if signals:
        sig = signals[case["a"] % len(signals)]
        tries.append(("insert after a signal", lambda: sfg.insert_operation_after(sig, new()), TypeError))
        tries.append(("insert before a signal", lambda: sfg.insert_operation_before(sig, new()), TypeError))
    what, f, exc = tries[case["t"] % len(tries)]
    try:
        f()
    except exc:
        pass
    except Violation:
        raise
    else:
        raise Violation(f"{what} ({o.graph_id}) was not refused")
    same(view, sfg_view(sfg), f"{what} (refused) changed the graph")
    ensure(sfg.remove_operation("nothing7") is None, "removal of an unknown operation")
    rec.nt(len(g.nodes) >= 3)
    rec.label(what)


NEST_OPS = ["shift", "add", "sub", "addsub"]


def nest_rewriting(case, rec):
    """A nested graph of two operations is turned into one operation, or the request is refused."""
    from b_asic.core_operations import ShiftAddSub
    from b_asic.sfg import SFG
    from b_asic.special_operations import Delay, Input, Output

    ins = [Input() for _ in range(2)]
    ports = list(ins)
    made = []
    for t, p, src in case["ops"]:
        op = make_op_d(t, p, "")
        srcs = [src[q] % len(ports) for q in range(op.input_count)]
        for q, x in enumerate(srcs):
            op.input(q).connect(ports[x])
        made.append((t, p, srcs))
        ports.append(op)
    used = {x for _, _, srcs in made for x in srcs}
    outs = [q for q in range(2, 4) if q not in used] + ([2] if case["more"] and 2 in used else [])
    if not {0, 1} <= used:
        return
    swap = case["swap"]
    nested = SFG(ins[::-1] if swap else ins, [Output(ports[q]) for q in outs], name="nested", id_number_offset=case["off"])
    a, b = Input("a"), Input("b")
    sub = nested(a, b)
    t = Delay(sub.output(0), initial_value=1)
    top = SFG([a, b], [Output(sub.output(k)) for k in range(len(outs))] + [Output(t)], name="top")
    view = sfg_view(top)
    target = {0: sub.graph_id, 1: SFG, 2: [x for x in top.operations if isinstance(x, SFG)]}[case["form"]]
    if case["form"] == 0:
        target = next(x.graph_id for x in top.operations if isinstance(x, SFG))
    what = f"rewrite of {made} with outputs {outs}, swapped inputs {swap}"
    # what must work: an operand of an addition, or the second of a subtraction, shifted
    (t0, p0, s0), (t1, p1, s1) = made
    plus = t1 == "add" or (t1 == "addsub" and p1["is_add"])
    plain = (
        t0 == "shift" and p0["value"] >= 0 and t1 != "shift" and outs == [3]
        and not p1.get("mul_j") and not p1.get("shift_output")
        and s1.count(2) == 1 and (s1[1] == 2 or plus)
    )
    try:
        new = top.rewrite(ShiftAddSub, target)
    except ValueError as e:
        ensure(not plain, what + f" is refused: {e}")
        same(view, sfg_view(top), what + " (refused) changed the graph")
        rec.label("refused")
        return
    same(view, sfg_view(top), what + " changed the graph it was applied to")
    sfg_view(new)
    ensure(len(new.find_by_type(ShiftAddSub)) == 1 and not new.find_by_type(SFG), what + ": not one operation")
    rec.label("rewritten")
    rec.nt(True)
    rows = case["rows"]
    from b_asic.simulation import Simulation

    sim = Simulation(new, [(lambda n, c=[r[i] for r in rows]: c[n]) for i in range(2)])
    old = 1
    for it, row in enumerate(rows):
        v = list(row[::-1] if swap else row)
        for t, p, srcs in made:
            v += ref_op(t, p, [v[x] for x in srcs])
        res = sim.step()
        exp = [v[q] for q in outs] + [old]
        old = v[outs[0]]
        for k, y in enumerate(exp):
            ensure(close(res[k], y, max(1, abs(y))), what + f": output {k} in iteration {it} is {res[k]}, expected {y}")


def nest_op(t):
    return st.tuples(st.just(t), params_strategy(t, False), st.lists(st.integers(0, 11), min_size=2, max_size=2)).map(list)


def nest_usual(v):
    (shift, add), x, first = v
    return [[*shift[:2], [x, x]], [*add[:2], [2, 1 - x] if first else [1 - x, 2]]]


nest_case = st.fixed_dictionaries(
    {
        "ops": st.one_of(
            st.sampled_from(NEST_OPS).flatmap(lambda t: st.tuples(nest_op(t), st.sampled_from(NEST_OPS).flatmap(nest_op))).map(list),
            st.tuples(
                st.sampled_from(NEST_OPS[1:]).flatmap(lambda t: st.tuples(nest_op("shift"), nest_op(t))),
                st.integers(0, 1),
                st.booleans(),
            ).map(nest_usual),
            st.tuples(
                st.sampled_from(NEST_OPS[1:]).flatmap(lambda t: st.tuples(nest_op("shift"), nest_op(t))),
                st.integers(0, 1),
                st.just(False),
            ).map(nest_usual),
        ),
        "more": st.booleans(),
        "swap": st.booleans(),
        "off": st.sampled_from([0, 0, 0, 5]),
        "form": st.integers(0, 2),
        "rows": st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list), min_size=3, max_size=4),
    }
)


ref_case = st.fixed_dictionaries(
    {"spec": any_spec(), "a": st.integers(0, 127), "t": st.integers(0, 60)}
)

FACETS = [
    Facet("history", hist_case(min_ops=3, max_ops=8), history, 1600, 60000, shards=6),
    Facet("rewriting", hist_case(["rewrite", "join", "flatten", "replace", "swap"], min_ops=3, max_ops=7), history, 700, 30000, shards=3),
    Facet("joining", join_case().map(lambda c: {**c, "need": 1}), history, 600, 10000, shards=2),
    Facet("extracting", hist_case(["extract", "flatten", "extract", "remove"], min_ops=3, max_ops=7), history, 500, 20000, shards=2),
    Facet("pairs", hist_case(["after2", "before2", "insert", "after2", "before2", "flatten"], min_ops=2, max_ops=6), history, 500, 15000, shards=2),
    Facet("nested rewriting", nest_case, nest_rewriting, 600, 15000, shards=2),
    Facet("delays", hist_case(["simplify", "simplify", "after", "before", "remove"], max_ops=4, min_delays=2, max_delays=5), history, 500, 20000, shards=2),
    Facet("flattening", flat_case(), flattening, 700, 30000, shards=3),
    Facet("refusals", ref_case, refusals, 500, 5000),
]
