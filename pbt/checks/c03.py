"""C03: structural queries report the graph's actual structure."""

from collections import Counter

from hypothesis import strategies as st

from ..core import Facet, ensure
from ..obs import matches_spec
from ..sfggen import Graph, any_spec, build, build_ops, class_of, find

RULE = (
    "Random graphs, connected or not, with fan-out, multi-output operations, sinks, repeated names, feedback and nested "
    "graphs; every query is compared with the specification the graph was built from. Non-trivial: at least four "
    "operations and (fan-out, feedback or a multi-output operation)."
)
ASSUMPTIONS = [
    "Every operation output is taken to depend on all inputs of the operation (nested graphs included).",
    "The operation order is only required to be topological when the graph has no loop (documented).",
]


def uniq(items, what):
    ids = [id(x) for x in items]
    dup = [x for x, c in Counter(ids).items() if c > 1]
    ensure(not dup, f"{what}: listed more than once: {[repr(x) for x in items if id(x) in dup][:3]}")


def type_name_of(k):
    return k


def levels(g):
    lev = {}
    for i, n in enumerate(g.nodes):
        if n["k"] in ("in", "t", "c") or not n["src"]:
            lev[i] = 0
    for i, n in enumerate(g.nodes):
        if i not in lev:
            lev[i] = 1 + max(lev[s] for s, _ in n["src"])
    return lev


def reach_inputs(g, port):
    seen = set()
    stack = [port[0]]
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        stack.extend(s for s, _ in g.nodes[n]["src"])
    return sorted(i for i in seen if i < g.ni)


def check_queries(sfg, g, has_loop):
    from b_asic.graph_component import GraphComponent
    from b_asic.operation import Operation
    from b_asic.signal import Signal
    from b_asic.special_operations import Delay, Input, Output

    ops = list(sfg.operations)
    uniq(ops, "operations")
    names = [o.name for o in ops]
    exp_names = [f"n{i}" for i in range(len(g.nodes))] + [f"out{k}" for k in range(len(g.outs))] + [f"sink{k}" for k in range(len(g.sinks))]
    ensure(sorted(names) == sorted(exp_names), f"operations {sorted(names)}")
    node = {o.name: o for o in ops}
    tn = {o.name: str(o.type_name()) for o in ops}
    for i, n in enumerate(g.nodes):
        ensure(tn[f"n{i}"] == n["k"], f"n{i} has type name {tn[f'n{i}']}, expected {n['k']}")
    # signals
    n_sig = sum(len(n["src"]) for n in g.nodes) + len(g.outs) + len(g.sinks)
    comps = list(sfg.components)
    uniq(comps, "components")
    sigs = [c for c in comps if isinstance(c, Signal)]
    ensure(len(sigs) == n_sig, f"{len(sigs)} signals listed, expected {n_sig}")
    ensure(len(comps) == n_sig + len(ops), f"{len(comps)} components, expected {n_sig + len(ops)}")
    reached = {id(s): s for o in ops for s in [*o.input_signals, *o.output_signals]}
    ensure(set(reached) == {id(s) for s in sigs}, "the signals listed are not those connected")
    ids = [c.graph_id for c in comps]
    ensure(len(set(ids)) == len(ids) and all(ids), f"identifiers not unique: {sorted(ids)}")
    for c in comps:
        t = str(c.type_name())
        ensure(c.graph_id.startswith(t) and c.graph_id[len(t) :].isdigit(), f"id {c.graph_id} for type {t}")
        ensure(sfg.find_by_id(c.graph_id) is c, f"find_by_id({c.graph_id}) is another component")
    for bad in ("", "nosuch0", "add", "add9999", "n0", "in0.0", " in0"):
        ensure(sfg.find_by_id(bad) is None, f"find_by_id({bad!r}) found something")
    for nm in exp_names:
        r = list(sfg.find_by_name(nm))
        ensure(len(r) == 1 and r[0] is node[nm], f"find_by_name({nm!r}) gives {len(r)} components")
        if node[nm].output_count:
            for j in range(node[nm].output_count):
                keys = list(sfg.find_result_keys_by_name(nm, j))
                exp = [node[nm].graph_id if node[nm].output_count == 1 else f"{node[nm].graph_id}.{j}"]
                ensure(keys == exp, f"result keys of {nm}, output {j}: {keys}, expected {exp}")
    ensure(list(sfg.find_by_name("nosuch")) == [], "find_by_name of an unknown name")
    # by type
    cnt = Counter(tn.values())
    for t in [*cnt, "add", "sub", "mul", "cmul", "c", "t", "s", "in", "shift", "nosuch"]:
        exp = {id(o) for o in ops if tn[o.name] == t} if t != "s" else {id(s) for s in sigs}
        got = list(sfg.find_by_type_name(t))
        uniq(got, f"find_by_type_name({t!r})")
        ensure({id(x) for x in got} == exp, f"find_by_type_name({t!r}) gives {[x.graph_id for x in got]}")
    for cls in {type(o) for o in ops} | {class_of("add"), Delay, Input, Output, Signal, Operation, GraphComponent}:
        got = list(sfg.find_by_type(cls))
        uniq(got, f"find_by_type({cls.__name__})")
        ensure(
            {id(x) for x in got} == {id(c) for c in comps if isinstance(c, cls)},
            f"find_by_type({cls.__name__}) gives {[x.graph_id for x in got]}",
        )
    ensure(dict(sfg.operation_counter()) == dict(cnt), f"operation_counter gives {sfg.operation_counter()}")
    ensure(list(sfg.get_used_type_names()) == sorted(cnt), "get_used_type_names")
    got = list(sfg.get_used_operation_types())
    ensure(len(got) == len(set(got)) and set(got) == {type(o) for o in ops}, "get_used_operation_types")
    ensure(set(sfg.get_used_graph_ids()) == {o.graph_id for o in ops}, "get_used_graph_ids")
    # neighbours
    for i, n in enumerate(g.nodes):
        o = node[f"n{i}"]
        ensure(
            [p.name for p in o.preceding_operations] == [f"n{s}" for s, _ in n["src"]],
            f"preceding operations of n{i}: {[p.name for p in o.preceding_operations]}",
        )
        exp = sorted(
            [f"n{c}" for j in range(n["no"]) for c, _ in g.consumers((i, j))]
            + [f"out{k}" for k, s in enumerate(g.outs) if s[0] == i]
            + [f"sink{k}" for k, s in enumerate(g.sinks) if s[0] == i]
        )
        ensure(
            sorted(p.name for p in o.subsequent_operations) == exp,
            f"subsequent operations of n{i}: {[p.name for p in o.subsequent_operations]}, expected {exp}",
        )
    # precedence list
    lev = levels(g)
    exp_lists = {}
    for i, n in enumerate(g.nodes):
        for j in range(n["no"]):
            exp_lists.setdefault(lev[i], []).append((f"n{i}", j))
    for rep in range(2):
        plist = list(sfg.get_precedence_list())
        ensure(len(plist) == len(exp_lists), f"{len(plist)} precedence levels, expected {len(exp_lists)}")
        for k, ports in enumerate(plist):
            got = sorted((p.operation.name, p.index) for p in ports)
            ensure(
                got == sorted(exp_lists[k]),
                f"precedence level {k} is {got}, expected {sorted(exp_lists[k])}",
            )
    # topological order
    for rep in range(2):
        order = list(sfg.get_operations_topological_order())
        uniq(order, "topological order")
        ensure(
            {id(o) for o in order} == {id(o) for o in ops},
            f"topological order has {len(order)} of {len(ops)} operations",
        )
        if not has_loop:
            pos = {o.name: k for k, o in enumerate(order)}
            for i, n in enumerate(g.nodes):
                for s, _ in n["src"]:
                    ensure(pos[f"n{s}"] < pos[f"n{i}"], f"n{i} is listed before its source n{s}")
            for k, (s, _) in enumerate(g.outs):
                ensure(pos[f"n{s}"] < pos[f"out{k}"], f"out{k} is listed before its source n{s}")
    # dependence of outputs on inputs
    for k, s in enumerate(g.outs):
        got = list(sfg.inputs_required_for_output(k))
        exp = reach_inputs(g, s)
        ensure(sorted(got) == exp, f"output {k} depends on inputs {got}, expected {exp}")


def loops_in(g):
    color = {}

    def visit(n):
        color[n] = 1
        for s, _ in g.nodes[n]["src"]:
            if color.get(s) == 1 or (s not in color and visit(s)):
                return True
        color[n] = 2
        return False

    return any(n not in color and visit(n) for n in range(len(g.nodes)))


def queries(case, rec):
    g = Graph(case["spec"])
    b = build(g, case["spec"]["sty"])
    sfg = b.sfg
    if case["via"] == 1:
        sfg = sfg()
    elif case["via"] == 2:
        sfg = sfg.copy()()
    elif case["via"] == 3:
        import pickle

        sfg = pickle.loads(pickle.dumps(sfg))
    has_loop = loops_in(g)
    matches_spec(sfg, g)
    check_queries(sfg, g, has_loop)
    fan = any(len(g.consumers(p)) + (p in g.outs) > 1 for p in g.ports)
    multi = any(n["no"] > 1 for n in g.nodes)
    for lab, c in (("fan-out", fan), ("loop", has_loop), ("multi-output", multi), ("no input", g.ni == 0)):
        if c:
            rec.label(lab)
    rec.nt(len(g.nodes) >= 4 and (fan or has_loop or multi))


def paths(case, rec):
    """All paths without repeated nodes between two nodes of a graph given as neighbours."""
    n = case["n"]
    adj = {f"v{i}": sorted({f"v{j % (n + 1)}" for a, j in case["e"] if a % n == i}) for i in range(n)}
    a, b = f"v{case['a'] % (n + 1)}", f"v{case['b'] % (n + 1)}"
    sfg = build(Graph(case["spec"]), 0).sfg
    got = sfg.find_all_paths(adj, a, b)
    exp, todo = [], [[a]]
    while todo:
        p = todo.pop()
        if p[-1] == b:
            exp.append(p)
        else:
            todo += [[*p, x] for x in adj.get(p[-1], []) if x not in p]
    ensure(sorted(got) == sorted(exp), f"paths from {a} to {b} in {adj}: {sorted(got)}, expected {sorted(exp)}")
    rec.nt(len(exp) >= 2)


def spec_for(**kw):
    return any_spec(("real", "cplx", "linear_real", "linear_cplx"), **kw)


query_case = st.fixed_dictionaries(
    {
        "spec": st.one_of(
            spec_for(),
            spec_for(max_ops=14, max_delays=5, max_in=4),
            spec_for(min_in=0, max_in=1, min_delays=1),
        ),
        "via": st.integers(0, 3),
    }
)


def nested_queries(case, rec):
    """Queries of a graph that contains graphs: they are single operations there."""
    from b_asic.sfg import SFG
    from b_asic.special_operations import Input, Output

    gi = Graph(case["inner"])
    bi = build(gi, case["inner"]["sty"], sfg_name="inner", prefix="i")
    ins = [Input(f"x{k}") for k in range(max(1, gi.ni))]
    first = bi.sfg(*[ins[c % len(ins)] for c in (case["conn"] * 4)[: gi.ni]], name="a")
    ports = [i.output(0) for i in ins] + list(first.outputs)
    second = bi.sfg(*[ports[c % len(ports)] for c in (case["conn2"] * 4)[: gi.ni]], name="b")
    outs = [Output(second.output(k), name=f"sb{k}") for k in range(second.output_count)]
    outs += [Output(first.output(k), name=f"sa{k}") for k in range(first.output_count) if not first.output(k).signals]
    used = [i for i in ins if i.output(0).signals]
    free = [i for i in ins if not i.output(0).signals]
    outs += [Output(i, name=f"u{i.name}") for i in free]
    top = SFG(inputs=ins, outputs=outs)
    ensure(len(top.operations) == len(ins) + len(outs) + 2, "operations of the outer graph")
    uniq(top.operations, "operations")
    uniq(top.components, "components")
    subs = top.find_by_type(SFG)
    ensure(sorted(s.name for s in subs) == ["a", "b"], "nested graphs by type")
    ensure(len(top.find_by_type_name("sfg")) == 2, "nested graphs by type name")
    ensure(top.find_by_name("in0") == [] and not top.find_by_name("in0"), "inner names are not visible")
    a, bb = top.find_by_name("a")[0], top.find_by_name("b")[0]
    pl = list(top.get_precedence_list())
    pos = {(p.operation.name, p.index): k for k, ps in enumerate(pl) for p in ps}
    ensure(len(pos) == sum(len(p) for p in pl), "a port occurs in two precedence levels")
    ensure(
        set(pos) == {(o.name, j) for o in top.operations for j in range(o.output_count)},
        "ports in the precedence list",
    )
    for o in (a, bb):
        lev = 1 + max((pos[p.connected_source.operation.name, p.connected_source.index] for p in o.inputs), default=-1)
        for j in range(o.output_count):
            ensure(pos[o.name, j] == lev, f"{o.name}.{j} at level {pos[o.name, j]}, expected {lev}")
    order = [o.name for o in top.get_operations_topological_order()]
    ensure(sorted(order) == sorted(o.name for o in top.operations), "topological order")
    for o in top.operations:
        for p in o.inputs:
            ensure(order.index(p.connected_source.operation.name) < order.index(o.name), "order")

    def need(op):
        res = set()
        for p in op.inputs:
            s = p.connected_source.operation
            res |= {s.name} if isinstance(s, Input) else need(s)
        return res

    for k, o in enumerate(top.output_operations):
        got = {top.input_operations[i].name for i in top.inputs_required_for_output(k)}
        ensure(got == need(o), f"output {o.name} depends on {got}, expected {need(o)}")
    # queries of a nested graph itself
    for s in (a, bb):
        from ..obs import matches_spec as ms

        ms(s, gi, prefix="i")
        for k, src in enumerate(gi.outs):
            ensure(
                sorted(s.inputs_required_for_output(k)) == reach_inputs(gi, src),
                f"nested output {k}: {sorted(s.inputs_required_for_output(k))}",
            )
    rec.nt(len(gi.nodes) >= 3)


nested_case = st.fixed_dictionaries(
    {
        "inner": any_spec(("real", "linear_real"), max_ops=5, max_delays=2),
        "conn": st.lists(st.integers(0, 9), min_size=1, max_size=4),
        "conn2": st.lists(st.integers(0, 9), min_size=1, max_size=4),
    }
)


def shared_names(case, rec):
    """Several components with one name, and unnamed ones."""
    from b_asic.sfg import SFG

    g = Graph(case["spec"])
    b = build_ops(g, case["spec"]["sty"])
    everything = b.ops + b.outs + b.sinks
    sigs = [s for o in b.ops for s in o.output_signals]
    for k, c in enumerate([*everything, *sigs]):
        c.name = case["names"][k % len(case["names"])]
    sfg = SFG(inputs=b.ins, outputs=b.outs)
    want = Counter(c.name for c in [*everything, *sigs])
    for s in (sfg, sfg()):
        for nm, n in want.items():
            got = list(s.find_by_name(nm))
            uniq(got, f"find_by_name({nm!r})")
            ensure(len(got) == n and all(c.name == nm for c in got), f"find_by_name({nm!r}) gives {len(got)} components, expected {n}")
        uniq(s.components, "components")
        ids = [c.graph_id for c in s.components]
        ensure(len(set(ids)) == len(ids) == len(everything) + len(sigs), "identifiers")
        # names can be changed later
        new = case.get("renamed", [])
        for k, c in enumerate(s.components):
            if new and k % 3 != 1:
                c.name = new[k % len(new)]
        for nm in {c.name for c in s.components} | set(want):
            exp = [c for c in s.components if c.name == nm]
            got = list(s.find_by_name(nm))
            uniq(got, f"find_by_name({nm!r}) after renaming")
            ensure({id(c) for c in got} == {id(c) for c in exp}, f"find_by_name({nm!r}) gives {len(got)} components after renaming, expected {len(exp)}")
    rec.nt(len(g.nodes) >= 4)


names_case = st.fixed_dictionaries(
    {
        "spec": any_spec(("real", "linear_real")),
        "names": st.lists(st.sampled_from(["", "", "a", "b", "add0", "in1"]), min_size=1, max_size=6),
        "renamed": st.lists(st.sampled_from(["", "a", "c", "d", "add0"]), max_size=4),
    }
)

FACETS = [
    Facet("queries", query_case, queries, quick=2400, shards=4),
    Facet("nested", nested_case, nested_queries, quick=500, shards=2),
    Facet("names", names_case, shared_names, quick=500, shards=1),
    Facet(
        "paths",
        st.fixed_dictionaries(
            {
                "n": st.integers(1, 6),
                "e": st.lists(st.tuples(st.integers(0, 5), st.integers(0, 6)).map(list), max_size=16),
                "a": st.integers(0, 6),
                "b": st.integers(0, 6),
                "spec": any_spec(("real",), max_ops=2),
            }
        ),
        paths,
        400,
        5000,
    ),
]
