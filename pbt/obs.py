"""Observations of graphs through the public API, as plain comparable data."""

from .core import ensure
from .sfggen import find


def params_of(comp):
    return {k: (list(v) if isinstance(v, tuple) else v) for k, v in comp.params.items()}


def op_view(op, ids=True, name=True, timing=True, params=True):
    d = {"type": type(op).__name__}
    if ids:
        d["id"] = op.graph_id
    if name:
        d["name"] = op.name
    if params:
        d["params"] = params_of(op)
    if timing:
        d["lat"] = dict(op.latency_offsets)
        d["ex"] = op.execution_time
    return d


def sfg_view(sfg, ids=True, **kw):
    """Structure keyed by id (ids) or name: operations, connections, order of inputs/outputs."""

    def ref(op):
        return op.graph_id if ids else op.name

    res = {"name": sfg.name, "ops": {}}
    for op in sfg.operations:
        d = op_view(op, ids=ids, **kw)
        d["src"] = []
        for p in op.inputs:
            ss = list(p.signals)
            ensure(len(ss) == 1, f"input port of {ref(op)} has {len(ss)} signals")
            s = ss[0]
            ensure(s.source is not None, f"{ref(op)}: signal without source")
            ensure(s.destination is p, f"{ref(op)}: signal of the port names another destination")
            ensure(s in s.source.signals, f"{ref(op)}: source port does not list the signal")
            d["src"].append((ref(s.source.operation), s.source.index, s.bits, s.name))
        d["dst"] = []
        for p in op.outputs:
            dst = []
            for s in p.signals:
                ensure(s.source is p, f"{ref(op)}: signal of an output port names another source")
                ensure(s.destination is not None, f"{ref(op)}: signal without destination")
                ensure(s in s.destination.signals, f"{ref(op)}: destination does not list the signal")
                dst.append((ref(s.destination.operation), s.destination.index))
            d["dst"].append(sorted(dst))
        if hasattr(op, "input_operations"):
            d["inner"] = sfg_view(op, ids=ids, **kw)
        ensure(ref(op) not in res["ops"], f"two operations called {ref(op)}")
        res["ops"][ref(op)] = d
    res["in"] = [ref(o) for o in sfg.input_operations]
    res["out"] = [ref(o) for o in sfg.output_operations]
    return res


def loose_view(ops):
    """State of operations that are not in a graph (by object identity)."""
    idx = {id(o): i for i, o in enumerate(ops)}
    res = []
    for o in ops:
        d = op_view(o)
        d["src"] = [
            [
                (id(s), s.bits, idx.get(id(s.source.operation), "?") if s.source else None,
                 s.source.index if s.source else None)
                for s in p.signals
            ]
            for p in o.inputs
        ]
        d["dst"] = [
            [
                (id(s), idx.get(id(s.destination.operation), "?") if s.destination else None,
                 s.destination.index if s.destination else None)
                for s in p.signals
            ]
            for p in o.outputs
        ]
        d["plist"] = [id(p) for p in o.inputs] + [id(p) for p in o.outputs]
        if hasattr(o, "input_operations"):
            d["inner"] = sfg_view(o)
        res.append(d)
    return res


def diff(a, b, path=""):
    """First difference of two nested structures, as text, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return f"{path}/{k}: only on one side"
            r = diff(a[k], b[k], f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {a} / {b}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if type(a) is not type(b) and not (
        isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex))
    ):
        return f"{path}: {a!r} / {b!r}"
    return None if a == b else f"{path}: {a!r} / {b!r}"


def same(a, b, msg):
    d = diff(a, b)
    ensure(d is None, f"{msg}: {d}")


DEFAULT_NAMES = {"in": "Input", "out": "Output", "t": "Delay"}


def matches_spec(sfg, g, timing=None, prefix="", ctx=""):
    """The graph has exactly the operations and connections of g (names n<i>, out<k>, sink<k>)."""
    from .sfggen import class_of

    n_ops = len(g.nodes) + len(g.outs) + len(g.sinks)
    ensure(
        len(sfg.operations) == n_ops,
        f"{len(sfg.operations)} operations listed, expected {n_ops} {ctx}",
    )
    for i, n in enumerate(g.nodes):
        op = find(sfg, f"{prefix}n{i}")
        if n["k"] in DEFAULT_NAMES:
            ensure(type(op).__name__ == DEFAULT_NAMES[n["k"]], f"n{i} is a {type(op).__name__}")
        else:
            ensure(type(op) is class_of(n["k"]), f"n{i} is a {type(op).__name__}")
        for k, v in n["p"].items():
            got = getattr(op, k)
            got = list(got) if isinstance(got, (list, tuple)) else got
            v = list(v) if isinstance(v, (list, tuple)) else v
            ensure(got == v, f"n{i} ({n['k']}): {k} is {got!r}, expected {v!r} {ctx}")
        for j, (sn, sp) in enumerate(n["src"]):
            src = op.input(j).connected_source
            ensure(src is not None, f"n{i}.{j} is not connected {ctx}")
            ensure(
                (src.operation.name, src.index) == (f"{prefix}n{sn}", sp),
                f"n{i} input {j} comes from {src.operation.name}.{src.index}, expected n{sn}.{sp} {ctx}",
            )
        if timing and i in timing:
            t = timing[i]
            for j, p in enumerate(op.inputs):
                ensure(p.latency_offset == t["in"][j % len(t["in"])], f"n{i}: in{j} latency {ctx}")
            for j, p in enumerate(op.outputs):
                ensure(p.latency_offset == t["out"][j % len(t["out"])], f"n{i}: out{j} latency {ctx}")
            ensure(op.execution_time == t["ex"], f"n{i}: execution time {ctx}")
    outs = list(sfg.output_operations)
    ensure(len(outs) == len(g.outs), f"{len(outs)} outputs, expected {len(g.outs)} {ctx}")
    for k, (sn, sp) in enumerate(g.outs):
        ensure(outs[k].name == f"{prefix}out{k}", f"output {k} is {outs[k].name} {ctx}")
        src = outs[k].input(0).connected_source
        ensure(
            src is not None and (src.operation.name, src.index) == (f"{prefix}n{sn}", sp),
            f"out{k} comes from the wrong port {ctx}",
        )
    ins = list(sfg.input_operations)
    ensure(
        [o.name for o in ins] == [f"{prefix}n{i}" for i in range(g.ni)],
        f"inputs are {[o.name for o in ins]} {ctx}",
    )
