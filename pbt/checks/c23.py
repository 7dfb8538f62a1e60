"""C23: saving and loading gives back the same graph and schedule."""

import os
import pickle
import re
from pathlib import Path

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..env import scratch_dir
from ..obs import same, sfg_view
from ..schedmodel import TIM, check_valid, prepare
from ..sfggen import Graph, any_spec, build_ops, close, rows_any
from .c12 import initial

RULE = (
    "Random graphs, with graphs inside graphs up to two levels, random (also odd) names, identifiers, word lengths, timing "
    "and additional parameters, and random edited schedules of random graphs, are written as Python code and pickled, read "
    "back and compared by structure, identifiers, parameters, timing and simulation. Non-trivial: a graph with at least "
    "three operations that has a changed identifier, timing or another graph inside (graphs), an edited schedule with a "
    "delay (schedules)."
)

ODD = ["for", "my op", "a'b", 'say "hi"', "in0", "SFG", "Addition", "prop", "positions", "print", "x\ny", "back\\slash",
       "0start", "a-b", "a b", "s0", "None", "åäö", "sfg", "graph_id", "complex", "float", "", '"""', "{x}"]
NAME = st.one_of(st.sampled_from(ODD), st.text(max_size=6), st.text("abin0_ ", max_size=4))
MARK = st.fixed_dictionaries(
    {
        "at": st.integers(0, 40),
        "what": st.sampled_from(["id", "name", "tim", "part", "bits", "signame", "sigid", "param", "np", "ex"]),
        "s": NAME,
        "n": st.integers(0, 9),
        "l": st.lists(st.integers(0, 6), min_size=1, max_size=3),
    }
)
TYPES = ("real", "cplx", "linear_real")


def graph_case(depth):
    base = {
        "spec": any_spec(TYPES, max_ops=5),
        "marks": st.lists(MARK, max_size=6),
        "name": NAME,
        "off": st.sampled_from([0, 0, 0, 7]),
    }
    if depth:
        base["inner"] = st.one_of(st.just([]), st.lists(graph_case(depth - 1), max_size=2))
        base["after"] = st.integers(0, 20)
    return st.fixed_dictionaries(base)


def mark(ops, m):
    """One change of an operation or a signal."""
    import numpy as np

    op = ops[m["at"] % len(ops)]
    sigs = [s for p in op.outputs for s in p.signals]
    sig = sigs[m["n"] % len(sigs)] if sigs else None
    what = m["what"]
    if what == "id":
        op.graph_id = m["s"]
    elif what == "name":
        op.name = m["s"]
    elif what == "tim":
        lat = {f"in{j}": m["l"][j % len(m["l"])] for j in range(op.input_count)}
        lat.update({f"out{j}": 6 + m["l"][j % len(m["l"])] for j in range(op.output_count)})
        op.set_latency_offsets(lat)
    elif what == "part":
        ports = [f"in{j}" for j in range(op.input_count)] + [f"out{j}" for j in range(op.output_count)]
        if ports:
            op.set_latency_offsets({ports[m["n"] % len(ports)]: m["l"][0]})
    elif what == "ex":
        op.execution_time = m["n"]
    elif what == "param":
        op.set_param("note", [m["n"], m["s"]])
    elif what == "np":
        if op.type_name() in ("cmul", "c"):
            v = op.value
            op.value = (np.complex128 if isinstance(v, complex) else np.float64)(v)
    elif sig is not None and what == "bits":
        sig.bits = m["n"]
    elif sig is not None and what == "signame":
        sig.name = m["s"]
    elif sig is not None and what == "sigid":
        sig.graph_id = m["s"]


def make(case):
    """The graph of a case, with the graphs in it."""
    from b_asic.sfg import SFG
    from b_asic.special_operations import Output

    g = Graph(case["spec"])
    b = build_ops(g, case["spec"]["sty"])
    outs = list(b.outs)
    ops = [*b.ops, *b.outs]
    ports = [p for o in b.ops for p in o.outputs]
    for k, inner in enumerate(case.get("inner", ())):
        sub = make(inner)
        if not sub.outputs or (sub.inputs and not ports):
            continue
        inst = sub(*[ports[(case["after"] + j) % len(ports)] for j in range(sub.input_count)])
        if k % 2:
            inst.name = inner["name"]
        ops.append(inst)
        ports.extend(inst.outputs)
        for p in inst.outputs:
            outs.append(Output(p, name=f"io{k}"))
    for m in case["marks"]:
        mark(ops, m)
    return SFG(inputs=b.ins, outputs=outs, name=case["name"], id_number_offset=case["off"])


def run(sfg, rows):
    from b_asic.simulation import Simulation

    cols = [[r[i % len(r)] for r in rows] for i in range(sfg.input_count)]
    sim = Simulation(sfg, [(lambda n, c=c: c[n]) for c in cols])
    res = []
    for _ in rows:
        try:
            res.append(list(sim.step()))
        except (OverflowError, ZeroDivisionError, ValueError) as e:
            res.append(type(e).__name__)
            break
    return res


def same_run(a, b, msg):
    ensure(len(a) == len(b), f"{msg}: {len(a)} and {len(b)} iterations")
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, str) or isinstance(y, str):
            ensure(x == y, f"{msg}: iteration {i}: {x} / {y}")
            continue
        ensure(len(x) == len(y), f"{msg}: {len(x)} and {len(y)} outputs")
        for k, (p, q) in enumerate(zip(x, y)):
            ensure(close(p, q) or p == q or (p != p and q != q), f"{msg}: iteration {i}, output {k}: {p} / {q}")


def full_view(sfg):
    """sfg_view and what it leaves out."""
    v = sfg_view(sfg)

    def more(s):
        return {
            "signals": sorted(
                (
                    p.signals[0].graph_id,
                    op.graph_id,
                    p.index,
                )
                for op in s.operations
                for p in op.inputs
            ),
            "offset": s.id_number_offset,
            "lat": dict(s.latency_offsets),
            "ex": s.execution_time,
            "order": [op.graph_id for op in s.split()],
            "in": {op.graph_id: more(op) for op in s.operations if hasattr(op, "input_operations")},
        }

    v["more"] = more(sfg)
    return v


def without_date(text):
    return re.sub(r"Last saved: [^\n]*", "", text)


def graphs(case, rec):
    from b_asic.save_load_structure import python_to_sfg, sfg_to_python

    sfg = make(case)
    want = full_view(sfg)
    positions = {op.graph_id: (3 * i, -i, bool(i % 2)) for i, op in enumerate(sfg.operations)}
    text = sfg_to_python(sfg, suffix=f"positions = {positions}" if case["pos"] else None)
    same(full_view(sfg), want, "saving changes the graph")
    path = Path(scratch_dir()) / f"saved-{os.getpid()}.py"
    path.write_text(text, encoding="ascii" if text.isascii() else "utf-8")
    loaded, pos = python_to_sfg(path if case["pos"] else str(path))
    same(full_view(loaded), want, "graph read from Python code")
    ensure(str(loaded) == str(sfg), "graph read from Python code prints differently")
    ensure(pos == (positions if case["pos"] else {}), f"positions {pos}")
    again = sfg_to_python(loaded, suffix=f"positions = {positions}" if case["pos"] else None)
    ensure(without_date(again) == without_date(text), "saving the loaded graph gives another file")
    dumped = pickle.loads(pickle.dumps(sfg))
    same(full_view(dumped), want, "pickled graph")
    ref = run(sfg, case["rows"])
    same_run(ref, run(loaded, case["rows"]), "simulation of the graph read from Python code")
    same_run(ref, run(dumped, case["rows"]), "simulation of the pickled graph")
    nested = any(hasattr(op, "input_operations") for op in sfg.operations)
    rec.nt(len(sfg.operations) >= 3 and (nested or bool(case["marks"])))
    rec.label(f"nested {nested}")


def views(sched, con, ctx):
    s = check_valid(sched, con, ctx)
    by_port = {}
    for op in sched._sfg.operations:
        for p in op.inputs:
            by_port[f"{op.graph_id}.{p.index}"] = sched.laps.get(p.signals[0].graph_id, 0)
    ids = set(s.ids.values())
    sfg = sched.sfg
    return {
        "T": s.T,
        "start": dict(sched.start_times),
        "cyclic": sched.cyclic,
        "delays": {f"{v}.{j}": n for (v, j), n in s.d.items()},
        "laps": by_port,
        "y": {i: y for i, y in ((i, sched.get_y_location(i)) for i in sorted(ids)) if y is not None},
        "slacks": {i: sched.slacks(i) for i in sorted(ids)},
        "ops": {
            op.graph_id: (type(op).__name__, op.name, dict(op.latency_offsets), op.execution_time, str(dict(op.params)))
            for op in sfg.operations
            if op.type_name() != "t"
        },
        "name": sfg.name,
        "in": [o.graph_id for o in sfg.input_operations],
        "out": [o.graph_id for o in sfg.output_operations],
    }


def schedules(case, rec):
    from b_asic.save_load_structure import python_to_sfg, schedule_to_python
    from b_asic.schedule import Schedule

    g, con, sfg = prepare(case)
    sfg.name = case["name"]
    sched = initial(case, con, sfg)
    if sched is None:
        return
    ids = sorted(sched.start_times)
    moved = 0
    for a, b in case["moves"]:
        i = ids[a % len(ids)]
        back, fwd = sched.slacks(i)
        back, fwd = min(back, 9), min(fwd, 9)
        by = b % (back + fwd + 1) - back
        if by:
            try:
                sched.move_operation(i, by)
            except ValueError:
                continue
            moved += 1
    for a, b in case["y"]:
        sched.set_y_location(ids[a % len(ids)], b)
    want = views(sched, con, "before saving")
    text = schedule_to_python(sched)
    same(views(sched, con, "after saving"), want, "saving changes the schedule")
    path = Path(scratch_dir()) / f"saved-{os.getpid()}.py"
    path.write_text(text)
    space = {}
    try:
        exec(compile(path.read_text(), str(path), "exec"), space)
    except Exception as e:  # the saved file is the library's output, so it has to run
        raise Violation(f"the saved schedule cannot be run: {type(e).__name__}: {e}") from e
    found = [v for v in space.values() if isinstance(v, Schedule)]
    ensure(len(found) == 1, f"{len(found)} schedules in the saved file")
    same(views(found[0], con, "schedule read from Python code"), want, "schedule read from Python code")
    loaded, _ = python_to_sfg(path)
    same(full_view(loaded), full_view(sched.sfg), "graph in the saved schedule")
    dumped = pickle.loads(pickle.dumps(sched))
    same(views(dumped, con, "pickled schedule"), want, "pickled schedule")
    same(full_view(dumped.sfg), full_view(sched.sfg), "graph of the pickled schedule")
    rec.nt(moved > 0 and any(want["laps"].values()))
    rec.label(f"moves {min(moved, 3)}")


GRAPHS = st.tuples(
    graph_case(2), st.booleans(), rows_any(False, 1, 4)
).map(lambda t: {**t[0], "pos": t[1], "rows": t[2]})
SCHEDULES = st.fixed_dictionaries(
    {
        "spec": any_spec(("linear_real", "cplx"), max_ops=7, init=False),
        "tim": st.lists(TIM, min_size=1, max_size=4),
        "name": NAME,
        "alg": st.integers(0, 1),
        "cyc": st.booleans(),
        "T": st.integers(-2, 4),
        "moves": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 99)), max_size=6),
        "y": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 9)), max_size=4),
    }
)

FACETS = [
    Facet("graphs", GRAPHS, graphs, 440, 20000),
    Facet("schedules", SCHEDULES, schedules, 320, 12000),
]
