"""C14: memory variables carry every value from production to last use."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..schedmodel import State, prepare
from .c12 import BASE, KINDS, Model, initial, step

RULE = (
    "Random graphs scheduled and edited as in C12. The memory variables of the schedule are compared with the values that "
    "the schedule's start times, latencies and delays (read from its graph) say are stored, and its operation processes with "
    "the start and execution times. Non-trivial: at least three variables, one read by two operands and one living across the "
    "end of the period."
)


def port_name(port):
    return (port.operation.name, port.index)


def variables(sched, con, s, ctx, stats):
    expected = {}
    for e in con.edges:
        u, p, v, j, _ = e
        expected.setdefault((u, p), {})[v, j] = s.slack(con, e)
    coll = sched.get_memory_variables()
    ensure(coll.schedule_time == s.T, f"{ctx}: collection of memory variables has schedule time {coll.schedule_time}, not {s.T}")
    got = {}
    names = set()
    for var in coll:
        key = port_name(var.write_port)
        ensure(key not in got, f"{ctx}: two variables for output {key[1]} of {key[0]}")
        got[key] = var
        names.add(var.name)
    ensure(len(names) == len(got), f"{ctx}: names of variables are not unique: {sorted(v.name for v in got.values())}")
    ensure(sorted(got) == sorted(expected), f"{ctx}: variables for {sorted(got)}, expected for {sorted(expected)}")
    ensure(len(coll) == len(got), f"{ctx}: {len(coll)} variables reported, {len(got)} found")
    for key, reads in expected.items():
        var = got[key]
        t = s.start[key[0]] + con.outo[key[0]][key[1]]
        ensure(
            var.start_time == t % s.T,
            f"{ctx}: variable of output {key[1]} of {key[0]} starts at {var.start_time}, written at {t} with schedule time {s.T}",
        )
        r = {}
        for port, life in var.reads.items():
            k = port_name(port)
            ensure(k not in r, f"{ctx}: operand {k} read twice from variable {key}")
            r[k] = life
        ensure(r == reads, f"{ctx}: variable of output {key[1]} of {key[0]} is read {r} after it is written, expected {reads}")
        last = max(reads.values())
        ensure(var.execution_time == last, f"{ctx}: variable {key} lives for {var.execution_time}, last read after {last}")
        ensure(
            sorted(var.read_times) == sorted({t % s.T + x for x in reads.values()}),
            f"{ctx}: variable {key} read at {sorted(var.read_times)}, expected {sorted({t % s.T + x for x in reads.values()})}",
        )
        ensure(
            set(var.life_times) == set(reads.values()),
            f"{ctx}: life times of {key} are {sorted(var.life_times)}, expected {sorted(reads.values())}",
        )
        ensure(
            sorted(port_name(x) for x in var.read_ports) == sorted(reads),
            f"{ctx}: read ports of {key} are {[port_name(x) for x in var.read_ports]}",
        )
        stats["multi"] |= len(set(reads.values())) > 1
        stats["wrap"] |= t % s.T + last > s.T
    stats["n"] = max(stats["n"], len(got))


def operations(sched, con, s, ctx):
    coll = sched.get_operations()
    ensure(coll.schedule_time == s.T, f"{ctx}: collection of operations has schedule time {coll.schedule_time}, not {s.T}")
    got = {}
    for pr in coll:
        nm = pr.operation.name
        ensure(nm not in got, f"{ctx}: {nm} has two processes")
        got[nm] = (pr.start_time, pr.execution_time, pr.type_name, pr.name)
    ops = {op.name: op for op in sched.sfg.operations}
    expected = {
        nm: (s.start[nm], ops[nm].execution_time, ops[nm].type_name(), nm)
        for nm in con.names
        if con.kind[nm] not in ("dontcare", "sink")
    }
    ensure(got == expected, f"{ctx}: processes of operations {got}, expected {expected}")
    ensure(len(coll) == len(expected), f"{ctx}: {len(coll)} processes reported, {len(expected)} found")


def check(case, rec):
    g, con, sfg = prepare(case)
    con.own_lists()
    sched = initial(case, con, sfg)
    if sched is None:
        return
    missing = [
        o for o in sched.sfg.operations if o.execution_time is None and o.type_name() not in ("dontcare", "sink", "t")
    ]
    if missing:
        try:
            coll = sched.get_operations()
        except ValueError:
            rec.label("no execution time")
        else:
            raise Violation(f"operation processes {list(coll)} although {missing} have no execution time")
    for o in list(sched._sfg.operations):
        if o.execution_time is None and o.type_name() not in ("dontcare", "sink"):
            o.execution_time = case["ex"]
    m = Model(sched, con)
    stats = {"n": 0, "delays": 0}
    seen = {"n": 0, "multi": False, "wrap": False}
    for x, cmd in enumerate([None, *case["cmds"]]):
        if cmd is not None:
            step(m, cmd, rec, stats)
        if m.s.T == 0:
            return
        s = State(sched, con, f"after {x} edits")
        variables(sched, con, s, f"after {x} edits", seen)
        operations(sched, con, s, f"after {x} edits")
    rec.nt(seen["n"] >= 3 and seen["multi"] and seen["wrap"])


CMD = st.tuples(st.sampled_from([*KINDS, "far", "move"]), st.integers(0, 191), st.integers(-8, 8)).map(list)
FACETS = [
    Facet(
        "variables",
        st.fixed_dictionaries({**BASE, "ex": st.integers(0, 3), "cmds": st.lists(CMD, min_size=0, max_size=8)}),
        check,
        1300,
        30000,
        shards=8,
    ),
]
