"""C17: splitting variables by lifetime or in chains loses no access."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..schedmodel import prepare
from .c12 import BASE, Model, initial, step

RULE = (
    "Random collections of memory variables, plain memory variables and operator processes (or the memory variables of "
    "random edited schedules), split on a length or into chains, also repeatedly. Oracle: every read followed back through "
    "the chain to the original write, adding up life times. Non-trivial: a variable is divided into at least three links, or "
    "at least two variables have reads on both sides of the length."
)


def collection(case):
    """(T, list of processes)."""
    from b_asic.core_operations import Addition
    from b_asic.process import MemoryVariable, OperatorProcess, PlainMemoryVariable

    T = case["T"]
    procs = []
    for k, (kind, start, lives) in enumerate(case["v"]):
        s = start % T
        if kind == 0:
            procs.append(PlainMemoryVariable(s, k, {j: x % (T + 1) if case["fit"] else x for j, x in enumerate(lives)}, f"p{k}"))
        elif kind == 1:
            procs.append(OperatorProcess(s, Addition(execution_time=lives[0]), f"o{k}"))
        else:
            readers = [Addition().input(j % 2) for j in range(len(lives))]
            procs.append(MemoryVariable(s, Addition().output(0), dict(zip(readers, lives, strict=True)), f"m{k}"))
    return T, procs


def from_schedule(case, rec):
    g, con, sfg = prepare(case)
    con.own_lists()
    sched = initial(case, con, sfg)
    if sched is None:
        return None
    m = Model(sched, con)
    for cmd in case["cmds"]:
        step(m, cmd, rec, {"n": 0, "delays": 0})
    mv = sched.get_memory_variables()
    return mv.schedule_time, list(mv)


def trace(link, T, ctx):
    """(first link, time from the original write to the write of this link)."""
    from b_asic.process import MemoryOutputPort

    total = 0
    seen = 0
    while isinstance(link.write_port, MemoryOutputPort):
        before = link.write_port.source_variable
        relay = [
            (port, life)
            for port, life in before.reads.items()
            if getattr(port, "destination_variable", None) is not None and port.destination_variable is link
        ]
        ensure(len(relay) == 1, f"{ctx}: {link.name} is written from {before.name}, which is read {len(relay)} times for it")
        life = relay[0][1]
        ensure(
            (before.start_time + life) % T == link.start_time % T,
            f"{ctx}: {link.name} is written at {link.start_time}, {before.name} (from {before.start_time}) read {life} later for it",
        )
        total += life
        link = before
        seen += 1
        ensure(seen < 1000, f"{ctx}: endless chain")
    return link, total


def view(p):
    return (
        type(p).__name__,
        p.name,
        p.start_time,
        p.execution_time,
        dict(p.reads) if hasattr(p, "reads") else None,
        getattr(p, "write_port", None),
    )


def check_chains(procs, result, T, limit, ctx):
    from b_asic.process import MemoryInputPort, MemoryOutputPort, MemoryVariable

    links = list(result)
    ensure(result.schedule_time == T, f"{ctx}: schedule time {result.schedule_time}, not {T}")
    ensure(len({id(x) for x in links}) == len(links), f"{ctx}: a process is contained twice")
    rest = [x for x in links if not isinstance(x, MemoryVariable)]
    ensure(
        [view(x) for x in rest] == [view(p) for p in procs if not isinstance(p, MemoryVariable)],
        f"{ctx}: other processes are {rest}",
    )
    got = {}
    count = {}
    pos = {id(x): n for n, x in enumerate(links)}
    ends = {}
    for link in links:
        if not isinstance(link, MemoryVariable):
            continue
        ensure(link.execution_time <= limit, f"{ctx}: {link.name} lives {link.execution_time} > {limit}")
        ensure(
            link.execution_time == max(link.reads.values()) and min(link.reads.values()) >= 0,
            f"{ctx}: {link.name} lives {link.execution_time} with reads {list(link.reads.values())}",
        )
        ensure(0 <= link.start_time < T, f"{ctx}: {link.name} is written at {link.start_time} with schedule time {T}")
        root, offset = trace(link, T, ctx)
        ensure(id(root) in pos, f"{ctx}: {link.name} starts in a variable that is not in the collection")
        w = root.write_port
        ensure(link.root_write_port is w, f"{ctx}: first write port of {link.name} is {link.root_write_port}")
        count[id(w)] = count.get(id(w), 0) + 1
        ends.setdefault(id(w), root.start_time)
        for port, life in link.reads.items():
            if isinstance(port, MemoryInputPort):
                nxt = port.destination_variable
                ensure(
                    id(nxt) in pos and isinstance(nxt.write_port, MemoryOutputPort) and nxt.write_port.source_variable is link,
                    f"{ctx}: {link.name} is read for a link that is not written from it",
                )
                continue
            key = (id(w), id(port))
            ensure(key not in got, f"{ctx}: an operand is read from two links of {link.name}")
            got[key] = offset + life
    expected = {}
    for p in procs:
        if isinstance(p, MemoryVariable):
            for port, life in p.reads.items():
                expected[id(p.write_port), id(port)] = life
            ensure(
                ends.get(id(p.write_port)) == p.start_time,
                f"{ctx}: {p.name} starts at {ends.get(id(p.write_port))}, was {p.start_time}",
            )
            need = max(1, -(-p.execution_time // limit)) if limit else 1
            ensure(
                count[id(p.write_port)] == need,
                f"{ctx}: {p.name}, living for {p.execution_time}, is in {count[id(p.write_port)]} links of {limit}, not {need}",
            )
    ensure(got.keys() == expected.keys(), f"{ctx}: {len(got)} of {len(expected)} reads are left")
    for k, life in expected.items():
        ensure(got[k] == life, f"{ctx}: an operand is read {got[k]} after the value is written, expected {life}")
    names = [x.name for x in links]
    ensure(len(set(names)) == len(names), f"{ctx}: names are not unique: {sorted(names)}")
    return max(count.values(), default=0)


def check_length(procs, parts, T, length, ctx):
    short, long = parts
    ensure(short.schedule_time == T and long.schedule_time == T, f"{ctx}: schedule time of the parts")
    both = 0
    after = {}
    for which, part in (("short", short), ("long", long)):
        for p in part:
            key = p.name
            ensure((which, key) not in after, f"{ctx}: {key} is twice in the {which} part")
            after[which, key] = p
    for p in procs:
        reads = dict(p.reads) if hasattr(p, "reads") else None
        if reads is None:
            which = "short" if p.execution_time <= length else "long"
            ensure(after.pop((which, p.name), None) is p, f"{ctx}: {p.name} is not in the {which} part")
            continue
        want = {
            "short": {k: v for k, v in reads.items() if v <= length},
            "long": {k: v for k, v in reads.items() if v > length},
        }
        both += all(want.values())
        for which, rd in want.items():
            q = after.pop((which, p.name), None)
            if not rd:
                ensure(q is None, f"{ctx}: {p.name} with reads {list(reads.values())} is in the {which} part")
                continue
            ensure(q is not None, f"{ctx}: {p.name} with reads {list(reads.values())} is not in the {which} part")
            ensure(
                dict(q.reads) == rd and q.execution_time == max(rd.values()) and set(q.read_times) == {q.start_time + v for v in rd.values()},
                f"{ctx}: {p.name} in the {which} part is read {list(q.reads.values())}, expected {list(rd.values())}",
            )
            ensure(
                type(q) is type(p) and q.start_time == p.start_time and q.write_port is p.write_port and q.write_port == p.write_port,
                f"{ctx}: {p.name} in the {which} part is {q}",
            )
    ensure(not after, f"{ctx}: unexpected {sorted(after)}")
    return both


def check(case, rec):
    from b_asic.process import MemoryVariable, PlainMemoryVariable
    from b_asic.resources import ProcessCollection

    made = collection(case) if "v" in case else from_schedule(case, rec)
    if made is None:
        return
    T, procs = made
    coll = ProcessCollection(list(procs), T, case["cyc"])
    before = [view(p) for p in coll]
    length = case["length"]
    both = check_length(procs, coll.split_on_length(length), T, length, f"length {length}")
    ensure([view(p) for p in coll] == before, "splitting on length changed the collection")
    limit = case["limit"]
    links = 0
    eff = T if limit is None else limit
    ctx = f"chains of {limit} (schedule time {T})"
    plain_too_long = any(isinstance(p, PlainMemoryVariable) and p.execution_time > eff for p in procs)
    memory_too_long = any(isinstance(p, MemoryVariable) and p.execution_time > eff for p in procs)
    if plain_too_long or (eff < 1 and memory_too_long):
        try:
            res = coll.split_into_chains(limit)
        except (TypeError, ValueError):
            rec.label("refused")
        else:
            raise Violation(f"{ctx}: gives {res}")
    elif eff >= 1 or not any(p.execution_time > eff for p in procs):
        res = coll.split_into_chains(limit) if limit is not None else coll.split_into_chains()
        links = check_chains(procs, res, T, eff, ctx)
        if eff > 1 and case["again"]:
            # links read by links only at their end can be divided further
            again = max(1, eff // 2)
            if all(p.execution_time <= again or isinstance(p, MemoryVariable) for p in res):
                part = res.split_on_length(case["length"])
                n = sum(len(p.reads) for x in part for p in x if hasattr(p, "reads"))
                ensure(n == sum(len(p.reads) for p in res if hasattr(p, "reads")), f"{ctx}: splitting chains on length loses reads")
    ensure([view(p) for p in coll] == before, "splitting into chains changed the collection")
    rec.nt(links >= 3 or both >= 2)


COMMON = {
    "cyc": st.booleans(),
    "length": st.integers(-1, 12),
    "limit": st.one_of(st.none(), st.integers(0, 12)),
    "again": st.booleans(),
}
VAR = st.tuples(
    st.sampled_from([0, 1, 2, 2, 2, 2]), st.integers(0, 20), st.lists(st.integers(0, 40), min_size=1, max_size=4)
).map(list)
FACETS = [
    Facet(
        "collections",
        st.fixed_dictionaries(
            {
                **COMMON,
                "T": st.integers(1, 14),
                "v": st.lists(VAR, min_size=0, max_size=6),
                "fit": st.sampled_from([True, True, False]),
            }
        ),
        check,
        4000,
        100000,
        shards=4,
    ),
    Facet(
        "schedules",
        st.fixed_dictionaries(
            {
                **BASE,
                **COMMON,
                "cmds": st.lists(
                    st.tuples(st.sampled_from(["move", "far", "rotate"]), st.integers(0, 63), st.integers(-9, 9)).map(list),
                    max_size=6,
                ),
            }
        ),
        check,
        700,
        20000,
        shards=4,
    ),
]
