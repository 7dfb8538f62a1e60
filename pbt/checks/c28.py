"""C28: architectures keep every process in one resource and know the connections."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..procs import accesses, slots
from .c19 import STRAT, port_key, schedule_of, wanted_variables

RULE = (
    "Architectures of random edited schedules: operations and variables placed by a random, valid assignment, then a history "
    "of moves of processes between resources (with and without assignment of the resources, also impossible ones), removals "
    "of empty resources and new resources. Oracle: a table of which process is where; connections, multiplexer inputs and "
    "what may be refused are computed from it. Non-trivial: at least three successful moves, one refused and a multiplexer."
)


class Table:
    """Which process is in which resource."""

    def __init__(self, T):
        self.T = T
        self.where = {}  # id of process -> (process, resource name)
        self.kind = {}  # resource name -> ("pe", type) or ("mem", read ports, write ports, total ports)
        self.direct = []

    def content(self, name):
        return [p for p, n in self.where.values() if n == name]

    def fits_pe(self, procs):
        used = [x for p in procs for x in slots(p.start_time, p.execution_time, self.T)]
        return len(used) == len(set(used))

    def fits_mem(self, procs, r, w, t):
        W, R, A = accesses([(p.start_time, sorted(set(p.reads.values()))) for p in procs], self.T)
        return max(W, default=0) <= w and max(R, default=0) <= r and (t is None or max(A, default=0) <= t)

    def valid(self, name, procs):
        k = self.kind[name]
        return self.fits_pe(procs) if k[0] == "pe" else self.fits_mem(procs, *k[1:])


def connections(tab, dontcare):
    """{(destination, port): {(source, port): number}} and per memory ({source: variables}, {destination: operands})."""
    op = {}
    for p, n in tab.where.values():
        if tab.kind[n][0] == "pe":
            op[p.operation.graph_id] = n
    conn = {}
    mem_in, mem_out = {}, {}
    pe_in, pe_out = {}, {}

    def add(table, key, src):
        table.setdefault(key, {})
        table[key][src] = table[key].get(src, 0) + 1

    direct_out = {}
    for p, n in tab.where.values():
        if tab.kind[n][0] == "pe":
            continue
        k = port_key(p.write_port)
        if k == "memory":
            src = tab.where[id(p.write_port.source_variable)][1]
            add(mem_in, n, src)
            conn.setdefault((n, 0), set()).add((src, 0))
        elif k[0] not in dontcare:
            add(mem_in, n, op[k[0]])
            conn.setdefault((n, 0), set()).add((op[k[0]], k[1]))
            direct_out.setdefault(k, set()).add((n, 0))
        for r in p.reads:
            q = port_key(r)
            if q != "memory":
                add(mem_out, n, op[q[0]])
                add(pe_in, (op[q[0]], q[1]), (n, 0))
                conn.setdefault((op[q[0]], q[1]), set()).add((n, 0))
    for v in tab.direct:
        k = port_key(v.write_port)
        if k == "memory" or k[0] in dontcare:
            continue
        for r in v.reads:
            q = port_key(r)
            add(pe_in, (op[q[0]], q[1]), (op[k[0]], k[1]))
            conn.setdefault((op[q[0]], q[1]), set()).add((op[k[0]], k[1]))
            direct_out.setdefault(k, set()).add((op[q[0]], q[1]))
    for k, targets in direct_out.items():
        for t in targets:
            add(pe_out, (op[k[0]], k[1]), t)
    return conn, mem_in, mem_out, pe_in, pe_out


def compare(arch, tab, dontcare, ctx):
    names = [r.entity_name for r in [*arch.processing_elements, *arch.memories]]
    ensure(sorted(names) == sorted(tab.kind), f"{ctx}: resources {sorted(names)}, expected {sorted(tab.kind)}")
    seen = {}
    for r in [*arch.processing_elements, *arch.memories]:
        ensure(arch.resource_from_name(r.entity_name) is r, f"{ctx}: resource_from_name({r.entity_name})")
        for p in r.collection:
            ensure(id(p) not in seen, f"{ctx}: {p.name} is in {seen.get(id(p))} and {r.entity_name}")
            seen[id(p)] = r.entity_name
        content = tab.content(r.entity_name)
        if r.is_assigned and content:
            k = tab.kind[r.entity_name]
            ensure(tab.valid(r.entity_name, content), f"{ctx}: {r.entity_name} is assigned although its processes do not fit")
            flat = sorted(id(p) for c in r.assignment for p in c)
            ensure(flat == sorted(id(p) for p in content), f"{ctx}: the assignment of {r.entity_name} does not hold its processes")
            if k[0] == "mem":
                for c in r.assignment:
                    used = [x for v in c for x in slots(v.start_time, v.execution_time, tab.T)]
                    ensure(len(set(used)) == len(used), f"{ctx}: a cell of {r.entity_name} holds several variables at once")
            else:
                ensure(len(r.assignment) == 1, f"{ctx}: {r.entity_name} is assigned to {len(r.assignment)} elements")
    expected = {i: n for i, (_, n) in tab.where.items()}
    if seen != expected:
        diff = [tab.where[i][0].name for i in expected if seen.get(i) != expected[i]]
        raise Violation(f"{ctx}: {diff} are in {[seen.get(i) for i in expected if seen.get(i) != expected[i]]}, "
                        f"expected {[expected[i] for i in expected if seen.get(i) != expected[i]]}")
    conn, mem_in, mem_out, pe_in, pe_out = connections(tab, dontcare)
    for m in arch.memories:
        i, o = arch.get_interconnects_for_memory(m)
        i = {r.entity_name: n for r, n in i.items()}
        o = {r.entity_name: n for r, n in o.items()}
        ensure(i == mem_in.get(m.entity_name, {}), f"{ctx}: {m.entity_name} written from {i}, expected {mem_in.get(m.entity_name, {})}")
        ensure(o == mem_out.get(m.entity_name, {}), f"{ctx}: {m.entity_name} read by {o}, expected {mem_out.get(m.entity_name, {})}")
        i2, o2 = arch.get_interconnects_for_memory(m.entity_name)
        ensure({r.entity_name: n for r, n in i2.items()} == i and {r.entity_name: n for r, n in o2.items()} == o,
               f"{ctx}: connections of {m.entity_name} by name differ")
    for p in arch.processing_elements:
        ins, outs = arch.get_interconnects_for_pe(p)
        ensure(len(ins) == p.input_count and len(outs) == p.output_count, f"{ctx}: number of ports of {p.entity_name}")
        for what, got, table in (("in", ins, pe_in), ("out", outs, pe_out)):
            for j, d in enumerate(got):
                d = {(r.entity_name, x): n for (r, x), n in d.items()}
                e = table.get((p.entity_name, j), {})
                ensure(d == e, f"{ctx}: {what}put {j} of {p.entity_name} connected to {d}, expected {e}")
        by_name = arch.get_interconnects_for_pe(p.entity_name)
        ensure(by_name == (ins, outs), f"{ctx}: connections of {p.entity_name} by name differ")
    total = sum(len(x) for x in conn.values())
    multi = sum(len(x) for x in conn.values() if len(x) > 1)
    got = arch.get_multiplexer_input_count()
    ensure(got == total, f"{ctx}: {got} multiplexer inputs, expected {total}: {conn}")
    got = arch.get_multiplexer_input_count(multiplexed_only=True)
    ensure(got == multi, f"{ctx}: {got} inputs of multiplexers, expected {multi}: {conn}")
    return multi


def state(arch):
    return {
        r.entity_name: (sorted(id(p) for p in r.collection), [sorted(id(p) for p in c) for c in r.assignment] if r.is_assigned else None)
        for r in [*arch.processing_elements, *arch.memories]
    }


def place(items, fits, choices):
    """Random valid placement of items into bins."""
    bins = []
    for k, x in enumerate(items):
        c = choices[k % len(choices)] if choices else 0
        order = list(range(len(bins)))
        if order:
            order = order[c % len(order) :] + order[: c % len(order)]
        for b in order:
            if c % 4 != 3 and fits([*bins[b], x]):
                bins[b].append(x)
                break
        else:
            bins.append([x])
    return bins


def history(case, rec):
    from b_asic.architecture import Architecture, Memory, ProcessingElement
    from b_asic.resources import ProcessCollection

    sched = schedule_of(case)
    if sched is None or any(o.type_name() == "sink" for o in sched.sfg.operations):
        return
    T = sched.schedule_time
    tab = Table(T)
    ops = sorted(sched.get_operations(), key=lambda p: p.operation.graph_id)
    if any(p.execution_time > T for p in ops):
        return
    direct, mem = sched.get_memory_variables().split_on_length()
    tab.direct = list(direct)
    _, _, _, chains = wanted_variables(sched.get_memory_variables())
    if chains:
        mem = mem.split_into_chains()
    variables = sorted(mem, key=lambda v: v.name)
    dontcare = {o.graph_id for o in sched.sfg.operations if o.type_name() == "dontcare"}
    ports = case["ports"]

    def own(v):
        W, R, A = accesses([(v.start_time, sorted(set(v.reads.values())))], T)
        return max(W), max(R), max(A)

    pes, mems = [], []
    choices = case["place"]
    groups = {}
    for p in ops:
        groups.setdefault((p.operation.type_name(), p.operation.latency), []).append(p)
    for k, ((ty, _), members) in enumerate(sorted(groups.items(), key=lambda x: (str(x[0][0]), x[0][1]))):
        for b in place(members, tab.fits_pe, choices[k:]):
            name = f"pe{len(pes)}"
            pes.append(ProcessingElement(ProcessCollection(b, T), name, assign=case["assign"]))
            tab.kind[name] = ("pe", ty, b[0].operation.latency)
            for p in b:
                tab.where[id(p)] = (p, name)

    r0 = max([ports[0], *[own(v)[1] for v in variables]])
    w0 = ports[1]
    t0 = max([min(r0 + w0, ports[2]), *[own(v)[2] for v in variables]])
    t0 = max(t0, r0, w0)
    for b in place(variables, lambda vs: tab.fits_mem(vs, r0, w0, t0), choices):
        name = f"mem{len(mems)}"
        how = choices[len(mems) % len(choices)] % 3 if choices else 0
        coll = ProcessCollection(b, T)
        if how == 0:
            W, R, A = accesses([(p.start_time, sorted(set(p.reads.values()))) for p in b], T)
            mems.append(Memory(coll, entity_name=name, assign=case["assign"]))
            tab.kind[name] = ("mem", max(R), max(W), None)
        else:
            mems.append(
                Memory(coll, entity_name=name, read_ports=r0, write_ports=w0, total_ports=t0, assign=case["assign"])
            )
            tab.kind[name] = ("mem", r0, w0, t0)
        for p in b:
            tab.where[id(p)] = (p, name)
    # the same in whatever form the resources are given
    form = case["form"]
    a_pes = pes[0] if len(pes) == 1 and form == 0 else (x for x in pes) if form == 1 else tuple(pes)
    a_mems = mems[0] if len(mems) == 1 and form == 0 else (x for x in mems) if form == 1 else tuple(mems)
    arch = Architecture(a_pes, a_mems, "top", direct if len(direct) or form == 2 else None)
    ensure(arch.schedule_time == T, f"schedule time {arch.schedule_time}, not {T}")
    mux = compare(arch, tab, dontcare, "at first")
    moved = refused = 0
    for x, (kind, a, b, assign, by) in enumerate(case["cmds"]):
        before = state(arch)
        names = sorted(tab.kind)
        ctx = f"edit {x}"
        err = None
        if kind == "move":
            keys = [i for i in tab.where if (tab.where[i][0] in variables) == bool(variables and a % 2)]
            p, src = tab.where[keys[(a // 2) % len(keys)]]
            k = tab.kind[src]
            same = [n for n in names if n != src and tab.kind[n][0] == k[0] and (k[0] == "mem" or tab.kind[n][1:] == k[1:])]
            pick = same if b % 5 and same else names
            dst = pick[(b // 5) % len(pick)]
            ctx = f"edit {x}: move {p.name} from {src} to {dst}{' with assignment' if assign else ''}"
            kd = tab.kind[dst]
            compatible = kd[0] == k[0] and (k[0] == "mem" or kd[1:] == k[1:])
            must = compatible and dst != src
            if must and assign:
                rest = [q for q in tab.content(src) if q is not p]
                must = tab.valid(dst, [*tab.content(dst), p]) and tab.valid(src, rest)
            named = by % 2 and len([q for q in tab.content(src) if q.name == p.name]) == 1
            try:
                arch.move_process(
                    p.name if named else p,
                    src if by & 2 else arch.resource_from_name(src),
                    dst if by & 4 else arch.resource_from_name(dst),
                    assign=assign,
                )
            except (ValueError, TypeError, KeyError) as e:
                err = e
            else:
                tab.where[id(p)] = (p, dst)
                moved += 1
                for n in (src, dst):
                    ensure(arch.resource_from_name(n).is_assigned == assign, f"{ctx}: {n} is {'not ' if assign else ''}assigned")
        elif kind == "wrong":
            # a process that is not where it is moved from
            keys = list(tab.where)
            p, src = tab.where[keys[a % len(keys)]]
            other = [n for n in names if n != src]
            if not other:
                continue
            n = other[b % len(other)]
            must = False
            ctx = f"edit {x}: move {p.name} from {n} where it is not"
            try:
                arch.move_process(p, n, src, assign=assign)
            except (ValueError, TypeError, KeyError) as e:
                err = e
        elif kind == "remove":
            empty = [n for n in names if not tab.content(n)]
            n = (empty or names)[a % len(empty or names)] if b % 3 else names[a % len(names)]
            must = not tab.content(n)
            ctx = f"edit {x}: remove {n}"
            try:
                arch.remove_resource(n if by % 2 else arch.resource_from_name(n))
            except ValueError as e:
                err = e
            else:
                if must:
                    del tab.kind[n]
        elif kind == "add":
            full = [n for n in names if len(tab.content(n)) > 1]
            if not full:
                continue
            src = full[a % len(full)]
            p = sorted(tab.content(src), key=lambda q: (q.start_time, q.name))[b % len(tab.content(src))]
            k = tab.kind[src]
            same = [n for n in names if tab.kind[n][0] == k[0]]
            name = same[b % len(same)] if by == 0 else f"new{x}"
            time = T + 1 if by == 1 else T
            must = by > 1
            ctx = f"edit {x}: add {name} with {p.name} of {src} and schedule time {time}"
            coll = ProcessCollection([p], time)
            new = ProcessingElement(coll, name, assign=False) if k[0] == "pe" else Memory(coll, entity_name=name)
            res = arch.resource_from_name(src)
            if must:
                res.remove_process(p)
            try:
                arch.add_resource(new)
            except ValueError as e:
                err = e
            else:
                W, R, A = accesses([(p.start_time, sorted(set(p.reads.values())))], T) if k[0] == "mem" else ([0], [0], [0])
                tab.kind[name] = k if k[0] == "pe" else ("mem", max(R), max(W), None)
                tab.where[id(p)] = (p, name)
        elif kind == "assign":
            must = all(tab.valid(n, tab.content(n)) for n in names)
            ctx = f"edit {x}: assign all"
            try:
                arch.assign_resources()
            except ValueError as e:
                err = e
                before = None  # some resources may have been assigned
            else:
                for n in names:
                    ensure(arch.resource_from_name(n).is_assigned, f"{ctx}: {n} is not assigned")
        if err is None:
            ensure(must, f"{ctx}: accepted")
        else:
            ensure(not must, f"{ctx}: refused: {type(err).__name__} {err}")
            refused += 1
            rec.label(f"refused {kind}")
            if before is not None:
                ensure(state(arch) == before, f"{ctx}: refused ({err}), but it changed the resources: {state(arch)}, before {before}")
        mux = max(mux, compare(arch, tab, dontcare, ctx))
    rec.nt(moved >= 3 and refused >= 1 and mux > 0)


def construction(case, rec):
    """Resources that cannot be combined."""
    from b_asic.architecture import Architecture, Memory, ProcessingElement
    from b_asic.resources import ProcessCollection

    sched = schedule_of(case)
    if sched is None or any(o.type_name() == "sink" for o in sched.sfg.operations):
        return
    T = sched.schedule_time
    ops = sorted(sched.get_operations(), key=lambda p: p.operation.graph_id)
    direct, mem = sched.get_memory_variables().split_on_length()
    variables = sorted(mem, key=lambda v: v.name)

    def build(skip_op=None, skip_var=None, names=None, T2=T, dirs=direct):
        pes = [ProcessingElement(ProcessCollection([p], T), f"pe{k}", assign=False) for k, p in enumerate(ops) if p is not skip_op]
        mems = []
        for k, v in enumerate(variables):
            if v is not skip_var:
                mems.append(Memory(ProcessCollection([v], T2 if k == 0 else T), entity_name=f"mem{k}", assign=False))
        if names == "pe":
            pes[-1].set_entity_name("pe0")
        elif names == "mem":
            mems[-1].set_entity_name("mem0")
        return Architecture(pes, mems, direct_interconnects=dirs)

    build()
    n = 0
    a = case["which"]

    def must_fail(what, exc=ValueError, **kw):
        nonlocal n
        n += 1
        try:
            build(**kw)
        except exc:
            return
        raise Violation(f"accepted: {what}")

    if len(ops) > 1:
        must_fail("two processing elements of one name", names="pe")
    if len(variables) > 1:
        must_fail("two memories of one name", names="mem")
    if variables:
        v = variables[a % len(variables)]
        must_fail(f"no memory for {v.name}", skip_var=v)
        must_fail("different schedule times", T2=T + 1)
    if len(direct):
        must_fail("direct connections left out", dirs=None)
    p = ops[a % len(ops)]
    if p.operation.input_count or p.operation.outputs[0].signals:
        dontcares = all(
            x.signals and x.connected_source.operation.type_name() == "dontcare" for x in p.operation.inputs
        ) and not any(x.signals for x in p.operation.outputs)
        if not dontcares:
            must_fail(f"no processing element for {p.name}", exc=(ValueError, KeyError), skip_op=p)
    for p in ops:
        for q in ops:
            if type(p.operation) is not type(q.operation) or p.operation.latency != q.operation.latency:
                n += 1
                try:
                    ProcessingElement(ProcessCollection([p, q], T), "pe", assign=False)
                except (TypeError, ValueError):
                    pass
                else:
                    raise Violation(f"accepted: a processing element of {p} and {q}")
    for bad in ("1a", "a b", "entity", "a-b", ""):
        try:
            ProcessingElement(ProcessCollection([ops[0]], T), bad, assign=False)
        except ValueError:
            continue
        raise Violation(f"accepted: entity name {bad!r}")
    for other in (list, set):
        try:
            ProcessingElement(ProcessCollection(other(), T), "pe")
        except ValueError:
            continue
        raise Violation("accepted: processing element without operations")
    if variables:
        v = variables[a % len(variables)]
        W, R, A = accesses([(v.start_time, sorted(set(v.reads.values())))], T)
        for r, w, t in ((max(R) - 1, 1, 2), (9, 9, max(A) - 1), (9, 0, 9)):
            if r < 1 and max(R) > 1:
                continue
            try:
                Memory(ProcessCollection([v], T), entity_name="m", read_ports=r, write_ports=w, total_ports=t)
            except ValueError:
                continue
            raise Violation(f"accepted: memory with {r} read, {w} write, {t} ports for {v.name} read {v.reads} at {v.start_time}, T={T}")
    rec.nt(n >= 4 and len(ops) > 3)


CMD = st.tuples(
    st.sampled_from(["move"] * 6 + ["wrong", "remove", "remove", "assign", "add"]),
    st.integers(0, 63),
    st.integers(0, 63),
    st.booleans(),
    st.integers(0, 7),
).map(list)
CASE = {
    **STRAT,
    "ports": st.tuples(st.integers(1, 2), st.integers(1, 2), st.integers(1, 4)).map(list),
    "place": st.lists(st.integers(0, 23), min_size=1, max_size=12),
    "assign": st.booleans(),
    "form": st.integers(0, 2),
}
FACETS = [
    Facet("edits", st.fixed_dictionaries({**CASE, "cmds": st.lists(CMD, min_size=4, max_size=14)}), history, 900, 30000, shards=7),
    Facet("construction", st.fixed_dictionaries(STRAT), construction, 150, 3000, shards=1),
]
