"""C09: timing and resource bounds of a graph are the true bounds."""

from fractions import Fraction

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..obs import same, sfg_view
from ..sfggen import OPS, Graph, any_spec, apply_timing, build, class_of, params_strategy, spec_strategy

RULE = (
    "Random graphs with random latency offsets and execution times per operation; loops are enumerated and the longest paths "
    "and loop ratios computed by independent searches over the plain-data graph. Non-trivial: the graph has a loop through an "
    "operation with latency, or (timing of operations) a multi-port operation with offsets."
)

TIM = st.fixed_dictionaries(
    {
        "in": st.lists(st.integers(0, 3), min_size=1, max_size=3),
        "out": st.lists(st.integers(0, 8), min_size=1, max_size=3),
        "ex": st.one_of(st.none(), st.integers(0, 6)),
    }
)


def timing_of(g, tim):
    """{node: {"in": [...], "out": [...], "ex"}} for nodes that take time; outputs never precede inputs."""
    res = {}
    for i, n in enumerate(g.nodes):
        if n["k"] in ("in", "t", "c"):
            continue
        t = tim[i % len(tim)]
        no, ni = n["no"], len(n["src"])
        ins = [t["in"][j % len(t["in"])] for j in range(ni)]
        outs = [max(ins) + t["out"][j % len(t["out"])] for j in range(no)]
        res[i] = {"in": ins, "out": outs, "ex": t["ex"]}
    return res


def in_off(tm, i, j):
    return tm[i]["in"][j] if i in tm else 0


def out_off(tm, i, j):
    return tm[i]["out"][j] if i in tm else 0


def without_inputs(g):
    """The graph with constants for its inputs, sinks replaced by outputs."""
    for n in g.nodes:
        if n["k"] == "in":
            n["k"], n["p"] = "c", {"value": 1}
    g.ni = 0
    g.outs += [s for s in g.sinks if s not in g.outs]
    g.sinks = []
    return g


def all_cycles(g, limit=4000):
    """Simple cycles over operations as {frozenset-free tuple from smallest node: max latency needed}, or None if too many."""
    edges = {}
    for i, n in enumerate(g.nodes):
        for j, (s, p) in enumerate(n["src"]):
            if g.nodes[s]["k"] != "in":
                edges.setdefault(s, []).append((i, p, j))
    res = {}
    count = [0]

    def walk(start, node, path, seen):
        for nxt, p, j in edges.get(node, []):
            if nxt < start:
                continue
            count[0] += 1
            if count[0] > limit:
                return
            if nxt == start:
                res.setdefault(tuple(path), []).append([])
            elif nxt not in seen:
                walk(start, nxt, [*path, nxt], seen | {nxt})

    for start in range(len(g.nodes)):
        walk(start, start, [start], {start})
        if count[0] > limit:
            return None
    return set(res)


def delay_only_loop(g):
    """Is there a loop that consists of nothing but delays?"""
    for i, n in enumerate(g.nodes):
        seen = set()
        while g.nodes[i]["k"] == "t" and i not in seen:
            seen.add(i)
            i = g.nodes[i]["src"][0][0]
        if i in seen:
            return True
    return False


def loop_time(g, tm, cyc):
    """The largest latency around the loop over all choices of parallel signals."""
    n = len(cyc)
    hops = []
    for a in range(n):
        u, v = cyc[a], cyc[(a + 1) % n]
        hops.append([(p, j) for j, (s, p) in enumerate(g.nodes[v]["src"]) if s == u])
    best = None

    def go(k, first_in, cur_in, total):
        # cur_in: input port through which operation cyc[k] was entered
        nonlocal best
        for p, j in hops[k]:
            t = total + out_off(tm, cyc[k], p) - (0 if cur_in is None else in_off(tm, cyc[k], cur_in))
            if k == n - 1:
                t -= in_off(tm, cyc[0], j)
                if best is None or t > best:
                    best = t
            else:
                go(k + 1, first_in, j, t)

    go(0, None, None, 0)
    return best


def bounds(case, rec):
    g = Graph(case["spec"])
    if case["noin"]:
        g = without_inputs(g)
    tm = timing_of(g, case["tim"])
    sfg = build(g, case["spec"]["sty"], timing=tm).sfg
    view = sfg_view(sfg)
    ids = {}
    for op in sfg.operations:
        if op.name.startswith("n"):
            ids[int(op.name[1:])] = op.graph_id
    cycles = all_cycles(g)
    if cycles is not None:
        exp = set()
        for c in cycles:
            names = [ids[i] for i in c]
            k = names.index(min(names))
            exp.add((*names[k:], *names[:k]))
        got = []
        for loop in sfg.loops:
            ensure(len(loop) >= 2 and loop[0] == loop[-1], f"loop {loop} is not closed")
            body = loop[:-1]
            k = body.index(min(body))
            got.append((*body[k:], *body[:k]))
        ensure(len(set(got)) == len(got), f"loops reported twice: {sorted(got)}")
        ensure(set(got) == exp, f"loops {sorted(got)}, expected {sorted(exp)}")
        # every loop contains a delay
        ratios = [
            Fraction(loop_time(g, tm, c), sum(g.nodes[i]["k"] == "t" for i in c))
            for c in cycles
        ]
        if "c" not in {g.nodes[i]["k"] for c in cycles for i in c}:
            ipb = sfg.iteration_period_bound()
            want = max(ratios) if ratios else -1
            ensure(ipb == want, f"iteration period bound is {ipb}, expected {want} (loops {sorted(exp)})")
            # asking again gives the same
            ensure(sfg.iteration_period_bound() == want, "iteration period bound changed when asked again")
        rec.label("loops" if cycles else "no loop")
        if any(r.denominator > 1 for r in ratios):
            rec.label("fractional bound")
        rec.nt(any(r > 0 for r in ratios))
        if case["noin"] and cycles:
            rec.label("loops without input")
    # critical path: earliest start of everything, no earlier than 0
    start = {}
    end = 0
    for i, n in enumerate(g.nodes):
        if n["k"] in ("in", "t", "c"):
            start[i] = 0
        else:
            start[i] = max(
                [0]
                + [start[s] + out_off(tm, s, p) - in_off(tm, i, j) for j, (s, p) in enumerate(n["src"])]
            )
            end = max([end, *(start[i] + o for o in tm[i]["out"])])
    if not delay_only_loop(g) and end > 0 and len(sfg.get_precedence_list()) >= 2 and not (case["noin"] and not case["spec"]["d"]):
        cpt = sfg.critical_path_time()
        ensure(cpt == end, f"critical path time is {cpt}, expected {end}")
    # resources
    by_type = {}
    for i, n in enumerate(g.nodes):
        if n["k"] not in ("in", "t", "c"):
            by_type.setdefault(n["k"], []).append(tm[i]["ex"])
    for t, exs in by_type.items():
        for time in case["times"]:
            if None in exs:
                try:
                    r = sfg.resource_lower_bound(t, time)
                except ValueError:
                    continue
                raise Violation(f"resource bound {r} of {t} without execution times")
            r = sfg.resource_lower_bound(t, time)
            ensure(r == -(-sum(exs) // time), f"{r} resources for {exs} in {time}")
        for time in (0, -3):
            try:
                r = sfg.resource_lower_bound(t, time)
            except ValueError:
                continue
            raise Violation(f"resource bound {r} of {t} for schedule time {time}")
    ensure(sfg.resource_lower_bound("nosuchtype", 3) == 0, "resources needed for a type that is not used")
    same(view, sfg_view(sfg), "asking for bounds changed the graph")


def offsets_of(op):
    return dict(op.latency_offsets)


def refused(f):
    try:
        f()
    except ValueError:
        return True
    return False


def operation_timing(case, rec):
    t = case["t"]
    p = dict(case["p"])
    if isinstance(p.get("value"), list):
        p["value"] = tuple(p["value"])
    o = OPS[t]
    cls = class_of(t)
    ports = [f"in{j}" for j in range(o.ni)] + [f"out{j}" for j in range(o.no)]
    c = case["ctor"]
    kw = {}
    model = dict.fromkeys(ports)
    if c["offs"]:
        offs = {ports[k % len(ports)]: v for k, v in c["offs"]}
        kw["latency_offsets"] = {k.upper() if case["upper"] else k: v for k, v in offs.items()}
        model.update(offs)
    if c["lat"] is not None:
        kw["latency"] = c["lat"]
        for q in ports:
            if model[q] is None:
                model[q] = 0 if q.startswith("in") else c["lat"]
    ex = c["ex"]
    if ex is not None:
        kw["execution_time"] = ex
    ensure(refused(lambda: cls(**p, latency=-1)), f"{t} with latency -1 accepted")
    ensure(refused(lambda: cls(**p, execution_time=-2)), f"{t} with execution time -2 accepted")
    op = cls(**p, **kw)

    def look(hist):
        ensure(offsets_of(op) == model, f"{t} after {hist}: latency offsets {offsets_of(op)}, expected {model}")
        ensure(op.execution_time == ex, f"{t} after {hist}: execution time {op.execution_time}, expected {ex}")
        ins = [model[q] for q in ports if q.startswith("in")]
        outs = [model[q] for q in ports if q.startswith("out")]
        if None in model.values():
            ensure(refused(lambda: op.latency), f"{t}: latency {model} available though offsets are missing")
            return
        lat = max(b - a for a in ins for b in outs)
        ensure(op.latency == lat, f"{t} after {hist}: latency {op.latency}, expected {lat} ({model})")
        ic, oc = op.get_input_coordinates(), op.get_output_coordinates()
        ensure(
            [x for x, _ in ic] == ins and [x for x, _ in oc] == outs,
            f"{t} after {hist}: port coordinates {ic} {oc} for offsets {model}",
        )
        for cs in (ic, oc):
            n = len(cs)
            ensure(
                all(abs(y - (2 * k + 1) / (2 * n)) < 1e-12 for k, (_, y) in enumerate(cs)),
                f"{t}: port coordinates {cs} are not spread evenly",
            )
        lp, ep = op.get_plot_coordinates()
        ensure(lp[0] == lp[-1], f"{t}: latency outline {lp} is not closed")
        ensure({x for x, _ in lp} == {*ins, *outs}, f"{t}: latency outline {lp} for {model}")
        if ex is None:
            ensure(len(ep) == 0, f"{t}: execution outline {ep} without execution time")
        else:
            ensure(
                ep[0] == ep[-1] and {tuple(q) for q in ep} == {(0, 0), (0, 1), (ex, 1), (ex, 0)},
                f"{t}: execution outline {ep} for {ex}",
            )

    look(["creation"])
    hist = ["creation"]
    for kind, a, b in case["acts"]:
        hist.append((kind, a, b))
        if kind == 0:
            op.set_latency(a)
            model = {q: 0 if q.startswith("in") else a for q in ports}
        elif kind == 1:
            offs = {ports[a % len(ports)]: b, ports[(a + b) % len(ports)]: a}
            op.set_latency_offsets(offs)
            model.update(offs)
        elif kind == 2:
            op.execution_time = a
            ex = a
        elif kind == 3:
            op.execution_time = None
            ex = None
        elif kind == 4:
            ensure(refused(lambda: op.set_latency(-1 - a)), f"{t}: latency {-1 - a} accepted")
        elif kind == 5:

            def neg():
                op.execution_time = -1 - a

            ensure(refused(neg), f"{t}: execution time {-1 - a} accepted")
        else:
            bad = ["x0", "inx", "out", "0", "in-1", "latency"][a % 6]
            ensure(refused(lambda: op.set_latency_offsets({bad: b})), f"{t}: latency offset for {bad!r} accepted")
        look(hist)
    rec.nt(len(ports) > 2 and any(v for v in model.values()))


ACT = st.tuples(st.integers(0, 6), st.integers(0, 9), st.integers(0, 9)).map(list)

one_op = st.sampled_from(sorted(t for t in OPS if t != "c")).flatmap(
    lambda t: st.fixed_dictionaries(
        {
            "t": st.just(t),
            "p": params_strategy(t, False),
            "upper": st.booleans(),
            "ctor": st.fixed_dictionaries(
                {
                    "offs": st.lists(st.tuples(st.integers(0, 20), st.integers(0, 9)).map(list), max_size=4),
                    "lat": st.one_of(st.none(), st.integers(0, 9)),
                    "ex": st.one_of(st.none(), st.integers(0, 9)),
                }
            ),
            "acts": st.lists(ACT, max_size=4),
        }
    )
)


def by_type(case, rec):
    """Setting timing by type or type name affects exactly the operations of that type."""
    g = Graph(case["spec"])
    tm = timing_of(g, case["tim"])
    sfg = build(g, case["spec"]["sty"], timing=tm).sfg
    model = {}
    for i, t in tm.items():
        model[i] = ({**{f"in{j}": v for j, v in enumerate(t["in"])}, **{f"out{j}": v for j, v in enumerate(t["out"])}}, t["ex"])
    byname = {int(op.name[1:]): op for op in sfg.operations if op.name.startswith("n")}
    kinds = sorted({n["k"] for n in g.nodes} - {"in", "t", "c"})
    if not kinds:
        return
    for what, k, v, style in case["acts"]:
        t = kinds[k % len(kinds)]
        key = class_of(t) if style else class_of(t).type_name()
        hit = [i for i in model if g.nodes[i]["k"] == t]
        if what == 0:
            (sfg.set_latency_of_type if style else sfg.set_latency_of_type_name)(key, v)
            for i in hit:
                model[i] = ({q: 0 if q.startswith("in") else v for q in model[i][0]}, model[i][1])
        elif what == 1:
            (sfg.set_execution_time_of_type if style else sfg.set_execution_time_of_type_name)(key, v)
            for i in hit:
                model[i] = (model[i][0], v)
        else:
            q = sorted(model[hit[0]][0])[v % len(model[hit[0]][0])]
            (sfg.set_latency_offsets_of_type if style else sfg.set_latency_offsets_of_type_name)(key, {q: v})
            for i in hit:
                model[i] = ({**model[i][0], q: v}, model[i][1])
    for i, (offs, ex) in model.items():
        op = byname[i]
        ensure(
            offsets_of(op) == offs and op.execution_time == ex,
            f"{op.graph_id}: {offsets_of(op)} {op.execution_time}, expected {offs} {ex}",
        )
    for i, n in enumerate(g.nodes):
        if n["k"] in ("in", "t"):
            ensure(byname[i].latency == 0, f"latency of {byname[i].graph_id} is {byname[i].latency}")
    rec.nt(len(kinds) >= 2 and len(case["acts"]) >= 2)


LOOPY = st.one_of(
    spec_strategy("linear_real", min_delays=1, max_delays=4, max_ops=8),
    spec_strategy("real", types=["add", "add", "cmul", "sub", "sym2p", "r2bfly", "addsub", "shift", "ser3p"], min_delays=1, max_delays=4, max_ops=8),
    any_spec(("real", "cplx"), max_ops=7),
)

FACETS = [
    Facet(
        "bounds",
        st.fixed_dictionaries(
            {
                "spec": LOOPY,
                "noin": st.sampled_from([False, False, False, True]),
                "tim": st.lists(TIM, min_size=1, max_size=5),
                "times": st.lists(st.integers(1, 12), min_size=1, max_size=2),
            }
        ),
        bounds,
        2000,
        60000,
        shards=5,
    ),
    Facet("operations", one_op, operation_timing, 1200, 30000, shards=1),
    Facet(
        "by type",
        st.fixed_dictionaries(
            {
                "spec": any_spec(("real", "linear_real"), max_ops=7),
                "tim": st.lists(TIM, min_size=1, max_size=4),
                "acts": st.lists(
                    st.tuples(st.integers(0, 2), st.integers(0, 5), st.integers(0, 9), st.integers(0, 1)).map(list),
                    min_size=1,
                    max_size=4,
                ),
            }
        ),
        by_type,
        700,
        20000,
        shards=2,
    ),
]
