"""Plain-data view of schedules, shared by the checks on scheduling.

The *contracted* graph of a `sfggen.Graph` has every node except the delays and an edge per operand:
(producer node, port) -> (consumer, port) with the number of delays between them.  Consumers and producers are named as
in the built graph: n<i>, out<k>, sink<k>.
"""

from hypothesis import strategies as st

from .core import Violation, ensure
from .sfggen import Graph, build

INF = 2**62


def break_delay_loops(spec):
    """A spec without loops made of delays only (such graphs cannot be scheduled)."""
    spec = {**spec, "d": [dict(d) for d in spec["d"]]}
    while True:
        g = Graph(spec)
        bad = None
        for i in g.delays:
            seen = set()
            k = i
            while g.nodes[k]["k"] == "t" and k not in seen:
                seen.add(k)
                k = g.nodes[k]["src"][0][0]
            if k == i and g.nodes[k]["k"] == "t":
                bad = i
                break
        if bad is None:
            return g
        spec["d"][bad - g.ni]["s"] = 0


class Contracted:
    """edges: list of (u, p, v, j, d): value p of u is operand j of v, d iterations later.  Names as strings."""

    def __init__(self, g, tm):
        self.g = g
        self.names = [f"n{i}" for i, n in enumerate(g.nodes) if n["k"] != "t"]
        self.names += [f"out{k}" for k in range(len(g.outs))] + [f"sink{k}" for k in range(len(g.sinks))]
        self.kind = {f"n{i}": n["k"] for i, n in enumerate(g.nodes) if n["k"] != "t"}
        self.kind.update({f"out{k}": "out" for k in range(len(g.outs))})
        self.kind.update({f"sink{k}": "sink" for k in range(len(g.sinks))})
        self.ino = {}
        self.outo = {}
        self.ex = {}
        for i, n in enumerate(g.nodes):
            if n["k"] == "t":
                continue
            if i in tm:
                self.ino[f"n{i}"] = tm[i]["in"]
                self.outo[f"n{i}"] = tm[i]["out"]
                self.ex[f"n{i}"] = tm[i]["ex"]
            else:
                self.ino[f"n{i}"] = [0] * len(n["src"])
                self.outo[f"n{i}"] = [0] * n["no"]
                self.ex[f"n{i}"] = 0
        for nm in self.names:
            if nm not in self.ino:
                self.ino[nm], self.outo[nm], self.ex[nm] = [0], [], 0
        self.edges = []
        for i, n in enumerate(g.nodes):
            if n["k"] != "t":
                for j, s in enumerate(n["src"]):
                    self._edge(s, f"n{i}", j)
        for k, s in enumerate(g.outs):
            self._edge(s, f"out{k}", 0)
        for k, s in enumerate(g.sinks):
            self._edge(s, f"sink{k}", 0)
        self.fan_in = {nm: [] for nm in self.names}
        self.fan_out = {nm: [] for nm in self.names}
        for e in self.edges:
            self.fan_out[e[0]].append(e)
            self.fan_in[e[2]].append(e)

    def _edge(self, s, v, j):
        d = 0
        while self.g.nodes[s[0]]["k"] == "t":
            d += 1
            s = self.g.nodes[s[0]]["src"][0]
        self.edges.append((f"n{s[0]}", s[1], v, j, d))

    def own_lists(self):
        """Make the timing changeable per operation, one entry per port."""
        for nm in self.names:
            ni = len(self.fan_in[nm])
            i = int(nm[1:]) if nm[0] == "n" else None
            no = self.g.nodes[i]["no"] if i is not None else 0
            self.ino[nm] = list(self.ino[nm])[:ni]
            self.outo[nm] = list(self.outo[nm])[:no]

    def swap(self, nm):
        """The two operands of nm change place (with their ports)."""
        self.edges = [(u, p, v, 1 - j if v == nm else j, d) for u, p, v, j, d in self.edges]
        self.ino[nm] = self.ino[nm][::-1]
        self.fan_in = {x: [] for x in self.names}
        self.fan_out = {x: [] for x in self.names}
        for e in self.edges:
            self.fan_out[e[0]].append(e)
            self.fan_in[e[2]].append(e)

    def scale(self, f):
        for nm in self.names:
            self.ino[nm] = [f(x) for x in self.ino[nm]]
            self.outo[nm] = [f(x) for x in self.outo[nm]]
            if self.kind[nm] not in ("in", "out", "c", "sink") and self.ex[nm] is not None:
                self.ex[nm] = f(self.ex[nm])

    def asap(self, fixed=None):
        fixed = fixed or {}
        t = {}
        for v in self.names:
            t[v] = fixed.get(v, 0) if v in fixed else max(
                [0] + [t[u] + self.outo[u][p] - self.ino[v][j] for u, p, _, j, d in self.fan_in[v] if d == 0]
            )
        return t

    def end(self, t):
        """Latest production of any value, or arrival at an output."""
        return max(
            [0]
            + [t[u] + o for u in self.names for o in self.outo[u]]
            + [t[u] for u in self.names if self.kind[u] in ("out", "sink")]
        )

    def loops_ok(self, T):
        """Is there a schedule with period T (no loop takes longer than its delays allow)?"""
        pot = dict.fromkeys(self.names, 0)
        for _ in range(len(self.names) + 1):
            changed = False
            for u, p, v, j, d in self.edges:
                x = pot[u] + self.outo[u][p] - self.ino[v][j] - T * d
                if x > pot[v]:
                    pot[v] = x
                    changed = True
            if not changed:
                return True
        return False


def by_name(ops, prefix=("n", "out", "sink")):
    res = {}
    for op in ops:
        nm = op.name
        base = nm.rstrip("0123456789")
        if base in prefix and nm != base:
            if nm in res:
                raise Violation(f"two operations are called {nm}")
            res[nm] = op
    return res


class State:
    """What a schedule says: T, start times by name, delays per operand."""

    def __init__(self, sched, con, ctx=""):
        sfg = sched.sfg
        self.T = sched.schedule_time
        ops = by_name(sfg.operations)
        ensure(
            sorted(ops) == sorted(con.names),
            f"{ctx}: operations in the schedule's graph {sorted(ops)}, expected {sorted(con.names)}",
        )
        self.ids = {nm: op.graph_id for nm, op in ops.items()}
        st_ = dict(sched.start_times)
        extra = set(st_) - set(self.ids.values())
        missing = set(self.ids.values()) - set(st_)
        ensure(not extra and not missing, f"{ctx}: start times for {sorted(extra)} unexpected, for {sorted(missing)} missing")
        self.start = {nm: st_[i] for nm, i in self.ids.items()}
        self.d = {}
        for u, p, v, j, _ in con.edges:
            port = ops[v].input(j)
            n = 0
            sigs = port.signals
            while True:
                ensure(len(sigs) == 1, f"{ctx}: operand {j} of {v} has {len(sigs)} signals")
                src = sigs[0].source
                if src.operation.type_name() == "t":
                    n += 1
                    sigs = src.operation.input(0).signals
                    ensure(n < 10000, f"{ctx}: loop of delays before {v}")
                    continue
                break
            ensure(
                src.operation.name == u and src.index == p,
                f"{ctx}: operand {j} of {v} comes from {src.operation.name}.{src.index}, expected {u}.{p}",
            )
            self.d[v, j] = n

    def slack(self, con, e):
        u, p, v, j, _ = e
        return self.start[v] + con.ino[v][j] + self.T * self.d[v, j] - self.start[u] - con.outo[u][p]

    def potentials(self, con, ctx=""):
        """Laps L with d'(u->v) = d(u->v) + L(v) - L(u); one output (or any operation) of every part has L = 0."""
        L = {}
        adj = {nm: [] for nm in con.names}
        for u, p, v, j, d in con.edges:
            diff = self.d[v, j] - d
            adj[u].append((v, diff, (u, p, v, j, d)))
            adj[v].append((u, -diff, (u, p, v, j, d)))
        for root in sorted(con.names, key=lambda nm: (con.kind[nm] != "out", con.kind[nm] != "sink")):
            if root in L:
                continue
            L[root] = 0
            todo = [root]
            while todo:
                x = todo.pop()
                for y, diff, e in adj[x]:
                    if y not in L:
                        L[y] = L[x] + diff
                        todo.append(y)
                    else:
                        ensure(
                            L[y] == L[x] + diff,
                            f"{ctx}: delays are not conserved: operand {e[3]} of {e[2]} has {self.d[e[2], e[3]]} delays, "
                            f"originally {e[4]}",
                        )
        return L


def check_valid(sched, con, ctx="", T=None):
    """The schedule executes every operation within its period, every operand is there in time, delays are conserved."""
    s = State(sched, con, ctx)
    if T is not None:
        ensure(s.T == T, f"{ctx}: schedule time {s.T}, expected {T}")
    for nm in con.names:
        t = s.start[nm]
        ensure(isinstance(t, int) and 0 <= t <= s.T, f"{ctx}: start time of {nm} is {t}, schedule time {s.T}")
    for e in con.edges:
        sl = s.slack(con, e)
        ensure(
            sl >= 0,
            f"{ctx}: operand {e[3]} of {e[2]} is used {-sl} before {e[0]} produces it "
            f"(start {s.start[e[2]]} and {s.start[e[0]]}, {s.d[e[2], e[3]]} delays, T {s.T})",
        )
    s.L = s.potentials(con, ctx)
    return s


def check_slacks(sched, con, s, ctx=""):
    import sys

    for nm in con.names:
        f = min([s.slack(con, e) for e in con.fan_out[nm]], default=sys.maxsize)
        b = min([s.slack(con, e) for e in con.fan_in[nm]], default=sys.maxsize)
        gid = s.ids[nm]
        got = (sched.backward_slack(gid), sched.forward_slack(gid))
        ensure(got == (b, f), f"{ctx}: slacks of {nm} are {got}, expected {(b, f)}")
        ensure(tuple(sched.slacks(gid)) == got, f"{ctx}: slacks() of {nm} differ")


TIM = st.fixed_dictionaries(
    {
        "in": st.lists(st.integers(0, 3), min_size=1, max_size=3),
        "out": st.lists(st.integers(0, 6), min_size=1, max_size=3),
        "ex": st.integers(1, 4),
    }
)


def timing_of(g, tim, minlat=0):
    """{node: {"in": [...], "out": [...], "ex"}} for nodes that take time; outputs never precede inputs."""
    res = {}
    for i, n in enumerate(g.nodes):
        if n["k"] in ("in", "t", "c"):
            continue
        t = tim[i % len(tim)]
        no, ni = n["no"], len(n["src"])
        ins = [t["in"][j % len(t["in"])] for j in range(ni)]
        outs = [max([*ins, 0]) + max(minlat, t["out"][j % len(t["out"])]) for j in range(no)]
        res[i] = {"in": ins, "out": outs, "ex": t["ex"]}
    return res


def prepare(case, minlat=0):
    """(graph, contracted graph, SFG) of a case with "spec" and "tim"."""
    g = break_delay_loops(case["spec"])
    tm = timing_of(g, case["tim"], minlat)
    con = Contracted(g, tm)
    sfg = build(g, case["spec"]["sty"], timing=tm).sfg
    return g, con, sfg
