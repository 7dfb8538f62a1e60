"""Random signal flow graphs as plain data, an independent evaluator, and a builder.

A *spec* is JSON data:

    {"ni": number of inputs,
     "d":  [{"i": initial value, "s": ref}, ...]           delays
     "o":  [{"t": type, "p": {params}, "s": [ref, ...]}]   other operations
     "out": [ref, ...]                                     explicit outputs
     "sty": int}                                           how the graph is wired up

A ref is an integer taken modulo the number of ports that may be used there:
inputs, then delays, then the outputs of the operations in order.  The sources
of operation k are earlier ports only, so there is never a delay-free loop;
delays and outputs may use any port.  Every port left without a consumer gets
an output operation of its own (unless "dangle" allows otherwise).
"""

import cmath
import math

from hypothesis import strategies as st

# ----------------------------------------------------------------- reference semantics


class Unstable(Exception):
    """Numerically meaningless from here on: not compared."""


BIG = 1e8
TINY = 1e-6


def _chk(v):
    if isinstance(v, complex):
        m = max(abs(v.real), abs(v.imag))
    else:
        m = abs(v)
    if not m <= BIG:
        raise Unstable
    return v


def _add(p, a, b, add):
    if p.get("mul_j"):
        b = b * 1j
    r = a + b if add else a - b
    return r / 2 ** p.get("shift_output", 0)


def _dft(xs, sign=-1):
    n = len(xs)
    return [
        sum(x * cmath.exp(sign * 2j * cmath.pi * k * i / n) for i, x in enumerate(xs))
        for k in range(n)
    ]


def _branch_safe(z):
    z = complex(z)
    if abs(z) < TINY or (z.real < 0 and abs(z.imag) < 1e-3 * abs(z.real)):
        raise Unstable
    return z


def _real_pair(a, b):
    if isinstance(a, complex) or isinstance(b, complex):
        raise Unstable
    return a, b


def ref_op(t, p, x):
    """Outputs of an operation of type name t with parameters p for input values x."""
    if t == "c":
        return [p["value"]]
    if t == "neg":
        return [-x[0]]
    if t == "add":
        return [_add(p, x[0], x[1], True)]
    if t == "sub":
        return [_add(p, x[0], x[1], False)]
    if t == "addsub":
        return [_add(p, x[0], x[1], p["is_add"])]
    if t == "shiftaddsub":
        return [_add(p, x[0], x[1] / 2 ** p["shift"], p["is_add"])]
    if t == "mul":
        return [x[0] * x[1]]
    if t == "div":
        if abs(x[1]) < TINY:
            raise Unstable
        return [x[0] / x[1]]
    if t == "min":
        a, b = _real_pair(*x)
        return [a if a <= b else b]
    if t == "max":
        a, b = _real_pair(*x)
        return [a if a >= b else b]
    if t == "sqrt":
        return [cmath.sqrt(_branch_safe(x[0]))]
    if t == "conj":
        return [x[0].conjugate()]
    if t == "abs":
        return [abs(x[0])]
    if t == "imul":
        return [x[0] * 1j]
    if t == "cmul":
        return [x[0] * p["value"]]
    if t == "mad":
        return [x[0] * x[1] + x[2] if p["do_add"] else x[0] * x[1]]
    if t == "mads":
        prod = x[1] * x[2]
        base = x[0] if p["do_addsub"] else 0
        return [base + prod if p["is_add"] else base - prod]
    if t == "rec":
        if abs(x[0]) < TINY:
            raise Unstable
        return [1 / x[0]]
    if t == "recsqrt":
        return [1 / cmath.sqrt(_branch_safe(x[0]))]
    if t == "rshift":
        return [x[0] / 2 ** p["value"]]
    if t == "lshift":
        return [x[0] * 2 ** p["value"]]
    if t == "shift":
        return [x[0] * 2.0 ** (-p["value"])]
    if t == "r2bfly":
        return [x[0] + x[1], x[0] - x[1]]
    if t == "r2difbfly":
        return [x[0] + x[1], p["w"] * (x[0] - x[1])]
    if t == "r2ditbfly":
        return [x[0] + p["w"] * x[1], x[0] - p["w"] * x[1]]
    if t == "r2tfbfly":
        return [p["w0"] * (x[0] + x[1]), p["w1"] * (x[0] - x[1])]
    if t in ("r4bfly", "r3win", "r5win", "r7win"):
        return _dft(x)
    if t == "sym2p":
        g = p["value"]
        return [x[1] + g * (x[1] - x[0]), x[0] + g * (x[1] - x[0])]
    if t == "ser2p":
        # as pinned by the repository's own tests (see DESIGN.md, known findings)
        g = p["value"]
        y0 = x[0] - g * x[0]
        return [y0, -(x[0] + x[1] + y0)]
    if t == "par2p":
        g = p["value"]
        s = x[1] - x[0]
        y1 = x[1] - g * s
        return [y1 + s, y1]
    if t == "ser3p":
        g0, g1 = p["value"]
        g2 = 2 - g0 - g1
        s = x[0] + x[1] + x[2]
        return [x[0] - g0 * s, x[1] - g1 * s, x[2] - g2 * s]
    if t == "rfs3p":
        g = p["value"]
        s = x[0] + x[1] + x[2]
        # reflection free at port 1: gamma_1 = 1, gamma_0 = g, gamma_2 = 1 - g
        return [x[0] - g * s, x[1] - s, x[2] - (1 - g) * s]
    raise KeyError(t)


# ----------------------------------------------------------------- operation table

DYADIC = st.sampled_from(
    [0, 1, -1, 2, -2, 3, 0.5, -0.5, 0.25, -0.75, 1.5, -1.25, 0.375, -0.125, 5, -7]
)
NZ_DYADIC = st.sampled_from(
    [1, -1, 2, -2, 3, 0.5, -0.5, 0.25, -0.75, 1.5, -1.25, 0.375, -0.125, 0.8125]
)
CDYADIC = st.builds(complex, DYADIC, DYADIC)
BOOL = st.booleans()
SMALL = st.integers(0, 3)


class OpType:
    def __init__(self, t, ni, no, real=None, cplx=None, linear=False, cls=None):
        self.t, self.ni, self.no = t, ni, no
        self.real = real if real is not None else {}
        self.cplx = cplx if cplx is not None else self.real
        self.linear = linear


def _p(**kw):
    return kw


_F = st.just(False)
_ADD = _p(mul_j=_F, shift_output=SMALL)
_ADDC = _p(mul_j=BOOL, shift_output=SMALL)

OPS = {
    o.t: o
    for o in [
        OpType("c", 0, 1, _p(value=DYADIC), _p(value=CDYADIC)),
        OpType("neg", 1, 1, linear=True),
        OpType("add", 2, 1, _ADD, _ADDC, linear=True),
        OpType("sub", 2, 1, _ADD, _ADDC, linear=True),
        OpType("addsub", 2, 1, _p(is_add=BOOL, **_ADD), _p(is_add=BOOL, **_ADDC), True),
        OpType(
            "shiftaddsub",
            2,
            1,
            _p(is_add=BOOL, shift=SMALL, **_ADD),
            _p(is_add=BOOL, shift=SMALL, **_ADDC),
            True,
        ),
        OpType("mul", 2, 1),
        OpType("div", 2, 1),
        OpType("min", 2, 1),
        OpType("max", 2, 1),
        OpType("sqrt", 1, 1),
        OpType("conj", 1, 1),
        OpType("abs", 1, 1),
        OpType("imul", 1, 1, linear=True),
        OpType("cmul", 1, 1, _p(value=NZ_DYADIC), _p(value=CDYADIC), linear=True),
        OpType("mad", 3, 1, _p(do_add=BOOL)),
        OpType("mads", 3, 1, _p(is_add=BOOL, do_addsub=BOOL)),
        OpType("rec", 1, 1),
        OpType("recsqrt", 1, 1),
        OpType("rshift", 1, 1, _p(value=SMALL), linear=True),
        OpType("lshift", 1, 1, _p(value=SMALL), linear=True),
        OpType("shift", 1, 1, _p(value=st.integers(-3, 3)), linear=True),
        OpType("r2bfly", 2, 2, linear=True),
        OpType("r2difbfly", 2, 2, _p(w=NZ_DYADIC), _p(w=CDYADIC), linear=True),
        OpType("r2ditbfly", 2, 2, _p(w=NZ_DYADIC), _p(w=CDYADIC), linear=True),
        OpType(
            "r2tfbfly", 2, 2, _p(w0=NZ_DYADIC, w1=NZ_DYADIC), _p(w0=CDYADIC, w1=CDYADIC), True
        ),
        OpType("r4bfly", 4, 4, linear=True),
        OpType("r3win", 3, 3, linear=True),
        OpType("r5win", 5, 5, linear=True),
        OpType("r7win", 7, 7, linear=True),
        OpType("sym2p", 2, 2, _p(value=st.sampled_from([0, 0.5, -0.25, 0.75, -1])), linear=True),
        OpType("ser2p", 2, 2, _p(value=st.sampled_from([0, 0.5, 1.25, 1.75, 2])), linear=True),
        OpType("par2p", 2, 2, _p(value=st.sampled_from([0, 0.5, 1.25, 1.75, 2])), linear=True),
        OpType(
            "ser3p",
            3,
            3,
            _p(value=st.sampled_from([(0.5, 0.25), (1.25, 0.5), (0, 1), (0.75, 0.75)])),
            linear=True,
        ),
        OpType("rfs3p", 3, 3, _p(value=st.sampled_from([0, 0.25, 0.5, 0.875, 1])), linear=True),
    ]
}

LINEAR_REAL = [
    "neg", "add", "sub", "addsub", "shiftaddsub", "cmul", "cmul", "rshift", "lshift",
    "shift", "r2bfly", "r2difbfly", "r2ditbfly", "r2tfbfly", "sym2p", "ser2p", "par2p",
    "ser3p", "rfs3p", "add", "sub",
]
LINEAR_CPLX = [*LINEAR_REAL, "imul", "r4bfly", "r3win", "r5win", "r7win"]
NONLIN_REAL = [*LINEAR_REAL, "c", "mul", "div", "min", "max", "abs", "mad", "mads", "rec"]
NONLIN_CPLX = [*LINEAR_CPLX, "c", "mul", "div", "sqrt", "conj", "abs", "mad", "mads", "rec", "recsqrt"]

PROFILES = {
    "linear_real": (LINEAR_REAL, False),
    "linear_cplx": (LINEAR_CPLX, True),
    "real": (NONLIN_REAL, False),
    "cplx": (NONLIN_CPLX, True),
}


def class_of(t):
    import b_asic.core_operations as co
    import b_asic.fft_operations as fo
    import b_asic.special_operations as so
    import b_asic.wdf_operations as wo

    global _CLASSES
    if _CLASSES is None:
        _CLASSES = {}
        for m in (co, fo, so, wo):
            for v in vars(m).values():
                if isinstance(v, type) and hasattr(v, "type_name") and v.__module__ == m.__name__:
                    try:
                        _CLASSES[str(v.type_name())] = v
                    except Exception:  # abstract
                        pass
    return _CLASSES[t]


_CLASSES = None

# ----------------------------------------------------------------- strategies


def params_strategy(t, cplx):
    o = OPS[t]
    return st.fixed_dictionaries(dict(o.cplx if cplx else o.real))


REF = st.integers(0, 63)


def op_strategy(types, cplx):
    def one(t):
        return st.fixed_dictionaries(
            {
                "t": st.just(t),
                "p": params_strategy(t, cplx),
                "s": st.lists(REF, min_size=OPS[t].ni, max_size=OPS[t].ni),
            }
        )

    opts = {t: one(t) for t in set(types)}
    return st.sampled_from(sorted(types)).flatmap(lambda t: opts[t])


def delay_strategy(cplx, init=True):
    v = (st.one_of(DYADIC, CDYADIC) if cplx else DYADIC) if init else st.just(0)
    return st.fixed_dictionaries({"i": v, "s": REF})


def spec_strategy(
    profile="real",
    max_in=3,
    max_ops=9,
    max_delays=3,
    init=True,
    min_in=1,
    min_ops=1,
    min_delays=0,
    types=None,
    extra_outs=2,
    sinks=True,
):
    ops, cplx = PROFILES[profile]
    if types is not None:
        ops = types
    return st.fixed_dictionaries(
        {
            "ni": st.integers(min_in, max_in),
            "d": st.lists(delay_strategy(cplx, init), min_size=min_delays, max_size=max_delays),
            "o": st.lists(op_strategy(ops, cplx), min_size=min_ops, max_size=max_ops),
            "out": st.lists(REF, max_size=extra_outs),
            "sty": st.integers(0, 3),
            # unused ports of multi-output operations: outputs / left open / sinks
            "dangle": st.integers(0, 2) if sinks else st.integers(0, 1),
        }
    )


def any_spec(profiles=("real", "cplx", "linear_real"), **kw):
    return st.sampled_from(profiles).flatmap(lambda p: spec_strategy(p, **kw))


def value_strategy(cplx):
    real = st.one_of(st.integers(-8, 8), st.integers(-64, 64).map(lambda k: k / 16))
    if cplx:
        return st.one_of(real, st.builds(complex, real, real))
    return real


# ----------------------------------------------------------------- resolution


class Graph:
    """A resolved spec.

    nodes: list of dicts {k: 'in'|'t'|type, p, src: [(node, port)], no}
    node order: inputs, delays, operations;  outs: [(node, port)]
    """

    def __init__(self, spec):
        ni = int(spec["ni"])
        nodes = []
        ports = []
        self.ni = ni
        for i in range(ni):
            nodes.append({"k": "in", "p": {}, "src": [], "no": 1})
            ports.append((len(nodes) - 1, 0))
        self.nd = len(spec["d"])
        for d in spec["d"]:
            nodes.append({"k": "t", "p": {"initial_value": d["i"]}, "src": None, "no": 1})
            ports.append((len(nodes) - 1, 0))
        for o in spec["o"]:
            t = OPS[o["t"]]
            if t.ni and not ports:
                continue
            src = [ports[r % len(ports)] for r in o["s"][: t.ni]]
            p = dict(o["p"])
            if isinstance(p.get("value"), list):
                p["value"] = tuple(p["value"])
            nodes.append({"k": o["t"], "p": p, "src": src, "no": t.no, "x": o.get("x")})
            for j in range(t.no):
                ports.append((len(nodes) - 1, j))
        for i, d in enumerate(spec["d"]):
            nodes[ni + i]["src"] = [ports[d["s"] % len(ports)]]
        outs = [ports[r % len(ports)] for r in spec["out"]] if ports else []
        # one output operation per port at most
        seen = []
        for o in outs:
            if o not in seen:
                seen.append(o)
        outs = seen
        used = {s for n in nodes for s in n["src"]} | set(outs)
        self.sinks = []
        for nidx, n in enumerate(nodes):
            free = [j for j in range(n["no"]) if (nidx, j) not in used]
            if not free:
                continue
            if n["no"] > 1 and spec.get("dangle"):
                rest = free if len(free) < n["no"] else free[1:]
                if spec["dangle"] == 2:
                    self.sinks.extend((nidx, j) for j in rest)
                free = free[: len(free) - len(rest)]
            outs.extend((nidx, j) for j in free)
        self.nodes = nodes
        self.ports = ports
        self.outs = outs
        self.cut_isolated()

    def cut_isolated(self):
        """Drop parts that reach no output (e.g. a delay feeding only itself)."""
        live = set()
        stack = [n for n, _ in self.outs]
        while stack:
            n = stack.pop()
            if n in live:
                continue
            live.add(n)
            stack.extend(s for s, _ in self.nodes[n]["src"])
        dead = [i for i in range(len(self.nodes)) if i not in live]
        # every dead node with a free port would have got an output, so dead
        # nodes only feed each other or delays in closed loops
        if dead:
            for i in dead:
                if self.nodes[i]["k"] == "t" or self.nodes[i]["k"] != "in":
                    self.outs.append((i, 0))
                    return self.cut_isolated()
            for i in dead:
                self.outs.append((i, 0))
        return None

    # -------- structure

    def consumers(self, port):
        res = []
        for i, n in enumerate(self.nodes):
            for j, s in enumerate(n["src"]):
                if s == port:
                    res.append((i, j))
        return res

    @property
    def delays(self):
        return [i for i, n in enumerate(self.nodes) if n["k"] == "t"]

    def has_feedback(self):
        """Is some delay on a loop?"""
        for d in self.delays:
            seen = set()
            stack = [self.nodes[d]["src"][0][0]]
            while stack:
                n = stack.pop()
                if n == d:
                    return True
                if n in seen:
                    continue
                seen.add(n)
                stack.extend(s for s, _ in self.nodes[n]["src"])
        return False

    # -------- reference simulation

    def initial_state(self):
        return {d: self.nodes[d]["p"]["initial_value"] for d in self.delays}

    def step(self, state, inputs):
        """Returns (port values, next state)."""
        val = {}
        for i, n in enumerate(self.nodes):
            if n["k"] == "in":
                val[i, 0] = inputs[i]
            elif n["k"] == "t":
                val[i, 0] = state[i]
        for i, n in enumerate(self.nodes):
            if n["k"] in ("in", "t"):
                continue
            try:
                res = ref_op(n["k"], n["p"], [val[s] for s in n["src"]])
            except (OverflowError, ZeroDivisionError):
                raise Unstable from None
            for j, v in enumerate(res):
                val[i, j] = _chk(v)
        nxt = {d: val[self.nodes[d]["src"][0]] for d in self.delays}
        return val, nxt

    def simulate(self, rows, state=None):
        """rows: per iteration list of input values. Stops early when unstable.

        Returns (list of port-value dicts, final state)."""
        st_ = self.initial_state() if state is None else dict(state)
        trace = []
        for row in rows:
            try:
                val, st_ = self.step(st_, row)
            except Unstable:
                break
            trace.append(val)
        return trace, st_


# ----------------------------------------------------------------- building


class Built:
    pass


def make_op(t, p, name="", **kw):
    cls = class_of(t)
    if t == "c":
        return cls(p["value"], name=name)
    return cls(**p, name=name, **kw)


def build(graph, style=0, sfg_name="", prefix="", timing=None):
    """Build the SFG.  Returns Built(sfg, ops (originals), ins, outs)."""
    from b_asic.sfg import SFG

    b = build_ops(graph, style, prefix, timing)
    b.sfg = SFG(inputs=b.ins, outputs=b.outs, name=sfg_name)
    return b


def apply_timing(op, tim):
    """tim: {"in": [...], "out": [...], "ex": int or None}, taken cyclically."""
    offs = {f"in{j}": tim["in"][j % len(tim["in"])] for j in range(op.input_count)}
    offs.update({f"out{j}": tim["out"][j % len(tim["out"])] for j in range(op.output_count)})
    op.set_latency_offsets(offs)
    op.execution_time = tim["ex"]


def build_ops(graph, style=0, prefix="", timing=None):
    """Create and connect the operations without making a graph of them.

    timing: {node index: timing}, see apply_timing."""
    from b_asic.signal import Signal
    from b_asic.special_operations import Delay, Input, Output
    from b_asic.utility_operations import Sink

    ops = []
    for i, n in enumerate(graph.nodes):
        name = f"{prefix}n{i}"
        kw = {}
        if n["k"] == "in":
            ops.append(Input(name))
        elif n["k"] == "t":
            ops.append(Delay(initial_value=n["p"]["initial_value"], name=name))
        elif n["k"] == "c":
            ops.append(make_op("c", n["p"], name))
        elif style == 1:
            kw.update({f"src{j}": ops[s[0]].output(s[1]) for j, s in enumerate(n["src"])})
            ops.append(make_op(n["k"], n["p"], name, **kw))
        else:
            ops.append(make_op(n["k"], n["p"], name, **kw))
    for i, n in enumerate(graph.nodes):
        if style == 1 and n["k"] not in ("t",):
            continue
        for j, (sn, sp) in enumerate(n["src"]):
            if style == 2:
                Signal(ops[sn].output(sp), ops[i].input(j))
            elif style == 3 and len(n["src"]) == 1:
                ops[i].input(j).__ilshift__(ops[sn].output(sp))
            else:
                ops[i].input(j).connect(ops[sn].output(sp))
    outs = []
    for k, (sn, sp) in enumerate(graph.outs):
        if style % 2 == 0:
            outs.append(Output(ops[sn].output(sp), name=f"{prefix}out{k}"))
        else:
            o = Output(name=f"{prefix}out{k}")
            o.input(0).connect(ops[sn].output(sp))
            outs.append(o)
    sinks = []
    for k, (sn, sp) in enumerate(graph.sinks):
        sinks.append(Sink(name=f"{prefix}sink{k}"))
        sinks[-1].input(0).connect(ops[sn].output(sp))
    for i, tim in (timing or {}).items():
        apply_timing(ops[i], tim)
    b = Built()
    b.sinks = sinks
    b.ops = ops
    b.ins = ops[: graph.ni]
    b.outs = outs
    return b


def find(sfg, name):
    res = list(dict.fromkeys(sfg.find_by_name(name)))
    if len(res) != 1:
        from .core import Violation

        raise Violation(f"expected one component named {name}, found {len(res)}")
    return res[0]


# ----------------------------------------------------------------- comparison


def close(a, b, scale=1.0, tol=1e-9):
    try:
        a = complex(a)
        b = complex(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a.real) or math.isnan(a.imag):
        return False
    return abs(a - b) <= tol * (1.0 + scale + abs(b))


def trace_scale(trace):
    m = 1.0
    for val in trace:
        for v in val.values():
            m = max(m, abs(v))
    return m


def rows_strategy(ni, cplx, min_n=1, max_n=6):
    v = value_strategy(cplx)
    return st.lists(st.lists(v, min_size=ni, max_size=ni), min_size=min_n, max_size=max_n)


MAXN_IN = 4


def rows_any(cplx, min_n=1, max_n=6):
    """Rows wide enough for any spec; use take_rows."""
    v = value_strategy(cplx)
    return st.lists(
        st.lists(v, min_size=MAXN_IN, max_size=MAXN_IN), min_size=min_n, max_size=max_n
    )


def take_rows(rows, ni):
    return [r[:ni] + [0] * (ni - len(r)) for r in rows]
