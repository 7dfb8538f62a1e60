"""C22: quantization and data types give exactly the documented numbers."""

import math
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Facet, ensure
from ..sfggen import CDYADIC, DYADIC, OPS, REF, Graph, build, find, op_strategy

RULE = (
    "Values (integers, floats near ties and limits, complex) through every quantization and overflow mode; random graphs "
    "(also nested, with feedback) simulated with random fixed-point types (all modes, real and complex) and floating-point "
    "types. Oracle: exact rational arithmetic with the rounding rule applied to every result; NumPy single and double "
    "precision. Non-trivial: rounding changed some value, and for graphs also an overflow or a delay."
)
ASSUMPTIONS = [
    "Coefficients are representable in the data type (others are rounded by APyTypes before use).",
    "Division, reciprocals, roots and transforms with irrational coefficients are left out of the exact comparison.",
    "Single precision: operations that round several times follow the order of the documented formula.",
]

QMODES = [
    "TRUNCATION", "ROUNDING", "MAGNITUDE_TRUNCATION", "JAMMING", "UNBIASED_ROUNDING",
    "UNBIASED_JAMMING", "UNBIASED_MAGNITUDE_TRUNCATION",
]
OMODES = ["WRAPPING", "SATURATION"]


# ------------------------------------------------------------------ oracle


def fl(v):
    return v.numerator // v.denominator


def rounded(v, mode, discarded=True, sign_bit=False):
    """The integer that a number of least significant bits (Fraction) is rounded to."""
    f = fl(v)
    if mode == "TRUNCATION":
        return f
    if mode == "NEAREST":
        return fl(abs(v) + F(1, 2)) * (1 if v >= 0 else -1)
    if mode == "ROUNDING":
        return f + (v - f >= F(1, 2))
    if mode == "MAGNITUDE_TRUNCATION" and sign_bit:
        return f + (discarded and v < 0)
    if mode in ("MAGNITUDE_TRUNCATION", "UNBIASED_MAGNITUDE_TRUNCATION"):
        return f + (v < 0 and v != f)
    if mode == "JAMMING":
        return f | 1
    if mode == "UNBIASED_ROUNDING":
        d = v - f
        return f + (d > F(1, 2) or (d == F(1, 2) and f % 2 == 1))
    if mode == "UNBIASED_JAMMING":
        return f if v == f else f | 1
    raise KeyError(mode)


def limited(n, bits, mode):
    lo, hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    if mode == "SATURATION":
        return max(lo, min(n, hi))
    return (n - lo) % (1 << bits) + lo


# ------------------------------------------------------------------ quantize()


def quantize_case(case, rec):
    from b_asic.quantization import OverflowMode, QuantizationMode, quantize

    fb, ib = case["fb"], case["ib"]
    if fb + ib < 1:
        ib = 1 - fb
    lsb = F(2) ** -fb

    def value(kind, n, d):
        if kind == 0:  # close to a tie or to a representable number
            x = float((n + F(d, 8)) * lsb)
        elif kind == 1:
            x = math.nextafter(float((n + F(d, 2)) * lsb), math.inf if d > 0 else -math.inf)
        elif kind == 2:  # close to the limits
            x = float((F(2) ** (ib + fb - 1) * (1 if d >= 0 else -1) + F(n % 9 - 4, 2)) * lsb)
        elif kind == 3:
            return n
        else:
            x = case["free"]
        return x

    parts = [value(*v) for v in case["v"]]
    x = complex(*[float(p) for p in parts]) if case["cplx"] else parts[0]
    exact = [F(p) for p in ((x.real, x.imag) if case["cplx"] else (x,))]
    for p in exact:
        if abs(p) > F(2) ** 900 or (p and abs(p) < F(2) ** -900):
            return
    kw = {}
    qm, om = case["qm"], case["om"]
    if not (case["default"] and qm == "TRUNCATION"):
        kw["quantization_mode"] = QuantizationMode[qm]
    if not (case["default"] and om == "WRAPPING"):
        kw["overflow_mode"] = OverflowMode[om]
    if not (case["default"] and ib == 1):
        kw["integer_bits"] = ib
    got = quantize(x, fb, **kw)
    ints = [rounded(p / lsb, qm) for p in exact]
    want = [limited(i, ib + fb, om) for i in ints]
    m = 1 << (ib + fb)
    bits = got.to_bits()
    bits = list(bits) if case["cplx"] else [bits]
    ensure(
        [b % m for b in bits] == [w % m for w in want],
        f"quantize({x!r}, {fb}, {ib}, {qm}, {om}) = {got}, expected {[str(w * lsb) for w in want]}",
    )
    ensure(
        (got.int_bits, got.frac_bits) == (ib, fb),
        f"quantize(..., {fb}, {ib}) has {got.int_bits} integer and {got.frac_bits} fractional bits",
    )
    rec.label(f"quantize {qm} {om}")
    if any(i * lsb != p for i, p in zip(ints, exact)) and (case["cplx"] or ints != want or qm != "TRUNCATION"):
        rec.nontrivial = True


QUANTIZE = st.fixed_dictionaries(
    {
        "fb": st.one_of(st.integers(0, 12), st.integers(-6, 60)),
        "ib": st.one_of(st.just(1), st.integers(-4, 20)),
        "qm": st.sampled_from(QMODES),
        "om": st.sampled_from(OMODES),
        "cplx": st.booleans(),
        "default": st.booleans(),
        "free": st.one_of(
            st.floats(-1e3, 1e3, allow_subnormal=False),
            st.floats(-1e30, 1e30, allow_subnormal=False),
            st.sampled_from([0.49999999999999994, -0.49999999999999994, 0.5, -0.5, 1e22, -1e22, 0.0, -0.0]),
        ),
        "v": st.lists(
            st.tuples(
                st.integers(0, 4),
                st.one_of(st.integers(-40, 40), st.integers(-(2**53), 2**53)),
                st.integers(-7, 7),
            ),
            min_size=2,
            max_size=2,
        ),
    }
)


# ------------------------------------------------------------------ fixed-point simulation


class Fixed:
    """Exact fixed-point arithmetic on pairs (re, im) of Fractions."""

    def __init__(self, ib, fb, qm, om, cplx):
        self.ib, self.fb, self.qm, self.om, self.cplx = ib, fb, qm, om, cplx
        self.lsb = F(2) ** -fb
        self.changed = self.overflow = 0

    def conv(self, v, mode, om, grow=True):
        n = rounded(v / self.lsb, mode, grow, True)
        w = limited(n, self.ib + self.fb, om)
        self.changed += n * self.lsb != v
        self.overflow += n != w
        return w * self.lsb

    def outside(self, v):
        """Numbers from outside: round to nearest (ties away from zero) and wrap."""
        c = complex(v)
        return tuple(self.conv(F(p), "NEAREST", "WRAPPING") for p in (c.real, c.imag))

    def cast(self, v, grow):
        if not self.cplx:
            return self.conv(v[0], self.qm, self.om, grow), F(0)
        return tuple(self.conv(p, self.qm, self.om, grow) for p in v)


def cadd(a, b):
    return a[0] + b[0], a[1] + b[1]


def csub(a, b):
    return a[0] - b[0], a[1] - b[1]


def cmul(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def csc(a, s):
    return a[0] * s, a[1] * s


def num(v):
    c = complex(v)
    return F(c.real), F(c.imag)


ZERO = (F(0), F(0))
J = (F(0), F(1))


def exact_op(t, p, x, fx):
    """[(exact result, were fractional bits added)], quantizing only where the operation says so."""
    g = fx.fb > 0
    if t == "c":
        return None
    if t == "neg":
        return [(csub(ZERO, x[0]), False)]
    if t in ("add", "sub", "addsub", "shiftaddsub"):
        b = x[1]
        if t == "shiftaddsub":
            b = fx.cast(csc(b, F(2) ** -p["shift"]), p["shift"] > 0)
        if p["mul_j"]:
            b = cmul(b, J)
        plus = t == "add" or p.get("is_add", False)
        s = p["shift_output"]
        return [(csc(cadd(x[0], b) if plus else csub(x[0], b), F(2) ** -s), s > 0)]
    if t == "mul":
        return [(cmul(*x), g)]
    if t in ("min", "max"):
        return [((min if t == "min" else max)(*x), False)]
    if t == "abs":
        return [((abs(x[0][0]), F(0)), False)]
    if t == "conj":
        return [((x[0][0], -x[0][1]), False)]
    if t == "imul":
        return [(cmul(x[0], J), False)]
    if t == "cmul":
        return [(cmul(x[0], num(p["value"])), g)]
    if t == "mad":
        r = cmul(x[0], x[1])
        return [(cadd(r, x[2]) if p["do_add"] else r, g)]
    if t == "mads":
        r = cmul(x[1], x[2])
        base = x[0] if p["do_addsub"] else ZERO
        return [(cadd(base, r) if p["is_add"] else csub(base, r), g)]
    if t in ("rshift", "shift", "lshift"):
        n = -p["value"] if t == "lshift" else p["value"]
        return [(csc(x[0], F(2) ** -n), n > 0)]
    if t == "r2bfly":
        return [(cadd(*x), False), (csub(*x), False)]
    if t == "r2difbfly":
        return [(cadd(*x), False), (cmul(csub(*x), num(p["w"])), g)]
    if t == "r2ditbfly":
        b = cmul(x[1], num(p["w"]))
        return [(cadd(x[0], b), g), (csub(x[0], b), g)]
    if t == "r2tfbfly":
        return [(cmul(cadd(*x), num(p["w0"])), g), (cmul(csub(*x), num(p["w1"])), g)]
    if t == "r4bfly":
        a, b, c, d = x
        s0, s1, s2, s3 = cadd(a, c), cadd(b, d), csub(a, c), cmul(J, csub(d, b))
        return [(cadd(s0, s1), False), (cadd(s2, s3), False), (csub(s0, s1), False), (csub(s2, s3), False)]
    gv = p.get("value")
    if t == "sym2p":
        tmp = csc(csub(x[1], x[0]), F(gv))
        return [(cadd(x[1], tmp), g), (cadd(x[0], tmp), g)]
    if t == "ser2p":
        y0 = csub(x[0], csc(x[0], F(gv)))
        return [(y0, g), (csub(ZERO, cadd(cadd(x[0], x[1]), y0)), g)]
    if t == "par2p":
        s = csub(x[1], x[0])
        y1 = csub(x[1], csc(s, F(gv)))
        return [(cadd(y1, s), g), (y1, g)]
    if t == "ser3p":
        s = cadd(cadd(*x[:2]), x[2])
        y0, y1 = csub(x[0], csc(s, F(gv[0]))), csub(x[1], csc(s, F(gv[1])))
        return [(y0, g), (y1, g), (csub(ZERO, cadd(cadd(y0, y1), s)), g)]
    if t == "rfs3p":
        s = cadd(x[0], x[2])
        y0 = csub(x[0], csc(cadd(x[1], s), F(gv)))
        return [(y0, g), (csub(ZERO, s), False), (csub(ZERO, cadd(y0, x[1])), g)]
    raise KeyError(t)


def fixed_trace(g, rows, fx, nested):
    """Per iteration {node port: value} and {output index: value}."""
    state = {}
    for d in g.delays:
        state[d] = fx.outside(g.nodes[d]["p"]["initial_value"])
    raw = set(g.delays)
    trace = []
    for row in rows:
        val = {}
        for i, n in enumerate(g.nodes):
            if n["k"] == "in":
                val[i, 0] = fx.outside(row[i])
            elif n["k"] == "t":
                # what was stored is quantized again when read (this matters for jamming)
                val[i, 0] = state[i] if i in raw else fx.cast(state[i], False)
        for i, n in enumerate(g.nodes):
            if n["k"] in ("in", "t"):
                continue
            if n["k"] == "c":
                val[i, 0] = fx.outside(n["p"]["value"])
                continue
            res = exact_op(n["k"], n["p"], [val[s] for s in n["src"]], fx)
            for j, (v, grow) in enumerate(res):
                val[i, j] = fx.cast(v, grow)
        raw = set()
        state = {d: val[g.nodes[d]["src"][0]] for d in g.delays}
        outs = [val[s] for s in g.outs]
        trace.append((val, outs))
    return trace


def wrap_nested(b, g):
    from b_asic.sfg import SFG
    from b_asic.special_operations import Input, Output

    ins = [Input() for _ in range(g.ni)]
    for i, x in enumerate(ins):
        b.sfg.input(i).connect(x)
    return SFG(ins, [Output(b.sfg.output(k), name=f"o{k}") for k in range(len(g.outs))])


def same_bits(got, want, fx, msg):
    m = 1 << (fx.ib + fx.fb)
    bits = got.to_bits()
    bits = list(bits) if isinstance(bits, (tuple, list)) else [bits]
    exp = [int(w / fx.lsb) % m for w in (want if fx.cplx else want[:1])]
    ensure([b % m for b in bits] == exp, msg() + f": {got}, expected {[str(w) for w in want]}")


def fixed_case(case, rec):
    from b_asic.data_type import DataType
    from b_asic.quantization import OverflowMode, QuantizationMode
    from b_asic.simulation import Simulation

    g = Graph(case["spec"])
    if not g.outs:
        return
    cplx = case["cplx"]
    ib, fb = case["wl"]
    if case["coef"]:
        ib, fb = ib + 3, fb + 4
    if ib + fb < 2:
        fb += 1
    fx = Fixed(ib, fb, case["qm"], case["om"], cplx)
    rows = [[row[i] if i < len(row) else 0 for i in range(g.ni)] for row in case["rows"]]
    if not cplx:
        rows = [[v.real if isinstance(v, complex) else v for v in row] for row in rows]
    dt = DataType(
        wl=(ib, fb) if ib != 1 or case["tuple"] else ib + fb,
        is_complex=cplx,
        quantization_mode=QuantizationMode[case["qm"]],
        overflow_mode=OverflowMode[case["om"]],
    )
    nested = case["nested"] and g.ni > 0
    b = build(g, case["spec"]["sty"])
    trace = fixed_trace(g, rows, fx, nested)
    provs = [[r[i] for r in rows] for i in range(g.ni)]

    def where(what, it):
        return lambda: f"{what} at iteration {it} ({'nested, ' if nested else ''}{ib}.{fb} {case['qm']} {case['om']})"

    if nested:
        sim = Simulation(wrap_nested(b, g), provs, DataType.from_DataType(dt))
        sim.run_for(len(rows))
        for k, s in enumerate(g.outs):
            series = list(sim.results[f"out{k}"])
            ensure(len(series) == len(rows), "wrong number of results")
            for it, (val, _) in enumerate(trace):
                same_bits(series[it], val[s], fx, where(f"output {k}", it))
    else:
        sim = Simulation(b.sfg, provs, dt)
        for it, (_, outs) in enumerate(trace):
            res = sim.step()
            for k, want in enumerate(outs):
                same_bits(res[k], want, fx, where(f"returned output {k}", it))
        for i, n in enumerate(g.nodes):
            if n["k"] == "in":
                continue
            op = find(b.sfg, f"n{i}")
            for j in range(n["no"]):
                key = op.key(j, op.graph_id)
                if not op.output(j).signals:
                    continue
                arr = sim.results[key]
                ensure((arr.int_bits, arr.frac_bits) == (ib, fb), f"{key} is not {ib}.{fb}")
                for it, (val, _) in enumerate(trace):
                    same_bits(arr[it], val[i, j], fx, where(f"{n['k']} output {j}", it))
        for k in range(len(g.outs)):
            arr = sim.results[find(b.sfg, f"out{k}").graph_id]
            for it, (_, outs) in enumerate(trace):
                same_bits(arr[it], outs[k], fx, where(f"output {k}", it))
    rec.label(f"fixed {case['qm']} {case['om']}")
    if nested:
        rec.label("nested")
    if cplx:
        rec.label("complex")
    if fx.changed and (fx.overflow or g.delays):
        rec.nontrivial = True


FREE = [
    "neg", "add", "sub", "addsub", "shiftaddsub", "mul", "mad", "mads", "rshift", "lshift", "shift",
    "r2bfly", "conj", "c", "add", "sub", "mul",
]
COEF = [*FREE, "cmul", "cmul", "r2difbfly", "r2ditbfly", "r2tfbfly", "sym2p", "ser2p", "par2p", "ser3p", "rfs3p"]
REAL = ["min", "max", "abs"]
CPLX = ["imul", "r4bfly"]


@st.composite
def fixed_graph(draw):
    cplx = draw(st.booleans())
    coef = draw(st.booleans())
    types = [*(COEF if coef else FREE), *(CPLX if cplx else REAL)]
    v = st.one_of(DYADIC, CDYADIC) if cplx else DYADIC
    # values that are not representable as well
    odd = st.floats(-9, 9, allow_subnormal=False)
    x = st.one_of(odd, v, st.builds(complex, odd, odd)) if cplx else st.one_of(odd, v)
    spec = draw(
        st.fixed_dictionaries(
            {
                "ni": st.integers(1, 3),
                "d": st.lists(st.fixed_dictionaries({"i": v, "s": REF}), max_size=2),
                "o": st.lists(op_strategy(types, cplx), min_size=1, max_size=7),
                "out": st.lists(REF, max_size=2),
                "sty": st.integers(0, 7),
            }
        )
    )
    return {
        "spec": spec,
        "cplx": cplx,
        "coef": coef,
        "wl": draw(st.tuples(st.integers(1, 4), st.integers(0, 8))),
        "tuple": draw(st.booleans()),
        "nested": draw(st.integers(0, 3)) == 0,
        "qm": draw(st.sampled_from(QMODES)),
        "om": draw(st.sampled_from(OMODES)),
        "rows": draw(st.lists(st.lists(x, min_size=spec["ni"], max_size=spec["ni"]), min_size=1, max_size=5)),
    }


# ------------------------------------------------------------------ floating point


def float_op(t, p, x, f):
    """Results with every intermediate result rounded to the type f."""
    def add(b):
        plus = t == "add" or p.get("is_add", False)
        r = x[0] + b if plus else x[0] - b
        return r / f(2 ** p["shift_output"]) if p["shift_output"] else r

    if t == "neg":
        return [-x[0]]
    if t in ("add", "sub", "addsub"):
        return [add(x[1])]
    if t == "shiftaddsub":
        return [add(x[1] / f(2 ** p["shift"]))]
    if t == "mul":
        return [x[0] * x[1]]
    if t in ("min", "max"):
        return [(min if t == "min" else max)(*x)]
    if t == "abs":
        return [abs(x[0])]
    if t == "conj":
        return [x[0]]
    if t == "cmul":
        return [x[0] * f(p["value"])]
    if t == "mad":
        r = x[0] * x[1]
        return [r + x[2] if p["do_add"] else r]
    if t == "mads":
        r = x[1] * x[2]
        if not p["do_addsub"]:
            return [r if p["is_add"] else -r]
        return [x[0] + r if p["is_add"] else x[0] - r]
    if t == "rshift":
        return [x[0] * f(2.0 ** -p["value"])]
    if t == "lshift":
        return [x[0] * f(2.0 ** p["value"])]
    if t == "shift":
        return [x[0] * f(2.0 ** -p["value"])]
    if t == "r2bfly":
        return [x[0] + x[1], x[0] - x[1]]
    raise KeyError(t)


FLOATS = ["neg", "add", "sub", "addsub", "shiftaddsub", "mul", "mad", "mads", "rshift", "lshift", "shift",
          "r2bfly", "conj", "c", "min", "max", "abs", "cmul"]


def float_case(case, rec):
    import numpy as np

    from b_asic.data_type import DataType, NumRepresentation
    from b_asic.simulation import Simulation

    g = Graph(case["spec"])
    if not g.outs:
        return
    f = np.float32 if case["single"] else np.float64
    dt = DataType(wl=(8, 23) if case["single"] else (11, 52), num_repr=NumRepresentation.FLOATING_POINT)
    rows = [[row[i] for i in range(g.ni)] for row in case["rows"]]
    state = {d: f(g.nodes[d]["p"]["initial_value"]) for d in g.delays}
    trace = []
    rounding = False
    for row in rows:
        val = {}
        for i, n in enumerate(g.nodes):
            if n["k"] == "in":
                val[i, 0] = f(row[i])
                rounding |= float(val[i, 0]) != row[i]
            elif n["k"] == "t":
                val[i, 0] = state[i]
        for i, n in enumerate(g.nodes):
            if n["k"] in ("in", "t"):
                continue
            res = [f(n["p"]["value"])] if n["k"] == "c" else float_op(n["k"], n["p"], [val[s] for s in n["src"]], f)
            for j, v in enumerate(res):
                val[i, j] = f(v)
        state = {d: val[g.nodes[d]["src"][0]] for d in g.delays}
        if any(not 1e-30 < abs(float(v)) < 1e30 for v in val.values() if v != 0):
            break
        trace.append(val)
    if not trace:
        return
    b = build(g, case["spec"]["sty"])
    sim = Simulation(b.sfg, [[r[i] for r in rows] for i in range(g.ni)], dt)
    sim.run_for(len(trace))
    for i, n in enumerate(g.nodes):
        if n["k"] == "in":
            continue
        op = find(b.sfg, f"n{i}")
        for j in range(n["no"]):
            if not op.output(j).signals:
                continue
            arr = sim.results[op.key(j, op.graph_id)]
            ensure((arr.exp_bits, arr.man_bits) == dt.wl, f"{n['k']} result has {arr.exp_bits}, {arr.man_bits} bits")
            for it, val in enumerate(trace):
                ensure(
                    float(arr[it]) == float(val[i, j]),
                    f"{n['k']} output {j} at iteration {it}: {float(arr[it])!r}, expected {float(val[i, j])!r} ({f.__name__})",
                )
    for k, s in enumerate(g.outs):
        arr = sim.results[find(b.sfg, f"out{k}").graph_id]
        for it, val in enumerate(trace):
            ensure(float(arr[it]) == float(val[s]), f"output {k} at iteration {it}: {float(arr[it])!r}, expected {float(val[s])!r}")
    rec.label(f.__name__)
    if (rounding or not case["single"]) and len(trace) >= 2:
        rec.nontrivial = True


@st.composite
def float_graph(draw):
    v = st.floats(-50, 50, allow_subnormal=False).filter(lambda z: z == 0 or abs(z) > 1e-3)
    ni = draw(st.integers(1, 3))
    return {
        "spec": {
            "ni": ni,
            "d": draw(st.lists(st.fixed_dictionaries({"i": DYADIC, "s": REF}), max_size=2)),
            "o": draw(st.lists(op_strategy(FLOATS, False), min_size=1, max_size=7)),
            "out": draw(st.lists(REF, max_size=2)),
            "sty": draw(st.integers(0, 7)),
        },
        "single": draw(st.booleans()),
        "rows": draw(st.lists(st.lists(v, min_size=ni, max_size=ni), min_size=1, max_size=5)),
    }


# ------------------------------------------------------------------ the data type itself


def type_case(case, rec):
    from b_asic.data_type import DataType, NumRepresentation
    from b_asic.quantization import OverflowMode, QuantizationMode

    floating = case["floating"]

    def wl(v):
        if v is None:
            return None
        return v[0] + 1 if case["int"] and not floating else tuple(v)

    kw = {
        "wl": wl(case["wl"]),
        "input_wl": wl(case["iwl"]),
        "output_wl": wl(case["owl"]),
        "num_repr": NumRepresentation.FLOATING_POINT if floating else NumRepresentation.FIXED_POINT,
        "is_signed": case["signed"],
        "is_complex": case["cplx"],
        "quantization_mode": QuantizationMode[case["qm"]],
        "overflow_mode": OverflowMode[case["om"]],
    }
    dt = DataType(**kw)

    def full(v):
        return (1, v - 1) if isinstance(v, int) else v

    want = {k: v for k, v in kw.items()}
    want["wl"] = full(kw["wl"])
    want["input_wl"] = full(kw["input_wl"]) if kw["input_wl"] is not None else want["wl"]
    want["output_wl"] = full(kw["output_wl"]) if kw["output_wl"] is not None else want["wl"]
    for d in (dt, DataType.from_DataType(dt)):
        for k, v in want.items():
            ensure(getattr(d, k) == v, f"{k} is {getattr(d, k)!r}, expected {v!r}")
        e = 1 if floating else 0
        for name, w in (("bits", "wl"), ("input_bits", "input_wl"), ("output_bits", "output_wl")):
            ensure(getattr(d, name) == sum(want[w]) + e, f"{name} is {getattr(d, name)} for {want[w]} ({kw['num_repr']})")
        names = ("exp_bits", "man_bits") if floating else ("int_bits", "frac_bits")
        ensure((getattr(d, names[0]), getattr(d, names[1])) == tuple(want["wl"]), f"{names} do not match {want['wl']}")
        for other in (("int_bits", "frac_bits") if floating else ("exp_bits", "man_bits")):
            try:
                getattr(d, other)
            except TypeError:
                continue
            ensure(False, f"{other} of a {'floating' if floating else 'fixed'}-point type")
    if floating:
        try:
            DataType(wl=case["wl"][0], num_repr=NumRepresentation.FLOATING_POINT)
        except TypeError:
            pass
        else:
            ensure(False, "a floating-point type with a single word length was accepted")
    rec.label("floating type" if floating else "fixed type")
    if case["iwl"] or case["owl"]:
        rec.nontrivial = True


WL = st.tuples(st.integers(1, 16), st.integers(0, 24))
TYPE = st.fixed_dictionaries(
    {
        "wl": WL,
        "iwl": st.one_of(st.none(), WL),
        "owl": st.one_of(st.none(), WL),
        "int": st.booleans(),
        "floating": st.booleans(),
        "signed": st.booleans(),
        "cplx": st.booleans(),
        "qm": st.sampled_from(QMODES),
        "om": st.sampled_from(OMODES),
    }
)

FACETS = [
    Facet("quantize", QUANTIZE, quantize_case, 6000, 120000, shards=2),
    Facet("fixed", fixed_graph(), fixed_case, 2400, 40000, shards=4),
    Facet("floating", float_graph(), float_case, 800, 15000, shards=1),
    Facet("type", TYPE, type_case, 600, 6000, shards=1),
]
