"""C07: each operation computes its documented function."""

import math

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..sfggen import OPS, Unstable, class_of, close, make_op, params_strategy, ref_op

RULE = (
    "evaluate: every operation type with random admissible parameters on random integers, floats and complex numbers of very "
    "different magnitudes against an independent reference; operators: random expression trees over inputs, ports, "
    "multi-output operations and Python numbers, built with Python's operators and evaluated as a graph against Python's own "
    "arithmetic on numbers; parameters: random sequences of admissible and inadmissible settings against a dictionary. "
    "Non-trivial: a non-zero result (evaluate), at least three operators (operators), an admissible and an inadmissible "
    "setting (parameters)."
)

REAL = st.one_of(
    st.integers(-9, 9),
    st.integers(-64, 64).map(lambda x: x / 8),
    st.floats(-1e4, 1e4, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-4),
)
CPLX = st.one_of(REAL, st.tuples(REAL, REAL).map(lambda t: complex(*t)))
INT = st.integers(-1000, 1000)


def _scale(values, params):
    m = 1.0
    for v in values:
        m = max(m, abs(v))
    k = 1.0
    for v in params.values():
        for w in v if isinstance(v, (tuple, list)) else [v]:
            if isinstance(w, (int, float, complex)):
                k = max(k, abs(w))
    return m * m * k


def wide_params(t):
    """The parameters of sfggen, with arbitrary numbers where numbers are allowed."""
    base = params_strategy(t, True)
    over = {}
    o = OPS[t]
    for k in o.cplx:
        if t in ("cmul", "c") or k in ("w", "w0", "w1"):
            over[k] = CPLX
        elif t in ("rshift", "lshift") or k in ("shift", "shift_output"):
            over[k] = st.integers(0, 12)
        elif t == "shift":
            over[k] = st.integers(-12, 12)
        elif t == "sym2p":
            over[k] = st.floats(-1, 1)
        elif t in ("ser2p", "par2p"):
            over[k] = st.floats(0, 2)
        elif t == "rfs3p":
            over[k] = st.floats(0, 1)
        elif t == "ser3p":
            over[k] = st.tuples(st.floats(0, 1), st.floats(0, 1)).map(list)
    if not over:
        return base
    return st.one_of(base, st.tuples(base, st.fixed_dictionaries(over)).map(lambda bo: {**bo[0], **bo[1]}))


def fixup(t, p):
    p = dict(p)
    if t == "ser3p":
        p["value"] = tuple(p["value"])
    return p


def evaluate(case, rec):
    t = case["t"]
    p = fixup(t, case["p"])
    n = OPS[t].ni
    x = [case["x"][j % len(case["x"])] for j in range(n)]
    if t in ("min", "max") and any(isinstance(v, complex) for v in x):
        x = [v.real for v in x]
    if t == "recsqrt":
        p["real_valued"] = case["flag"]
    try:
        if t == "recsqrt" and p["real_valued"] and isinstance(x[0], complex):
            if abs(x[0].real) < 1e-6:
                return
            exp = [x[0].real ** -0.5]
        else:
            exp = ref_op(t, p, x)
    except Unstable:
        return
    op = make_op(t, p)
    ensure(op.input_count == n and op.output_count == OPS[t].no, f"{t}: ports")
    got = op.evaluate(*x)
    if OPS[t].no == 1:
        got = [got]
    ensure(len(got) == OPS[t].no, f"{t}{p}: {len(got)} results")
    scale = _scale(x, p) * 1e-3
    for j, (g, e) in enumerate(zip(got, exp)):
        ensure(close(g, e, scale), f"{t}{p}: output {j} for {x} is {g}, expected {e}")
        one = op.evaluate_output(j, x)
        ensure(close(one, e, scale), f"{t}{p}: evaluate_output({j}) for {x} is {one}, expected {e}")
    allo = op.evaluate_outputs(x)
    ensure(len(allo) == len(exp) and all(close(g, e, scale) for g, e in zip(allo, exp)), f"{t}{p}: evaluate_outputs")
    for bad, exc in ((OPS[t].no, IndexError), (-1, IndexError)):
        try:
            op.evaluate_output(bad, x)
        except exc:
            pass
        else:
            raise Violation(f"{t}: evaluate_output({bad}) was not refused")
    for wrong in (x + [0], x[1:] if n else None):
        if wrong is None:
            continue
        try:
            op.evaluate_output(0, wrong)
        except ValueError:
            pass
        else:
            raise Violation(f"{t}: {len(wrong)} input values were not refused")
    rec.nt(any(abs(e) > 0 for e in exp))
    rec.label(t)


# ------------------------------------------------------------------ operators

BIN = ["+", "-", "*", "/"]
LEAF = st.one_of(
    st.tuples(st.just("x"), st.integers(0, 5)).map(list),
    st.tuples(st.just("n"), st.one_of(INT, CPLX, st.sampled_from([0, 1, 1j, -1, 2, 1.0, -1j, 0.5]))).map(list),
)
TREE = st.recursive(
    LEAF,
    lambda s: st.one_of(
        st.tuples(st.sampled_from(BIN), s, s).map(list),
        st.tuples(st.sampled_from(BIN), s, s).map(list),
        st.tuples(st.sampled_from(["neg", "pos", "id"]), s).map(list),
        st.tuples(st.sampled_from(["<<", ">>"]), s, st.integers(-6, 6)).map(list),
    ),
    max_leaves=8,
)


def operators(case, rec):
    from b_asic.fft_operations import R2Butterfly
    from b_asic.sfg import SFG
    from b_asic.special_operations import Input, Output

    vals = case["vals"]
    ins = [Input(f"i{k}") for k in range(4)]
    bf = R2Butterfly(ins[2], ins[3])
    # what may stand for an operand: operations and ports
    leaves = [
        (ins[0], vals[0]),
        (ins[1].output(0), vals[1]),
        (bf.output(0), vals[2] + vals[3]),
        (bf.output(1), vals[2] - vals[3]),
        (ins[2], vals[2]),
        (ins[3].output(0), vals[3]),
    ]
    count = 0
    biggest = 1.0

    def go(t):
        """(object or number, value)"""
        nonlocal count, biggest
        if t[0] == "x":
            return leaves[t[1]]
        if t[0] == "n":
            return t[1], t[1]
        a, av = go(t[1])
        if t[0] in ("neg", "pos", "id"):
            if t[0] == "id":
                return a, av
            count += not isinstance(a, (int, float, complex))
            return (-a, -av) if t[0] == "neg" else (+a, +av)
        if t[0] in ("<<", ">>"):
            k = t[2] if t[0] == "<<" else -t[2]
            if isinstance(a, (int, float, complex)):
                return a, av  # not an operation
            count += 1
            v = av * 2.0**k
            biggest = max(biggest, abs(v))
            return (a << t[2] if t[0] == "<<" else a >> t[2]), v
        b, bv = go(t[2])
        if t[0] == "/" and (abs(bv) < 1e-6 or abs(av) > 1e6):
            raise Unstable
        if t[0] == "+":
            r, v = a + b, av + bv
        elif t[0] == "-":
            r, v = a - b, av - bv
        elif t[0] == "*":
            r, v = a * b, av * bv
        else:
            r, v = a / b, av / bv
        if abs(v) > 1e12:
            raise Unstable
        biggest = max(biggest, abs(v), abs(av), abs(bv))
        count += not isinstance(r, (int, float, complex))
        return r, v

    try:
        obj, val = go(case["tree"])
    except Unstable:
        return
    if isinstance(obj, (int, float, complex)):
        return
    out = Output(obj)
    sinks = []
    for p in [*(i.output(0) for i in ins), *bf.outputs]:
        if not p.signals:
            sinks.append(Output(p))
    sfg = SFG(ins, [out, *sinks])
    got = sfg.evaluate_output(0, vals)
    ensure(close(got, val, biggest), f"{case['tree']} for {vals} gives {got}, expected {val}")
    rec.nt(count >= 3)
    rec.label(f"{min(count, 6)} operators")


def bad_shift(case, rec):
    from b_asic.special_operations import Input

    x = Input()
    for f in (lambda: x << case["v"], lambda: x >> case["v"]):
        try:
            f()
        except TypeError:
            pass
        else:
            raise Violation(f"shift by {case['v']!r} was not refused")
    ensure(x.output(0).signal_count == 0, "refused shift left a connection")
    rec.nt()


# ------------------------------------------------------------------ parameters

PARAMS = {
    # type: {parameter: kind of value}
    "add": {"mul_j": "bool", "shift_output": "nat"},
    "sub": {"mul_j": "bool", "shift_output": "nat"},
    "addsub": {"is_add": "bool", "mul_j": "bool", "shift_output": "nat"},
    "shiftaddsub": {"is_add": "bool!", "shift": "nat", "mul_j": "bool!", "shift_output": "nat"},
    "c": {"value": "any"},
    "cmul": {"value": "any"},
    "mad": {"do_add": "bool"},
    "mads": {"is_add": "bool", "do_addsub": "bool"},
    "rshift": {"value": "nat"},
    "lshift": {"value": "nat"},
    "shift": {"value": "int"},
    "r2difbfly": {"w": "any"},
    "r2ditbfly": {"w": "any"},
    "r2tfbfly": {"w0": "any", "w1": "any"},
    "sym2p": {"value": "unit"},
    "ser2p": {"value": "two"},
    "par2p": {"value": "two"},
    "rfs3p": {"value": "one"},
    "ser3p": {"value": "pair"},
    "t": {"initial_value": "any"},
}
GOOD = {
    "bool": st.booleans(),
    "bool!": st.booleans(),
    "nat": st.integers(0, 40),
    "int": st.integers(-40, 40),
    "any": CPLX,
    "unit": st.one_of(st.sampled_from([-1, 1, 0, 0.5]), st.floats(-1, 1)),
    "two": st.one_of(st.sampled_from([0, 2, 1.5]), st.floats(0, 2)),
    "one": st.one_of(st.sampled_from([0, 1, 0.25]), st.floats(0, 1)),
    "pair": st.tuples(st.floats(0, 2), st.floats(0, 2)).filter(lambda t: t[0] + t[1] <= 2).map(list),
}
EPS = 1e-9
BAD = {
    "nat": st.one_of(st.integers(-9, -1), st.sampled_from([0.5, 2.0, -1.5])),
    "int": st.sampled_from([0.5, 2.0, -1.5]),
    "bool!": st.sampled_from([0, 1, 2, 0.5]),
    "unit": st.one_of(st.floats(1 + EPS, 5), st.floats(-5, -1 - EPS), st.sampled_from([2, -2])),
    "two": st.one_of(st.floats(2 + EPS, 5), st.floats(-5, -EPS), st.sampled_from([3, -1])),
    "one": st.one_of(st.floats(1 + EPS, 5), st.floats(-5, -EPS), st.sampled_from([2, -1])),
    "pair": st.one_of(
        st.tuples(st.floats(-2, -EPS), st.floats(0, 2)),
        st.tuples(st.floats(0, 2), st.floats(-2, -EPS)),
        st.tuples(st.floats(1, 2), st.floats(1 + EPS, 2)),
        st.tuples(st.floats(2 + EPS, 3), st.floats(-1, 0)),
    ).map(list),
}


def setting(t):
    opts = []
    for k, kind in PARAMS[t].items():
        opts.append(st.tuples(st.just(k), st.just(True), GOOD[kind]).map(list))
        if kind in BAD:
            opts.append(st.tuples(st.just(k), st.just(False), BAD[kind]).map(list))
    return st.one_of(opts)


def parameters(case, rec):
    t = case["t"]
    cls = class_of(t)

    def conv(k, v):
        return tuple(v) if PARAMS[t][k] == "pair" else v

    init = {k: conv(k, case["init"][k]) for k in PARAMS[t]}
    op = cls(**init)
    model = dict(init)

    def check(what):
        for k, v in model.items():
            got = getattr(op, k)
            ensure(got == v and type(got) is type(v), f"{t} {what}: {k} is {got!r}, expected {v!r}")
            ensure(op.param(k) == v, f"{t} {what}: param({k!r}) is {op.param(k)!r}, expected {v!r}")
        ensure({k: op.params[k] for k in model} == model, f"{t} {what}: params {op.params}")

    check(f"made with {init}")
    good = bad = 0
    for k, ok, v in case["acts"]:
        v = conv(k, v)
        what = f"after {k} = {v!r}"
        if ok:
            setattr(op, k, v)
            model[k] = v
            good += 1
        else:
            bad += 1
            for f in (lambda: setattr(op, k, v), lambda: cls(**{**model, k: v})):
                try:
                    f()
                except (ValueError, TypeError):
                    pass
                else:
                    raise Violation(f"{t}: {k} = {v!r} was not refused")
        check(what)
    rec.nt(good >= 1 and (bad >= 1 or not any(kind in BAD for kind in PARAMS[t].values())))
    rec.label(t)


def param_case(t):
    return st.fixed_dictionaries(
        {
            "t": st.just(t),
            "init": st.fixed_dictionaries({k: GOOD[kind] for k, kind in PARAMS[t].items()}),
            "acts": st.lists(setting(t), min_size=1, max_size=6),
        }
    )


FACETS = [
    Facet(
        "evaluate",
        st.sampled_from(sorted(set(OPS) - {"c"})).flatmap(
            lambda t: st.fixed_dictionaries(
                {
                    "t": st.just(t),
                    "p": wide_params(t),
                    "x": st.one_of(
                        st.lists(CPLX, min_size=1, max_size=7),
                        st.lists(REAL, min_size=3, max_size=7),
                        st.lists(CPLX, min_size=7, max_size=7),
                        st.lists(INT, min_size=3, max_size=7),
                    ),
                    "flag": st.sampled_from([None, False, True]),
                }
            )
        ),
        evaluate,
        9000,
        300000,
        shards=3,
    ),
    Facet(
        "operators",
        st.fixed_dictionaries({"tree": TREE, "vals": st.lists(CPLX, min_size=4, max_size=4)}),
        operators,
        6000,
        200000,
        shards=3,
    ),
    Facet(
        "shift amounts",
        st.fixed_dictionaries({"v": st.one_of(st.floats(-9, 9), st.sampled_from(["1", 1j, 2.0]))}),
        bad_shift,
        100,
        1000,
    ),
    Facet(
        "parameters",
        st.sampled_from(sorted(PARAMS)).flatmap(param_case),
        parameters,
        3000,
        60000,
        shards=1,
    ),
]
