"""C25: signal sources produce their documented sequences."""

import math
import os

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..env import scratch_dir

RULE = (
    "Random expressions of all generators, numbers, +, -, *, /, delays, up- and downsampling, evaluated at random (also "
    "negative) times and driving a simulation. Oracle: an independent evaluator of the expression; the printed expression is "
    "evaluated as Python and must give the same sequence. Non-trivial: at least two operators and a changing sequence."
)
ASSUMPTIONS = [
    "Gaussian and Uniform draw one number per call from numpy.random.default_rng(seed); each random source is used once.",
    "In printed expressions, numbers stand for constant sources.",
    "Sequences are plain Python lists; numbers are Python int, float or complex.",
]


class Undefined(Exception):
    pass


class Ref:
    """A reference source: value at a time (random sources: next value)."""

    def __init__(self, spec):
        self.spec = spec
        k = spec[0]
        if k in ("gauss", "uniform"):
            import numpy as np

            self.rng = np.random.default_rng(spec[1])
        self.sub = [Ref(s) for s in spec[1:] if isinstance(s, (list, tuple)) and s and isinstance(s[0], str)]

    def __call__(self, t):
        s = self.spec
        k = s[0]
        if k == "num":
            return s[1]
        if k == "const":
            return s[1]
        if k == "impulse":
            return int(t == s[1])
        if k == "step":
            return int(t >= s[1])
        if k in ("zeropad", "file"):
            return s[1][t] if 0 <= t < len(s[1]) else 0
        if k == "sin":
            return math.sin(math.pi * (s[1] * t + s[2]))
        if k == "gauss":
            return self.rng.normal(s[2], s[3])
        if k == "uniform":
            return self.rng.uniform(s[2], s[3])
        a = self.sub[0]
        if k == "delay":
            return a(t - s[2])
        if k == "up":
            q, r = divmod(t - s[3], s[2])
            return a(q) if r == 0 else 0
        if k == "down":
            return a(t * s[2] + s[3])
        b = self.sub[1]
        x, y = a(t), b(t)
        if k == "+":
            return x + y
        if k == "-":
            return x - y
        if k == "*":
            return x * y
        if y == 0:
            raise Undefined
        return x / y


def make(spec, path, count):
    import b_asic.signal_generator as sg

    k = spec[0]
    if k == "num":
        return spec[1]
    if k == "const":
        return sg.Constant(spec[1])
    if k == "impulse":
        return sg.Impulse(spec[1]) if spec[1] else sg.Impulse()
    if k == "step":
        return sg.Step(spec[1]) if spec[1] else sg.Step()
    if k == "zeropad":
        return sg.ZeroPad(list(spec[1]))
    if k == "file":
        count[0] += 1
        name = os.path.join(path, f"data{count[0]}.txt")
        with open(name, "w") as fh:
            for v in spec[1]:
                fh.write(f"{v!r}\n")
        return sg.FromFile(name)
    if k == "sin":
        return sg.Sinusoid(spec[1], spec[2]) if spec[2] else sg.Sinusoid(spec[1])
    if k == "gauss":
        return sg.Gaussian(spec[1], spec[2], spec[3])
    if k == "uniform":
        return sg.Uniform(spec[1], spec[2], spec[3])
    if k in ("up", "down"):
        cls = sg.Upsample if k == "up" else sg.Downsample
        inner = spec[1]
        data = list(inner[1]) if inner[0] == "zeropad" and spec[4] else make(inner, path, count)
        if inner[0] == "num":
            data = sg.Constant(data)
        return cls(data, spec[2], spec[3]) if spec[3] else cls(data, spec[2])
    a = make(spec[1], path, count)
    if k == "delay":
        if spec[1][0] == "num":
            a = sg.Constant(a)
        return sg.Delay(a, spec[2])
    b = make(spec[2], path, count)
    if not isinstance(a, sg.SignalGenerator) and not isinstance(b, sg.SignalGenerator):
        a = sg.Constant(a)
    return a + b if k == "+" else a - b if k == "-" else a * b if k == "*" else a / b


def operators(spec):
    n = int(spec[0] in "+-*/" or spec[0] in ("delay", "up", "down"))
    return n + sum(operators(s) for s in spec[1:] if isinstance(s, (list, tuple)) and s and isinstance(s[0], str))


def near(a, b, scale):
    try:
        return abs(a - b) <= 1e-9 * scale or (a != a and b != b)
    except OverflowError:
        return False


def expression(case, rec):
    import b_asic.signal_generator as sg

    spec = case["e"]
    path = os.path.join(scratch_dir(), f"c25-{os.getpid()}")
    os.makedirs(path, exist_ok=True)
    count = [0]
    gen = make(spec, path, count)
    if not isinstance(gen, sg.SignalGenerator):
        gen = sg.Constant(gen)
    text = str(gen)
    ns = {n: getattr(sg, n) for n in dir(sg) if not n.startswith("_")}
    for n in ("Delay", "Upsample", "Downsample"):
        # an expression of numbers only stands for a constant source
        ns[n] = lambda data, *a, _c=ns[n]: _c(sg.Constant(data) if isinstance(data, (int, float, complex)) else data, *a)
    ref, ref2, ref3 = Ref(spec), Ref(spec), Ref(spec)
    values = []
    for t in case["times"]:
        try:
            want = ref(t)
        except Undefined:
            return
        got = gen(t)
        ensure(got == want or (got != got and want != want), f"{text} at {t} is {got}, expected {want}")
        values.append(want)
    scale = 1 + max((abs(v) for v in values), default=0)
    if scale < 1e9:
        try:
            again = eval(text, {"__builtins__": {}}, ns)  # noqa: S307
            raw = eval(repr(gen), {"__builtins__": {}}, ns)  # noqa: S307
        except ZeroDivisionError:
            return
        except Exception as e:
            raise Violation(f"the printed expression {gen!r} cannot be evaluated: {e!r}") from None
        for other, r, what in ((again, ref2, "str"), (raw, ref3, "repr")):
            for t in case["times"]:
                want = r(t)
                got = other(t) if isinstance(other, sg.SignalGenerator) else other
                ensure(
                    near(got, want, 1e3 * scale),
                    f"{what} {text!r} describes {got} at {t}, the generator gives {want}",
                )
    rec.label(spec[0])
    rec.nt(operators(spec) >= 2 and len(set(values)) > 1)


def drive(case, rec):
    """A simulation asks for the times 0, 1, 2, ... once each."""
    from b_asic.sfg import SFG
    from b_asic.simulation import Simulation
    from b_asic.special_operations import Delay, Input, Output
    import b_asic.signal_generator as sg

    path = os.path.join(scratch_dir(), f"c25-{os.getpid()}")
    os.makedirs(path, exist_ok=True)
    gen = make(case["e"], path, [0])
    if not isinstance(gen, sg.SignalGenerator):
        gen = sg.Constant(gen)
    i = Input()
    d = Delay(i)
    sfg = SFG([i], [Output(i), Output(d)])
    ref = Ref(case["e"])
    try:
        want = [ref(t) for t in range(case["n"])]
    except Undefined:
        return
    sim = Simulation(sfg, [gen])
    for k in case["steps"]:
        if sim.iteration + k <= case["n"]:
            sim.run_for(k)
    n = sim.iteration
    if n == 0:
        return
    got = list(sim.results["out0"])
    late = list(sim.results["out1"])
    ensure(got == want[:n], f"{gen} gives {got}, expected {want[:n]}")
    ensure(late == [0, *want[: n - 1]], f"delayed {gen} gives {late}, expected {[0, *want[: n - 1]]}")
    rec.nt(operators(case["e"]) >= 1 and n >= 3 and len(set(want[:n])) > 1)


def refusals(case, rec):
    """Anything that is not a number or a generator is refused by the operators."""
    import b_asic.signal_generator as sg

    path = os.path.join(scratch_dir(), f"c25-{os.getpid()}")
    os.makedirs(path, exist_ok=True)
    gen = make(case["e"], path, [0])
    if not isinstance(gen, sg.SignalGenerator):
        gen = sg.Constant(gen)
    other = {"str": "1", "none": None, "list": [1], "func": len}[case["other"]]
    for f in (
        lambda: gen + other, lambda: other + gen, lambda: gen - other, lambda: other - gen,
        lambda: gen * other, lambda: other * gen, lambda: gen / other, lambda: other / gen,
    ):
        try:
            r = f()
        except TypeError:
            continue
        ensure(False, f"{case['other']} accepted: {r}")
    rec.nt(operators(case["e"]) >= 1)


SMALL = st.integers(-4, 9)
REAL = st.one_of(st.integers(-5, 5), st.sampled_from([0.5, -0.25, 1.5, -2.75, 3.125, 0.1, 1e-3]))
NUM = st.one_of(REAL, REAL, st.builds(complex, REAL, REAL))
DATA = st.lists(NUM, min_size=1, max_size=6)
SEED = st.integers(0, 50)


def leaves(files=True):
    opts = [
        st.tuples(st.just("num"), NUM),
        st.tuples(st.just("const"), NUM),
        st.tuples(st.just("impulse"), SMALL),
        st.tuples(st.just("step"), SMALL),
        st.tuples(st.just("zeropad"), DATA),
        st.tuples(st.just("sin"), st.sampled_from([0.1, 0.25, 0.3, 1, 0.7]), st.sampled_from([0, 0.5, -0.25, 0.1])),
        st.tuples(st.just("gauss"), SEED, st.sampled_from([0.0, 1, -2.5]), st.sampled_from([1.0, 2, 0.25])),
        st.tuples(st.just("uniform"), SEED, st.sampled_from([-1.0, 0, -3.5]), st.sampled_from([1.0, 2, 0.25])),
    ]
    if files:
        opts.append(st.tuples(st.just("file"), DATA))
    return st.one_of(opts).map(list)


def exprs(files=True):
    return st.recursive(
        leaves(files),
        lambda e: st.one_of(
            st.tuples(st.sampled_from(["+", "-", "*", "/", "-", "*"]), e, e),
            st.tuples(st.just("delay"), e, st.integers(-3, 5)),
            st.tuples(st.sampled_from(["up", "down"]), e, st.integers(1, 4), st.integers(-2, 5), st.booleans()),
        ).map(list),
        max_leaves=6,
    )


FACETS = [
    Facet("expression", st.fixed_dictionaries({"e": exprs(), "times": st.lists(st.integers(-6, 20), min_size=2, max_size=10)}),
          expression, 4000, 100000, shards=4),
    Facet("simulation", st.fixed_dictionaries({"e": exprs(), "n": st.integers(1, 8), "steps": st.lists(st.integers(1, 4), min_size=1, max_size=5)}),
          drive, 1200, 30000, shards=2),
    Facet("refusals", st.fixed_dictionaries({"e": exprs(False), "other": st.sampled_from(["str", "none", "list", "func"])}),
          refusals, 400, 4000, shards=1),
]
