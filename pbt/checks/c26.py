"""C26: digit and sequence utilities are exact."""

import itertools
from fractions import Fraction as F

from hypothesis import strategies as st

from ..core import Facet, ensure

RULE = (
    "Random integers (up to hundreds of bits, near powers of two, and with many runs of ones), floats of all magnitudes and "
    "sequences. Oracle: the value of the digits as a rational number, the canonical form (no two adjacent nonzero digits, no "
    "leading zero), brute-force minimal weight for small numbers; index formulas for sequences. Non-trivial: at least three "
    "nonzero digits, or a sequence with factor and phase above one and zero."
)
ASSUMPTIONS = ["Floats are finite and at least 2**-900 in magnitude (or zero)."]

_MIN = {}


def min_weight(n):
    """Fewest nonzero signed digits of n, by exhaustive search."""
    if not _MIN:
        _MIN[0] = 0
        powers = [s * (1 << k) for k in range(9) for s in (1, -1)]
        for w in range(1, 5):
            for c in itertools.combinations(powers, w):
                _MIN.setdefault(sum(c), w)
    return _MIN.get(n)


def canonical(digits, what):
    ensure(all(d in (-1, 0, 1) for d in digits), f"{what} has other digits than -1, 0, 1: {digits}")
    ensure(not digits or digits[0] != 0, f"{what} starts with a zero: {digits}")
    ensure(
        all(not (a and b) for a, b in zip(digits, digits[1:])),
        f"{what} has adjacent nonzero digits: {digits}",
    )


def value(digits):
    v = 0
    for d in digits:
        v = 2 * v + d
    return v


def integer(case, rec):
    from b_asic.utils import float_to_csd, int_to_csd

    n = case["n"]
    d = int_to_csd(n)
    canonical(d, f"int_to_csd({n})")
    ensure(value(d) == n, f"int_to_csd({n}) = {d} is {value(d)}")
    w = sum(1 for x in d if x)
    if abs(n) < 128:
        ensure(w == min_weight(n), f"int_to_csd({n}) has {w} nonzero digits, {min_weight(n)} are enough")
    neg = int_to_csd(-n)
    ensure(neg == [-x for x in d], f"int_to_csd({-n}) = {neg} is not the negated int_to_csd({n})")
    floats(n, rec)
    ensure(float_to_csd(n)[0] == (d if n == 0 else d[: len(d) - trailing(d)]), f"float_to_csd({n}) differs from int_to_csd({n}) = {d}")
    rec.nt(w >= 3)


def trailing(d):
    k = 0
    while d[-1 - k] == 0:
        k += 1
    return k


def floats(x, rec):
    from b_asic.utils import float_to_csd

    d, frac = float_to_csd(x)
    canonical(d, f"float_to_csd({x!r})")
    ensure(F(value(d)) * F(2) ** -frac == F(x), f"float_to_csd({x!r}) = {d}, {frac} is {float(F(value(d)) * F(2) ** -frac)!r}")
    ensure(not d or d[-1] != 0, f"float_to_csd({x!r}) ends with a zero: {d}")
    ensure(d or frac == 0, f"float_to_csd({x!r}) = {d}, {frac}")
    rec.nt(sum(1 for v in d if v) >= 3)


def floating(case, rec):
    x = case["x"]
    if x and abs(x) < 2.0**-900:
        return
    floats(x, rec)


def sequences(case, rec):
    from b_asic.utils import decompose, downsample, interleave, upsample

    a = case["a"]
    f = case["f"]
    ph = case["phase"] % f
    kw = {} if ph == 0 and case["default"] else {"phase": ph}
    d = downsample(a, f, **kw)
    ensure(list(d) == [x for i, x in enumerate(a) if i >= ph and (i - ph) % f == 0], f"downsample({a}, {f}, {ph}) = {d}")
    u = upsample(a, f, **kw)
    want = [0] * (f * len(a))
    for i, x in enumerate(a):
        want[f * i + ph] = x
    ensure(list(u) == want, f"upsample({a}, {f}, {ph}) = {u}")
    ensure(list(downsample(u, f, ph)) == a, f"downsampling upsample({a}, {f}, {ph}) does not give it back")
    parts = decompose(a, f)
    ensure([list(p) for p in parts] == [a[k::f] for k in range(f)], f"decompose({a}, {f}) = {parts}")
    full = a[: len(a) // f * f]
    ensure(list(interleave(*decompose(full, f))) == full, f"interleaving decompose({full}, {f}) does not give it back")
    rows = [case["b"][i % len(case["b"])] for i in range(f)]
    rows = [[(x, i) for x in a] for i in range(len(rows))]
    ensure(list(interleave(*rows)) == [(x, i) for x in a for i in range(len(rows))], "interleave mixes up its arguments")
    if len(a) > 1:
        for bad in (rows[0][:-1], [*rows[0], 0]):
            try:
                r = interleave(rows[0], bad)
            except ValueError:
                continue
            ensure(False, f"interleave of different lengths gives {r}")
    rec.nt(f > 1 and ph > 0 and len(a) > 2)


INT = st.one_of(
    st.integers(-130, 130),
    st.integers(-(2**40), 2**40),
    st.integers(-(2**300), 2**300),
    st.builds(lambda k, d, s: s * ((1 << k) + d), st.integers(0, 200), st.integers(-5, 5), st.sampled_from([1, -1])),
    st.lists(st.tuples(st.integers(1, 9), st.booleans()), min_size=1, max_size=9).map(
        lambda runs: int("".join(("1" if one else "0") * k for k, one in runs), 2)
    ),
)
FLOAT = st.one_of(
    st.floats(-1, 1, allow_subnormal=False),
    st.floats(-1e6, 1e6, allow_subnormal=False),
    st.floats(allow_nan=False, allow_infinity=False, allow_subnormal=False),
    st.builds(lambda n, k: n * 2.0**-k, st.integers(-(2**20), 2**20), st.integers(-30, 60)),
)
SEQ = st.fixed_dictionaries(
    {
        "a": st.lists(st.integers(-50, 50), max_size=24),
        "b": st.lists(st.integers(0, 5), min_size=1, max_size=3),
        "f": st.integers(1, 6),
        "phase": st.integers(0, 5),
        "default": st.booleans(),
    }
)
FACETS = [
    Facet("integers", st.fixed_dictionaries({"n": INT}), integer, 4000, 200000, shards=3),
    Facet("floats", st.fixed_dictionaries({"x": FLOAT}), floating, 3000, 100000, shards=3),
    Facet("sequences", SEQ, sequences, 1500, 40000, shards=2),
]
