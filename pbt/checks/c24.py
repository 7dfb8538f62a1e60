"""C24: generated structures implement their specification."""

import cmath
import math
import random
from collections import Counter

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..sfggen import close

RULE = (
    "filters: FIR and IIR structures with random coefficients, options and input signals against direct evaluation of the "
    "difference equation; wave digital: allpass and lattice structures with random adaptor coefficients against power series "
    "of nested allpass functions, and lattice coefficients of random stable denominators and of classical lowpass filters "
    "against scipy; transforms: FFTs, matrix products and matrix inverses of random data against numpy; interleavers: "
    "transposers and random interleavers of random shape against the permutation. Non-trivial: at least three coefficients "
    "(filters), at least two adaptors, three poles (wave digital), at least four inputs (transforms), at least six values "
    "(interleavers)."
)

COEF = st.one_of(
    st.integers(-3, 3),
    st.integers(-24, 24).map(lambda x: x / 16),
    st.floats(-2, 2, allow_nan=False).filter(lambda x: x == 0 or abs(x) > 1e-6),
)
CCOEF = st.one_of(COEF, st.tuples(COEF, COEF).map(lambda t: complex(*t)))
SMALL = st.one_of(st.just(0), st.just(-1), st.just(1), st.integers(-16, 16).map(lambda x: x / 16), st.floats(-1, 1).filter(lambda x: x == 0 or abs(x) > 1e-6))
ADAPT = st.one_of(st.just(0), st.integers(-7, 7).map(lambda x: x / 8), st.floats(-0.95, 0.95).filter(lambda x: x == 0 or abs(x) > 1e-6))
SIGNAL = st.lists(st.integers(-8, 8).map(lambda x: x / 4), min_size=1, max_size=12)


def run(sfg, columns, n):
    from b_asic.simulation import Simulation

    sim = Simulation(sfg, [(lambda i, c=c: c[i] if i < len(c) else 0) for c in columns])
    return [list(sim.step()) for _ in range(n)]


def run_siso(sfg, x, n):
    ensure(sfg.input_count == 1 and sfg.output_count == 1, f"{sfg.input_count} inputs and {sfg.output_count} outputs")
    return [r[0] for r in run(sfg, [x], n)]


def compare(got, want, msg, tol=1e-9):
    scale = max([1.0, *(abs(v) for v in want)])
    for i, (g, w) in enumerate(zip(got, want)):
        ensure(close(g, w, scale, tol), f"{msg}: value {i} is {g}, expected {w}")
    ensure(len(got) == len(want), f"{msg}: {len(got)} values")


def difference_equation(b, a, x, n):
    y = []
    for i in range(n):
        v = sum(b[k] * x[i - k] for k in range(len(b)) if 0 <= i - k < len(x))
        v -= sum(a[k] * y[i - k] for k in range(1, len(a)) if i - k >= 0)
        y.append(v)
    return y


def as_given(values, kind):
    import numpy as np

    return [list, tuple, np.array][kind](values)


def timing_is(sfg, types, lat, ex, msg):
    for op in sfg.operations:
        if op.type_name() in types:
            ensure(op.latency == lat and op.execution_time == ex, f"{msg}: latency or execution time of {op.graph_id}")


def filters(case, rec):
    from b_asic.sfg_generators import direct_form_1_iir, direct_form_2_iir, fir

    kind, b, a, x = case["kind"], list(case["b"]), list(case["a"]), case["x"]
    kw = {}
    if case["tim"]:
        kw = {"mult_properties": {"latency": 3, "execution_time": 2}, "add_properties": {"latency": 1, "execution_time": 1}}
    if case["name"] is not None:
        kw["name"] = case["name"]
    n = len(x) + len(b) + 3
    if kind < 4:
        sym, tr = bool(kind & 1), bool(kind & 2)
        if sym:
            half = b[: (len(b) + 1) // 2]
            b = half + half[::-1][len(b) % 2 :]
            ensure(b == b[::-1], "harness: not symmetric")
        sfg = fir(as_given(b, case["as"]), symmetric=sym, transposed=tr, **kw)
        want = difference_equation(b, [1], x, n)
        cnt = sfg.operation_counter()
        if sym:
            ensure(
                cnt.get("cmul", 0) == (len(b) + 1) // 2,
                f"symmetric FIR filter with {len(b)} taps has {cnt.get('cmul', 0)} multiplications",
            )
        ensure(cnt.get("t", 0) == len(b) - 1, f"FIR filter with {len(b)} taps has {cnt.get('t', 0)} delays")
        msg = f"fir(symmetric={sym}, transposed={tr}) of {b}"
    else:
        a = [1, *a]
        m = max(len(a), len(b), 2)
        a += [0] * (m - len(a))
        b += [0] * (m - len(b))
        n = min(n + 2 * m, 24)
        want = difference_equation(b, a, x, n)
        f = [direct_form_1_iir, direct_form_2_iir][kind - 4]
        sfg = f(as_given(b, case["as"]), as_given(a, case["as"]), **kw)
        msg = f"{f.__name__}({b}, {a})"
    if case["name"] is not None:
        ensure(sfg.name == case["name"], f"{msg}: name {sfg.name!r}")
    compare(run_siso(sfg, x, n), want, msg)
    if case["tim"]:
        timing_is(sfg, ("cmul",), 3, 2, msg)
        timing_is(sfg, ("add",), 1, 1, msg)
    rec.nt(len(b) >= 3 and any(x))
    rec.label(f"kind {kind}, {len(b) % 2}")


def iir_refusals(case, rec):
    from b_asic.sfg_generators import direct_form_1_iir, direct_form_2_iir

    b, a = list(case["b"]), list(case["a"])
    bad = len(b) < 2 or len(a) < 2 or len(a) != len(b) or a[0] != 1
    f = [direct_form_1_iir, direct_form_2_iir][case["kind"]]
    try:
        sfg = f(b, a)
    except ValueError:
        ensure(bad, f"{f.__name__}({b}, {a}) is refused")
        rec.nt(len(b) >= 2)
        return
    ensure(not bad, f"{f.__name__}({b}, {a}) is accepted")
    compare(run_siso(sfg, [1], 8), difference_equation(b, a, [1], 8), f"{f.__name__}({b}, {a})")


# Power series in 1/z, truncated.


def mul(p, q):
    n = len(p)
    r = [0.0] * n
    for i, x in enumerate(p):
        if x:
            for j in range(n - i):
                r[i + j] += x * q[j]
    return r


def div(p, q):
    n = len(p)
    r = []
    for i in range(n):
        r.append((p[i] - sum(q[k] * r[i - k] for k in range(1, i + 1))) / q[0])
    return r


def shifted(p):
    return [0.0, *p[:-1]]


def adaptor(c, s):
    """Reflectance of a symmetric two-port adaptor with s at the other port: (S - c)/(1 - c S)."""
    num = [v - (c if i == 0 else 0) for i, v in enumerate(s)]
    den = [(1 if i == 0 else 0) - c * v for i, v in enumerate(s)]
    return div(num, den)


def allpass(coeffs, n):
    one = [1.0] + [0.0] * (n - 1)
    z = shifted(one)
    c = list(coeffs)
    res = one
    if len(c) % 2:
        res = adaptor(c.pop(0), z)
    while c:
        c1, c2 = c.pop(0), c.pop(0)
        res = mul(res, adaptor(c1, shifted(adaptor(c2, z))))
    return res


def branches(coeffs):
    c = list(coeffs)
    a, b = [], []
    which = [a, b]
    k = 0
    if len(c) % 2:
        a.append(c.pop(0))
        k = 1
    while c:
        which[k % 2].extend([c.pop(0), c.pop(0)])
        k += 1
    return a, b


def check_names(sfg, coeffs, names, msg):
    sym = sfg.find_by_type_name("sym2p")
    want = Counter(names[i] for i, c in enumerate(coeffs) if c)
    got = Counter(op.name for op in sym)
    ensure(got == want, f"{msg}: adaptors are named {dict(got)}, expected {dict(want)}")
    for i, c in enumerate(coeffs):
        if c and names[i]:
            ensure([op.value for op in sym if op.name == names[i]] == [c], f"{msg}: value of adaptor {names[i]}")


def wave_digital(case, rec):
    from b_asic.sfg_generators import lattice_wdf, wdf_allpass

    c, x = list(case["c"]), case["x"]
    n = len(x) + len(c) + 8
    names = [f"a{i}" for i in range(len(c))]
    kw = {}
    if case["names"] == 1:
        names, kw = [f"q_{i}" for i in range(len(c))], {"adaptor_names": "q_"}
    elif case["names"] == 2:
        names = [f"w{7 * i}" if i % 3 != 1 else "" for i in range(len(c))]
        kw = {"adaptor_names": [v or None for v in names]}
    if case["lattice"]:
        if case["adaptors"]:
            kw["only_adaptors"] = True
        sfg = lattice_wdf(as_given(c, case["as"]), **kw)
        pa, pb = branches(c)
        h = [(p + q) / 2 for p, q in zip(allpass(pa, n), allpass(pb, n))]
        msg = f"lattice_wdf({c}, {kw})"
        if case["adaptors"]:
            cnt = sfg.operation_counter()
            ensure(not set(cnt) & {"add", "sub", "cmul", "mul"}, f"{msg}: operations {cnt}")
            extra = [op for op in sfg.find_by_type_name("sym2p") if op.value == -0.5 and op.name not in [v for v in names if v]]
            ensure(len(extra) >= 1, f"{msg}: no final adaptor")
        else:
            check_names(sfg, c, names, msg)
    else:
        if case["tim"]:
            kw.update(latency=4, execution_time=2)
        sfg = wdf_allpass(as_given(c, case["as"]), **kw)
        h = allpass(c, n)
        msg = f"wdf_allpass({c}, {kw})"
        check_names(sfg, c, names, msg)
        if case["tim"]:
            timing_is(sfg, ("sym2p",), 4, 2, msg)
    want = [sum(x[k] * h[i - k] for k in range(min(i + 1, len(x)))) for i in range(n)]
    compare(run_siso(sfg, x, n), want, msg)
    ensure(len(sfg.find_by_type_name("t")) == len(c), f"{msg}: {len(sfg.find_by_type_name('t'))} delays")
    rec.nt(sum(1 for v in c if v) >= 2 and any(x))
    rec.label(f"lattice {case['lattice']} {len(c) % 2}")


def poly(roots):
    p = [1.0]
    for r in roots:
        p = [(p[i] if i < len(p) else 0) - (r * p[i - 1] if i else 0) for i in range(len(p) + 1)]
    return p


def lattice_design(case, rec):
    from b_asic.sfg_generators import lattice_wdf
    from b_asic.wdf import lattice_coeffs_from_tf

    if case["classic"]:
        import scipy.signal as ss

        order, wc = case["order"], case["wc"]
        b, a = {
            "butter": lambda: ss.butter(order, wc),
            "cheby1": lambda: ss.cheby1(order, 0.5, wc),
            "cheby2": lambda: ss.cheby2(order, 30, wc),
            "ellip": lambda: ss.ellip(order, 0.5, 30, wc),
        }[case["classic"]]()
        b, a = [float(v) for v in b], [float(v) for v in a]
    else:
        roots = [r for r in case["real"]]
        for rad, ang in case["pairs"]:
            p = cmath.rect(rad, ang)
            roots += [p, p.conjugate()]
        a = [v.real if isinstance(v, complex) else v for v in poly(roots)]
        b = None
        if len(a) < 2:
            return
        order = len(a) - 1
    k = case["k"]
    coeffs = list(lattice_coeffs_from_tf([k * v for v in a]))
    ensure(len(coeffs) == order, f"{len(coeffs)} adaptor coefficients for the denominator {a}")
    ensure(all(isinstance(c, (int, float)) for c in coeffs), f"coefficients {coeffs}")
    n = 4 * order + 12
    h = run_siso(lattice_wdf(coeffs), [1], n)
    rest = difference_equation(a, [1], [float(v) for v in h], n)
    scale = max(map(abs, a))
    for i in range(order + 1, n):
        ensure(
            abs(rest[i]) <= 1e-5 * scale,
            f"lattice of the denominator {a} does not have that denominator (remainder {rest[i]} at {i})",
        )
    if b is not None:
        want = difference_equation(b, a, [1], n)
        compare(h, want, f"lattice of the {case['classic']} filter of order {order} at {wc}", 1e-5)
    rec.nt(order >= 3)
    rec.label(f"{case['classic']}")


def transforms(case, rec):
    import numpy as np
    from b_asic.sfg_generators import (
        analytical_block_matrix_inverse,
        block_cholesky_matrix_inverse,
        block_ldlt_matrix_inverse,
        cholesky_matrix_inverse,
        ldlt_matrix_inverse,
        matrix_multiplication,
        radix_2_dif_fft,
        tile_ldlt_matrix_inverse,
    )

    rng = np.random.default_rng(case["seed"])
    kind, n = case["kind"], case["n"]
    if kind == "fft":
        points = n if case["raw"] else 2 ** (n % 7)
        try:
            sfg = radix_2_dif_fft(points)
        except ValueError:
            ensure(points < 1 or points & (points - 1), f"FFT of {points} points is refused")
            return
        ensure(points >= 1 and not points & (points - 1), f"FFT of {points} points is accepted")
        x = rng.integers(-4, 5, points) / 2 + (1j * rng.integers(-4, 5, points) / 2 if case["opt"] else 0)
        want = np.fft.fft(x)
        got = run(sfg, [[v] for v in x.tolist()], 1)[0]
        compare(got, want.tolist(), f"FFT of {points} points")
        butterflies = sfg.operation_counter().get("r2bfly", 0)
        ensure(butterflies == points // 2 * (points.bit_length() - 1), f"FFT of {points} points has {butterflies} butterflies")
        rec.nt(points >= 4)
    elif kind == "matmul":
        m, n, p = 1 + n % 4, 1 + case["opt"] % 4, 1 + case["k"] % 4
        kw = {"mad_properties": {"latency": 3, "execution_time": 1}} if case["raw"] else {}
        sfg = matrix_multiplication(m, n, p, **kw)
        a, b = rng.integers(-8, 9, (m, n)) / 4, rng.integers(-8, 9, (n, p)) / 4
        got = run(sfg, [[v] for v in [*a.ravel().tolist(), *b.ravel().tolist()]], 1)[0]
        compare(got, (a @ b).ravel().tolist(), f"{m}x{n} times {n}x{p}")
        names = [f"A[{i},{j}]" for i in range(m) for j in range(n)] + [f"B[{i},{j}]" for i in range(n) for j in range(p)]
        ensure([o.name for o in sfg.input_operations] == names, f"{m}x{n} times {n}x{p}: inputs {[o.name for o in sfg.input_operations]}")
        names = [f"C[{i},{j}]" for i in range(m) for j in range(p)]
        ensure([o.name for o in sfg.output_operations] == names, f"{m}x{n} times {n}x{p}: outputs")
        ensure(sfg.operation_counter()["mad"] == m * n * p, "number of MADs")
        if case["raw"]:
            timing_is(sfg, ("mad",), 3, 1, "matrix multiplication")
        rec.nt(m * n + n * p >= 4)
    else:
        f = {
            "ldlt": ldlt_matrix_inverse,
            "chol": cholesky_matrix_inverse,
            "bldlt": block_ldlt_matrix_inverse,
            "bchol": block_cholesky_matrix_inverse,
            "tldlt": tile_ldlt_matrix_inverse,
            "ana": analytical_block_matrix_inverse,
        }[kind]
        size = 1 + n % 7
        mode = ("top", "bot", "mid")[case["opt"] % 3] if kind == "ana" else ("mult", "eqs")[case["opt"] % 2]
        pe = (None, "mads", "addsub")[case["k"] % 3]
        msg = f"{f.__name__}({size}, mode={mode!r}, pe={pe!r})"
        try:
            sfg = f(size, mode=mode, pe=pe)
        except ValueError:
            ensure(kind in ("bldlt", "bchol", "tldlt") and size % 2, f"{msg} is refused")
            return
        ensure(not (kind in ("bldlt", "bchol", "tldlt") and size % 2), f"{msg} is accepted")
        r = rng.normal(size=(size, size))
        a = r @ r.T + 0.5 * np.eye(size)
        got = run(sfg, [[float(a[i, j])] for i in range(size) for j in range(i + 1)], 1)[0]
        inv = np.linalg.inv(a)
        compare(got, [float(inv[i, j]) for i in range(size) for j in range(i + 1)], msg, 1e-6)
        names = [f"A[{i},{j}]" for i in range(size) for j in range(i + 1)]
        ensure([o.name for o in sfg.input_operations] == names, f"{msg}: inputs {[o.name for o in sfg.input_operations]}")
        names = [f"res[{i},{j}]" for i in range(size) for j in range(i + 1)]
        ensure([o.name for o in sfg.output_operations] == names, f"{msg}: outputs {[o.name for o in sfg.output_operations]}")
        types = set(sfg.operation_counter())
        other = {"mads": {"add", "sub", "addsub", "mul"}, "addsub": {"add", "sub", "mads", "mad"}, None: {"addsub", "mads"}}[pe]
        ensure(not types & other, f"{msg} contains {sorted(types & other)}")
        rec.nt(size >= 3)
    rec.label(kind)


def interleavers(case, rec):
    from b_asic.research.interleaver import generate_matrix_transposer, generate_random_interleaver

    rows, cols, par, low, cyc = case["rows"], case["cols"], case["par"], case["low"], case["cyc"]
    if case["rand"]:
        values = rows * cols * par
        random.seed(case["seed"])
        pc = generate_random_interleaver(rows * cols, min_lifetime=low, cyclic=cyc, parallelism=par)
        time = rows * cols
        msg = f"generate_random_interleaver({rows * cols}, {low}, {cyc}, {par})"
    else:
        values = rows * cols
        msg = f"generate_matrix_transposer({rows}, {cols}, {low}, {cyc}, {par})"
        try:
            pc = generate_matrix_transposer(rows, cols if cols != rows else None, low, cyc, par)
        except ValueError:
            ensure(values % par, f"{msg} is refused")
            return
        ensure(values % par == 0, f"{msg} is accepted")
        time = values // par
    T = pc.schedule_time
    ensure(T % time == 0 and T > 0, f"{msg}: schedule time {T}")
    ensure(len(pc) == T * par, f"{msg}: {len(pc)} variables in {T} time units")
    writes, reads, lifetimes = {}, {}, []
    for v in pc:
        ensure(len(v.reads) == 1, f"{msg}: {v.reads}")
        ((rp, life),) = v.reads.items()
        w = (v.start_time % T, v.write_port)
        r = ((v.start_time + life) % T if cyc else v.start_time + life, rp)
        ensure(w not in writes, f"{msg}: two values written at time {w[0]} to port {w[1]}")
        ensure(r not in reads, f"{msg}: two values read at time {r[0]} from port {r[1]}")
        ensure(0 <= w[1] < par and 0 <= rp < par, f"{msg}: ports {w[1]} and {rp}")
        writes[w] = v
        reads[r] = v
        lifetimes.append(life)
        if cyc:
            ensure(life <= T, f"{msg}: lifetime {life} is longer than the schedule time {T}")
    ensure(min(lifetimes) == low, f"{msg}: shortest lifetime is {min(lifetimes)}")
    if not case["rand"]:
        # value number i of a matrix (row by row) is to be number (i % cols) * rows + i // cols of the transposed matrix
        period = {}
        for (t, p), v in writes.items():
            i = t * par + p
            life = next(iter(v.reads.values()))
            o = (v.start_time + life) * par + next(iter(v.reads))
            want = (i % values) % cols * rows + (i % values) // cols
            period.setdefault(0, o - (i // values) * values - want)
            ensure(
                o - (i // values) * values - want == period[0],
                f"{msg}: value {i} comes out as number {o - period[0]}, expected {want + (i // values) * values}",
            )
    rec.nt(values >= 6)
    rec.label(f"random {case['rand']}")


FILTERS = st.fixed_dictionaries(
    {
        "kind": st.integers(0, 5),
        "b": st.lists(CCOEF, min_size=1, max_size=9),
        "a": st.lists(SMALL, max_size=5),
        "x": SIGNAL,
        "as": st.integers(0, 2),
        "tim": st.booleans(),
        "name": st.sampled_from([None, None, "my filter"]),
    }
)
REFUSED = st.fixed_dictionaries(
    {
        "kind": st.integers(0, 1),
        "b": st.lists(COEF, max_size=4),
        "a": st.tuples(st.sampled_from([1, 1, 1.0, 2, 0]), st.lists(SMALL, max_size=3)).map(lambda t: [t[0], *t[1]]),
    }
)
WDF = st.fixed_dictionaries(
    {
        "c": st.lists(ADAPT, min_size=1, max_size=9),
        "lattice": st.booleans(),
        "adaptors": st.booleans(),
        "names": st.integers(0, 2),
        "tim": st.booleans(),
        "x": SIGNAL,
        "as": st.integers(0, 2),
    }
)
DESIGN = st.fixed_dictionaries(
    {
        "classic": st.sampled_from(["", "butter", "cheby1", "cheby2", "ellip"]),
        "order": st.integers(0, 4).map(lambda x: 2 * x + 1),
        "wc": st.floats(0.2, 0.8),
        "k": st.sampled_from([1, 1, 2, 0.5]),
        "real": st.lists(st.integers(-6, 6).map(lambda x: x / 8), max_size=3),
        "pairs": st.lists(st.tuples(st.floats(0.1, 0.9), st.floats(0.1, math.pi - 0.1)), max_size=3),
    }
)
TRANSFORMS = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["fft", "fft", "matmul", "ldlt", "chol", "bldlt", "bchol", "tldlt", "ana"]),
        "n": st.integers(-2, 20),
        "raw": st.booleans(),
        "opt": st.integers(0, 11),
        "k": st.integers(0, 11),
        "seed": st.integers(0, 10**6),
    }
)
INTER = st.fixed_dictionaries(
    {
        "rows": st.integers(1, 6),
        "cols": st.integers(1, 6),
        "par": st.integers(1, 4),
        "low": st.one_of(st.integers(0, 4), st.integers(0, 60)),
        "cyc": st.booleans(),
        "rand": st.booleans(),
        "seed": st.integers(0, 10**6),
    }
)

FACETS = [
    Facet("filters", FILTERS, filters, 800, 30000),
    Facet("iir_refusals", REFUSED, iir_refusals, 300, 8000),
    Facet("wave_digital", WDF, wave_digital, 500, 20000),
    Facet("lattice_design", DESIGN, lattice_design, 300, 12000),
    Facet("transforms", TRANSFORMS, transforms, 300, 8000),
    Facet("interleavers", INTER, interleavers, 500, 20000),
]
