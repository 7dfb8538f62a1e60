"""C29: generated test benches accept the simulated results and nothing else."""

import ast
import os
import shutil

from .. import env
from ..core import Facet, ensure
from .c20 import arch_case, design, run_ghdl

RULE = (
    "Architectures as in C20 (one word length), the VHDL test bench and the sequence of the cocotb test bench generated from "
    "the simulation of the schedule. Oracle: the VHDL bench passes in GHDL on the printed architecture, fails when the expected value of one "
    "random output sample is changed, and the cocotb sequence, run by an own driver in GHDL, contains every sample and passes. Non-trivial: a "
    "memory, a shared processing element and a nonzero output."
)
ASSUMPTIONS = []


def altered(results, gid, k, part, bit):
    """The results with one bit of one sample changed."""

    class One:
        """A fixed-point value of given bits."""

        def __init__(self, v, b):
            self.v, self.b = v, b

        def to_bits(self):
            return self.b

        def __float__(self):
            return float(self.v)

        real = property(lambda self: self.v.real)
        imag = property(lambda self: self.v.imag)

    out = dict(results)
    values = [results[gid][i] for i in range(len(results[gid]))]
    b = values[k].to_bits()
    if isinstance(b, tuple):
        b = list(b)
        b[part] ^= 1 << bit
        b = tuple(b)
    else:
        b ^= 1 << bit
    old = values[k]
    values[k] = One(old, b)
    out[gid] = values
    return out


def benches(case, rec):
    from b_asic.tb_printer import CocotbPrinter, VhdlTbPrinter

    case = {**case, "iwl": 0, "owl": [0, 0], "regs": None}
    D = design(case)
    if D is None:
        return
    dt, arch, sched = D.dt, D.arch, D.sched
    T, N = sched.schedule_time, case["n"]
    n = sum(dt.wl)
    parts = ["_re", "_im"] if dt.is_complex else [""]
    opt = {k: D.opt[k] for k in ("io_registers", "input_register", "output_register", "enable_pin") if k in D.opt}
    d = os.path.join(env.scratch_dir(), f"c29-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    try:
        files = D.print(d)
        raw, sim = D.simulate(case)
        res = dict(sim.results)
        laps = D.warm // T
        VhdlTbPrinter(res).print(arch, dt, path=d, warmup_laps=laps, **opt)
        what, log = run_ghdl(d, [*files, "tb.vhdl"], "tb")
        ctx = f"{sorted(D.types)}, {D.opt} T={T} {n} bits"
        msg = [x for x in log.splitlines() if "expected" in x or "error" in x.lower()][:3] or log[:300]
        ensure(what == "ok" and "SUCCESS" in log, f"the VHDL test bench rejects the architecture: {msg} ({ctx})")
        # one wrong value
        outs = sorted(o.graph_id for o in sched.sfg.output_operations)
        p = case["place"]
        gid, k = outs[p[0] % len(outs)], p[-1] % N
        wrong = altered(res, gid, k, p[len(p) // 2] % 2, case["x"][0] % n)
        VhdlTbPrinter(wrong).print(arch, dt, path=d, warmup_laps=laps, **opt)
        what, log = run_ghdl(d, [*files, "tb.vhdl"], "tb")
        ensure(what == "run" and "SUCCESS" not in log, f"the VHDL test bench accepts a wrong value of {gid}, sample {k} ({ctx})")
        # the sequence of the cocotb test bench
        CocotbPrinter(res).print(arch, sched, path=d, **opt)
        with open(os.path.join(d, "tb.py")) as f:
            tree = ast.parse(f.read())
        values = {t.id: x.value for x in tree.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
        seq = ast.literal_eval(values["SEQUENCE"])
        ensure([x.args[0].value for x in values["SOURCES"].elts] == files, f"cocotb: wrong sources ({ctx})")
        ensure(values["ENABLE_PIN"].value is bool(D.enable_pin), f"cocotb: wrong enable pin ({ctx})")
        pe_of = {q.operation.graph_id: (pe.entity_name, q.start_time) for pe in arch.processing_elements for q in pe.collection}
        wanted = {}
        for o in [*sched.sfg.input_operations, *sched.sfg.output_operations]:
            g = o.graph_id
            name, t0 = pe_of[g]
            inp = g in raw
            for k in range(N):
                b = res[g][k].to_bits()
                for q, v in zip(parts, list(b) if dt.is_complex else [b]):
                    wanted.setdefault(t0 + k * T + (0 if inp else D.inreg + D.outreg), {})[f"{name}_0_{'in' if inp else 'out'}{q}"] = v
        ensure(seq == wanted, f"cocotb: sequence {str(seq)[:200]} instead of {str(wanted)[:200]} ({ctx})")
        rec.label("accepted")
        rec.nt(D.nontrivial() and any(v for t in wanted.values() for s, v in t.items() if "_out" in s))
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [
    Facet("benches", arch_case(), benches, 80, 2500, shards=8),
]
