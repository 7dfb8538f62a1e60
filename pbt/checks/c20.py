"""C20: printed architectures compute what the simulation computes."""

import os
import shutil
import subprocess
from fractions import Fraction as F

from hypothesis import strategies as st

from .. import env
from ..core import Facet, ensure
from ..procs import accesses, slots
from ..sfggen import REF, op_strategy
from .c19 import schedule_of, wanted_variables
from .c22 import limited, rounded
from .c28 import place

RULE = (
    "Random schedules of operations with printers (real and complex, with delays, feedback, shared and pipelined processing "
    "elements, RAM and register memories, multiplexers), printed with random options and word lengths, compiled and run in "
    "GHDL over several periods with garbage outside the scheduled input times and random stalls. Oracle: bit-exact "
    "simulation of the graph of the schedule with the same data type. Non-trivial: a memory, a shared processing element and "
    "a nonzero output."
)
ASSUMPTIONS = []
GHDL = ["--std=08", "-frelaxed"]


def resources(sched, case):
    """(processing elements, memories, direct variables) by a random valid placement, or None."""
    from b_asic.architecture import Memory, ProcessingElement
    from b_asic.resources import ProcessCollection

    T = sched.schedule_time
    ops = sorted(sched.get_operations(), key=lambda p: p.operation.graph_id)
    ops = [p for p in ops if p.operation.type_name() != "dontcare"]
    if any(p.execution_time > T for p in ops):
        return None
    direct, mem = sched.get_memory_variables().split_on_length()
    _, _, _, chains = wanted_variables(sched.get_memory_variables())
    if chains:
        mem = mem.split_into_chains()
    variables = sorted(mem, key=lambda v: v.name)

    def fits_pe(procs):
        used = [x for p in procs for x in slots(p.start_time, p.execution_time, T)]
        return len(used) == len(set(used))

    def fits_mem(procs):
        W, R, A = accesses([(p.start_time, sorted(set(p.reads.values()))) for p in procs], T)
        return max(W, default=0) <= 1 and max(R, default=0) <= 1

    pes, mems = [], []
    groups = {}
    for p in ops:
        groups.setdefault((p.operation.type_name(), p.operation.latency), []).append(p)
    choices = case["place"]
    for k, ((ty, _), members) in enumerate(sorted(groups.items(), key=lambda x: (str(x[0][0]), x[0][1]))):
        for b in place(members, fits_pe, choices[k:]):
            pes.append(ProcessingElement(ProcessCollection(b, T), f"{'inp' if ty == 'in' else 'outp' if ty == 'out' else 'pe'}{len(pes)}"))
    for b in place(variables, fits_mem, choices):
        if not fits_mem(b):
            return None
        kind = "register" if choices and choices[len(mems) % len(choices)] % 3 == 1 else "RAM"
        mems.append(Memory(ProcessCollection(b, T), memory_type=kind, entity_name=f"mem{len(mems)}", read_ports=1, write_ports=1))
        mems[-1].assign()
    return pes, mems, direct


def bits(v, n):
    return format(v % (1 << n), f"0{n}b")


def bench(arch, dt, drive, check, stalls, registers, enable_pin):
    """
    A test bench: drive {cycle: {signal: bits}}, check {cycle: {signal: bits}}, stalls {cycle: number of cycles before it
    with en low}, registers: (at the inputs, at the outputs). Cycles are those of the schedule counter.
    """
    inreg, outreg = registers
    en = []
    for c in range(max(check) + 1):
        en += [0] * stalls.get(c, 0) + [1]
    en += [1, 1, 1]
    # drive and check by the cycle of the clock
    internal = [0] + en if inreg else en
    hw_drive, hw_check = {}, {}
    i = 0
    for r, e in enumerate(en):
        hw_drive[r] = drive.get(i if e else i + 1, {})
        i += e
    i = 0
    for r, e in enumerate(internal):
        if e:
            hw_check[r + outreg] = check.get(i, {})
            i += 1
    lines = ["library ieee;", "use ieee.std_logic_1164.all;", "use std.env.all;", "entity pbt_tb is end entity;", "architecture sim of pbt_tb is"]
    lines += ["signal clk : std_logic := '0';", "signal rst : std_logic := '1';", "signal en : std_logic := '0';"]
    ports = ["clk => clk", "rst => rst"] + (["en => en"] if enable_pin else [])
    for d, n, init in ((drive, dt.input_bits, " := (others => '0')"), (check, dt.output_bits, "")):
        for s in sorted({s for x in d.values() for s in x}):
            lines.append(f"signal {s} : std_logic_vector({n - 1} downto 0){init};")
            ports.append(f"{s} => {s}")
    lines += ["begin", "dut : entity work." + arch.entity_name + " port map (" + ", ".join(ports) + ");"]
    lines += ["clk <= not clk after 1 ns;", "process begin", "rst <= '1'; en <= '0'; wait until falling_edge(clk); rst <= '0';"]
    for r in range(max(hw_check) + 1):
        if r < len(en) and (r == 0 or en[r] != en[r - 1]):
            lines += [f"en <= '{en[r]}';"]
        lines += [f'{s} <= "{v}";' for s, v in hw_drive.get(r, {}).items()]
        lines.append("wait for 900 ps;")
        for s, v in hw_check.get(r, {}).items():
            lines.append(f'assert {s} = "{v}" report "PBT {s} {r} " & to_string({s}) & " expected {v}" severity failure;')
        lines.append("wait until falling_edge(clk);")
    lines += ['report "PBT done";', "stop(0);", "end process;", "end architecture;"]
    return "\n".join(lines) + "\n"


def ghdl(args, cwd):
    return subprocess.run(["ghdl", *args], cwd=cwd, capture_output=True, text=True, timeout=120)


def run_ghdl(d, files, top):
    lib = os.path.join(d, "lib")
    os.makedirs(lib, exist_ok=True)
    r = ghdl(["-a", *GHDL, f"--workdir={lib}", *files], d)
    if r.returncode != 0:
        return "analysis", r.stdout + r.stderr
    r = ghdl(["--elab-run", *GHDL, f"--workdir={lib}", top, "--ieee-asserts=disable"], d)
    return ("ok" if r.returncode == 0 else "run"), r.stdout + r.stderr


class Design:
    """The architecture of a case, its schedule, data type and printer options."""

    def __init__(self, sched, pes, mems, direct, dt, opt):
        from b_asic.architecture import Architecture

        self.sched, self.pes, self.mems, self.dt, self.opt = sched, pes, mems, dt, opt
        self.arch = Architecture(pes, mems, "top", direct if len(direct) else None)
        self.inreg = bool(opt.get("io_registers") or opt.get("input_register"))
        self.outreg = bool(opt.get("io_registers") or opt.get("output_register"))
        self.enable_pin = opt.get("enable_pin", True)
        # registered control signals are not valid from the first cycle, and without an enable signal the design runs before and
        # during the reset: laps with zeros at the inputs until nothing of that is left
        delays = sum(o.type_name() == "t" for o in sched.sfg.operations)
        self.warm = sched.schedule_time * (delays + 3) * (any(opt.get(k) for k in REGISTERED) or not self.enable_pin)
        self.types = {o.type_name() for o in sched.sfg.operations}

    def print(self, d):
        """Write the design to d, return the files in order of compilation."""
        from b_asic.code_printer import VhdlPrinter

        printer = VhdlPrinter(self.dt)
        printer.print(self.arch, path=d, **self.opt)
        return printer.get_compile_order(self.arch)

    def nontrivial(self):
        return self.mems and any(len(pe.collection) > 1 for pe in self.pes if pe.operation_type.type_name() not in ("in", "out"))

    def simulate(self, case):
        """(integers of the inputs: {graph id: [re, im, re, im, ...]}, simulation)."""
        from b_asic.data_type import DataType
        from b_asic.simulation import Simulation

        dt = self.dt
        lsb = F(1, 1 << dt.wl[1])
        raw, prov = {}, []
        for i, g in enumerate(sorted(o.graph_id for o in self.sched.sfg.input_operations)):
            raw[g] = [limited(case["x"][(7 * k + 3 * i) % len(case["x"])], sum(dt.input_wl), "WRAPPING") for k in range(2 * case["n"])]
        for o in self.sched.sfg.input_operations:
            v = raw[o.graph_id]
            if dt.is_complex:
                prov.append([complex(float(a * lsb), float(b * lsb)) for a, b in zip(v[::2], v[1::2])])
            else:
                prov.append([float(a * lsb) for a in v[::2]])
        plain = DataType(wl=dt.wl, is_complex=dt.is_complex, quantization_mode=dt.quantization_mode, overflow_mode=dt.overflow_mode)
        sim = Simulation(self.sched.sfg, prov, plain)
        sim.run_for(case["n"])
        return raw, sim


def recursive(sfg):
    """If the graph has a loop."""
    left = {o.graph_id: {s.graph_id for s in o.subsequent_operations} for o in sfg.operations}
    while True:
        free = {g for g, succ in left.items() if not succ & left.keys()}
        if not free:
            return bool(left)
        left = {g: succ for g, succ in left.items() if g not in free}


def design(case):
    """The Design of a case or None."""
    from b_asic.data_type import DataType
    from b_asic.quantization import OverflowMode, QuantizationMode

    sched = schedule_of(case)
    if sched is None:
        return None
    types = {o.type_name() for o in sched.sfg.operations}
    if types & {"sink", "c"} or "in" not in types:
        return None
    res = resources(sched, case)
    if res is None:
        return None
    pes, mems, direct = res
    ib, fb = case["wl"]
    fb += 4
    # coefficients are of the same type
    values = [complex(o["p"].get("value", 0)) for o in case["spec"]["o"]]
    ib += 3
    while any(not -(2 ** (ib - 1)) <= x < 2 ** (ib - 1) for v in values for x in (v.real, v.imag)):
        ib += 1
    ib += case["wide"]
    dt = DataType(
        wl=(ib, fb), input_wl=(max(1, ib - case["iwl"]), fb), output_wl=(max(1, ib - case["owl"][0]), max(0, fb - case["owl"][1])),
        is_complex=case["cplx"], quantization_mode=QuantizationMode[case["qm"]], overflow_mode=OverflowMode[case["om"]],
    )
    opt = {k: v for k, v in case["opt"].items() if v is not None}
    if recursive(sched.sfg):
        opt = {k: v for k, v in opt.items() if k not in (*REGISTERED, "enable_pin")}
    if case["regs"]:
        regs = {}
        for k, pe in enumerate(pes):
            if pe._latency:
                r = case["regs"][k % len(case["regs"])] % (pe._latency + 1)
                regs[pe.entity_name] = (pe._latency - r, r)
        opt["pe_registers"] = regs
    return Design(sched, pes, mems, direct, dt, opt)


def printed(case, rec):
    D = design(case)
    if D is None:
        return
    dt, opt, sched, arch = D.dt, D.opt, D.sched, D.arch
    T = sched.schedule_time
    d = os.path.join(env.scratch_dir(), f"c20-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    try:
        files = D.print(d)
        rec.label("printed")
        # the numbers
        N = case["n"]
        raw, sim = D.simulate(case)
        lsb = F(1, 1 << dt.wl[1])
        cplx, inp, out, (ib, fb), warm = dt.is_complex, dt.input_wl, dt.output_wl, dt.wl, D.warm
        pe_of = {p.operation.graph_id: (pe.entity_name, p.start_time) for pe in arch.processing_elements for p in pe.collection}
        drive, check = {}, {}
        parts = ["_re", "_im"] if cplx else [""]
        names = {pe_of[g][0] for g in raw}
        end = 0
        nz = False
        for o in sched.sfg.output_operations:
            name, t0 = pe_of[o.graph_id]
            arr = sim.results[o.graph_id]
            for k in range(N):
                b = arr[k].to_bits()
                b = list(b) if cplx else [b]
                t = warm + t0 + k * T
                end = max(end, t)
                for p, v in zip(parts, b):
                    v = limited(v, ib + fb, "WRAPPING") * lsb * (1 << out[1])
                    w = limited(rounded(v, case["qm"], out[1] < fb, True), sum(out), case["om"])
                    nz |= w != 0
                    check.setdefault(t, {})[f"{name}_0_out{p}"] = bits(w, sum(out))
        for c in range(end + 1):
            for n in names:
                if c < warm:
                    drive.setdefault(c, {}).update({f"{n}_0_in{p}": "0" * sum(inp) for p in parts})
                    continue
                for p in parts:
                    g = case["x"][(c * 5 + len(p)) % len(case["x"])]
                    drive.setdefault(c, {})[f"{n}_0_in{p}"] = "X" * sum(inp) if case["garbage"] == 0 else bits(g, sum(inp))
        for g in raw:
            name, t0 = pe_of[g]
            if warm + t0 >= T:  # the state before the first iteration is zero
                drive[warm + t0 - T].update({f"{name}_0_in{p}": "0" * sum(inp) for p in parts})
            for k in range(N):
                for j, p in enumerate(parts):
                    t = warm + t0 + k * T
                    if t <= end:
                        drive[t][f"{name}_0_in{p}"] = bits(raw[g][2 * k + j], sum(inp))
        stalls = {} if not D.enable_pin else {c % (end + 1): n for c, n in case["stalls"]}
        with open(os.path.join(d, "pbt_tb.vhdl"), "w") as f:
            f.write(bench(arch, dt, drive, check, stalls, (D.inreg, D.outreg), D.enable_pin))
        what, log = run_ghdl(d, [*files, "pbt_tb.vhdl"], "pbt_tb")
        ctx = f"{sorted(D.types)}, {ib}.{fb} in {inp} out {out} {case['qm']} {case['om']} {opt} T={T} stalls {stalls} memories {[m._memory_type for m in D.mems]}"
        msg = [x for x in log.splitlines() if "PBT" in x or "error" in x.lower()]
        ensure(what != "analysis", f"does not compile: {msg[:3] or log[:300]} ({ctx})")
        ensure("PBT done" in log, f"wrong result: {msg[:2] or log[:300]} ({ctx})")
        rec.label("stalls" if stalls else "no stalls")
        for m in D.mems:
            rec.label(m._memory_type)
        rec.nt(D.nontrivial() and nz)
    finally:
        shutil.rmtree(d, ignore_errors=True)


REGISTERED = [
    "multiplexer_control_registered", "pipeline_pe_control", "pipeline_mem_control", "pipeline_output_mux", "pipeline_back_edge_mux"
]
QM = ["TRUNCATION", "MAGNITUDE_TRUNCATION", "UNBIASED_MAGNITUDE_TRUNCATION"]


@st.composite
def arch_case(draw):
    cplx = draw(st.booleans())
    types = ["addsub", "shiftaddsub", "cmul", "cmul"] if cplx else ["add", "addsub", "shiftaddsub", "cmul", "cmul", "mads", "sym2p", "sym2p"]
    ni = draw(st.integers(1, 3))
    qm = draw(st.sampled_from(QM))
    ops = draw(st.lists(op_strategy(types, cplx), min_size=1, max_size=6))
    if qm != "TRUNCATION":  # shifts truncate
        for o in ops:
            o["p"].update({k: 0 for k in o["p"] if k.startswith("shift")})
    if qm == "MAGNITUDE_TRUNCATION":  # the simulation adds the sign bit also when the coefficient has no fractional bits
        for o in ops:
            if "value" in o["p"]:
                v = complex(o["p"]["value"])
                v = complex(*(x + 0.5 * (x == int(x)) for x in (v.real, v.imag)))
                o["p"]["value"] = v if cplx and o["t"] == "cmul" else v.real
    lat = st.fixed_dictionaries({"in": st.just([0]), "out": st.integers(0, 5).map(lambda v: [v]), "ex": st.integers(1, 2)})
    flag = st.sampled_from([None, None, True, False])
    return {
        "spec": {
            "ni": ni,
            "d": draw(st.lists(st.fixed_dictionaries({"i": st.just(0), "s": REF}), max_size=2)),
            "o": ops,
            "out": draw(st.lists(REF, max_size=2)),
            "sty": draw(st.integers(0, 7)),
        },
        "cplx": cplx,
        "tim": draw(st.lists(lat, min_size=1, max_size=4)),
        "alg": draw(st.integers(0, 1)),
        "T": draw(st.integers(0, 6)),
        "cyc": True,
        "same": draw(st.sampled_from([False, False, True])),
        "ex": 1,
        "mv": draw(st.lists(st.tuples(st.integers(0, 63), st.integers(-6, 6)).map(list), max_size=6)),
        "place": draw(st.lists(st.integers(0, 11), min_size=1, max_size=8)),
        "wl": draw(st.tuples(st.integers(0, 3), st.integers(0, 4))),
        "wide": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, 24])),
        "iwl": draw(st.integers(0, 2)),
        "owl": draw(st.tuples(st.integers(0, 2), st.integers(0, 2))),
        "qm": qm,
        "om": draw(st.sampled_from(["WRAPPING", "SATURATION"])),
        "n": draw(st.integers(2, 6)),
        "x": draw(st.lists(st.integers(-(2**12), 2**12), min_size=5, max_size=17)),
        "garbage": draw(st.integers(0, 1)),
        "regs": draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=4))),
        "stalls": draw(st.lists(st.tuples(st.integers(0, 60), st.integers(1, 3)), max_size=3)),
        "opt": {
            k: draw(flag)
            for k in (
                "io_registers", "input_register", "output_register", "multiplexer_control_registered", "enable_pin",
                "pipeline_pe_control", "output_sync", "pipeline_mem_control", "pipeline_output_mux",
                "pipeline_back_edge_mux",
            )
        },
    }


FACETS = [
    Facet("printed", arch_case(), printed, 320, 6000, shards=8),
]
