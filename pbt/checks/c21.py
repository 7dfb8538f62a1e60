"""C21: generated VHDL storages give every variable back when it is read."""

import os
import shutil

from hypothesis import strategies as st

from .. import env
from ..core import Facet, ensure
from .c20 import run_ghdl

RULE = (
    "Random interleavers (any partial or full permutation of the cycles of a period with any lifetimes up to the period, random "
    "order) and matrix transposers, as memory-based storages (random strategy of assigning cells, with and without input registers, "
    "with address multiplexers) and register-based storages, compiled and run in GHDL over several periods with random data. Oracle: "
    "the value read one lifetime after the value written, shifted by the constant latency of the storage. Non-trivial: at least three "
    "variables alive at the same time and two different lifetimes."
)
ASSUMPTIONS = []

TB = """library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all; use std.textio.all;
entity tb is end;
architecture a of tb is
 type data_t is array (0 to {last}) of integer;
 constant data : data_t := ({data});
 signal clk, en : std_logic := '0';
 signal rst : std_logic := '1';
 signal x, y : std_logic_vector({wl} - 1 downto 0) := (others => '0');
begin
 u: entity work.dut port map(clk, rst, en, x, y);
 process variable l: line; begin
  rst <= '{rst}'; en <= not '{rst}'; x <= (others => '{rst}');
  for i in 1 to {pre} loop clk <= '0'; wait for 1 ns; clk <= '1'; wait for 1 ns; end loop;
  rst <= '1'; en <= '0';
  for i in 0 to 2 loop clk <= '0'; wait for 1 ns; clk <= '1'; wait for 1 ns; end loop;
  rst <= '0'; en <= '1';
  for i in 0 to {last} loop
   x <= std_logic_vector(to_unsigned(data(i), {wl})); clk <= '0'; wait for 1 ns;
   write(l, to_integer(unsigned(y))); writeline(output, l);
   clk <= '1'; wait for 1 ns;
  end loop; wait;
 end process;
end;
"""


def storage(case, rec):
    from b_asic.process import PlainMemoryVariable
    from b_asic.research.interleaver import generate_matrix_transposer
    from b_asic.resources import ProcessCollection

    wl, depth, mux = case["wl"], 0, 1
    if case["source"] == "transposer":
        pc = generate_matrix_transposer(case["rows"], case["cols"], case["low"])
        T = pc.schedule_time
        pairs = [(p.start_time, p.execution_time) for p in pc]
    else:
        T = case["T"]
        pairs = []
        reads = case["reads"]
        for w, r in zip(case["writes"], reads):
            L = (r - w) % T
            pairs.append((w, T if L == 0 and case["full"] else L))
        pc = ProcessCollection([PlainMemoryVariable(w, 0, {0: L}, name=f"v{w}") for w, L in pairs], T, True)
    if not any(L for _, L in pairs) or T < 2:
        return
    alive = [0] * T
    for w, L in pairs:
        for t in range(w, w + L):
            alive[t % T] += 1
    d = os.path.join(env.scratch_dir(), f"c21-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    file = os.path.join(d, "dut.vhdl")
    kind = case["kind"]
    ctx = f"{kind}, period {T}, (write time, lifetime): {sorted(pairs)}"
    try:
        if kind == "registers":
            try:
                pc.generate_register_based_storage_vhdl(file, wl, "dut")
            except ValueError as e:
                # the allocation is a heuristic
                ensure("allocate" in str(e) and case["source"] != "transposer", f"refused: {e} ({ctx})")
                rec.label("not allocatable")
                return
            latency = 1
        else:
            cells = pc.split_on_execution_time(strategy=case["strategy"])
            opt = {}
            latency = 2
            if kind == "unregistered":
                opt, latency = {"input_sync": False}, 1
            elif kind == "multiplexed":
                mux, depth = case["mux"], case["depth"]
                opt = {"adr_mux_size": mux, "adr_pipe_depth": depth}
                if mux**depth > T:
                    return
            ctx += f" {opt}"
            pc.generate_memory_based_storage_vhdl(file, "dut", wl, cells, **opt)
        n = 4 * T + depth + latency + 4
        seed = case["data"]
        data = [(x * (2 * i + 1) + i * i) % 2**wl for i in range(n) for x in [seed[i % len(seed)]]]
        with open(os.path.join(d, "tb.vhdl"), "w") as f:
            f.write(TB.format(last=n - 1, data=", ".join(map(str, data)), wl=wl, pre=case["pre"], rst=case["rst"]))
        what, log = run_ghdl(d, ["dut.vhdl", "tb.vhdl"], "tb")
        ensure(what == "ok", f"cannot be compiled and run: {log[:300]} ({ctx})")
        y = [int(v) for v in log.split()]
        assert len(y) == n
        for w, L in pairs:
            for k in range(4):
                # the data is expected after as many cycles as the addresses are pipelined
                t = w + k * T + depth
                if t + L + latency < n:
                    ensure(
                        y[t + L + latency] == data[t],
                        f"the variable written at {w} and read at {w + L} is {y[t + L + latency]} instead of {data[t]} in period {k} ({ctx})",
                    )
        rec.label(kind)
        rec.nt(max(alive) >= 3 and len({L for _, L in pairs}) > 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def storage_case(draw):
    case = {
        "kind": draw(st.sampled_from(["registers", "registers", "registered", "unregistered", "multiplexed"])),
        "strategy": draw(st.sampled_from(["left_edge", "greedy_graph_color"])),
        "wl": draw(st.integers(1, 24)),
        "mux": draw(st.sampled_from([1, 2, 2, 4])),
        "depth": draw(st.integers(0, 3)),
        "pre": draw(st.integers(0, 9)),
        "rst": draw(st.integers(0, 1)),
        "data": draw(st.lists(st.integers(1, 10**6), min_size=5, max_size=12)),
        "source": draw(st.sampled_from(["random", "random", "random", "transposer"])),
    }
    if case["source"] == "transposer":
        case |= {"rows": draw(st.integers(2, 5)), "cols": draw(st.integers(2, 5)), "low": draw(st.integers(0, 3))}
    else:
        T = draw(st.integers(2, 12))
        m = draw(st.one_of(st.just(T), st.integers(1, T)))
        case |= {
            "T": T,
            "writes": draw(st.permutations(range(T)))[:m],
            "reads": draw(st.permutations(range(T)))[:m],
            "full": draw(st.booleans()),
        }
    return case


def ports(case, rec):
    """Variables that need more ports than a storage has are refused, others are not."""
    from b_asic.process import PlainMemoryVariable
    from b_asic.resources import ProcessCollection

    T = case["T"]
    vs = [(w % T, [L % T + 1 for L in Ls]) for w, Ls in case["vars"]]
    pc = ProcessCollection(
        [PlainMemoryVariable(w, 0, dict(enumerate(Ls)), name=f"v{i}") for i, (w, Ls) in enumerate(vs)], T, True
    )
    writes, reads = [0] * T, [0] * T
    for w, Ls in vs:
        writes[w] += 1
        for L in set(Ls):
            reads[(w + L) % T] += 1
    many = max(writes) > 1 or max(reads) > 1
    d = os.path.join(env.scratch_dir(), f"c21p-{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    file = os.path.join(d, "dut.vhdl")
    try:
        what = "written"
        if case["memory"]:
            cells = pc.split_on_execution_time()
            try:
                pc.generate_memory_based_storage_vhdl(file, "dut", 8, cells, read_ports=1, write_ports=1)
            except ValueError as e:
                what = f"refused: {e}"
        else:
            try:
                pc.generate_register_based_storage_vhdl(file, 8, "dut", read_ports=1, write_ports=1)
            except ValueError as e:
                what = f"refused: {e}"
        ctx = f"{'memory' if case['memory'] else 'registers'}, period {T}, (write time, lifetimes) {vs}"
        ensure(what != "written" or not many, f"written although more than one port is needed ({ctx})")
        ensure(what == "written" or many or "allocate" in what, f"{what} ({ctx})")
        rec.label(what.split(":")[0])
        rec.nt(many and max(writes) <= 2 and max(reads) <= 2)
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [
    Facet(
        "ports",
        st.fixed_dictionaries(
            {
                "T": st.integers(2, 9),
                "memory": st.booleans(),
                "vars": st.lists(
                    st.tuples(st.integers(0, 8), st.lists(st.integers(0, 8), min_size=1, max_size=2).map(sorted)).map(list),
                    min_size=1,
                    max_size=4,
                ),
            }
        ),
        ports,
        400,
        4000,
    ),
    Facet("storages", storage_case(), storage, 320, 8000, shards=8),
]
