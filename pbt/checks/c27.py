"""C27: the compiled simulation computes what the graph describes."""

import fcntl
import importlib.util
import os
import pickle
import subprocess
import sysconfig

from .. import env
from ..core import Facet, HarnessError, Violation, ensure
from . import c01

RULE = (
    "The facets of C01 (random graphs of all operations with delays, feedback and nested graphs, random sequences of advancing, "
    "changed inputs, cleared results and cleared state) driven through FastSimulation, compiled from src/ with the library's "
    "assertions, every case in a process of its own. Oracle: the independent reference evaluator of C01; an exception or a crash is "
    "a violation. Non-trivial: as in C01."
)
ASSUMPTIONS = c01.ASSUMPTIONS

SOURCES = ["main", "simulation", "simulation/compile", "simulation/run", "simulation/simulation"]
_module = None


def extension():
    """FastSimulation, built from the current sources once per run."""
    global _module
    if _module is not None:
        return _module
    d = os.path.join(env.scratch_dir(), "ext")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "_b_asic.so")
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(so):
            src = os.path.join(env.REPO, "src")
            import pybind11

            flags = ["-std=c++17", "-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-DFMT_HEADER_ONLY"]
            flags += [f"-I{pybind11.get_include()}", f"-I{sysconfig.get_paths()['include']}"]
            names = [os.path.join(p, f)[len(src) + 1 : -4] for p, _, fs in os.walk(src) for f in fs if f.endswith(".cpp")]
            objs = [os.path.join(d, n.replace("/", "_") + ".o") for n in names]
            jobs = [
                subprocess.Popen(["g++", *flags, "-c", os.path.join(src, n + ".cpp"), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                for n, o in zip(names, objs)
            ]
            logs = [j.communicate()[0].decode(errors="replace") for j in jobs]
            bad = [log for j, log in zip(jobs, logs) if j.returncode]
            if bad:
                raise HarnessError(f"the extension cannot be compiled: {bad[0][:500]}")
            subprocess.run(["g++", "-shared", *objs, "-o", so + ".tmp"], check=True)
            os.rename(so + ".tmp", so)
    spec = importlib.util.spec_from_file_location("_b_asic", so)
    _module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(_module)
    return _module


class Results(dict):
    """Recorded results, which contain what the outputs depend on."""

    def __init__(self, results, needed):
        super().__init__(results)
        self.needed = needed


def needed(sfg):
    """The result keys of the operation outputs that the outputs of the graph depend on."""
    seen = set()
    todo = [op.input(0).signals[0].source for op in sfg.output_operations]
    while todo:
        src = todo.pop()
        key = c01.key_of(src.operation, src.index, src.operation.output_count)
        if key not in seen:
            seen.add(key)
            todo += [p.signals[0].source for p in src.operation.inputs]
    return seen


class Fast:
    """FastSimulation whose exceptions are violations."""

    def __init__(self, *args):
        Sim = extension().FastSimulation
        self._sfg = args[0]
        self._sim = self._call("the constructor", Sim, *args)

    @staticmethod
    def _call(name, f, *args, **kwargs):
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise Violation(f"{name} of FastSimulation raised {type(e).__name__}: {str(e)[:300]}") from None

    @property
    def sfg(self):
        return self._sfg

    @property
    def iteration(self):
        return self._sim.iteration

    @property
    def results(self):
        return Results(self._call("results", lambda: self._sim.results), needed(self._sfg))

    def agrees(self, cols, n, scale):
        """All results, of operations in nested graphs too, are those of the interpreted simulation."""
        from b_asic.simulation import Simulation

        sim = Simulation(self._sfg, [(lambda k, c=c: c[k]) for c in cols])
        sim.run_for(n)
        want = sim.results
        got = self.results
        ensure(not got.needed - set(got), f"no results for {sorted(got.needed - set(got))}")
        for key in sorted(got):
            ensure(key in want, f"results under {key!r}, which the interpreted simulation does not have")
            for k, (a, b) in enumerate(zip(got[key], want[key])):
                ensure(c01.close(a, b, scale), f"{key} at iteration {k}: {a} instead of {b}")

    def __getattr__(self, name):
        f = getattr(self._sim, name)
        return lambda *args, **kwargs: self._call(name, f, *args, **kwargs)


def isolated(fn):
    """The facet in a process of its own."""

    def check(case, rec):
        extension()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                fn(case, rec, Fast)
                out = ("ok", rec.labels, rec.nontrivial)
            except Violation as e:
                out = ("violation", str(e), None)
            except BaseException as e:  # noqa: BLE001
                import traceback

                out = ("error", f"{type(e).__name__}: {e} {traceback.format_exc()[-600:]}", None)
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            raise Violation(f"FastSimulation crashed (wait status {status})")
        what, a, b = pickle.loads(data)
        if what == "violation":
            raise Violation(a)
        if what == "error":
            raise HarnessError(a)
        rec.labels += a
        rec.nt(b)

    return check


FACETS = [
    Facet("histories", c01.chunk_case, isolated(c01.chunk_history), 1200, 30000, shards=4),
    Facet("state", c01.reset_case, isolated(c01.state_reset), 500, 10000, shards=2),
    Facet("nested", c01.nested_case, isolated(c01.nested), 500, 10000, shards=2),
]
