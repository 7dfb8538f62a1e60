"""Harness: facets, Hypothesis driver, shrinking, replay files, evidence, known findings."""

import argparse
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field

from .env import LIB, VERIF

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "90"))
SHRINK_SECONDS = 40
SOFT_BUDGET = {"quick": 400.0, "thorough": 5400.0}
HARD_BUDGET = {"quick": 780.0, "thorough": 9000.0}


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself is at fault."""


class Hang(BaseException):
    pass


class _Stop(BaseException):
    pass


def ensure(cond, msg="", **ctx):
    if not cond:
        raise Violation(msg + (f" {ctx}" if ctx else ""))


@dataclass
class Facet:
    name: str
    strategy: object
    check: object
    quick: int
    thorough: int = 0
    shards: int = 1
    rule: str = ""
    # cases of the committed regression corpus are run first
    corpus: list = field(default_factory=list)

    def __post_init__(self):
        if not self.thorough:
            self.thorough = self.quick * 20


class Rec:
    """What one case exercised."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def label(self, name):
        self.labels.append(name)


# ---------------------------------------------------------------- helpers


def case_json(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, complex):
        return {"__complex__": [o.real, o.imag]}
    if isinstance(o, tuple):
        return list(o)
    raise TypeError(type(o))


def _hook(d):
    if "__complex__" in d:
        return complex(*d["__complex__"])
    return d


def from_json(text):
    return json.loads(text, object_hook=_hook)


def normalise(case):
    """The case exactly as a replay file would give it."""
    return from_json(case_json(case))


def lib_frame(exc):
    """Deepest frame of the traceback inside the library, or None."""
    tb = exc.__traceback__
    last = None
    root = os.path.realpath(LIB) + os.sep
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(root):
            last = f"{fn[len(root):]}:{tb.tb_lineno} in {tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return last


def run_case(facet, case, rec):
    """Run one case; raises Violation / HarnessError only."""
    try:
        facet.check(case, rec)
    except (Violation, HarnessError):
        raise
    except (Hang, _Stop, KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # noqa: BLE001
        if type(e).__module__.startswith("hypothesis"):
            raise
        where = lib_frame(e)
        if where is not None:
            raise Violation(
                f"unexpected {type(e).__name__}: {str(e)[:300]} (at {where})"
            ) from e
        if isinstance(e, AssertionError):
            raise Violation(f"{e}") from e
        raise HarnessError(
            f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
        ) from e


# ---------------------------------------------------------------- worker


def _alarm(_sig, _frame):
    raise Hang()


def worker(prop, facet, shard, nshards, seed, tier, t_end, conn):
    faulthandler.enable()
    out = {
        "facet": facet.name,
        "shard": shard,
        "evaluations": 0,
        "nontrivial": set(),
        "labels": {},
        "samples": [],
        "failure": None,
        "error": None,
        "cut": False,
    }
    try:
        _worker(facet, shard, nshards, seed, tier, t_end, out)
    except BaseException:  # noqa: BLE001
        out["error"] = traceback.format_exc()
    conn.send(out)
    conn.close()


def _worker(facet, shard, nshards, seed, tier, t_end, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS
    n = facet.quick if tier == "quick" else facet.thorough
    if tier == "quick":
        n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
    n = max(1, -(-n // nshards))
    signal.signal(signal.SIGPROF, _alarm)
    state = {"fail": None, "msg": None, "fail_count": 0}

    def one(case, counting):
        rec = Rec()
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        try:
            run_case(facet, case, rec)
        except Violation as e:
            state["fail"] = case
            state["msg"] = str(e)
            raise
        except HarnessError as e:
            state["herr"] = (case, str(e))
            raise
        except Hang:
            state["fail"] = case
            state["msg"] = f"no answer after {CPU_LIMIT:.0f} s of processor time"
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if counting:
                out["evaluations"] += 1
                for lab in set(rec.labels):
                    out["labels"][lab] = out["labels"].get(lab, 0) + 1
                if rec.nontrivial:
                    h = hashlib.sha1(case_json(case).encode()).hexdigest()[:16]
                    if h not in out["nontrivial"]:
                        out["nontrivial"].add(h)
                        if len(out["samples"]) < 1:
                            out["samples"].append(case)

    def fail_result():
        out["failure"] = {
            "facet": facet.name,
            "case": case_json(state["fail"]),
            "message": state["msg"],
        }

    if shard == 0:
        for case in facet.corpus:
            try:
                one(normalise(case), True)
            except (Violation, Hang):
                fail_result()
                return
            except HarnessError:
                out["error"] = f"corpus: {state['herr']}"
                return

    fseed = int.from_bytes(
        hashlib.sha1(f"{seed}/{facet.name}/{shard}".encode()).digest()[:6], "big"
    )

    @hypothesis.seed(fseed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
    )
    @given(facet.strategy)
    def test(raw):
        if state["fail"] is None and time.monotonic() > t_end:
            out["cut"] = True
            raise _Stop()
        case = normalise(raw)
        one(case, state["fail"] is None)

    try:
        devnull = open(os.devnull, "w")
        old = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = devnull
        try:
            test()
        finally:
            sys.stdout, sys.stderr = old
    except _Stop:
        pass
    except (Violation, Hang):
        fail_result()
    except HarnessError:
        out["error"] = f"{state.get('herr')}"
    except BaseException as e:  # noqa: BLE001
        if state["fail"] is not None:
            # e.g. a failure that did not repeat while shrinking
            fail_result()
            out["failure"]["message"] += f" [{type(e).__name__} while shrinking]"
        else:
            out["error"] = traceback.format_exc()


# ---------------------------------------------------------------- known findings


def load_known():
    """Entries `known: property=<id> facet=<facet> key=<key> -- text`."""
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[len("known: "):].partition(" -- ")
                d = dict(kv.split("=", 1) for kv in head.split())
                d["text"] = text
                res.append(d)
    return res


def is_known(prop, facet, key):
    """Whether KNOWN_FINDINGS.txt lists this finding."""
    return any(k["property"] == prop and k["facet"] == facet and k["key"] == key for k in load_known())


# ---------------------------------------------------------------- main


def load_check(prop):
    import b_asic  # noqa: F401
    import b_asic.code_printer  # noqa: F401

    return importlib.import_module(f"pbt.checks.{prop.lower()}")


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--facet", action="append")
    ap.add_argument("--all", action="store_true", help="report every failing facet")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property.upper()
    t0 = time.monotonic()
    mod = load_check(prop)
    facets = list(mod.FACETS)
    names = [f.name for f in facets]
    assert len(set(names)) == len(names), names

    if a.replay:
        data = from_json(open(a.replay).read())
        facet = next(f for f in facets if f.name == data["facet"])
        if hasattr(mod, "setup"):
            mod.setup()
        try:
            run_case(facet, data["case"], Rec())
        except Violation as e:
            print(f"{prop} {facet.name}: {e}")
            if a.verbose:
                traceback.print_exc()
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        print(f"{prop} {facet.name}: held on {a.replay}")
        return 0

    if a.facet:
        facets = [f for f in facets if f.name in a.facet]
    for k in load_known():
        if k["property"] == prop:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    sys.stdout.flush()
    if hasattr(mod, "setup"):
        mod.setup()

    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    soft = t0 + SOFT_BUDGET[tier]
    hard = t0 + HARD_BUDGET[tier]
    tasks = []
    for f in facets:
        shards = f.shards if tier == "quick" else max(f.shards, 4)
        for s in range(shards):
            tasks.append((f, s, shards))
    tasks.sort(key=lambda t: t[1])
    ctx = mp.get_context("fork")
    running = []
    done = []
    failures = []
    errors = []
    cut = False
    stop = False
    while (tasks and not stop) or running:
        while tasks and len(running) < NPROC and not stop:
            f, s, ns = tasks.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(
                target=worker, args=(prop, f, s, ns, a.seed, tier, soft, w), daemon=False
            )
            p.start()
            w.close()
            running.append((p, r, f, s))
        ready = mp.connection.wait([x[1] for x in running], timeout=5)
        for item in list(running):
            p, r, f, s = item
            if r in ready:
                try:
                    out = r.recv()
                except EOFError:
                    p.join()
                    out = None
                    errors.append(
                        f"{f.name}[{s}]: worker ended without a result (exit {p.exitcode})"
                    )
                p.join()
                running.remove(item)
                if out is None:
                    continue
                done.append(out)
                if out["failure"]:
                    failures.append(out["failure"])
                    if not a.all:
                        stop = True
                if out["error"]:
                    errors.append(f"{f.name}[{s}]: {out['error']}")
                cut = cut or out["cut"]
        if stop or time.monotonic() > hard:
            if time.monotonic() > hard:
                cut = True
                stop = True
            for p, r, f, s in running:
                p.kill()
                p.join()
            running = []

    write_evidence(prop, mod, tier, a.seed, done, failures, time.monotonic() - t0, cut)
    total = sum(d["evaluations"] for d in done)
    nt = len({(d["facet"], h) for d in done for h in d["nontrivial"]})
    print(
        f"{prop}: {total} cases, {nt} distinct non-trivial, "
        f"{time.monotonic() - t0:.1f} s{' (budget reached)' if cut else ''}"
    )
    if a.verbose:
        for f in facets:
            ds = [d for d in done if d["facet"] == f.name]
            labs = {}
            for d in ds:
                for k, v in d["labels"].items():
                    labs[k] = labs.get(k, 0) + v
            print(
                f"  {f.name}: {sum(d['evaluations'] for d in ds)} cases,"
                f" {len({h for d in ds for h in d['nontrivial']})} nontrivial, {labs}"
            )
    if failures:
        os.makedirs(os.path.join(VERIF, "evidence", "replays"), exist_ok=True)
        for fl in failures:
            path = os.path.join(
                VERIF, "evidence", "replays", f"{prop}-{fl['facet']}.json"
            )
            with open(path, "w") as fh:
                json.dump(
                    {
                        "property": prop,
                        "facet": fl["facet"],
                        "message": fl["message"],
                        "case": json.loads(fl["case"]),
                    },
                    fh,
                    indent=1,
                )
            print(f"{prop} {fl['facet']}: {fl['message']}")
            print(f"case: {fl['case'][:3000]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print(f"HARNESS ERROR {prop} {e}", file=sys.stderr)
        return 2
    return 0


def write_evidence(prop, mod, tier, seed, done, failures, wall, cut):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    per = {}
    for d in done:
        e = per.setdefault(
            d["facet"], {"evaluations": 0, "distinct_nontrivial": set(), "classes": {}}
        )
        e["evaluations"] += d["evaluations"]
        e["distinct_nontrivial"] |= d["nontrivial"]
        for k, v in d["labels"].items():
            e["classes"][k] = e["classes"].get(k, 0) + v
    nt = sum(len(e["distinct_nontrivial"]) for e in per.values())
    for e in per.values():
        e["distinct_nontrivial"] = len(e["distinct_nontrivial"])
    samples = []
    seen = set()
    for d in done:
        if d["samples"] and d["facet"] not in seen:
            seen.add(d["facet"])
            text = case_json(d["samples"][0])
            case = json.loads(text) if len(text) < 6000 else text[:6000] + " ..."
            samples.append({"facet": d["facet"], "case": case})
    facet_rules = {f.name: f.rule for f in mod.FACETS if f.rule}
    doc = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(e["evaluations"] for e in per.values()),
            "distinct_nontrivial": nt,
            "rule": mod.RULE,
            "samples": samples[:8],
            "facets": per,
            "facet_rules": facet_rules,
            "budget_reached": cut,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(failures),
    }
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(doc, fh, indent=1, default=_default)
    os.replace(tmp, path)
