"""Process collections as plain data, shared by the checks on resources."""

from hypothesis import strategies as st

from .core import ensure

NX_STRATEGIES = [
    "saturation_largest_first",
    "largest_first",
    "smallest_last",
    "independent_set",
    "connected_sequential_bfs",
    "connected_sequential_dfs",
]


def slots(start, length, T):
    """Time slots (modulo T) occupied, with multiplicity."""
    return [(start + k) % T for k in range(length)]


def ids_of(parts):
    return [[id(p) for p in part] for part in parts]


def ensure_partition(parts, procs, T, ctx):
    """Every process is in exactly one part; no part is empty; the schedule time is kept."""
    seen = [id(p) for part in parts for p in part]
    names = {id(p): p.name for p in procs}
    for i in seen:
        ensure(i in names, f"{ctx}: a part contains a process that is not in the collection")
    for p in procs:
        ensure(seen.count(id(p)) == 1, f"{ctx}: {p.name} is in {seen.count(id(p))} parts")
    for part in parts:
        ensure(len(part) > 0, f"{ctx}: an empty part")
        ensure(part.schedule_time == T, f"{ctx}: a part has schedule time {part.schedule_time}, not {T}")


def chromatic(n, edges):
    """Smallest number of colours of a small graph, by exhaustive search."""
    adj = [set() for _ in range(n)]
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    order = sorted(range(n), key=lambda v: -len(adj[v]))

    def fits(k):
        col = [None] * n

        def place(pos, used):
            if pos == n:
                return True
            v = order[pos]
            for c in range(min(used + 1, k)):
                if all(col[w] != c for w in adj[v]):
                    col[v] = c
                    if place(pos + 1, max(used, c + 1)):
                        return True
                    col[v] = None
            return False

        return place(0, 0)

    k = 0
    while not fits(k):
        k += 1
    return k


def quiet_solver():
    from pulp import PULP_CBC_CMD

    return PULP_CBC_CMD(msg=False, threads=1)


PLAIN = st.fixed_dictionaries(
    {
        "T": st.integers(1, 14),
        "p": st.lists(st.tuples(st.integers(0, 30), st.integers(0, 30)).map(list), min_size=0, max_size=9),
    }
)


def variables(case):
    """PlainMemoryVariables of a case {"T", "v": [[start, [reads...]], ...]}, as (variables, data)."""
    from b_asic.process import PlainMemoryVariable

    res, data = [], []
    for k, (start, reads) in enumerate(case["v"]):
        s = start % (case["T"] + 1)
        lives = {j: r for j, r in enumerate(reads)}
        res.append(PlainMemoryVariable(s, k, dict(lives), f"v{k}"))
        data.append((s, sorted(set(lives.values()))))
    return res, data


def accesses(data, T):
    """(writes, reads, total) per time slot of [(start, lives), ...]."""
    w = [0] * T
    r = [0] * T
    for s, lives in data:
        w[s % T] += 1
        for x in lives:
            r[(s + x) % T] += 1
    return w, r, [a + b for a, b in zip(w, r, strict=True)]
