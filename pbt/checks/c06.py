"""C06: ports and signals stay mutually consistent under any editing."""

from hypothesis import strategies as st

from ..core import Facet, Violation, ensure
from ..sfggen import OPS, make_op, params_strategy

RULE = (
    "A random sequence of up to 40 connection edits (creating signals from ports, signals or operations; setting, removing "
    "sources and destinations; adding, removing and clearing at ports; connect and <<= with ports, operations and signals; "
    "inserting delays; swapping; creating operations and arithmetic on top of existing ones) is applied to eight operations, "
    "four bare ports and a growing set of signals, next to a model holding only source and destination of every signal. "
    "After every edit everything observable is compared with the model; a request the model refuses must raise and change "
    "nothing. Non-trivial: at least one signal moved between ports, and one refused request."
)


class Refused(Exception):
    pass


class World:
    """The real objects and the model: sig -> (source port key, destination port key)."""

    def __init__(self):
        from b_asic.core_operations import Addition, Constant, ConstantMultiplication
        from b_asic.fft_operations import R2Butterfly
        from b_asic.port import InputPort, OutputPort
        from b_asic.special_operations import Delay, Input, Output

        self.ops = []
        self.ins = []  # real input ports
        self.outs = []  # real output ports
        self.op_in = {}  # op number -> list of input numbers in port order
        self.op_out = {}
        self.sigs = []
        self.src = []  # model
        self.dst = []
        for cls in (
            Input,
            lambda: Constant(2),
            Addition,
            R2Butterfly,
            lambda: ConstantMultiplication(3),
            Delay,
            Output,
            Addition,
        ):
            self.add_op(cls())
        for i in range(2):
            self.ins.append(InputPort(None, i))
            self.outs.append(OutputPort(None, i))

    def add_op(self, op):
        k = len(self.ops)
        self.ops.append(op)
        self.op_in[k] = []
        self.op_out[k] = []
        for p in op.inputs:
            self.op_in[k].append(len(self.ins))
            self.ins.append(p)
        for p in op.outputs:
            self.op_out[k].append(len(self.outs))
            self.outs.append(p)
        return k

    # ---- model
    def at(self, i):
        """The signal at input i or None."""
        found = [s for s, d in enumerate(self.dst) if d == i]
        return found[0] if found else None

    def source_of(self, ref):
        kind, k = ref
        if kind == "port":
            return k
        if kind == "sig":
            return self.src[k]
        if len(self.op_out[k]) != 1:
            raise Refused
        return self.op_out[k][0]

    def dest_of(self, ref):
        kind, k = ref
        if kind == "port":
            return k
        if kind == "sig":
            return self.dst[k]
        if len(self.op_in[k]) != 1:
            raise Refused
        return self.op_in[k][0]

    def real_source(self, ref):
        return {"port": self.outs, "sig": self.sigs, "op": self.ops}[ref[0]][ref[1]]

    def real_dest(self, ref):
        return {"port": self.ins, "sig": self.sigs, "op": self.ops}[ref[0]][ref[1]]

    def pick(self, kind, k, side):
        """A reference to a port, signal or operation."""
        if kind == "sig" and not self.sigs:
            kind = "port"
        n = {"port": len(self.outs if side == "src" else self.ins), "sig": len(self.sigs), "op": len(self.ops)}[kind]
        return kind, k % n

    def m_set_source(self, s, ref):
        new = self.source_of(ref)
        if new is None and self.src[s] is not None:
            raise Refused
        self.src[s] = new

    def m_set_dest(self, s, ref):
        new = self.dest_of(ref)
        if new == self.dst[s]:
            return
        if new is None or self.at(new) is not None:
            raise Refused
        self.dst[s] = new

    # ---- comparison
    def compare(self, what):
        for s, sig in enumerate(self.sigs):
            src, dst = self.src[s], self.dst[s]
            ensure(
                sig.source is (None if src is None else self.outs[src]),
                f"{what}: the source of signal {s} is {sig.source!r}, expected port {src}",
            )
            ensure(
                sig.destination is (None if dst is None else self.ins[dst]),
                f"{what}: the destination of signal {s} is {sig.destination!r}, expected port {dst}",
            )
            ensure(sig.dangling() == (src is None or dst is None), f"{what}: dangling of signal {s}")
            so = None if src is None else self.outs[src].operation
            do = None if dst is None else self.ins[dst].operation
            ensure(sig.source_operation is so, f"{what}: source operation of signal {s}")
            ensure(sig.destination_operation is do, f"{what}: destination operation of signal {s}")
            exp = [o for o, p in ((so, src), (do, dst)) if p is not None]
            got = list(sig.neighbors)
            ensure(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), f"{what}: neighbours of signal {s}")
        for i, port in enumerate(self.ins):
            exp = [self.sigs[s] for s, d in enumerate(self.dst) if d == i]
            self.same(port.signals, exp, f"{what}: signals of input port {i}")
            ensure(port.signal_count == len(exp), f"{what}: signal count of input port {i}: {port.signal_count}")
            cs = None
            if exp:
                n = self.at(i)
                cs = None if self.src[n] is None else self.outs[self.src[n]]
            ensure(port.connected_source is cs, f"{what}: connected source of input port {i}")
        for i, port in enumerate(self.outs):
            exp = [self.sigs[s] for s, d in enumerate(self.src) if d == i]
            self.same(port.signals, exp, f"{what}: signals of output port {i}")
            ensure(port.signal_count == len(exp), f"{what}: signal count of output port {i}: {port.signal_count}")
            ensure(port.source is port, f"{what}: source of output port {i}")
        for k, op in enumerate(self.ops):
            ensure(
                [*map(id, op.inputs)] == [id(self.ins[i]) for i in self.op_in[k]]
                and all(op.input(n) is self.ins[i] for n, i in enumerate(self.op_in[k])),
                f"{what}: input ports of operation {k}",
            )
            ensure(
                [*map(id, op.outputs)] == [id(self.outs[i]) for i in self.op_out[k]]
                and all(op.output(n) is self.outs[i] for n, i in enumerate(self.op_out[k])),
                f"{what}: output ports of operation {k}",
            )
            for n, i in enumerate(self.op_in[k]):
                ensure(self.ins[i].index == n and self.ins[i].operation is op, f"{what}: index of input {n} of operation {k}")
            for n, i in enumerate(self.op_out[k]):
                ensure(self.outs[i].index == n and self.outs[i].operation is op, f"{what}: index of output {n} of operation {k}")
            ns = [self.at(i) for i in self.op_in[k]]
            ns = [s for s in ns if s is not None]
            self.same(op.input_signals, [self.sigs[s] for s in ns], f"{what}: input signals of operation {k}")
            os_ = [s for i in self.op_out[k] for s, d in enumerate(self.src) if d == i]
            self.same(op.output_signals, [self.sigs[s] for s in os_], f"{what}: output signals of operation {k}")
            self.same(
                op.preceding_operations,
                [self.outs[self.src[s]].operation for s in ns if self.src[s] is not None],
                f"{what}: preceding operations of operation {k}",
            )
            self.same(
                op.subsequent_operations,
                [self.ins[self.dst[s]].operation for s in os_ if self.dst[s] is not None],
                f"{what}: subsequent operations of operation {k}",
            )
            self.same(op.neighbors, [self.sigs[s] for s in ns + os_], f"{what}: neighbours of operation {k}")

    @staticmethod
    def same(got, exp, what):
        """The same objects, each equally often, in any order."""
        got = sorted(map(id, got))
        exp = sorted(map(id, exp))
        ensure(got == exp, f"{what}: {len(got)} entries, expected {len(exp)}" + ("" if len(got) != len(exp) else " others"))

    def component(self, k):
        """Operations and signals connected to operation k (bare ports carry no operation)."""
        seen_o, seen_s, todo = {k}, set(), [k]
        owner_in = {i: o for o, ps in self.op_in.items() for i in ps}
        owner_out = {i: o for o, ps in self.op_out.items() for i in ps}
        while todo:
            o = todo.pop()
            for s in range(len(self.sigs)):
                ends = {owner_out.get(self.src[s]), owner_in.get(self.dst[s])} - {None}
                if o in ends:
                    seen_s.add(s)
                    for e in ends - seen_o:
                        seen_o.add(e)
                        todo.append(e)
        return seen_o, seen_s


KINDS = [
    "signal", "signal", "set_source", "set_source", "set_dest", "set_dest", "remove_source", "remove_dest", "in_add", "out_add",
    "in_remove", "out_remove", "in_clear", "out_clear", "connect", "connect", "connect", "ilshift", "op_ilshift", "delay",
    "swap", "create", "plus",
]
REFS = ["port", "sig", "op"]


def edits(case, rec):
    from b_asic.core_operations import Addition
    from b_asic.signal import Signal
    from b_asic.special_operations import Delay

    w = World()
    moved = refused = 0
    w.compare("initially")
    for num, (kind, r1, a, r2, b) in enumerate(case["acts"]):
        what = f"edit {num} ({kind})"
        before = (list(w.src), list(w.dst))
        n_sig = len(w.sigs)
        s = a % n_sig if n_sig else None
        if s is None and kind in ("set_source", "set_dest", "remove_source", "remove_dest", "in_add", "out_add", "in_remove", "out_remove"):
            continue
        i, o = b % len(w.ins), b % len(w.outs)
        call = None
        after = None  # adopts new objects
        try:
            if kind == "signal":
                sr = w.pick(r1, a, "src") if a % 5 else None
                de = w.pick(r2, b, "dst") if b % 5 else None

                def call(sr=sr, de=de):
                    return Signal(None if sr is None else w.real_source(sr), None if de is None else w.real_dest(de))

                src = None if sr is None else w.source_of(sr)
                dst = None if de is None else w.dest_of(de)
                if de is not None and dst is not None and w.at(dst) is not None:
                    raise Refused
                w.src.append(src)
                w.dst.append(dst)

                def after(res):
                    w.sigs.append(res)

            elif kind == "set_source":
                ref = w.pick(r2, b, "src")

                def call(ref=ref):
                    w.sigs[s].set_source(w.real_source(ref))

                w.m_set_source(s, ref)
            elif kind == "set_dest":
                ref = w.pick(r2, b, "dst")

                def call(ref=ref):
                    w.sigs[s].set_destination(w.real_dest(ref))

                w.m_set_dest(s, ref)
            elif kind == "remove_source":
                call = w.sigs[s].remove_source
                w.src[s] = None
            elif kind == "remove_dest":
                call = w.sigs[s].remove_destination
                w.dst[s] = None
            elif kind == "in_add":

                def call():
                    w.ins[i].add_signal(w.sigs[s])

                if w.at(i) is not None:
                    raise Refused
                w.dst[s] = i
            elif kind == "out_add":

                def call():
                    w.outs[o].add_signal(w.sigs[s])

                if w.src[s] == o:
                    raise Refused
                w.src[s] = o
            elif kind == "in_remove":
                if a % 2 and w.at(i) is not None:
                    s = w.at(i)

                def call():
                    w.ins[i].remove_signal(w.sigs[s])

                if w.dst[s] != i:
                    raise Refused
                w.dst[s] = None
            elif kind == "out_remove":
                if a % 2 and w.src[s] is not None:
                    o = w.src[s]

                def call():
                    w.outs[o].remove_signal(w.sigs[s])

                if w.src[s] != o:
                    raise Refused
                w.src[s] = None
            elif kind == "in_clear":
                call = w.ins[i].clear
                if w.at(i) is not None:
                    w.dst[w.at(i)] = None
            elif kind == "out_clear":
                call = w.outs[o].clear
                for k in range(n_sig):
                    if w.src[k] == o:
                        w.src[k] = None
            elif kind in ("connect", "ilshift", "op_ilshift"):
                ref = w.pick(r1, a, "src")
                k = b % len(w.ops)
                if kind == "op_ilshift" and len(w.op_in[k]) == 1:
                    i = w.op_in[k][0]

                def call(ref=ref):
                    if kind == "connect":
                        return w.ins[i].connect(w.real_source(ref))
                    if kind == "ilshift":
                        port = w.ins[i]
                        port <<= w.real_source(ref)
                        ensure(port is w.ins[i], f"{what}: <<= gives another object")
                        return port.signals[0]
                    op = w.ops[k]
                    op <<= w.real_source(ref)
                    ensure(op is w.ops[k], f"{what}: <<= gives another object")
                    return op.input(0).signals[0]

                if kind == "op_ilshift" and len(w.op_in[k]) != 1:
                    raise Refused
                if w.at(i) is not None:
                    raise Refused
                if ref[0] == "sig":
                    w.dst[ref[1]] = i

                    def after(res, ref=ref):
                        ensure(res is w.sigs[ref[1]], f"{what}: connecting a signal returned another one")

                else:
                    src = w.source_of(ref)
                    w.src.append(src)
                    w.dst.append(i)

                    def after(res):
                        w.sigs.append(res)

            elif kind == "delay":
                n = a % 5 - 1

                def call(n=n):
                    return w.ins[i].delay(n)

                if n < 0:
                    raise Refused
                old = w.at(i)

                def after(res, n=n, old=old):
                    # walk back from input i over n new delays
                    cur = w.ins[i]
                    if old is not None:
                        w.dst[old] = None
                    for _ in range(n):
                        ensure(cur.signal_count == 1, f"{what}: no delay before the port")
                        sig = cur.signals[0]
                        d = sig.source_operation
                        ensure(isinstance(d, Delay) and d not in w.ops, f"{what}: not a new delay")
                        ensure(d.initial_value == 0, f"{what}: initial value")
                        num_in = next(j for j, p in enumerate(w.ins) if p is cur)
                        kk = w.add_op(d)
                        w.sigs.append(sig)
                        w.src.append(w.op_out[kk][0])
                        w.dst.append(num_in)
                        cur = d.input(0)
                    ensure(res is cur, f"{what}: does not return the input of the first delay")
                    if old is not None:
                        w.dst[old] = next(j for j, p in enumerate(w.ins) if p is cur)

            elif kind == "swap":
                k = a % len(w.ops)

                def call(k=k):
                    w.ops[k].swap_io(force=bool(b % 2))

                from b_asic.fft_operations import R2Butterfly

                swappable = isinstance(w.ops[k], Addition)
                if not b % 2 and not swappable:
                    raise Refused
                if b % 2 and isinstance(w.ops[k], R2Butterfly):
                    continue  # what this should do is not described
                if len(w.op_in[k]) == 2 and len(w.op_out[k]) == 1:
                    w.op_in[k].reverse()
            elif kind == "create":
                refs = [w.pick(r, x, "src") if x % 7 else None for r, x in ((r1, a), (r2, b))]
                if refs[0] == refs[1] and refs[0] and refs[0][0] == "sig":
                    continue  # one signal for two inputs: not meaningful

                def call(refs=refs):
                    return Addition(*[None if r is None else w.real_source(r) for r in refs])

                srcs = []
                for r in refs:
                    srcs.append(None if r is None or r[0] == "sig" else w.source_of(r))

                def after(res, refs=refs, srcs=srcs):
                    kk = w.add_op(res)
                    for n, r in enumerate(refs):
                        if r is None:
                            continue
                        if r[0] == "sig":
                            w.dst[r[1]] = w.op_in[kk][n]
                        else:
                            ensure(res.input(n).signal_count == 1, f"{what}: input {n} is not connected")
                            w.sigs.append(res.input(n).signals[0])
                            w.src.append(srcs[n])
                            w.dst.append(w.op_in[kk][n])

            elif kind == "plus":
                refs = [w.pick(r if r != "sig" else "op", x, "src") for r, x in ((r1, a), (r2, b))]

                def call(refs=refs):
                    return w.real_source(refs[0]) + w.real_source(refs[1])

                srcs = [w.source_of(r) for r in refs]

                def after(res, srcs=srcs):
                    kk = w.add_op(res)
                    for n in range(2):
                        ensure(res.input(n).signal_count == 1, f"{what}: input {n} is not connected")
                        w.sigs.append(res.input(n).signals[0])
                        w.src.append(srcs[n])
                        w.dst.append(w.op_in[kk][n])

            ok = True
        except Refused:
            ok = False
            w.src, w.dst = before
        err = res = None
        try:
            res = call()
        except Violation:
            raise
        except (ValueError, TypeError, IndexError, AttributeError) as e:
            err = e
        if ok and err is not None:
            raise err
        if not ok:
            ensure(err is not None, f"{what}: was not refused")
            refused += 1
        elif after is not None:
            after(res)
        if ok:
            for k in range(n_sig):
                for old, new in ((before[0], w.src), (before[1], w.dst)):
                    if old[k] is not None and new[k] is not None and old[k] != new[k]:
                        moved += 1
        w.compare(what)
        rec.label(kind + ("" if ok else " refused"))
    # reachability
    k = case["at"] % len(w.ops)
    eo, es = w.component(k)
    if all(x is None or w.outs[x].operation is not None for x in w.src) and all(
        x is None or w.ins[x].operation is not None for x in w.dst
    ):
        w.same(
            list(w.ops[k].traverse()),
            [w.ops[x] for x in eo] + [w.sigs[x] for x in es],
            f"finally: components connected to operation {k}",
        )
    rec.nt(moved >= 1 and refused >= 1)


ACT = st.tuples(
    st.sampled_from(KINDS), st.sampled_from(REFS), st.integers(0, 60), st.sampled_from(REFS), st.integers(0, 60)
).map(list)


def ctor(case, rec):
    """Operations of every type connect their sources in order, or refuse and connect nothing."""
    from b_asic.fft_operations import R2Butterfly
    from b_asic.signal import Signal
    from b_asic.special_operations import Input

    k = case["op"]["t"]
    n = OPS[k].ni
    srcs, exp, bad, pool = [], [], False, []
    for j in range(n):
        kind = case["src"][j % len(case["src"])]
        o = R2Butterfly() if kind in ("port", "bad") else Input()
        pool.append(o)
        port = o.output(1 if kind == "port" else 0)
        exp.append(None if kind == "none" else port)
        if kind == "bad":
            bad = True
        srcs.append({"op": o, "bad": o, "port": port, "none": None}.get(kind) if kind != "sig" else Signal(o))

    def state():
        return [[list(p.signals) for p in o.outputs] for o in pool], [
            (s.source, s.destination) for s in srcs if isinstance(s, Signal)
        ]

    before = state()
    kw = {f"src{j}": s for j, s in enumerate(srcs)}
    try:
        op = make_op(k, case["op"]["p"], "x", **kw)
    except TypeError:
        if not bad:
            raise
        ensure(before == state(), f"refused creation of {k} left sources connected")
        rec.nt(n >= 2)
        rec.label("refused")
        return
    ensure(not bad, f"{k} accepted an operation with two outputs as source")
    for j in range(n):
        ensure(op.input(j).connected_source is exp[j], f"{k}: source of input {j}")
        if exp[j] is None:
            ensure(op.input(j).signal_count == 0, f"{k}: input {j} is connected")
            continue
        if isinstance(srcs[j], Signal):
            ensure(op.input(j).signals[0] is srcs[j], f"{k}: signal of input {j} is another one")
        ensure(exp[j].signal_count == 1, f"{k}: source {j} has {exp[j].signal_count} signals")
    rec.nt(n >= 2)


FACETS = [
    Facet(
        "edits",
        st.fixed_dictionaries({"acts": st.lists(ACT, min_size=3, max_size=40), "at": st.integers(0, 20)}),
        edits,
        9000,
        120000,
        shards=7,
    ),
    Facet(
        "creation",
        st.fixed_dictionaries(
            {
                "op": st.sampled_from(sorted(set(OPS) - {"c"})).flatmap(
                    lambda t: st.fixed_dictionaries({"t": st.just(t), "p": params_strategy(t, True)})
                ),
                "src": st.lists(
                    st.sampled_from(["op", "port", "sig", "op", "port", "sig", "none", "bad"]), min_size=1, max_size=5
                ),
            }
        ),
        ctor,
        600,
        15000,
        shards=1,
    ),
]
