"""
P12  generator tools

Every helper is stepped item by item.  The sources are adversaries: each pull
yields a new item, ends or raises.  After a step the harness shows that the
generator's locals carry nothing but what the step's postcondition names, so
the next step starts from the same kind of state: the obligations of one step
hold for every step of every run.
"""
import inspect

from vf import core, models
from vf.runner import Proof
from vf.streams import Step
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = ["zip and collate: up to 3 sources, each of any length"]
M = "aiootp._gentools"
LOOPS = [(M, n) for n in (
    "count", "acount", "bytes_count", "abytes_count", "bytes_range",
    "abytes_range", "arange", "resize", "aresize")]


class Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"item {self.n}"


class Boom(Exception):
    pass


class Pull:
    """one adversarial source"""

    def __init__(self, c, name, log, limit=3):
        self.c, self.name, self.log = c, name, log
        self.left = limit
        self.n = 0
        self.over = False

    def pull(self, end):
        if self.over:
            self.log.append((self.name, "again"))
            raise end
        self.left -= 1
        if self.left < 0:
            raise core.ProofStop
        self.n += 1
        what = self.c.int(f"{self.name}.{self.n}", 0, 2)
        if what == 0:
            t = Tok(f"{self.name}{self.n}")
            self.log.append(t)
            return t
        self.over = True
        if what == 1:
            self.log.append((self.name, "end"))
            raise end
        self.boom = Boom()
        self.log.append((self.name, self.boom))
        raise self.boom


class Sync(Pull):
    def __iter__(self):
        return self

    def __next__(self):
        return self.pull(StopIteration())


class Async(Pull):
    def __aiter__(self):
        return self

    async def __anext__(self):
        return self.pull(StopAsyncIteration())


class Queue(Pull):
    def popleft(self):
        return self.pull(IndexError())


def fn_of(pkg, name):
    import sys
    return getattr(sys.modules[M], name)


def frame(g):
    f = getattr(g, "ag_frame", None) or getattr(g, "gi_frame", None)
    return None if f is None else (f.f_lasti, dict(f.f_locals))


def carried(g, items):
    """locals of a suspended generator, except the items just delivered"""
    f = frame(g)
    if f is None:
        return None
    return f[0], {k: v for k, v in f[1].items()
                  if not any(v is x for x in items)}


def stable(g, items, seen):
    """the second and later states equal the first (modulo the item)"""
    s = carried(g, items)
    if s is None:
        return
    if seen and not (
        seen[0][0] == s[0] and seen[0][1].keys() == s[1].keys()
        and all(seen[0][1][k] is s[1][k] for k in s[1])
    ):
        raise core.Unsupported("generator state changes between items")
    seen.append(s)


def passing(pkg, name, a, make):
    """every item of one source is passed on, and its end or error"""
    def fn(c):
        log = []
        src = make(c, "s", log)
        g = fn_of(pkg, name)(src)
        st = Step(g, a)
        items, seen = [], []
        while True:
            n = len(log)
            ok, v = st.next()
            new = log[n:]
            c.prove(len(new) == 1, "one pull per item", info=repr(new))
            if not ok:
                what = new[0]
                c.prove(type(what) is tuple, "ends only when the source does",
                        info=repr(what))
                want = None if what[1] == "end" else what[1]
                c.prove(v is want, "ends the way the source did",
                        info=repr(v))
                c.cover("end")
                return
            c.prove(v is new[0], "passes the item on", info=repr(v))
            items.append(v)
            stable(g, items, seen)
    return fn


def rows(pkg, kinds):
    def fn(c):
        log = []
        srcs = [(Async if k else Sync)(c, f"s{j}.", log)
                for j, k in enumerate(kinds)]
        g = fn_of(pkg, "azip")(*srcs)
        st = Step(g, 1)
        while True:
            n = len(log)
            ok, v = st.next()
            new = log[n:]
            if not kinds:
                c.prove(not ok and v is None, "nothing to zip: ends",
                        info=repr(v))
                return
            bad = [x for x in new if type(x) is tuple]
            if not ok:
                c.prove(len(bad) == 1 and new[-1] is bad[0],
                        "stops with the first exhausted source",
                        info=repr(new))
                want = None if bad[0][1] == "end" else bad[0][1]
                c.prove(v is want, "ends the way the source did",
                        info=repr(v))
                c.cover("end")
                return
            c.prove(not bad and list(v) == new
                    and [x.n.split(".")[0] for x in new]
                    == [f"s{j}" for j in range(len(kinds))],
                    "one item of each source, in order", info=repr(v))
            c.prove(len({x.n.split(".")[1] for x in new}) == 1,
                    "items of the same position")
    return fn


def collated(pkg, name, a, kinds):
    def fn(c):
        log = []
        srcs = [(Async if k else Sync)(c, f"s{j}.", log, 2)
                for j, k in enumerate(kinds)]
        g = fn_of(pkg, name)(*srcs)
        st = Step(g, a)
        done = 0
        while True:
            n = len(log)
            ok, v = st.next()
            for x in log[n:]:
                if type(x) is tuple:
                    c.prove(x[0] == f"s{done}.", "sources one after another",
                            info=repr(x))
                    if x[1] == "end":
                        done += 1
                        continue
                    c.prove(not ok and v is x[1], "errors are passed on",
                            info=repr(v))
                    return
                c.prove(ok and v is x and x.n.startswith(f"s{done}."),
                        "items in order", info=repr(x))
            if not ok:
                c.prove(v is None and done == len(srcs),
                        "ends after the last source", info=repr(v))
                c.cover("end")
                return
            c.prove(log and v is log[-1], "passes the item on")
    return fn


def cycled(pkg, name, a, make):
    """first pass: passes on and remembers; then repeats what it remembers"""
    def fn(c):
        log = []
        src = make(c, "s", log, 3)
        g = fn_of(pkg, name)(src)
        st = Step(g, a)
        items = []
        while True:
            n = len(log)
            ok, v = st.next()
            new = log[n:]
            if new and type(new[0]) is tuple:
                break
            c.prove(ok and len(new) == 1 and v is new[0],
                    "first pass passes on", info=repr(v))
            items.append(v)
        if new[0][1] != "end":
            c.prove(not ok and v is new[0][1], "errors are passed on",
                    info=repr(v))
            return
        if not items:
            c.prove(not ok and v is None, "empty source: ends",
                    info=repr(v))
            return
        for rnd in range(3):
            for x in items:
                c.prove(ok and v is x, "repeats every item in order",
                        info=repr(v))
                ok, v = st.next()
        c.prove(len(log) == n + 1, "source is read once")
        c.cover("cycled")
    return fn


def remembers(pkg, name, a, make):
    """from any remembered prefix (the list is replaced by any list)"""
    def fn(c):
        log = []
        src = make(c, "s", log, 2)
        g = fn_of(pkg, name)(src)
        st = Step(g, a)
        ok, v = st.next()
        if not ok:
            return
        f = frame(g)
        lists = [x for x in (f[1] if f else {}).values()
                 if type(x) is list]
        if len(lists) != 1 or lists[0]:
            raise core.Unsupported("one list of remembered items")
        memory, = lists
        old = [Tok(f"old{k}") for k in range(3)]
        memory[:] = old
        ok, w = st.next()
        if not ok:
            return
        if log[-1] is w:
            c.prove(memory == old + [v], "remembers each item once, last")
            return
        for x in (old + [v]) * 2:
            c.prove(ok and w is x, "repeats all that was remembered",
                    info=repr(w))
            ok, w = st.next()
    return fn


def batched(pkg, name, a):
    def fn(c):
        data = c.bytes("data")
        size = c.int("size", 1, (1 << 63) - 1)
        g = fn_of(pkg, name)(data, size=size)
        st = Step(g, a)
        ok, v = st.next()
        bio = c.state["bytesio"]
        if len(bio) != 1:
            raise core.Unsupported("not one buffer")
        bio, = bio
        if not ok:
            c.prove(v is None, "ends normally", info=repr(v))
            c.prove(L(data) == 0, "ends at once only without data")
            return
        c.prove_bytes_eq(v, data[:size], "first piece")
        before = carried(g, [v])
        p = c.int("p", 0)
        c.assume(num(p) <= core.rope(data).n)
        bio._p = num(p)
        ok, v = st.next()
        if not ok:
            c.prove(v is None, "ends normally", info=repr(v))
            c.prove(p == L(data), "ends only at the end of the data")
            return
        after = carried(g, [v])
        if before[0] != after[0] or any(
            before[1].get(k, x) is not x for k, x in after[1].items()
        ):
            raise core.Unsupported("generator state changes")
        c.prove(p < L(data), "goes on only while data is left")
        c.prove_bytes_eq(v, data[p:p + size], "next piece")
        c.prove(core.mkint_or(bio._p) == p + L(v), "moves past the piece")
        c.cover("any")
    return fn


class Fresh:
    """for-loop without carried state"""

    def head(self, c, vals):
        from vf.loader import UNBOUND
        if any(v is not UNBOUND for v in vals):
            raise core.Unsupported("loop carries state")
        return vals

    def back(self, c, vals):
        raise core.ProofStop


def resized(pkg, name, a, blocks):
    def fn(c):
        seq = c.bytes("seq")
        size = c.int("size")
        kw = {}
        if blocks:
            kw["blocks"] = c.int("blocks")
        c.state["range_any"] = True
        c.cuts[repr((M, name, 0))] = Fresh()
        st = Step(fn_of(pkg, name)(seq, size, **kw), a)
        ok, v = st.next()
        if not ok and v is not None:
            c.prove(isinstance(v, ValueError), "refusal is a value error",
                    info=repr(v))
            bad = size < 1
            if blocks:
                bad = core.bor(bad, kw["blocks"] < 1)
            c.prove(bad, "refuses only sizes or counts below one")
            return
        c.prove(size >= 1, "size below one refused")
        if blocks:
            c.prove(kw["blocks"] >= 1, "count below one refused")
        (st_, off), = c.state["any_off"]
        k = core.mkint_or(z3.Int("any.k"))
        if ok:
            c.prove(off < L(seq), "no empty piece")
            c.prove_bytes_eq(v, seq[off:off + size], "piece k of the data")
            if blocks:
                c.prove(off + size <= kw["blocks"] * size,
                        "no more pieces than asked for")
            c.cover("item")
        elif blocks:
            c.prove(core.bor(off >= L(seq), off + size > kw["blocks"] * size),
                    "ends only after the last piece or the count")
        else:
            c.prove(off >= L(seq), "ends only after the last piece")
    return fn


class CountCut:
    def head(self, c, vals):
        if len(vals) != 1:
            raise core.Unsupported("loop variables")
        self.start = vals[0]
        self.i = c.int("i")
        return (self.i,)

    def back(self, c, vals):
        c.prove(vals[0] == self.i + 1, "next number")
        raise core.ProofStop


def counted(pkg, name, a, size, order):
    def fn(c):
        start = c.int("start")
        kw = dict(size=size, byte_order=order) if size else {}
        cut = CountCut()
        c.cuts[repr((M, name, 0))] = cut
        st = Step(fn_of(pkg, name)(start=start, **kw), a)
        ok, v = st.next()
        if not hasattr(cut, "i"):
            raise core.Unsupported("no loop")
        c.prove(cut.start == start, "begins at start")
        if not ok:
            c.prove(bool(size) and isinstance(v, OverflowError),
                    "never ends", info=repr(v))
            c.prove(core.bor(cut.i < 0, cut.i >= 1 << 8 * size),
                    "fails only when the number does not fit")
            return
        if size:
            c.prove_bytes_eq(v, core.int_to_bytes(cut.i, size, order),
                             "encoded number")
        else:
            c.prove(v == cut.i, "the number")
        st.next()
    return fn


def ranged(pkg, name, a, n, size, order):
    def fn(c):
        args = [c.int(f"a{k}") for k in range(n)]
        if n == 3:
            c.assume(num(args[2]) >= 1)
        c.state["range_any"] = True
        c.cuts[repr((M, name, 0))] = Fresh()
        kw = dict(size=size, byte_order=order) if size else {}
        st = Step(fn_of(pkg, name)(*args, **kw), a)
        ok, v = st.next()
        (step, off), = c.state["any_off"]
        lo, hi = (0, args[0]) if n == 1 else args[:2]
        want = lo + off
        if not ok and v is None:
            c.prove(want >= hi, "ends only at the stop")
            return
        c.prove(want < hi, "no number past the stop")
        c.prove(step == (args[2] if n == 3 else 1), "the step")
        if not ok:
            c.prove(bool(size) and isinstance(v, OverflowError),
                    "no other error", info=repr(v))
            c.prove(core.bor(want < 0, want >= 1 << 8 * size),
                    "fails only when the number does not fit")
        elif size:
            c.prove_bytes_eq(v, core.int_to_bytes(want, size, order),
                             "encoded number")
        else:
            c.prove(v == want, "the number")
    return fn


def proofs(pkg):
    F = ["_gentools.py"]

    def P(name, fn, n=2):
        return Proof(name, fn, functions=F, min_obligations=n)
    for name, a, make in (("unpack", 0, Sync), ("aunpack", 1, Sync),
                          ("aunpack", 1, Async), ("popleft", 0, Queue),
                          ("apopleft", 1, Queue)):
        yield P(f"{name}[{make.__name__}]", passing(pkg, name, a, make))
    for n in range(4):
        for bits in range(1 << n):
            kinds = [bits >> j & 1 for j in range(n)]
            t = "".join(map(str, kinds))
            yield P(f"azip[{t}]", rows(pkg, kinds), 1)
            yield P(f"acollate[{t}]", collated(pkg, "acollate", 1, kinds), 1)
        yield P(f"collate[{n}]", collated(pkg, "collate", 0, [0] * n), 1)
    for name, a, make in (("cycle", 0, Sync), ("acycle", 1, Sync),
                          ("acycle", 1, Async)):
        yield P(f"{name}[{make.__name__}]", cycled(pkg, name, a, make), 4)
        yield P(f"{name}.memory[{make.__name__}]",
                remembers(pkg, name, a, make), 2)
    for a in (0, 1):
        t = "a" * a
        yield P(t + "batch", batched(pkg, t + "batch", a), 4)
        for blocks in (0, 1):
            yield P(f"{t}resize[{blocks}]",
                    resized(pkg, t + "resize", a, blocks), 3)
        yield P(t + "count", counted(pkg, t + "count", a, 0, 0), 2)
        for size in (1, 2, 8, 16):
            for order in ("big", "little"):
                yield P(f"{t}bytes_count[{size},{order}]",
                        counted(pkg, t + "bytes_count", a, size, order))
                for n in (1, 2, 3):
                    yield P(f"{t}bytes_range[{n},{size},{order}]",
                            ranged(pkg, t + "bytes_range", a, n, size,
                                   order))
    for n in (1, 2, 3):
        yield P(f"arange[{n}]", ranged(pkg, "arange", 1, n, 0, 0), 2)
