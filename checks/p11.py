"""
P11  encodings

encode   the digits written for a number: m = m' * base + d, 0 <= d < base,
         m' < m, ending exactly at 0 -- for ANY table, base, loop iteration
decode   read back digit by digit from ANY state: the invariant
         number == (value of the digits left) * power + result
         is kept, so the end result is the number; other characters refused
The loops are cut with these invariants; the tables are symbolic objects
(any size, distinct characters).
"""
import sys

import z3

from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = ["tables of distinct single characters",
               "filenames: lengths 1..64 proved one by one"]
M = "aiootp.generics.transform"
LOOPS = [(M, n) for n in ("base_as_int", "abase_as_int", "int_as_base",
                          "aint_as_base")]


class Char:
    def __init__(self, table, i):
        self.table, self.i = table, i


class Table:
    """any sequence of n distinct characters"""

    def __init__(self, n, kind, root=None):
        self.n, self.kind = n, kind
        self.root = self if root is None else root

    @property
    def __class__(self):
        return self.kind

    def __len__(self):
        return self.n

    def _vf_len(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is not None or i.step is not None:
                raise core.Unsupported("table slice")
            if i.stop is None:
                return self
            return Table(i.stop if i.stop < self.n else self.n, self.kind,
                         self.root)
        if i < 0 or i >= self.n:
            raise IndexError("string index out of range")
        return Char(self.root, i)

    def __contains__(self, x):
        return bool(type(x) is Char and x.table is self.root and (
            x.i < self.n))

    def find(self, x):
        if x in self:
            return x.i
        return -1

    index = find

    def __reversed__(self):
        if type(self.n) is not int:
            raise core.Unsupported("table of unknown size as text")
        return iter([Char(self.root, k) for k in range(self.n)][::-1])


class Text:
    """result of an encoding: digits of `left`, least significant last"""

    def __init__(self, digits):
        self.digits = digits

    def __reversed__(self):
        return self.digits


class Mark:
    """some characters"""

    @staticmethod
    def _vf_join(how, digits):
        if how not in ("", b"", bytes):
            raise core.Unsupported("separator")
        return ("text", list(digits), bytes if how is bytes else str)


class EncodeCut:
    entered = None

    def head(self, c, vals):
        need(len(vals) == 1, "one loop variable")
        self.entered = vals[0]
        lists = [x for x in vals.scope.values() if type(x) is list]
        need(len(lists) == 1 and not lists[0], "one list of digits")
        self.digits, = lists
        self.marks = [Mark(), Mark()]
        self.digits[:] = self.marks
        self.m = c.int("m", 0)
        return (self.m,)

    def back(self, c, vals):
        new = self.digits[2:]
        need(self.digits[:2] == self.marks and len(new) == 1
             and type(new[0]) is Char, "one digit per round, at the end")
        d, m2 = new[0].i, vals[0]
        c.prove(self.m == m2 * self.base + d, "m = m' * base + d")
        c.prove(core.mkbool(z3.And(num(d) >= 0, num(d) < num(self.base))),
                "0 <= d < base")
        c.prove(core.mkbool(z3.And(num(m2) >= 0, num(m2) < num(self.m))),
                "m' < m")
        c.cover("round")
        raise core.ProofStop


def need(cond, what):
    if not cond:
        raise core.Unsupported(f"loop invariant lost: {what}")


def encode(pkg, a, kind, whole):
    tr = pkg.generics.transform

    def fn(c):
        n = c.int("table size", 2)
        base = n if whole else c.int("base", 2)
        c.assume(core.num(base) <= core.num(n))
        N = c.int("N", 0)
        table = Table(n, kind)
        q = "aint_as_base" if a else "int_as_base"
        cut = EncodeCut()
        cut.base = base
        c.cuts[repr((M, q, 0))] = cut
        r = attempt(getattr(tr, q), N, None if whole else base, table=table)
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        if cut.entered is None:
            x = r.value
            c.prove(N == 0, "short cut only for zero")
            need(isinstance(x, Table) and type(x.n) is int, "one character")
            c.prove(x.n == 1 and x.root is table.root, "zero is table[0]")
            return
        c.prove(cut.entered == N, "starts with the number")
        c.prove(cut.m == 0, "ends at zero")
        v = r.value
        need(type(v) is tuple and v[0] == "text", "text made of the digits")
        c.prove(v[1] == cut.marks[::-1], "most significant digit first")
        c.prove(v[2] is kind, "text of the table's type")
        c.cover("end")
    return fn


class DecodeCut:
    def __init__(self, src):
        self.src = src
        self.seen = 0

    def head(self, c, vals):
        v = dict(zip(vals.names, vals))
        need({"power", "result"} < set(v) and len(v) == 3, "loop variables")
        self.seen += 1
        p0, r0 = v["power"], v["result"]
        need(type(p0) is int and p0 == 1 and type(r0) is int and r0 == 0,
             "starts with power 1 and result 0")
        self.p, self.r = c.int("p", 1), c.int("r", 0)
        v["power"], v["result"] = self.p, self.r
        return tuple(v[k] for k in vals.names)

    def back(self, c, vals):
        v = dict(zip(vals.names, vals))
        p2, r2 = num(v["power"]), num(v["result"])
        s = self.src
        before = (num(s.m2) * num(s.base) + num(s.d)) * num(
            self.p) + num(self.r)
        after = num(s.m2) * p2 + r2
        diff = z3.simplify(before - after, som=True)
        c.prove(core.mkbool(diff == 0),
                "left * power + result is constant")
        c.cover("round")
        raise core.ProofStop


class Source:
    """the digits still to be read, from any point on"""

    def __init__(self, c, table, base, foreign=False):
        self.c, self.table, self.base = c, table, base
        self.foreign = foreign
        self.ended = False

    def __iter__(self):
        return self

    def __next__(self):
        c = self.c
        if self.foreign:
            raise_ = Char(None, 0) if c.bool("not in table") else Char(
                self.table, c.int("beyond"))
            if raise_.table is not None:
                c.assume(core.num(raise_.i) >= core.num(self.base))
            return raise_
        if c.bool("no digit left"):
            self.ended = True
            raise StopIteration
        self.m2, self.d = c.int("m2", 0), c.int("d", 0)
        c.assume(core.num(self.d) < core.num(self.base))
        return Char(self.table, self.d)


def decode(pkg, a, kind, whole, foreign):
    tr = pkg.generics.transform

    def fn(c):
        n = c.int("table size", 2)
        base = n if whole else c.int("base", 2)
        c.assume(core.num(base) <= core.num(n))
        table = Table(n, kind)
        q = "abase_as_int" if a else "base_as_int"
        src = Source(c, table, base, foreign)
        cut = DecodeCut(src)
        c.cuts[repr((M, q, 0))] = cut
        r = attempt(getattr(tr, q), Text(src), None if whole else base,
                    table=table)
        need(cut.seen == 1, "one loop")
        if foreign:
            c.prove(r.raised(ValueError), "refused", info=repr(r))
            return
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        c.prove(src.ended, "every digit read")
        c.prove(r.value == cut.r, "result is the accumulated value")
    return fn


def zero(pkg, a, kind):
    """zero's text reads back as zero; the empty text is zero"""
    tr = pkg.generics.transform

    def fn(c):
        n = c.int("table size", 2)
        t = Table(n, kind)
        q = "abase_as_int" if a else "base_as_int"
        r = attempt(getattr(tr, q), t[:1], table=t)
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        c.prove(r.value == 0, "zero")
    return fn


def filename(pkg, a, n):
    B = pkg.generics.byte_io.ByteIO
    tr = pkg.generics.transform
    T38 = sys.modules["aiootp._constants.datasets"].Tables.BASE_38

    def fn(c):
        x = c.bytes("x", n)
        # no leading zero byte
        c.assume(core.num(core.int_from_bytes(x, "big")) >= 256 ** (n - 1))
        log = {}

        def enc(c, f, number, base=None, *, table=None):
            c.prove(base in (38, None) and table == T38, "table of 38")
            log["n"] = number
            return _co("name", f)

        def dec(c, f, text, base=None, *, table=None):
            c.prove(base in (38, None) and table == T38, "same table")
            need(text == "name", "text passed on")
            return _co(log["n"], f)
        c.contracts[(M, "int_as_base")] = enc
        c.contracts[(M, "aint_as_base")] = enc
        c.contracts[(M, "base_as_int")] = dec
        c.contracts[(M, "abase_as_int")] = dec
        r = attempt(B.abytes_to_filename if a else B.bytes_to_filename, x)
        r = attempt(B.filename_to_bytes if a else B.afilename_to_bytes,
                    r.get())
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        c.prove_bytes_eq(r.value, x, "same bytes")
    return fn


def _co(v, f):
    import inspect
    if not inspect.iscoroutinefunction(f):
        return v

    async def co():
        return v
    return co()


def urlsafe(pkg, a, b):
    B = pkg.generics.byte_io.ByteIO

    def fn(c):
        x = c.bytes("x")
        r = attempt(B.abytes_to_urlsafe if a else B.bytes_to_urlsafe, x)
        r = attempt(B.aurlsafe_to_bytes if b else B.urlsafe_to_bytes,
                    r.get())
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        c.prove_bytes_eq(r.value, x, "same bytes")
    return fn


def proofs(pkg):
    F = ["generics/transform.py"]
    G = ["generics/byte_io.py"]
    for a in (0, 1):
        t = "a" * a
        for kind in (str, bytes):
            k = kind.__name__
            for whole in (0, 1):
                yield Proof(f"{t}encode[{k},{whole}]",
                            encode(pkg, a, kind, whole), functions=F,
                            min_obligations=6)
                yield Proof(f"{t}decode[{k},{whole}]",
                            decode(pkg, a, kind, whole, 0), functions=F,
                            min_obligations=3)
                yield Proof(f"{t}refuse[{k},{whole}]",
                            decode(pkg, a, kind, whole, 1), functions=F,
                            min_obligations=2)
            yield Proof(f"{t}zero[{k}]", zero(pkg, a, kind), functions=F,
                        min_obligations=1)
        for n in range(1, 65):
            yield Proof(f"{t}filename[{n}]", filename(pkg, a, n),
                        functions=G, min_obligations=3)
        for b in (0, 1):
            yield Proof(f"{t}urlsafe[{b}]", urlsafe(pkg, a, b),
                        functions=G, min_obligations=1)
