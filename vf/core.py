"""
Symbolic values and verification-condition context.

Values of the program under proof are ordinary Python objects except for the
quantified inputs and whatever is computed from them.  Those are instances of
`SymInt`, `SymBool`, `SymBytes` and `SymFrac`: wrappers around z3 terms.  The
real functions of the package run on them (see `loader.py`), branching on a
symbolic condition asks the solver which sides are feasible and splits the
proof, and every obligation is a z3 query under the path condition.

Byte strings are *ropes*: a sequence of segments `(atom, off, n)` where offsets
and lengths may be symbolic, so that strings of every length are covered.
"""
import gc
import sys

import z3

sys.set_int_max_str_digits(0)   # models hold integers of any length

MAX_LEN = 1 << 48      # byte strings are at most this long (A-SIZE)
MIN_DIGEST_EQ = 8      # bytes: XOF outputs at least this long are "ideal"


class Unsupported(BaseException):
    """The generator cannot express this construct (never a violation)."""


class Infeasible(BaseException):
    """The current path condition is unsatisfiable."""


class ProofStop(BaseException):
    """Raised by harness code to end a path early."""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside of a proof context")
    return CTX


# --------------------------------------------------------------------------
# numbers: python int | z3 ArithRef
# --------------------------------------------------------------------------
def isz(x):
    return isinstance(x, z3.ExprRef)


def zsimp(e):
    return z3.simplify(e)


def num(x):
    """Python int / z3 term of an int-like argument."""
    t = type(x)
    if t is int:
        return x
    if t is SymInt:
        return x.e
    if t is bool:
        return int(x)
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isz(x):
        return x
    if isinstance(x, int):
        return int(x)
    raise Unsupported(f"not an integer: {t.__name__}")


def znum(e):
    """collapse constant z3 ints to python ints"""
    if isz(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
    return e


def nadd(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0:
        return b
    if not isz(b) and b == 0:
        return a
    return znum(a + b)


def nsub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0:
        return a
    return znum(a - b)


def nkey(a):
    if isz(a):
        ctx().keep.append(a)
        return ("z", a.get_id())
    return a


def neq_syn(a, b):
    """syntactically (after simplification) equal"""
    if not isz(a) and not isz(b):
        return a == b
    d = nsub(a, b)
    return not isz(d) and d == 0


# --------------------------------------------------------------------------
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return ctx().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            oe = o.e if type(o) is SymBool else z3.BoolVal(bool(o))
            return mkbool(self.e == oe)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __and__(self, o):
        return mkbool(z3.And(self.e, bexpr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, bexpr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bexpr(o)))

    def __invert__(self):
        raise Unsupported("~bool")

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"<SymBool {self.e}>"

    def __int__(self):
        raise Unsupported("int(SymBool)")

    def __index__(self):
        return int(bool(self))


def bexpr(x):
    if type(x) is SymBool:
        return x.e
    if isz(x):
        return x
    if isinstance(x, bool):
        return z3.BoolVal(x)
    raise Unsupported("not a boolean")


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bnot(x):
    if isinstance(x, bool) and type(x) is bool:
        return not x
    return mkbool(z3.Not(bexpr(x)))


def band(*xs):
    return mkbool(z3.And(*[bexpr(x) for x in xs])) if xs else True


def bor(*xs):
    return mkbool(z3.Or(*[bexpr(x) for x in xs])) if xs else False


# --------------------------------------------------------------------------
class SymInt:
    """bits: proven bound, 0 <= e < 2**bits, or None"""

    __slots__ = ("e", "bits")

    def __init__(self, e, bits=None):
        self.e = e
        self.bits = bits

    @property
    def __class__(self):
        return int

    # -- arithmetic
    def _bin(self, o, f):
        if isinstance(o, float) or type(o) is SymFrac:
            return NotImplemented
        if not isinstance(o, int):
            return NotImplemented
        return mkint(f(self.e, num(o)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return repeat(o, self)
        if isinstance(o, float):
            return SymFrac(self.e, 1) * o
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (bytes, SymBytes)):
            return repeat(o, self)
        if isinstance(o, (str, list, tuple)):
            raise Unsupported("sequence repeat by symbolic int")
        if isinstance(o, float):
            return SymFrac(self.e, 1) * o
        return self._bin(o, lambda a, b: b * a)

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e), self.bits)

    def __invert__(self):
        return mkint(-self.e - 1)

    def _divmod(self, a, b):
        """python floor div/mod for terms; b != 0 (forks)"""
        if isz(b):
            if ctx().decide(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if not ctx().decide(b > 0):
                raise Unsupported("negative symbolic divisor")
        elif b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        elif b < 0:
            q, r = self._divmod(-a, -b)
            return q, -r
        a = a if isz(a) else z3.IntVal(a)
        return a / b, a % b

    def __floordiv__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        d = num(o)
        bits = self.bits
        if bits is not None and not isz(d) and d > 0:
            bits = max(0, bits - (d.bit_length() - 1))
        return mkint(self._divmod(self.e, d)[0], bits)

    def __rfloordiv__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return mkint(self._divmod(num(o), self.e)[0])

    def __mod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        d = num(o)
        bits = None
        if not isz(d) and d > 0:
            bits = (d - 1).bit_length()
            if self.bits is not None and (1 << self.bits) <= d:
                return self
        return mkint(self._divmod(self.e, d)[1], bits)

    def __rmod__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return mkint(self._divmod(num(o), self.e)[1])

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        return SymFrac(self.e, 1) / o

    def __rtruediv__(self, o):
        return SymFrac(num(o), 1) / self if isinstance(o, int) else (
            NotImplemented
        )

    def __pow__(self, o, mod=None):
        if type(o) is int and 0 <= o <= 8 and mod is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic pow")

    def __rpow__(self, o, mod=None):
        raise Unsupported("symbolic exponent")

    # -- bit operations
    def __xor__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return int_xor(self, o)

    __rxor__ = __xor__

    def __and__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        if type(o) is int and o >= 0:
            if o == 0:
                return 0
            if (o & (o + 1)) == 0:            # low mask
                return self % (o + 1)
        raise Unsupported("symbolic &")

    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        if type(o) is int and o == 1:
            return mkint(
                self.e + 1 - self.e % 2, max(self.bits, 1)
                if self.bits is not None else None
            )
        raise Unsupported("symbolic |")

    __ror__ = __or__

    def __lshift__(self, o):
        if type(o) is int:
            if o < 0:
                raise ValueError("negative shift count")
            return mkint(
                self.e * (1 << o),
                None if self.bits is None else self.bits + o,
            )
        raise Unsupported("symbolic shift")

    def __rlshift__(self, o):
        raise Unsupported("symbolic shift")

    def __rshift__(self, o):
        if type(o) is int:
            if o < 0:
                raise ValueError("negative shift count")
            return self // (1 << o)
        raise Unsupported("symbolic shift")

    def __rrshift__(self, o):
        raise Unsupported("symbolic shift")

    # -- comparisons
    def _cmp(self, o, f):
        if type(o) is SymFrac:
            return NotImplemented
        if isinstance(o, float):
            if o != o:
                return False
            if o in (float("inf"), float("-inf")):
                return f(0, o)
            n, d = o.as_integer_ratio()
            return mkbool(f(self.e * d, z3.IntVal(n)))
        if not isinstance(o, int):
            return NotImplemented
        return mkbool(f(self.e, num(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, float) or isinstance(o, int):
            return self._cmp(o, lambda a, b: a == b)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __hash__(self):
        raise Unsupported("hash of a symbolic int")

    def __index__(self):
        v = ctx().unique_value(self.e)
        if v is None:
            raise Unsupported("symbolic int used as native index")
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float of a symbolic int")

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return ctx().marker(self)

    __str__ = __repr__

    def __format__(self, spec):
        return ctx().marker(self)

    # -- int API
    def bit_length(self):
        """some b with 2**(b-1) <= self < 2**b, known up to whole bytes"""
        if self.bits is None:
            raise Unsupported("symbolic bit_length")
        c = ctx()
        b = c.fresh_int("bit_length")
        lo = 0
        for t in range(0, self.bits, 8):
            if not c.entails(_b(self.e >= 1 << t)):
                break
            lo = t + 1
        c.assume(b >= lo)
        c.assume(b <= self.bits)
        return mkint(b)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed=signed)

    @property
    def real(self):
        return self

    def conjugate(self):
        return self


def mkint(e, bits=None):
    if not isz(e):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e, bits)


class SymFrac:
    """
    Exact rational num/den, standing for the float quotient of two ints.
    (A-FLOAT: rounding it is exact for numerators below 2**53, see _n)
    """

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @property
    def __class__(self):
        return float

    @staticmethod
    def lift(o):
        if type(o) is SymFrac:
            return o
        if isinstance(o, float):
            n, d = float(o).as_integer_ratio()
            return SymFrac(n, d)
        if isinstance(o, int):
            return SymFrac(num(o), 1)
        raise Unsupported("fraction operand")

    def __truediv__(self, o):
        o = self.lift(o)
        ctx().note_float()
        if isz(o.n):
            if ctx().decide(o.n == 0):
                raise ZeroDivisionError("division by zero")
            if not ctx().decide(o.n > 0):
                raise Unsupported("negative divisor")
            return SymFrac(znum(self.n * o.d), znum(self.d * o.n))
        if o.n == 0:
            raise ZeroDivisionError("division by zero")
        s = 1 if o.n > 0 else -1
        return SymFrac(znum(self.n * (o.d * s)), znum(self.d * (o.n * s)))

    def __mul__(self, o):
        o = self.lift(o)
        return SymFrac(znum(self.n * o.n), znum(self.d * o.d))

    __rmul__ = __mul__

    def __add__(self, o):
        o = self.lift(o)
        return SymFrac(znum(self.n * o.d + o.n * self.d), znum(self.d * o.d))

    __radd__ = __add__

    def __neg__(self):
        return SymFrac(znum(-self.n), self.d)

    def __sub__(self, o):
        return self + (-self.lift(o))

    def __rsub__(self, o):
        return self.lift(o) + (-self)

    def _n(self):
        """rounding a quotient of ints is exact only below 2**53"""
        n = self.n if isz(self.n) else z3.IntVal(self.n)
        if not ctx().entails(z3.And(n < 2 ** 53, n > -2 ** 53)):
            raise Unsupported("float quotient of a large int")
        return n

    def floor(self):
        return mkint(self._n() / self.d)

    def ceil(self):
        return mkint(-((-self._n()) / self.d))

    def trunc(self):
        n = self._n()
        return mkint(z3.If(n >= 0, n / self.d, -((-n) / self.d)))

    __floor__ = floor
    __ceil__ = ceil
    __trunc__ = trunc

    def __int__(self):
        raise Unsupported("int(SymFrac) natively")

    def _cmp(self, o, f):
        o = self.lift(o)
        a = znum(self.n * o.d)
        b = znum(o.n * self.d)
        if not isz(a) and not isz(b):
            return f(a, b)
        return mkbool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic fraction")

    def __repr__(self):
        return ctx().marker(self)

    __str__ = __repr__

    def __format__(self, s):
        return ctx().marker(self)


# --------------------------------------------------------------------------
# atoms & ropes
# --------------------------------------------------------------------------
class Atom:
    """
    kinds:
      var   free byte string input             (length)
      lit   concrete bytes                     (data: bytes)
      enc   big-endian encoding of an int term (data: z3 term, length)
      rep   one byte repeated forever          (data: int | z3 byte value)
      xof   infinite output of an XOF          (data: (alg, transcript rope))
      fn    uninterpreted byte-string function (data: (name, argkeys))
    """

    __slots__ = ("id", "kind", "name", "length", "data")

    def __init__(self, id, kind, name, length, data):
        self.id = id
        self.kind = kind
        self.name = name
        self.length = length
        self.data = data

    def __repr__(self):
        return f"{self.kind}:{self.name}#{self.id}"


def _rope_len(segs):
    r = 0
    for _, _, n in segs:
        r = nadd(r, n)
    return r


def _norm(segs):
    out = []
    for a, o, n in segs:
        if not isz(n) and n == 0:
            continue
        if out:
            pa, po, pn = out[-1]
            if pa is a and a.kind == "rep":
                out[-1] = (a, 0, nadd(pn, n))
                continue
            if pa is a and neq_syn(nadd(po, pn), o):
                out[-1] = (a, po, nadd(pn, n))
                continue
            if (
                pa.kind == "lit" and a.kind == "lit"
                and not isz(po) and not isz(pn) and not isz(o) and not isz(n)
            ):
                data = pa.data[po:po + pn] + a.data[o:o + n]
                out[-1] = (ctx().lit_atom(data), 0, len(data))
                continue
        if a.kind == "rep":
            o = 0
        out.append((a, o, n))
    return out


class SymHex:
    """lower case hexadecimal text of symbolic bytes"""

    def __init__(self, raw):
        self.raw = raw

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        if type(o) is not SymHex:
            if isinstance(o, str):
                raise Unsupported("hexadecimal text compared with text")
            return False
        return bytes_eq(self.raw, o.raw)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise Unsupported("hash of hexadecimal text")

    def __getattr__(self, name):
        raise Unsupported(f"hexadecimal text .{name}")


class SymBytes:
    __slots__ = ("segs", "n")

    def __init__(self, segs, n=None):
        self.segs = segs
        self.n = _rope_len(segs) if n is None else n

    @property
    def __class__(self):
        return bytes

    def key(self):
        return tuple((a.id, nkey(o), nkey(n)) for a, o, n in self.segs)

    def slen(self):
        return mkint(self.n) if isz(self.n) else self.n

    def __len__(self):
        if not isz(self.n):
            return self.n
        v = ctx().unique_value(self.n)
        if v is None:
            raise Unsupported("native len of symbolic bytes")
        return v

    def __bool__(self):
        if not isz(self.n):
            return self.n != 0
        return ctx().decide(self.n != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __repr__(self):
        return ctx().marker(self)

    __str__ = __repr__

    def __format__(self, s):
        return ctx().marker(self)

    def __add__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return concat([self, o])

    def __radd__(self, o):
        if not isinstance(o, (bytes, bytearray)):
            return NotImplemented
        return concat([o, self])

    def __mul__(self, k):
        return repeat(self, k)

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, bytearray):
            o = bytes(o)
        if not isinstance(o, bytes):
            return False
        return bytes_eq(self, o)

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def _order(self, o, strict, swap):
        """lexicographic order of byte strings of known lengths"""
        if not isinstance(o, bytes):
            return NotImplemented
        a, b = self, rope(o)
        if swap:
            a, b = b, a
        if isz(a.n) or isz(b.n):
            raise Unsupported("bytes ordering at symbolic length")
        w = max(a.n, b.n)
        x = num(int_from_bytes(concat([a, bytes(w - a.n)])))
        y = num(int_from_bytes(concat([b, bytes(w - b.n)])))
        x = x if isz(x) else z3.IntVal(x)
        tie = a.n < b.n if strict else a.n <= b.n
        return mkbool(x <= y if tie else x < y)

    def __lt__(self, o):
        return self._order(o, True, False)

    def __le__(self, o):
        return self._order(o, False, False)

    def __gt__(self, o):
        return self._order(o, True, True)

    def __ge__(self, o):
        return self._order(o, False, True)

    def __contains__(self, o):
        raise Unsupported("in symbolic bytes")

    def __getitem__(self, i):
        if isinstance(i, slice):
            return rope_slice(self, i)
        if not isinstance(i, int):
            raise TypeError("byte indices must be integers or slices")
        n = self.n
        i = num(i)
        if ctx().decide(z3.And(*[_b(i >= 0), _b(i < n)])):
            k = i
        elif ctx().decide(z3.And(_b(i < 0), _b(nadd(i, n) >= 0))):
            k = nadd(i, n)
        else:
            raise IndexError("index out of range")
        return int_from_bytes(sub(self, k, nadd(k, 1)))

    def __iter__(self):
        n = self.n
        if isz(n):
            v = ctx().unique_value(n)
            if v is None:
                raise Unsupported("iteration over symbolic-length bytes")
            n = v
        if n > 4096:
            raise Unsupported("iteration over long symbolic bytes")
        for k in range(n):
            yield int_from_bytes(sub(self, k, k + 1))

    def __bytes__(self):
        raise Unsupported("native bytes() of symbolic bytes")

    # -- bytes API
    def ljust(self, width, fill=b" "):
        w = num(width)
        if ctx().decide(_b(self.n >= w)):
            return self
        return concat([self, repeat(fill, mkint_or(nsub(w, self.n)))])

    def rjust(self, width, fill=b" "):
        w = num(width)
        if ctx().decide(_b(self.n >= w)):
            return self
        return concat([repeat(fill, mkint_or(nsub(w, self.n))), self])

    def zfill(self, width):
        raise Unsupported("bytes.zfill")

    def join(self, items):
        items = list(items)
        out = []
        for i, x in enumerate(items):
            if i:
                out.append(self)
            out.append(x)
        return concat(out)

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported("startswith options")
        n = blen(p)
        if ctx().decide(_b(self.n < n)):
            return False
        return bytes_eq(sub(self, 0, n), p)

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported("endswith options")
        n = blen(p)
        if ctx().decide(_b(self.n < n)):
            return False
        return bytes_eq(sub(self, nsub(self.n, n), self.n), p)

    def replace(self, old, new, *a):
        if a or old != b"=" or new != b"":
            raise Unsupported("bytes.replace on symbolic bytes")
        out = []
        for at, o, n in self.segs:
            if at.kind == "lit" and not isz(o) and not isz(n):
                out.append(at.data[o:o + n].replace(old, new))
            elif at.kind == "fn" and at.name == "b64e":
                out.append(SymBytes([(at, o, n)], n))
            else:
                raise Unsupported("bytes.replace on symbolic bytes")
        return concat(out)

    def hex(self, *a):
        if a:
            raise Unsupported("hex with a separator")
        return SymHex(self)

    def removeprefix(self, p):
        return self[blen_int(p):] if self.startswith(p) else self

    def __getattr__(self, name):
        if hasattr(bytes, name):
            def unsupported(*a, **k):
                raise Unsupported(f"bytes.{name} on symbolic bytes")
            return unsupported
        raise AttributeError(name)


def _b(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def mkint_or(e):
    return mkint(e) if isz(e) else e


def is_sym(x):
    return type(x) in (SymInt, SymBool, SymBytes, SymFrac)


def is_symbytes(x):
    return type(x) is SymBytes


def rope(x):
    if type(x) is SymBytes:
        return x
    if isinstance(x, (bytes, bytearray, memoryview)):
        x = bytes(x)
        return SymBytes([(ctx().lit_atom(x), 0, len(x))] if x else [], len(x))
    raise TypeError(f"a bytes-like object is required, not {type(x).__name__}")


def unrope(r):
    """collapse literal ropes to native bytes"""
    if type(r) is not SymBytes:
        return r
    if not r.segs:
        return b""
    out = []
    for a, o, n in r.segs:
        if isz(o) or isz(n):
            return r
        if a.kind == "lit":
            out.append(a.data[o:o + n])
        elif a.kind == "rep" and not isz(a.data) and n <= 1 << 20:
            out.append(bytes([a.data]) * n)
        else:
            return r
    return b"".join(out)


def blen(x):
    return x.n if type(x) is SymBytes else len(x)


def blen_int(x):
    return x.slen() if type(x) is SymBytes else len(x)


def concat(items):
    segs = []
    for x in items:
        segs.extend(rope(x).segs)
    return unrope(SymBytes(_norm(segs)))


def repeat(b, k):
    b = rope(b)
    k = num(k)
    if not isz(k) and k <= 0:
        return b""
    if isz(k) and ctx().decide(k <= 0):
        return b""
    if isz(k):
        u = ctx().unique_value(k)
        k = k if u is None else u
    if not isz(b.n) and b.n == 1:
        v = pieceval(*b.segs[0])
        return unrope(SymBytes([(ctx().rep_atom(v), 0, k)]))
    if not isz(k) and k <= 4096:
        return concat([b] * k)
    raise Unsupported("symbolic repetition of a multi-byte string")


def sub(r, lo, hi, fix=False):
    """r[lo:hi] for 0 <= lo <= hi <= len (already established)"""
    r = rope(r)
    c = ctx()
    if neq_syn(lo, 0) and neq_syn(hi, r.n):
        return unrope(r)
    if neq_syn(lo, hi):
        return b""
    out = []
    pos = 0
    started = False
    for a, o, n in r.segs:
        end = nadd(pos, n)
        if not started:
            # does the slice start in this segment?
            if _le(end, lo, c):
                pos = end
                continue
            s = _fix(nsub(lo, pos), 0, fix and c)
            started = True
        else:
            s = 0
        # does the slice end in this segment?
        if _le(hi, end, c):
            e = _fix(nsub(hi, pos), n, fix and c)
            out.append((a, nadd(o, s), nsub(e, s)))
            pos = end
            break
        out.append((a, nadd(o, s), nsub(n, s)))
        pos = end
    return unrope(SymBytes(_norm(out)))


def _fix(x, v, c):
    """v if x is equal to it on this path (offsets stay comparable)"""
    if c and isz(x) and not neq_syn(x, v) and c.entails(_b(x == v)):
        return v
    return x


def _le(a, b, c):
    if not isz(a) and not isz(b):
        return a <= b
    d = nsub(b, a)
    if not isz(d):
        return d >= 0
    return c.decide(d >= 0)


def rope_slice(r, s):
    r = rope(r)
    n = r.n
    c = ctx()
    step = s.step
    if step is not None and step != 1:
        if isz(n):
            raise Unsupported("strided slice of symbolic length")
        rng = range(*s.indices(n))
        if len(rng) == 0:
            return b""
        a = c.fn_atom(("stride", rng.start, rng.step, r.key()), len(rng))
        return SymBytes([(a, 0, len(rng))])

    # a slice at a position within leading pieces of known length
    for whole, cut in ((s.start in (None, 0), s.stop),
                       (s.stop is None, s.start)):
        if whole and type(cut) is int and cut > 0 and isz(n):
            pos = 0
            for k, (a, o, m) in enumerate(r.segs):
                if isz(m) or pos >= cut:
                    break
                pos += m
            if pos >= cut:
                if cut is s.stop:
                    return sub(r, 0, cut)
                out, pos = [], 0
                for a, o, m in r.segs:
                    if isz(m) or pos >= cut:
                        out.append((a, o, m))
                    elif pos + m > cut:
                        out.append((a, nadd(o, cut - pos), pos + m - cut))
                    pos = nadd(pos, m) if pos < cut else pos
                return unrope(SymBytes(_norm(out)))

    def clamp(i, default):
        if i is None:
            return default
        i = num(i)
        if not isz(i) and not isz(n):
            return max(0, i + n) if i < 0 else min(i, n)
        if isz(i):
            neg = c.decide(i < 0)
        else:
            neg = i < 0
        if neg:
            i = nadd(i, n)
            if isz(i):
                return 0 if c.decide(i < 0) else i
            return max(0, i)
        d = nsub(i, n)
        if isz(d):
            return n if c.decide(d > 0) else i
        return n if d > 0 else i

    lo = clamp(s.start, 0)
    hi = clamp(s.stop, n)
    d = nsub(hi, lo)
    if isz(d):
        if c.decide(d <= 0):
            return b""
    elif d <= 0:
        return b""
    return sub(r, lo, hi)


# -- values of pieces -------------------------------------------------------
def pieceval(a, o, n):
    """big-endian integer value of one segment: python int or z3 term"""
    c = ctx()
    if not isz(n) and n == 0:
        return 0
    if not isz(o) and not isz(n):
        if a.kind == "lit":
            return int.from_bytes(a.data[o:o + n], "big")
        if a.kind == "rep":
            if not isz(a.data):
                return int.from_bytes(bytes([a.data]) * n, "big")
            if n == 1:
                return a.data
        if a.kind == "enc" and not isz(a.length):
            L = a.length
            if o == 0 and n == L:
                return a.data
            v = a.data
            if L - o - n:
                v = v / (256 ** (L - o - n))
            if o:
                v = v % (256 ** n)
            return v
    elif a.kind == "enc" and neq_syn(o, 0) and neq_syn(n, a.length):
        return a.data
    zo = o if isz(o) else z3.IntVal(o)
    zn = n if isz(n) else z3.IntVal(n)
    v = c.V(z3.IntVal(a.id), zo, zn)
    k = v.get_id()
    if k not in c.vfacts:
        c.vfacts[k] = v
        c.assume(v >= 0)
        if not isz(n):
            c.assume(v < 256 ** n)
        c.pieces.append((a, o, n, v))
    return v


def piece_bits(n):
    return None if isz(n) else 8 * n


def int_from_bytes(b, byteorder="big", *, signed=False):
    b = unrope(b)
    if not is_symbytes(b):
        return int.from_bytes(b, byteorder, signed=signed)
    if signed:
        raise Unsupported("signed symbolic conversion")
    c = ctx()
    if byteorder == "little":
        if isz(b.n):
            raise Unsupported("little endian of symbolic length")
        return byte_reverse(int_from_bytes(b), b.n)
    if len(b.segs) == 1:
        v = pieceval(*b.segs[0])
        if not isz(v):
            return v
        v = z3.simplify(v)
        if z3.is_int_value(v):
            return v.as_long()
        c.src.setdefault(v.get_id(), (v, b))
        return SymInt(v, piece_bits(b.n))
    key = ("int", b.key())
    hit = c.table.get(key)
    if hit is None:
        v = c.fresh_int("cat")
        c.table[key] = hit = v
        c.assume(v >= 0)
        suffix = 0
        total = z3.IntVal(0)
        exact = True
        for a, o, n in reversed(b.segs):
            if isz(suffix):
                exact = False
                break
            p = pieceval(a, o, n)
            total = total + p * (256 ** suffix)
            suffix = nadd(suffix, n)
        if exact:
            c.assume(v == total)
        if not isz(b.n):
            c.assume(v < 256 ** b.n)
        c.src[v.get_id()] = (v, b)
    return SymInt(hit, piece_bits(b.n))


def int_to_bytes(v, length=1, byteorder="big", *, signed=False):
    if type(v) is not SymInt and type(length) is not SymInt:
        return int(v).to_bytes(length, byteorder, signed=signed)
    if signed:
        raise Unsupported("signed symbolic conversion")
    c = ctx()
    n = num(length)
    if isz(n):
        u = c.unique_value(n)
        if u is not None:
            n = u
    e = num(v)
    if isz(e):
        e = z3.simplify(e)
    ze = e if isz(e) else z3.IntVal(e)
    hit = c.src.get(ze.get_id())
    if isz(n) and byteorder != "big":
        raise Unsupported("little endian of symbolic length")
    if isz(n):
        if hit is not None:
            d = nsub(n, hit[1].n)
            if not isz(d) and d == 0 or isz(d) and c.entails(d == 0):
                return unrope(hit[1])
        xn = c.xlen.get(ze.get_id())
        if xn is not None and c.entails(z3.And(*[_b(k <= n) for k in xn])):
            return SymBytes([(c.enc_atom(ze, n), 0, n)])
        raise Unsupported("to_bytes with symbolic length")
    if n < 0:
        raise ValueError("length argument must be non-negative")
    bits = v.bits if type(v) is SymInt else None
    if bits is None or bits > 8 * n:
        if c.decide(ze < 0):
            raise OverflowError("can't convert negative int to unsigned")
        if c.decide(ze >= 256 ** n):
            raise OverflowError("int too big to convert")
    if n == 0:
        return b""
    if byteorder == "little" and n > 1:
        return int_to_bytes(byte_reverse(mkint_or(e), n), n, "big")
    if hit is not None:
        d = nsub(n, hit[1].n)
        if not isz(d):
            if d == 0:
                return unrope(hit[1])
            if d > 0:
                return concat([bytes(d), hit[1]])
    c.decode_bound(ze, 8 * n)
    return unrope(SymBytes([(c.enc_atom(ze, n), 0, n)]))


def byte_reverse(v, n):
    """value of the n byte encoding of v read in the other byte order"""
    if n <= 1:
        return v
    if type(v) is not SymInt:
        return int.from_bytes(int(v).to_bytes(n, "big"), "little")
    c = ctx()
    f = z3.Function(f"byterev{n}", z3.IntSort(), z3.IntSort())
    r = f(v.e)
    if ("rev", n, v.e.get_id()) not in c.table:
        c.table[("rev", n, v.e.get_id())] = (v.e, r)
        c.assume(f(r) == v.e)
        c.assume(r >= 0)
        c.assume(r < 256 ** n)
        c.assume((r == 0) == (v.e == 0))
    return SymInt(r, 8 * n)


# -- xor ---------------------------------------------------------------------
def low_zeros(e):
    """number of low bits of e seen to be zero"""
    if z3.is_mul(e):
        k = 0
        for x in e.children():
            if z3.is_int_value(x):
                x = x.as_long()
                k += (x & -x).bit_length() - 1 if x > 0 else 0
        return k
    return 0


def int_xor(a, b):
    c = ctx()
    leaves = {}
    const = 0
    bits = 0
    for x in (a, b):
        if type(x) is not SymInt:
            x = int(x)
            if x < 0:
                raise Unsupported("xor with a negative int")
            const ^= x
            bits = None if bits is None else max(bits, x.bit_length())
            continue
        bits = None if (bits is None or x.bits is None) else max(bits, x.bits)
        ls, k = c.xors.get(x.e.get_id(), (None, 0))
        if ls is None:
            ls = {x.e.get_id(): x}
        const ^= k
        for i, t in ls.items():
            if i in leaves:
                del leaves[i]
            else:
                leaves[i] = t
    if not leaves:
        return const
    if len(leaves) == 1 and const == 0:
        return next(iter(leaves.values()))
    bs = [t.bits for t in leaves.values()]
    if all(x is not None for x in bs):
        bits = max(bs + [const.bit_length()])
    else:
        bits = None
    key = ("xor", tuple(sorted(leaves)), const)
    hit = c.table.get(key)
    if hit is None:
        v = c.fresh_int("xor")
        c.table[key] = hit = v
        c.keep.extend(t.e for t in leaves.values())
        c.assume(v >= 0)
        if bits is not None:
            c.assume(v < (1 << bits))
        c.xors[v.get_id()] = (leaves, const)
        # operands without common bits: the sum
        if const == 0 and bits is not None:
            parts = sorted((low_zeros(t.e), t.bits) for t in leaves.values())
            if all(x[1] <= y[0] for x, y in zip(parts, parts[1:])):
                c.assume(v == z3.Sum([t.e for t in leaves.values()]))
        # injectivity in each single leaf: x ^ r == 0  <=>  x == r
        if len(leaves) == 1:
            (t,) = leaves.values()
            c.assume((v == 0) == (t.e == const))
        elif len(leaves) == 2 and const == 0:
            t, u = leaves.values()
            c.assume((v == 0) == (t.e == u.e))
        # symbolic byte lengths of operands
        lens = []
        ok = True
        for t in leaves.values():
            h = c.src.get(t.e.get_id())
            if h is None:
                ok = False
                break
            lens.append(h[1].n)
        if ok:
            c.xlen[v.get_id()] = lens
    return SymInt(hit, bits)


# -- equality ----------------------------------------------------------------
def bytes_eq(a, b):
    """SymBool | bool; forks only on lengths/segment alignment"""
    a, b = rope(a), rope(b)
    c = ctx()
    if a.key() == b.key():
        return True
    d = nsub(a.n, b.n)
    if isz(d):
        if not c.decide(d == 0):
            return False
    elif d != 0:
        return False
    conj = []
    for p, q in align(a, b, lambda x: c.decide(x)):
        f = piece_eq(p, q)
        if f is False:
            return False
        if f is not True:
            conj.append(bexpr(f))
    return mkbool(z3.And(*conj)) if conj else True


def align(a, b, dec):
    """split two equal-length ropes into pairs of equal-length pieces"""
    xs, ys = list(a.segs), list(b.segs)
    while xs and ys:
        (pa, po, pn), (qa, qo, qn) = xs[0], ys[0]
        d = nsub(pn, qn)
        if not isz(d):
            rel = (d > 0) - (d < 0)
        elif dec(d == 0):
            rel = 0
        elif dec(d > 0):
            rel = 1
        else:
            rel = -1
        if rel == 0:
            yield xs.pop(0), ys.pop(0)
        elif rel > 0:
            yield (pa, po, qn), ys.pop(0)
            xs[0] = (pa, nadd(po, qn), d)
        else:
            yield xs.pop(0), (qa, qo, pn)
            ys[0] = (qa, nadd(qo, pn), nsub(qn, pn))
    # leftovers are empty (equal total lengths)


def piece_eq(p, q):
    (pa, po, pn), (qa, qo, qn) = p, q
    c = ctx()
    if not isz(pn) and pn == 0:
        return True
    if pa is qa and (pa.kind == "rep" or neq_syn(po, qo)):
        return True
    if pa.kind == "rep" and qa.kind == "rep":
        return mkbool(z3.Or(_b(pa.data == qa.data), _b(pn == 0)))
    if (
        pa.kind == "xof" and qa.kind == "xof"
        and pa.data[0] == qa.data[0] and neq_syn(po, qo)
    ):
        # ideal XOF: equal (long enough) outputs <=> equal inputs
        big = c.entails(_b(pn >= MIN_DIGEST_EQ)) if isz(pn) else (
            pn >= MIN_DIGEST_EQ
        )
        if big:
            c.note("ideal-xof")
            return bytes_eq(pa.data[1], qa.data[1])
    if (
        pa.kind == "xof" and qa.kind == "xof" and c.ideal_cross
        and not isz(pn) and pn >= MIN_DIGEST_EQ
    ):
        c.note("ideal-xof-cross")
        return False
    va, vb = pieceval(*p), pieceval(*q)
    if not isz(va) and not isz(vb):
        return va == vb
    if isz(pn):
        return mkbool(z3.Or(_b(va == vb), _b(pn == 0)))
    return mkbool(va == vb)


def same_rope(a, b):
    """structural/entailed equality without splitting the proof"""
    a, b = rope(a), rope(b)
    if a.key() == b.key():
        return True
    c = ctx()
    d = nsub(a.n, b.n)
    if isz(d):
        if not c.entails(d == 0):
            return False
    elif d != 0:
        return False

    class _Stop(Exception):
        pass

    def dec(x):
        if c.entails(x):
            return True
        if c.entails(z3.Not(x)):
            return False
        raise _Stop

    try:
        for p, q in align(a, b, dec):
            f = piece_eq_nofork(p, q)
            if f is True:
                continue
            if f is False or not c.entails(bexpr(f)):
                return False
    except _Stop:
        return False
    return True


def piece_eq_nofork(p, q):
    (pa, po, pn), (qa, qo, qn) = p, q
    if pa.kind == "xof" and qa.kind == "xof":
        if pa is qa and neq_syn(po, qo):
            return True
        return (
            pa.data[0] == qa.data[0] and neq_syn(po, qo)
            and same_rope(pa.data[1], qa.data[1])
        )
    return piece_eq(p, q)


# --------------------------------------------------------------------------
def names_of(e):
    """order independent fingerprint of a condition (its constants)"""
    seen, out, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                todo.extend(x.children())
    return frozenset(out)


class Ctx:
    """One path of one proof."""

    def __init__(self, prefix, *, timeout_ms=20000, stats=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.keep = []
        self.table = {}
        self.atoms = []
        self.vfacts = {}
        self.pieces = []
        self.src = {}
        self.xors = {}
        self.xlen = {}
        self.counter = {}
        self.inputs = {}
        self.notes = set()
        self.markers = 0
        self.ideal_cross = True
        self.V = z3.Function(
            "V", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort()
        )
        self.stats = stats if stats is not None else {}
        self.obligations = []
        self.contracts = {}
        self.cuts = {}
        self.state = {}
        self.events = []
        self.decided = {}       # formula id -> (formula, value)

    # -- solver
    def _check(self, *fs):
        import time

        self.stats["queries"] = self.stats.get("queries", 0) + 1
        t = time.perf_counter()
        self.solver.push()
        try:
            for f in fs:
                self.solver.add(f)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            self.stats["solver_s"] = (
                self.stats.get("solver_s", 0.0) + time.perf_counter() - t
            )
        return r, m

    def assume(self, f):
        f = bexpr(f) if not isz(f) else f
        self.solver.add(f)

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known = self.decided.get(cond.get_id())
        if known is not None:
            return known[1]
        v = self._decide(cond)
        self.decided[cond.get_id()] = (cond, v)
        return v

    def _decide(self, cond):
        i = len(self.trace)
        if i < len(self.prefix):
            v, h = self.prefix[i]
            if h != names_of(cond):
                raise Unsupported("non-deterministic re-execution")
            self.trace.append((v, h))
            self.solver.add(cond if v else z3.Not(cond))
            return v
        h = names_of(cond)
        can_t = self._check(cond)[0] != z3.unsat
        can_f = self._check(z3.Not(cond))[0] != z3.unsat
        if can_t and can_f:
            self.pending.append(self.trace + [(False, h)])
            v = True
        elif can_t or can_f:
            v = can_t
        else:
            raise Infeasible
        self.trace.append((v, h))
        self.solver.add(cond if v else z3.Not(cond))
        return v

    def entails(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(bexpr(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self._check()[0] == z3.unsat
        # assumptions only grow: what is entailed once stays entailed
        known = self.decided.get(f.get_id())
        if known is not None and known[1]:
            return True
        if self._check(z3.Not(f))[0] == z3.unsat:
            self.decided[f.get_id()] = (f, True)
            return True
        return False

    def unique_value(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        r, m = self._check()
        if r != z3.sat:
            return None
        v = m.eval(e, model_completion=True)
        if not z3.is_int_value(v):
            return None
        return v.as_long() if self.entails(e == v) else None

    # -- fresh symbols
    def _fresh(self, name):
        k = self.counter[name] = self.counter.get(name, 0) + 1
        return f"{name}!{k}"

    def fresh_int(self, name):
        return z3.Int(self._fresh(name))

    def int(self, name, lo=None, hi=None, bits=None):
        v = z3.Int(name)
        if lo is not None:
            self.assume(v >= num(lo))
        if hi is not None:
            self.assume(v <= num(hi))
            if bits is None and lo is not None and not isz(num(hi)) and (
                not isz(num(lo)) and num(lo) >= 0
            ):
                bits = num(hi).bit_length()
        s = SymInt(v, bits)
        self.inputs[name] = s
        return s

    def bool(self, name):
        s = SymBool(z3.Bool(name))
        self.inputs[name] = s
        return s

    def bytes(self, name, n=None, lo=0, hi=None):
        """free byte string; n: fixed int / SymInt length, or None = any"""
        if n is None:
            L = z3.Int(f"len.{name}")
            self.assume(L >= lo)
            self.assume(L <= (MAX_LEN if hi is None else hi))
        else:
            L = num(n)
        a = self._atom("var", name, L, None)
        s = SymBytes([(a, 0, L)], L)
        self.inputs[name] = s
        return s

    def fresh_bytes(self, name, n, **kw):
        return self.bytes(self._fresh(name), n, **kw)

    # -- atoms
    def _atom(self, kind, name, length, data):
        a = Atom(len(self.atoms) + 1, kind, name, length, data)
        self.atoms.append(a)
        return a

    def _intern(self, key, kind, name, length, data):
        a = self.table.get(key)
        if a is None:
            a = self.table[key] = self._atom(kind, name, length, data)
        return a

    def lit_atom(self, data):
        return self._intern(("lit", data), "lit", repr(data[:8]), len(data),
                            data)

    def rep_atom(self, v):
        return self._intern(("rep", nkey(v)), "rep", str(v)[:20], None, v)

    def enc_atom(self, e, n):
        return self._intern(("enc", nkey(e), nkey(n)), "enc", "int", n, e)

    def fn_atom(self, key, n):
        return self._intern(("fn", key, nkey(n)), "fn", str(key[0]), n, key)

    def fn_bytes(self, key, n):
        return SymBytes([(self.fn_atom(key, num(n)), 0, num(n))], num(n))

    def xof_atom(self, alg, transcript):
        t = rope(transcript)
        return self._intern(
            ("xof", alg, t.key()), "xof", alg, None, (alg, t)
        )

    def decode_bound(self, e, bits):
        pass

    def fn_int(self, name, *args):
        """uninterpreted integer function of z3/int args"""
        zs = [a if isz(a) else z3.IntVal(a) for a in map(num, args)]
        f = z3.Function(name, *([z3.IntSort()] * (len(zs) + 1)))
        return f(*zs)

    # -- notes / markers
    def note(self, what):
        self.notes.add(what)

    def note_float(self):
        self.notes.add("A-FLOAT")

    def marker(self, x):
        self.markers += 1
        return f"\x00sym{self.markers}\x00"

    # -- obligations
    def prove(self, cond, name, info=None):
        """discharge one obligation under the current path condition"""
        import time

        t0 = time.perf_counter()
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        f = z3.simplify(bexpr(cond))
        ob = dict(name=name, path=len(self.obligations), info=info)
        if z3.is_true(f):
            ob["status"] = "discharged"
            ob["by"] = "simplifier"
        else:
            r, m = self._check(z3.Not(f))
            if r == z3.unsat:
                ob["status"] = "discharged"
                ob["by"] = "z3"
                if self.stats.get("crosscheck") is not None:
                    self.stats["crosscheck"].append(
                        (name, self._smt2(z3.Not(f)))
                    )
            elif r == z3.sat:
                ob["status"] = "refuted"
                ob["by"] = "z3"
                ob["model"] = self.model_inputs(m)
                ob["formula"] = str(f)[:600]
            else:
                ob["status"] = "unknown"
                ob["by"] = "z3"
                ob["formula"] = str(f)[:600]
        ob["s"] = round(time.perf_counter() - t0, 4)
        self.obligations.append(ob)
        return ob["status"] == "discharged"

    def prove_bytes_eq(self, a, b, name, info=None):
        """equality of byte strings, splitting the proof where needed"""
        try:
            f = bytes_eq(a, b)
        except Infeasible:
            raise
        return self.prove(f, name, info)

    def fail(self, name, info=None):
        """reaching this point is itself a violated obligation"""
        r, m = self._check()
        if r == z3.unsat:
            raise Infeasible
        st = "refuted" if r == z3.sat else "unknown"
        self.obligations.append(dict(
            name=name, status=st, by="z3", info=info,
            model=self.model_inputs(m) if m is not None else {},
            formula="unreachable point is reachable", s=0.0,
        ))

    def cover(self, name):
        """vacuity guard: this point must be reachable"""
        r, _ = self._check()
        self.obligations.append(dict(
            name=name, status="cover" if r == z3.sat else (
                "cover-failed" if r == z3.unsat else "cover-unknown"),
            by="z3", s=0.0,
        ))
        if r == z3.unsat:
            raise Infeasible

    def _smt2(self, f):
        s = z3.Solver()
        s.add(*self.solver.assertions())
        s.add(f)
        return s.to_smt2()

    def model_inputs(self, m):
        """concrete input values from a counter-model"""
        out = {}
        if m is None:
            return out
        for name, s in self.inputs.items():
            try:
                if type(s) is SymInt:
                    out[name] = m.eval(s.e, model_completion=True).as_long()
                elif type(s) is SymBool:
                    out[name] = z3.is_true(
                        m.eval(s.e, model_completion=True))
                elif type(s) is SymBytes:
                    out[name] = self._model_bytes(m, s)
            except Exception:
                pass
        return out

    def _model_bytes(self, m, s):
        (a, _, L), = s.segs
        n = L if not isz(L) else m.eval(L, model_completion=True).as_long()
        if n > 1 << 20:
            return ["long", n]
        buf = bytearray((i * 37 + 11) & 0xFF for i in range(n))
        todo = []
        for pa, o, k, v in self.pieces:
            if pa is not a:
                continue
            oo = o if not isz(o) else m.eval(
                o, model_completion=True).as_long()
            kk = k if not isz(k) else m.eval(
                k, model_completion=True).as_long()
            if 0 <= oo and oo + kk <= n and kk <= 1 << 16:
                todo.append((kk, oo, m.eval(
                    v, model_completion=True).as_long()))
        for kk, oo, vv in sorted(todo, reverse=True):
            buf[oo:oo + kk] = (vv % (256 ** kk)).to_bytes(kk, "big")
        return ["hex", bytes(buf).hex()]


def explore(fn, *, name, max_paths=400, timeout_ms=20000, stats=None,
            deadline=None):
    """
    Run the proof script `fn(ctx)` on every feasible path.
    Returns (obligations, meta).
    """
    import time
    global CTX

    stats = stats if stats is not None else {}
    # z3 objects must never be released by another thread's collector
    gc.disable()
    sys.unraisablehook = lambda *a: None   # abandoned generators
    gc.collect()
    stack = [[]]
    obligations = []
    meta = dict(paths=0, infeasible=0, unsupported=[], notes=set())
    while stack:
        prefix = stack.pop()
        if meta["paths"] >= max_paths or (
            deadline is not None and time.monotonic() > deadline
        ):
            meta["unsupported"].append("path/time budget exhausted")
            break
        c = CTX = Ctx(prefix, timeout_ms=timeout_ms, stats=stats)
        meta["paths"] += 1
        if meta["paths"] % 50 == 0:
            gc.collect()
        try:
            fn(c)
            if c._check()[0] == z3.unsat:
                raise Infeasible
        except Infeasible:
            meta["infeasible"] += 1
            c.obligations = [
                o for o in c.obligations if o["status"] == "refuted"
            ] and c.obligations or c.obligations
        except ProofStop:
            pass
        except Unsupported as e:
            meta["unsupported"].append(f"{name}: {e}")
        except RecursionError as e:
            meta["unsupported"].append(f"{name}: recursion {e}")
        finally:
            CTX = None
        stack.extend(reversed(c.pending))
        for o in c.obligations:
            o["proof"] = name
            obligations.append(o)
        meta["notes"] |= c.notes
    return obligations, meta
