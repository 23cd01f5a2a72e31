"""
Contracts assumed for the environment of the package: Python built-ins, the
standard library and OpenSSL.  Each entry is an axiom about code outside of
/repo; the list is exported to the evidence as the trusted base.
"""
import asyncio
import base64
import builtins
import collections
import functools
import hashlib
import hmac
import io
import itertools
import json
import math
import operator
import secrets
import sys
import threading
import time
import types

import z3

from . import core
from .core import (
    SymBool, SymBytes, SymFrac, SymInt, Unsupported, bytes_eq, concat,
    int_from_bytes, int_to_bytes, is_sym, is_symbytes, isz, mkint, nadd,
    nsub, num, rope, rope_slice, unrope,
)

ASSUMED = {
    "A-PY": "CPython semantics of the constructs the package uses (control "
            "flow, generators, coroutines, containers, exceptions) are those "
            "of the interpreter that runs the instrumented source",
    "A-INT": "int.from_bytes/to_bytes, slicing, concatenation, len of bytes "
             "and unbounded int arithmetic follow their documented algebra",
    "A-XOF": "hashlib SHAKE/SHA3/BLAKE objects are deterministic functions "
             "of the absorbed bytes; copy() forks the state; an n byte "
             "digest is the n byte prefix of the output for SHAKE",
    "A-IDEAL": "ideal hash: two outputs (>= 8 bytes) of one hash family are "
               "equal only for equal absorbed bytes (used only where the "
               "statement itself rests on it: authenticity, separation)",
    "A-RNG": "secrets.token_bytes(n) returns exactly n arbitrary bytes",
    "A-TIME": "time.time_ns returns an arbitrary non-negative int",
    "A-CMP": "hmac.compare_digest(a, b) == (a == b) for bytes",
    "A-B64": "base64 urlsafe en/decoding are mutually inverse",
    "A-JSON": "json.loads(json.dumps(x)) == x for the serialisable x the "
              "statement quantifies over",
    "A-SIZE": "byte strings are at most 2**48 bytes long",
    "A-FLOAT": "rounding (ceil/floor/int) a float quotient of ints whose "
               "numerator is below 2**53 (checked, larger ones are refused) "
               "equals rounding the exact quotient: IEEE-754 fact",
    "A-SLEEP": "asyncio.sleep returns after letting other tasks run",
}

MAIN = threading.main_thread().ident
_real_shake = {
    name: getattr(hashlib, name)
    for name in (
        "shake_128", "shake_256", "sha3_224", "sha3_256", "sha3_384",
        "sha3_512", "blake2b", "blake2s", "sha256", "sha512", "sha1", "md5",
        "sha224", "sha384",
    )
}


class XOF:
    """hash object that remembers what it absorbed"""

    def __init__(self, alg, parts=(), kw=None):
        self._alg = alg
        self._parts = list(parts)
        self._kw = kw or {}
        self.name = alg
        real = _real_shake[alg]()
        self.block_size = real.block_size
        self.digest_size = real.digest_size

    def update(self, data):
        if is_symbytes(data):
            self._parts.append(data)
        elif isinstance(data, (bytes, bytearray, memoryview)):
            self._parts.append(bytes(data))
        else:
            raise TypeError("object supporting the buffer API required")

    def copy(self):
        return XOF(self._alg, self._parts, self._kw)

    @property
    def transcript(self):
        r = concat(self._parts) if self._parts else b""
        self._parts = [r]
        return r

    def concrete(self):
        return not any(map(is_symbytes, self._parts))

    def _native(self):
        return _real_shake[self._alg](b"".join(self._parts), **self._kw)

    def digest(self, *a, **k):
        shake = self._alg.startswith("shake")
        n = a[0] if a else k.get("length")
        if n is not None and not isinstance(n, int):
            raise TypeError("'object' cannot be interpreted as an integer")
        if self.concrete() and not is_sym(n):
            return self._native().digest(*([n] if shake else []))
        if not shake:
            n = self.digest_size
        c = core.ctx()
        n = num(n)
        if isz(n):
            if c.decide(n < 0):
                raise ValueError("value must be positive")
        elif n < 0:
            raise ValueError("value must be positive")
        atom = c.xof_atom(self._alg, self.transcript)
        return unrope(SymBytes(core._norm([(atom, 0, n)]), n)) if not (
            not isz(n) and n == 0) else b""

    def hexdigest(self, *a, **k):
        if self.concrete() and not any(map(is_sym, a)):
            return self._native().hexdigest(*a, **k)
        raise Unsupported("symbolic hexdigest")


def make_xof(alg):
    def factory(data=b"", **kw):
        kw.pop("usedforsecurity", None)
        x = XOF(alg, (), kw)
        if is_symbytes(data) or len(data):
            x.update(data)
        return x
    factory.__name__ = alg
    return factory


class SymBytesIO:
    """io.BytesIO over a rope"""

    def __init__(self, data=b""):
        self._d = rope(data)
        self._p = 0

    @property
    def __class__(self):
        return io.BytesIO

    def read(self, size=-1):
        c = core.ctx()
        left = nsub(self._d.n, self._p)
        if size is None:
            n = left
        else:
            s = num(size)
            if c.decide(s >= 1 << 63) if isz(s) else s >= 1 << 63:
                raise OverflowError("cannot fit 'int' into an index-sized "
                                    "integer")
            if isz(s):
                n = left if c.decide(s < 0) else s
            else:
                n = left if s < 0 else s
            d = nsub(n, left)
            if isz(d):
                if c.decide(d > 0):
                    n = left
            elif d > 0:
                n = left
        if isz(n):
            if c.decide(n <= 0):
                return b""
        elif n <= 0:
            return b""
        r = core.sub(self._d, self._p, nadd(self._p, n), fix=True)
        self._p = nadd(self._p, n)
        return r

    def tell(self):
        return core.mkint_or(self._p)

    def seek(self, p, whence=0):
        if whence == 0:
            self._p = num(p)
        elif whence == 2:
            self._p = nadd(self._d.n, num(p))
        else:
            self._p = nadd(self._p, num(p))
        return core.mkint_or(self._p)

    def getvalue(self):
        return unrope(self._d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def subset_facts(c, x):
    """instances, for the byte x, of the subset tests made so far"""
    import z3
    (b, at, _), = rope(x).segs
    for v, mine, a, off, n in c.state.get("subsets", ()):
        if a.id == b.id and c.entails(core._b(mine.n == 1)):
            one = rope(rope_slice(mine, slice(0, 1)))
            c.assume(z3.Implies(
                z3.And(v, off <= at, at < off + n),
                core.pieceval(*rope(x).segs[0])
                == core.pieceval(*one.segs[0])))


class SymByteSet:
    def __init__(self, data):
        self.data = rope(data)

    def issuperset(self, other):
        """every byte of `other` occurs in self.data"""
        c = core.ctx()
        o = rope(other)
        mine = self.data
        conj = []
        for a, off, n in o.segs:
            if a.kind == "rep" and len(mine.segs) == 1 and not isz(
                mine.n
            ) and mine.n == 1:
                v = core.pieceval(*mine.segs[0])
                conj.append(core._b(v == a.data))
            else:
                key = ("subset", mine.key(), a.id, core.nkey(off),
                       core.nkey(n))
                v = c.table.get(key)
                if v is None:
                    import z3
                    v = c.table[key] = z3.Bool(c._fresh("subset"))
                    if isz(n):
                        c.assume(z3.Implies(n == 0, v))
                    c.state.setdefault("subsets", []).append(
                        (v, mine, a, off, n))
                conj.append(v)
        if not conj:
            return True
        import z3
        return core.mkbool(z3.And(*conj))


def m_len(x):
    if is_symbytes(x):
        return x.slen()
    f = type(x).__dict__.get("__len__")
    for k in type(x).__mro__:
        f = k.__dict__.get("__len__")
        if f is not None:
            break
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


def m_ceil(x):
    return x.ceil() if type(x) is SymFrac else (
        x if type(x) is SymInt else math.ceil(x))


def m_floor(x):
    return x.floor() if type(x) is SymFrac else (
        x if type(x) is SymInt else math.floor(x))


def m_int(*a, **k):
    if len(a) == 1 and not k:
        if type(a[0]) is SymFrac:
            return a[0].trunc()
        if type(a[0]) is SymInt:
            return a[0]
        if type(a[0]) is SymBool:
            return core.mkint(num(a[0]))
    if any(map(is_sym, a)):
        raise Unsupported("int() of a symbolic value")
    return int(*a, **k)


def m_type(*a, **k):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    return type(*a, **k)


def m_bytes(*a, **k):
    if len(a) == 1 and is_symbytes(a[0]):
        return a[0]
    if len(a) == 1 and type(a[0]) is SymInt:
        return core.repeat(b"\x00", a[0])
    if len(a) == 1 and type(a[0]) is list and a[0] and hasattr(
        type(a[0][0]), "_vf_join"
    ):
        return a[0][0]._vf_join(bytes, a[0])
    if len(a) == 1 and isinstance(a[0], (list, tuple)) and any(
        map(is_sym, a[0])
    ):
        return concat([int_to_bytes(x, 1, "big") for x in a[0]])
    return bytes(*a, **k)


def m_bytesio(*a, **k):
    if a and is_symbytes(a[0]):
        x = SymBytesIO(*a)
        core.ctx().state.setdefault("bytesio", []).append(x)
        return x
    return io.BytesIO(*a, **k)


def m_fromhex(x):
    """bytes.fromhex undoes bytes.hex"""
    if type(x) is core.SymHex:
        return x.raw
    return bytes.fromhex(x)


def m_compare_digest(a, b):
    if is_symbytes(a) or is_symbytes(b):
        if not (isinstance(a, bytes) and isinstance(b, bytes)):
            raise TypeError("unsupported operand types")
        return bytes_eq(a, b)
    return hmac.compare_digest(a, b)


def m_set(*a):
    if a and is_symbytes(a[0]):
        return SymByteSet(a[0])
    return set(*a)


def m_token_bytes(n=32):
    c = core.CTX
    if c is None:
        return secrets.token_bytes(n)
    if n is None:
        n = 32
    r = c.fresh_bytes("rand", n)
    c.state.setdefault("drawn", []).append(r)
    return r


def m_time_ns():
    c = core.CTX
    if c is None:
        return time.time_ns()
    hook = c.state.get("time_ns")
    if hook is not None:
        return hook()
    return c.int(c._fresh("time_ns"), 0, (1 << 63) - 1)


def m_deque(*a, **k):
    c = core.CTX
    hook = c and c.state.get("deque")
    if hook and not k and sys._getframe(2).f_globals.get(
        "__name__", "").startswith(hook[0]):
        return hook[1](*a)
    return collections.deque(*a, **k)


def m_bool(*a):
    return bool(*a)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_str(*a, **k):
    if a and is_sym(a[0]):
        return str(a[0])
    return str(*a, **k)


def m_divmod(a, b):
    return a // b, a % b


class AnyRange:
    """range(*a) from any of its elements on; ranges of one step that run
    side by side share the distance from their start"""

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st
        self.used = False

    def __iter__(self):
        return self

    def __next__(self):
        c = core.ctx()
        if self.used:
            raise core.ProofStop
        self.used = True
        if not self.st > 0:
            raise Unsupported("range step")
        offs = c.state.setdefault("any_off", [])
        for st, off in offs:
            if type(st) is type(self.st) and bool(core.mkbool(
                num(st) == num(self.st))
            ):
                break
        else:
            k = c.int("any.k", 0)
            off = k * self.st
            offs.append((self.st, off))
        v = self.lo + off
        if v < self.hi:
            return v
        raise StopIteration


def m_range(*a):
    if core.CTX is not None and core.CTX.state.get("range_any"):
        lo, hi, st = ((0, a[0], 1), (*a, 1), a)[len(a) - 1]
        return AnyRange(lo, hi, st)
    if any(map(is_sym, a)):
        vals = []
        for x in a:
            if is_sym(x):
                u = core.ctx().unique_value(x.e)
                if u is None:
                    return sym_range(*a)
                x = u
            vals.append(x)
        return range(*vals)
    return range(*a)


def sym_range(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        (lo, hi), st = a, 1
    else:
        lo, hi, st = a
    if is_sym(st):
        raise Unsupported("symbolic range step")

    def gen():
        i = lo
        k = 0
        lim = core.ctx().state.get("range_unroll", 6)
        while (i < hi) if st > 0 else (i > hi):
            if k >= lim:
                raise Unsupported("symbolic range bound (unrolled)")
            yield i
            i = i + st
            k += 1
    return gen()


def m_b64e(x):
    if is_symbytes(x):
        c = core.ctx()
        n = x.n
        zn = n if isz(n) else core.z3.IntVal(n)
        if not isz(n):
            pad = (3 - n % 3) % 3
        elif c.decide(zn % 3 == 0):
            pad = 0
        elif c.decide(zn % 3 == 1):
            pad = 2
        else:
            pad = 1
        ln = core.znum(4 * ((zn + 2) / 3) - pad)
        a = c.fn_atom(("b64e", x.key()), ln)
        c.state.setdefault("b64", {})[a.id] = (x, pad, ln)
        return concat([SymBytes([(a, 0, ln)], ln), b"=" * pad])
    return base64.urlsafe_b64encode(x)


def m_b64d(x):
    if is_symbytes(x):
        import binascii
        c = core.ctx()
        a, o, n = x.segs[0]
        hit = c.state.get("b64", {}).get(a.id)
        if hit is not None and core.neq_syn(o, 0) and core.neq_syn(
            n, hit[2]
        ):
            rest = unrope(SymBytes(x.segs[1:]))
            if type(rest) is bytes and rest == b"=" * len(rest):
                if len(rest) < hit[1]:
                    raise binascii.Error("Incorrect padding")
                return hit[0]
        raise Unsupported("b64decode of a foreign symbolic value")
    return base64.urlsafe_b64decode(x)


async def _gathered(cos, return_exceptions):
    out = []
    for x in cos:
        try:
            out.append(await x)
        except Exception as e:
            if not return_exceptions:
                raise
            out.append(e)
    return out


def m_gather(*cos, return_exceptions=False):
    """one after another (assumption: the coroutines do not interfere)"""
    if core.CTX is None:
        return asyncio.gather(*cos, return_exceptions=return_exceptions)
    return _gathered(cos, return_exceptions)


async def m_asleep(delay=0, result=None):
    await _yield_once()
    return result


@types.coroutine
def _yield_once():
    yield


def m_max(*a, **k):
    return max(*a, **k)


def m_isinstance(x, t):
    return isinstance(x, t)


class OpaqueJSON:
    """a JSON-serialisable value the statement quantifies over"""

    def __init__(self, name):
        self.name = name


def m_json_dumps(x, **k):
    if type(x) is OpaqueJSON:
        if k:
            raise Unsupported("json.dumps with options")
        c = core.ctx()
        memo = c.state.setdefault("json texts", {})
        if x.name not in memo:
            # JSON text starts with one of " - 0..9 I N [ f n t {
            first = c.bytes(f"json.{x.name}.first", 1)
            c.assume(core.bexpr(core.int_from_bytes(first) >= 0x22))
            memo[x.name] = first + c.bytes(f"json.{x.name}.rest")
        return SymStr(memo[x.name], x)
    return json.dumps(x, **k)


class SymStr:
    """opaque str known only through its (utf-8) encoding"""

    def __init__(self, enc, origin=None):
        self.enc = enc
        self.origin = origin
        core.ctx().state.setdefault("strs", []).append((enc, self))

    @property
    def __class__(self):
        return str

    def encode(self, *a, **k):
        if (a and a[0].lower() not in ("utf-8", "utf8")) or k or a[1:]:
            raise Unsupported("str.encode with options")
        return self.enc

    def __hash__(self):
        raise Unsupported("hash of a symbolic str")

    def __eq__(self, o):
        if type(o) is SymStr:
            return bytes_eq(self.enc, o.enc)
        if isinstance(o, str):
            return bytes_eq(self.enc, o.encode())
        return False

    def __ne__(self, o):
        return core.bnot(self.__eq__(o))


def m_json_loads(x, **k):
    if is_symbytes(x):
        for enc, s in core.ctx().state.get("strs", []):
            if s.origin is not None and core.same_rope(enc, x):
                return s.origin
        raise Unsupported("json.loads of a foreign symbolic value")
    if type(x) is SymStr:
        if x.origin is not None:
            return x.origin
        raise Unsupported("json.loads of a foreign symbolic value")
    return json.loads(x, **k)


MODELS = {
    len: m_len, math.ceil: m_ceil, math.floor: m_floor, int: m_int,
    type: m_type, bytes: m_bytes, io.BytesIO: m_bytesio,
    hmac.compare_digest: m_compare_digest, bytes.fromhex: m_fromhex,
    set: m_set,
    frozenset: m_set, secrets.token_bytes: m_token_bytes,
    time.time_ns: m_time_ns, range: m_range,
    base64.urlsafe_b64encode: m_b64e, base64.urlsafe_b64decode: m_b64d,
    asyncio.sleep: m_asleep, asyncio.gather: m_gather, json.dumps: m_json_dumps,
    json.loads: m_json_loads, sum: m_sum, divmod: m_divmod,
    collections.deque: m_deque, int.from_bytes: None,
}
for _name, _f in _real_shake.items():
    MODELS[_f] = make_xof(_name)
del MODELS[int.from_bytes]
for _m in (operator.mul, operator.add, operator.sub, operator.xor):
    pass

# builtins that are safe on symbolic arguments because they only dispatch to
# the argument's own methods or store it
TRANSPARENT = {
    isinstance, issubclass, getattr, setattr, hasattr, iter, next, enumerate,
    zip, map, filter, list, tuple, dict, all, any, min, max, sorted, reversed,
    repr, str, print, abs, callable, id, bool, object, collections.deque,
    functools.partial, itertools.chain, staticmethod, classmethod, property,
    super, round, collections.OrderedDict, collections.namedtuple,
    operator.mul, operator.add, operator.sub, operator.xor, operator.eq,
}
CONTAINER_TYPES = (
    list, dict, collections.deque, tuple, types.GeneratorType,
    types.AsyncGeneratorType, types.CoroutineType, collections.OrderedDict,
)


def _has_sym(a, k):
    for x in a:
        if is_sym(x) or type(x) in (SymStr, OpaqueJSON, SymByteSet):
            return True
    for x in k.values():
        if is_sym(x) or type(x) in (SymStr, OpaqueJSON, SymByteSet):
            return True
    return False


def call_builtin_method(f, a, k):
    """bound builtin methods of native objects with symbolic arguments"""
    s = f.__self__
    name = f.__name__
    if isinstance(s, type):
        if name == "from_bytes" and issubclass(s, int):
            return int_from_bytes(*a, **k)
        if name == "__setattr__" or name == "__getattribute__":
            return f(*a, **k)
        if name in ("__new__", "fromkeys"):
            return f(*a, **k)
        raise Unsupported(f"builtin {s.__name__}.{name} on symbolic values")
    if isinstance(s, bytes) and type(s) is bytes:
        if name == "join":
            return rope(s).join(a[0])
        if name in ("ljust", "rjust"):
            return getattr(rope(s), name)(*a, **k)
        if name in ("startswith", "endswith"):
            return getattr(rope(s), name)(*a, **k)
        raise Unsupported(f"bytes.{name} with symbolic arguments")
    if type(s) is int:
        if name == "to_bytes":
            return int_to_bytes(s, *a, **k)
        raise Unsupported(f"int.{name} with symbolic arguments")
    if isinstance(s, CONTAINER_TYPES):
        return f(*a, **k)
    if isinstance(s, types.ModuleType) or s is None:
        raise Unsupported(f"builtin {name} with symbolic arguments")
    raise Unsupported(
        f"{type(s).__name__}.{name} with symbolic arguments"
    )


_BM = type(len)
_MW = type("".__init__)
_MD = type(str.join)
_WD = type(object.__setattr__)


def call(f, *a, **k):
    """every call expression of the instrumented package comes here"""
    if threading.get_ident() != MAIN:
        return f(*a, **k)
    try:
        m = MODELS.get(f)
    except (TypeError, Unsupported):
        m = None
    if m is not None:
        return m(*a, **k)
    c = core.CTX
    if c is None:
        tf = type(f)
        return f(*a, **k)
    tf = type(f)
    if tf is _BM:
        if f.__name__ == "join" and type(a[0]) is list and a[0] and (
            hasattr(type(a[0][0]), "_vf_join")
        ):
            return a[0][0]._vf_join(f.__self__, a[0])
        if f.__name__ == "join" and isinstance(f.__self__, bytes):
            items = getattr(a[0], "_vf_pieces", None)
            items = list(a[0]) if items is None else items()
            if any(map(is_symbytes, items)):
                return rope(f.__self__).join(items)
            return f(items)
        if _has_sym(a, k):
            if f in TRANSPARENT:
                return f(*a, **k)
            return call_builtin_method(f, a, k)
        return f(*a, **k)
    if tf is types.FunctionType or tf is types.MethodType:
        h = c.contracts
        if h:
            fn = f.__func__ if tf is types.MethodType else f
            code = getattr(fn, "__code__", None)
            if code is not None:
                spec = h.get((fn.__module__, fn.__qualname__))
                if spec is not None:
                    if tf is types.MethodType:
                        return spec(c, f, f.__self__, *a, **k)
                    return spec(c, f, *a, **k)
        return f(*a, **k)
    if tf is type or isinstance(f, type):
        if _has_sym(a, k) and f.__module__ == "builtins" and (
            f not in TRANSPARENT
        ) and not issubclass(f, BaseException):
            raise Unsupported(f"{f.__name__}() of symbolic values")
        return f(*a, **k)
    if tf in (_MD, _WD) and _has_sym(a, k):
        # unbound methods: int.to_bytes(x, ...), bytes.join(b"", ...)
        s = a[0]
        if is_sym(s):
            return getattr(s, f.__name__)(*a[1:], **k)
        if f.__objclass__ in CONTAINER_TYPES or f.__objclass__ is object:
            return f(*a, **k)
        return call_builtin_method(f.__get__(s), a[1:], k)
    return f(*a, **k)


def getitem(obj, idx):
    if type(obj) is bytes and type(idx) is slice and (
        is_sym(idx.start) or is_sym(idx.stop) or is_sym(idx.step)
    ):
        return rope_slice(rope(obj), idx)
    if type(obj) is bytes and type(idx) is SymInt:
        return rope(obj)[idx]
    return obj[idx]


def contains(x, y):
    """x in y"""
    if type(y) is range and type(x) is SymInt:
        if not len(y):
            return False
        lo, hi, st = min(y[0], y[-1]), max(y[0], y[-1]), abs(y.step)
        return core.mkbool(z3.And(x.e >= lo, x.e <= hi,
                                  (x.e - lo) % st == 0))
    return x in y


def run(coro):
    """drive a coroutine of the package to completion"""
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return e.value


async def _collect(agen):
    return [x async for x in agen]


def arun(agen):
    return run(_collect(agen))
