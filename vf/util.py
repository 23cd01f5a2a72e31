"""helpers for proof scripts"""
import inspect
import types

import z3

from . import core, models
from .core import *  # noqa


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def get(self):
        if self.exc is not None:
            raise self.exc
        return self.value

    def raised(self, *types_):
        return self.exc is not None and isinstance(self.exc, types_)

    def __repr__(self):
        return f"ok" if self.ok else f"raised {type(self.exc).__name__}"


def attempt(f, *a, **k):
    """run to a normal or exceptional outcome (coroutines are driven)"""
    try:
        r = f(*a, **k)
        if inspect.iscoroutine(r):
            r = models.run(r)
        return Outcome(r)
    except Exception as e:
        return Outcome(exc=e)


def call(f, *a, **k):
    """f(*a, **k), through contracts, driving coroutines"""
    r = models.call(f, *a, **k)
    if inspect.iscoroutine(r):
        r = models.run(r)
    return r


def collect(g):
    if inspect.isasyncgen(g):
        return models.arun(g)
    return list(g)


def L(x):
    """length as int / SymInt"""
    return core.blen_int(x)


def implies(a, b):
    return core.mkbool(z3.Implies(bexpr(a), bexpr(b)))


def set_time(c, name="now", lo=0, hi=(1 << 63) - 1):
    """time_ns becomes one symbolic instant (constant during the proof)"""
    t = c.int(name, lo, hi)
    c.state["time_ns"] = lambda: t
    return t


def set_clock_seconds(c, epoch_ns, name="now_s", hi=(1 << 32) - 1):
    """
    the clock reads `epoch + now_s` seconds (+ a sub-second part) where
    now_s fits the 4 byte timestamps of the ciphers
    """
    s = c.int(name, 0, hi)
    frac = c.int(name + ".ns", 0, 10 ** 9 - 1)
    c.state["time_ns"] = lambda: core.mkint(
        s.e * 10 ** 9 + frac.e + epoch_ns
    )
    return s


# --------------------------------------------------------------------------
# generic state comparison: leaves of an object graph
# --------------------------------------------------------------------------
SKIP_TYPES = (type, types.ModuleType, types.FunctionType,
              types.BuiltinFunctionType, str, bool, type(None), float)


def leaves(root, skip=lambda path, x: False):
    """
    [(path, kind, object)] of the mutable data reachable from root.
    kinds: int, bytes (native constants), symint, symbytes, xof, gen
    """
    out = []
    seen = {}

    def walk(path, x):
        if skip(path, x):
            return
        t = type(x)
        if t in (core.SymInt, core.SymBool, core.SymFrac):
            out.append((path, "symint", x))
            return
        if t is core.SymBytes:
            out.append((path, "symbytes", x))
            return
        if isinstance(x, SKIP_TYPES):
            out.append((path, "const", x))
            return
        if isinstance(x, (int, bytes)):
            out.append((path, "const", x))
            return
        if id(x) in seen:
            out.append((path, "alias", seen[id(x)]))
            return
        seen[id(x)] = path
        if t is models.XOF:
            out.append((path, "xof", x))
            return
        if isinstance(x, types.MethodType):
            walk(path + ".__self__", x.__self__)
            out.append((path, "const", x.__func__.__qualname__))
            return
        if isinstance(x, (list, tuple)) or t.__name__ == "deque":
            out.append((path, "const", ("len", len(x))))
            for i, y in enumerate(x):
                walk(f"{path}[{i}]", y)
            return
        if isinstance(x, dict) and t is dict:
            for k in x:
                walk(f"{path}[{k!r}]", x[k])
            return
        if isinstance(x, types.GeneratorType):
            out.append((path, "const", ("gen", x.gi_code.co_qualname)))
            if x.gi_frame is not None:
                for k, v in sorted(x.gi_frame.f_locals.items()):
                    walk(f"{path}.<{k}>", v)
            return
        if isinstance(x, types.AsyncGeneratorType):
            out.append((path, "const", ("agen", x.ag_code.co_qualname)))
            if x.ag_frame is not None:
                for k, v in sorted(x.ag_frame.f_locals.items()):
                    walk(f"{path}.<{k}>", v)
            return
        names = []
        for k in t.__mro__:
            s = k.__dict__.get("__slots__", ())
            names.extend([s] if isinstance(s, str) else s)
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict):
            names.extend(d)
        got = set()
        for n in names:
            if n in got or n in ("__dict__", "__weakref__"):
                continue
            got.add(n)
            try:
                v = object.__getattribute__(x, n)
            except AttributeError:
                out.append((f"{path}.{n}", "const", "<unset>"))
                continue
            walk(f"{path}.{n}", v)

    walk("", root)
    return out


def leaf_same(c, a, b):
    """entailed equality of two leaves"""
    ka, xa = a[1], a[2]
    kb, xb = b[1], b[2]
    if ka == "symbytes" or kb == "symbytes":
        if not (isinstance(xa, bytes) and isinstance(xb, bytes)):
            return False
        return core.same_rope(xa, xb)
    if ka == "symint" or kb == "symint":
        if not (isinstance(xa, int) and isinstance(xb, int)):
            return False
        return c.entails(bexpr(xa == xb))
    if ka != kb:
        return False
    if ka == "xof":
        return xa._alg == xb._alg and core.same_rope(
            xa.transcript, xb.transcript
        )
    try:
        return xa is xb or bool(xa == xb)
    except Exception:
        return False


def fingerprint(x):
    """content key of a leaf"""
    p, k, v = x
    if k == "symbytes":
        return (k, v.key())
    if k == "symint":
        return (k, v.e.get_id())
    if k == "xof":
        return (k, v._alg, rope(v.transcript).key())
    return (k, id(v))
