"""contracts around the passphrase hashing code, shared by P23 and P24"""
import contextlib

import z3

from vf import core, models
from vf.util import *  # noqa

CAP = (1 << 32) - 1


class Functions:
    """collision-free functions: equal requests have equal answers"""

    def __init__(self, c):
        self.c, self.known = c, []
        self.differ, self.keep = set(), []

    def eq(self, x, y):
        """decide x == y, remembering differences (splits paths)"""
        if x is y:
            return True
        if (id(x), id(y)) in self.differ:
            return False
        if isinstance(x, bytes) and isinstance(y, bytes):
            r = bool(core.bytes_eq(x, y))
        else:
            r = bool(x == y)
        if not r:
            self.apart(x, y)
        return r

    def apart(self, x, y):
        self.keep.append((x, y))
        self.differ |= {(id(x), id(y)), (id(y), id(x))}

    def same(self, x, y):
        if len(x) != len(y) or any(
                (id(i), id(j)) in self.differ for i, j in zip(x, y)):
            return False
        return all(self.eq(i, j) for i, j in zip(x, y))

    def __call__(self, kind, req, size=None):
        for k, old, out in self.known:
            if k == kind and self.same(old, req):
                return out
        n = len(self.known)
        if isinstance(size, int) and not is_sym(size):
            out = bytes([n]) * size         # one constant per request
        else:
            out = self.c.bytes(f"{kind}.{n}",
                               *(() if size is None else (size,)))
        if size is None:
            for k, old, o in self.known:
                if k == kind:
                    self.c.assume(z3.Not(bexpr(core.bytes_eq(o, out))))
                    self.apart(o, out)
        self.known.append((kind, req, out))
        return out


@contextlib.contextmanager
def replaced(*items):
    old = []
    try:
        for d, k, v in items:
            if k not in d:
                raise core.Unsupported(f"{k} is not used here")
            old.append((d, k, d[k]))
            d[k] = v
        yield
    finally:
        for d, k, v in reversed(old):
            d[k] = v


class Future:
    def __init__(self, value):
        self.value = value

    def result(self):
        return self.value

    async def aresult(self):
        return self.value

    def __getattr__(self, name):
        raise core.Unsupported(f"future.{name}")


class Range:
    """any range of integers with step one"""

    def __init__(self, c, name):
        self.lo, self.hi = c.int(f"{name}.lo"), c.int(f"{name}.hi")

    def has(self, x):
        return core.mkbool(z3.And(bexpr(self.lo <= x), bexpr(x < self.hi)))

    def __contains__(self, x):
        return bool(self.has(x))

    def __getattr__(self, name):
        raise core.Unsupported(f"range.{name}")


def byte(h, i, n=1):
    return core.int_from_bytes(h[i:i + n])


class Parts:
    """the documented layout of a composed hash"""

    def __init__(self, h):
        self.timestamp = h[:8]
        self.mb = byte(h, 8, 3) + 1
        self.cpu = byte(h, 11) + 1
        self.cores = byte(h, 12) + 1
        n = byte(h, 13) + 1
        self.salt = h[14:14 + n]
        self.tag = h[14 + n:]


def formed(h):
    """decide whether h is a composed hash (splits paths)"""
    if not L(h) >= 14:
        return None
    p = Parts(h)
    n = byte(h, 13) + 1
    if not n >= 4 or not L(h) >= 14 + n + 16:
        return None
    return p


def verify(pkg, a, limits, timed=True):
    """
    verify() on any bytes, with any ranges, time to live and clock answer;
    `limits` selects the obligations of P24, otherwise those of P23
    """
    P = pkg.keygens.passcrypt.interface.Passcrypt
    f = P.averify if a else P.verify

    def fn(c):
        h, passphrase, aad = c.bytes("h"), c.bytes("pass"), c.bytes("aad")
        expired = c.bool("expired")
        rs = [Range(c, x) for x in ("mb", "cpu", "cores")]
        log = []
        spec = pkg.keygens.passcrypt.config.passcrypt_spec
        clock = spec.clock
        Exp = clock.TimestampExpired

        def test(ct, f_, self, ts, *, ttl=None, **k):
            if k:
                raise core.Unsupported("test_timestamp arguments")
            log.append(("clock", ts, ttl))
            if ttl is not None and expired:
                raise Exp("nanoseconds", 1)

        async def atest(*x, **k):
            return test(*x, **k)

        def new(ct, f_, self, passphrase, salt, *, aad=b""):
            s = self._settings
            out = c.bytes("computed", s.tag_size)
            log.append(("new", s, passphrase, salt, aad, out))
            return out

        async def anew(*x, **k):
            return new(*x, **k)
        M = "aiootp.asynchs.clocks"
        c.contracts[M, "Clock.test_timestamp"] = test
        c.contracts[M, "Clock.atest_timestamp"] = atest
        I = "aiootp.keygens.passcrypt.interface"
        c.contracts[I, "Passcrypt.new"] = new
        c.contracts[I, "Passcrypt.anew"] = anew
        ttl = c.int("ttl", 0, 9 * 10 ** 6) if timed else None
        r = attempt(f, h, passphrase, aad=aad, ttl=ttl, mb_allowed=rs[0],
                    cpu_allowed=rs[1], cores_allowed=rs[2])
        p = formed(h)
        cost = [x for x in log if x[0] == "new"]
        if p is None:
            if limits:
                c.prove(not r.ok, "malformed or cut hashes are refused")
                c.prove(not cost, "malformed: no costly work")
            else:
                c.prove(not r.ok, "malformed hashes do not verify")
            return
        fits = [x.has(v) for x, v in zip(rs, (p.mb, p.cpu, p.cores))]
        within = bool(fits[0]) and bool(fits[1]) and bool(fits[2])
        stale = bool(expired) if ttl is not None else False
        if ttl is None and any(x[0] == "clock" and x[2] is not None
                               for x in log):
            c.fail("no time to live given: none applied")
            return
        if limits:
            if not within or stale and log and log[0][0] == "clock":
                c.prove(not r.ok, "outside the limits: refused",
                        info=repr(r.exc))
                c.prove(not cost, "outside the limits: no costly work")
                if r.raised(Exp):
                    c.prove(stale, "expiry reported when expired")
                return
            tests = [x for x in log if x[0] == "clock"]
            if ttl is not None:
                c.prove(len(tests) == 1 and core.same_rope(
                    tests[0][1], p.timestamp), "the timestamp is tested")
                c.prove(len(tests) == 1 and tests[0][2] == ttl * 10 ** 9,
                        "time to live in nanoseconds", info=repr(tests))
                c.prove(len(cost) == 1 and log.index(tests[0])
                        < log.index(cost[0]), "tested before the work")
            c.prove(len(cost) == 1, "within the limits: work is done",
                    info=repr(r.exc))
            return
        if not within or stale or not cost:
            c.prove(not r.ok, "refused")
            return
        c.prove(len(cost) == 1, "one computation")
        _, s, pw, salt, ad, out = cost[0]
        for k in ("mb", "cpu", "cores"):
            c.prove(getattr(s, k) == getattr(p, k), f"computed with its {k}")
        c.prove(s.tag_size == L(p.tag), "computed with its tag size")
        c.prove_bytes_eq(pw, passphrase, "computed with the passphrase")
        c.prove_bytes_eq(salt, p.salt, "computed with its salt")
        c.prove_bytes_eq(ad, concat([p.timestamp, aad]),
                         "computed with its timestamp and associated data")
        if core.bytes_eq(out, p.tag):
            c.prove(r.ok and r.value is None, "equal tags verify",
                    info=repr(r.exc))
            c.cover("verified")
        else:
            c.prove(r.raised(ValueError), "other tags do not verify",
                    info=repr(r))
    return fn
