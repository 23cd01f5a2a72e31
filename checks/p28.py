"""
P28  random bytes and numbers

token      for any clock, thread and process the token is 56 bytes and
           determines its 256 fresh random bits
csprng     any size and entropy: exactly `size` bytes, squeezed from a state
           that has absorbed the pool's state, a fresh token and the entropy,
           which the shared pool absorbs too; equal outputs come from equal
           tokens and entropy
pool       the same for the pool's hash
rng        any size: the result is a csprng output of that size; invalid
           freshness is refused
helpers    async versions pass their arguments on
"""
import threading

from checks import pass_lib as pl
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = [
    "the system's entropy source returns fresh uniform bits of the "
    "requested number",
    "the XOF's output is a collision-free function of what it absorbed",
    "clock readings, thread and process identifiers below 2**64",
    "stirring rounds of 0 to 1; uniform and choice bounded only",
]
M = "aiootp.randoms."


def main_only(stub, real):
    """the package's own thread keeps the real function"""
    def f(*x, **k):
        g = stub if threading.get_ident() == models.MAIN else real
        return g(*x, **k)
    return f


class XOF:
    """absorbs; squeezing gives a function of everything absorbed"""

    def __init__(self, w, parts=()):
        self.w, self.parts = w, [*parts]
        self.name, self.block_size, self.digest_size = "shake_256", 136, 0

    def update(self, x):
        self.parts.append(x)

    def copy(self):
        return XOF(self.w, self.parts)

    def digest(self, size):
        out = self.w.c.bytes(f"out{len(self.w.outs)}", size)
        self.w.outs.append(([*self.parts], out))
        return out

    def __getattr__(self, name):
        raise core.Unsupported(f"xof.{name}")


class World:
    def __init__(self, c, pkg, tag=""):
        self.c, self.outs, self.tokens = c, [], []
        self.tag = tag
        w = self

        def token():
            t = c.bytes(f"token{tag}{len(w.tokens)}", 56)
            w.tokens.append(t)
            return t

        async def atoken():
            return token()
        rs = pkg.randoms
        self.g = rs.rng.csprng.__globals__
        self.token = main_only(token, self.g["canonical_token"])
        self.atoken = main_only(atoken, self.g["acanonical_token"])
        self.gp = rs.threading_safe_entropy_pool.ThreadingSafeEntropyPool. \
            hash.__globals__
        P = rs.threading_safe_entropy_pool.ThreadingSafeEntropyPool
        self.state = c.bytes("state", 200)
        self.slot = [c.bytes(f"pool{i}", 32) for i in range(2)]
        self.pool = P.__new__(P)
        object.__setattr__(self.pool, "_obj", XOF(self, [self.state]))
        object.__setattr__(self.pool, "_pool", self.slot)

    def patch(self, *more):
        return pl.replaced(
            (self.g, "_gadget", self.pool), (self.g, "_pool", self.slot),
            (self.g, "canonical_token", self.token),
            (self.g, "acanonical_token", self.atoken),
            (self.gp, "canonical_token", self.token),
            (self.gp, "acanonical_token", self.atoken), *more)


def joined(parts):
    out = core.rope(b"")
    for p in parts:
        out = out + p
    return out


class Thing:
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s


def csprng(pkg, a, kind):
    f = getattr(pkg.randoms.rng, "acsprng" if a else "csprng")

    def fn(c):
        size = c.int("size", 0, 1 << 40)
        n = c.int("entropy.size", 0, 1 << 32)
        runs = []
        for i in (0, 1):
            w = World(c, pkg, f".{i}.")
            if kind == "bytes":
                e = c.bytes(f"entropy{i}", n)
            elif kind == "other":
                e = Thing("thing")
            else:
                e = None
            kw = {} if kind == "default" else dict(entropy=e)
            with w.patch():
                r = attempt(f, size, **kw)
            if not r.ok:
                c.fail("bytes are produced", info=repr(r.exc))
                return
            c.prove(L(r.value) == size, "size")
            c.prove(len(w.tokens) >= 1, "fresh token drawn")
            out = [p for p, o in w.outs if o is r.value]
            c.prove(len(out) == 1, "squeezed from a state")
            runs.append((w, e, joined(out[0]),
                         joined(w.pool._obj.parts)))
        (w, e, s, q), (v, d, t, p) = runs
        if c.bool("which"):
            c.assume(bexpr(core.bytes_eq(s, t)))
            name = "equal outputs"
        else:
            c.assume(bexpr(core.bytes_eq(q, p)))
            name = "equal pool states"
        c.prove_bytes_eq(w.state, v.state, f"{name}: same earlier state")
        c.prove_bytes_eq(w.tokens[0], v.tokens[0], f"{name}: same token")
        if kind == "bytes":
            c.prove_bytes_eq(e, d, f"{name}: same entropy")
    return fn


def pool(pkg, a):
    def fn(c):
        n = c.int("data.size", 0, 1 << 20)
        size = c.int("size", 1, 1 << 40)
        runs = []
        for i in (0, 1):
            w = World(c, pkg, f".{i}.")
            d = c.bytes(f"data{i}", n)
            F = pl.Functions(c)

            def pack(*x, blocksize=None, pad=b"\0"):
                w.packed = x
                return joined([core.rope(y) if isinstance(y, bytes) else y
                               for y in x])

            async def apack(*x, **k):
                return pack(*x, **k)
            f = w.pool.ahash if a else w.pool.hash
            with w.patch((w.gp, "canonical_pack", pack),
                         (w.gp, "acanonical_pack", apack)):
                r = attempt(f, d, size=size)
            if not r.ok:
                c.fail("bytes are produced", info=repr(r.exc))
                return
            c.prove(L(r.value) == size, "size")
            out = [p for p, o in w.outs if o is r.value]
            c.prove(len(out) == 1 and len(w.tokens) >= 1,
                    "squeezed after a fresh token")
            runs.append((w, d, joined(out[0]), joined(w.pool._obj.parts)))
        (w, e, s, q), (v, d, t, p) = runs
        if c.bool("which"):
            c.assume(bexpr(core.bytes_eq(s, t)))
            name = "equal outputs"
        else:
            c.assume(bexpr(core.bytes_eq(q, p)))
            name = "equal pool states"
        c.prove_bytes_eq(w.state, v.state, f"{name}: same earlier state")
        c.prove_bytes_eq(w.tokens[0], v.tokens[0], f"{name}: same token")
        c.prove_bytes_eq(e, d, f"{name}: same data")
    return fn


def token(pkg, a):
    m = pkg.randoms.simple
    f = m.acanonical_token if a else m.canonical_token
    g = m.canonical_token.__globals__

    def fn(c):
        outs, bits = [], []
        for i in (0, 1):
            ids = [c.int(f"{n}{i}", 0, (1 << 64) - 1, bits=64)
                   for n in ("clock", "thread", "process")]
            drawn = []

            def randbits(k):
                b = c.int(f"bits{i}.{len(drawn)}", 0, (1 << k) - 1, bits=k)
                drawn.append((k, b))
                return b

            def randbytes(nbytes):
                b = c.bytes(f"raw{i}.{len(drawn)}", nbytes)
                drawn.append((8 * nbytes, b))
                return b
            stubs = dict(token_bits=randbits, token_bytes=randbytes,
                         ns_counter=lambda: ids[0],
                         get_thread_id=lambda: ids[1],
                         get_process_id=lambda: ids[2])
            with pl.replaced(*((g, k, main_only(v, g[k]))
                               for k, v in stubs.items())):
                r = attempt(f)
            if not r.ok:
                c.fail("token made", info=repr(r.exc))
                return
            c.prove(L(r.value) == 56, "56 bytes")
            c.prove(sum(k for k, _ in drawn) >= 256, "256 fresh bits")
            outs.append(r.value)
            bits.append([b for _, b in drawn])
        c.assume(bexpr(core.bytes_eq(*outs)))
        for x, y in zip(*bits):
            same = x == y
            if hasattr(x, "__len__"):
                same = bexpr(core.bytes_eq(x, y))
            c.prove(same, "the token determines the fresh bits")
    return fn


def rng(pkg, a, fresh):
    m = pkg.randoms.rng
    f = m.arandom_number_generator if a else m.random_number_generator

    def fn(c):
        size = c.int("size", 0, 1 << 40)
        made = []

        async def acsprng(n=64, *, entropy=b""):
            out = c.bytes(f"random{len(made)}", n) if is_sym(n) else (
                bytes(len(made) % 251 for _ in range(n)))
            made.append((n, entropy, out))
            return out

        async def nothing(*x, **k):
            return None

        async def number(*x, **k):
            return 5

        class Daemon:
            def set_temporary_max_delay(self, *x, **k):
                return self
        g = m.csprng.__globals__
        with pl.replaced(
                (g, "acsprng", acsprng), (g, "arandom_sleep", nothing),
                (g, "_asalt", number), (g, "_asalt_multiply", number),
                (g, "_entropy_daemon", Daemon()), (g, "_run", models.run)):
            e = c.bytes("entropy", 32)
            r = attempt(f, size, entropy=e, freshness=fresh)
        good = type(fresh) is int and fresh >= 0
        c.prove(r.ok is good, "exactly non-negative integers are accepted",
                info=repr(r.exc))
        if r.ok:
            c.prove(len(made) >= 2 and r.value is made[-1][2],
                    "a csprng output")
            c.prove(made[-1][0] == size, "of the requested size")
            c.prove(any(x is e for _, x, _ in made),
                    "the caller's entropy is used")
        else:
            c.prove(r.raised(ValueError, TypeError), "error")
            c.prove(not made, "nothing drawn")
    return fn


def helpers(pkg):
    m = pkg.randoms.simple
    g = m.atoken_bits.__globals__

    def fn(c):
        for name, n in (("token_bits", 1), ("token_bytes", 1), ("choice", 1),
                        ("uniform", 2)):
            log = []
            out, args = object(), [object() for _ in range(n)]

            def stub(*x, **k):
                log.append([*x, *k.values()])
                return out
            with pl.replaced((g, name, main_only(stub, g[name]))):
                r = attempt(getattr(m, "a" + name), *args)
            if name == "uniform" and not (r.ok and r.value is out):
                raise core.Unsupported("uniform is not passed on as it is")
            c.prove(r.ok and r.value is out and len(log) == 1
                    and len(log[0]) == n and all(
                        x is y for x, y in zip(log[0], args)), name,
                    info=repr(r.exc))
    return fn


def proofs(pkg):
    for a in (0, 1):
        p = "a" if a else ""
        yield Proof(f"token[{a}]", token(pkg, a), functions=[
            M + f"simple.{p}canonical_token"], min_obligations=3)
        for kind in ("bytes", "other", "default"):
            yield Proof(f"csprng[{a},{kind}]", csprng(pkg, a, kind),
                        functions=[M + f"rng.{p}csprng"], min_obligations=5)
        yield Proof(f"pool[{a}]", pool(pkg, a), functions=[
            M + f"threading_safe_entropy_pool.ThreadingSafeEntropyPool."
            f"{p}hash"], min_obligations=5)
        for fresh in (0, 1, -1, True, "1"):
            yield Proof(f"rng[{a},{fresh!r}]", rng(pkg, a, fresh),
                        functions=[M + f"rng.{p}random_number_generator"],
                        min_obligations=2)
    yield Proof("helpers", helpers(pkg), functions=[
        M + "simple.a" + x for x in ("token_bits", "token_bytes", "choice",
                                     "uniform")], min_obligations=4)
