"""
bounded stand-in for P28: real generators
"""
import hashlib
import random
from collections import deque


def cases(env):
    for a in (0, 1):
        yield "sizes", dict(a=a)
        yield "fresh", dict(a=a)
        yield "rewound", dict(a=a)
        yield "entropy", dict(a=a)
        yield "rng", dict(a=a)
        yield "pool", dict(a=a)
        yield "numbers", dict(a=a)


def check(env, case, i):
    try:
        return globals()["do_" + case](env, i)
    except AssertionError as e:
        return f"{case} {i}: {e}"


def one(env, a, ns, name, *x, **k):
    if a:
        return env.run(getattr(ns, "a" + name)(*x, **k))
    return getattr(ns, name)(*x, **k)


def do_sizes(env, i):
    r = env.aiootp.randoms
    for n in (*range(0, 300), 1000, 4096, 65537, 1 << 20, 3 << 20):
        for e in ({}, dict(entropy=b""), dict(entropy=b"e" * 200),
                  dict(entropy=None), dict(entropy=["x", 5]),
                  dict(entropy="é"))[:6 if n < 70 else 1]:
            x = one(env, i["a"], r, "csprng", n, **e)
            assert type(x) is bytes and len(x) == n, f"{n}: {len(x)} bytes"
            assert n < 300 or len(set(x[-100:])) > 20 and (
                x[-32:] not in x[:-32]), f"the end of {n} bytes"
    assert len(one(env, i["a"], r, "csprng")) == 64


def do_fresh(env, i):
    r = env.aiootp.randoms
    seen = set()
    for j in range(1500):
        seen.add(one(env, i["a"], r, "csprng", 16, entropy=b"same"))
    assert len(seen) == 1500, "a repeated value"
    s = r.simple
    seen = {one(env, i["a"], s, "canonical_token") for j in range(500)}
    assert len(seen) == 500, "a repeated token"
    assert {len(x) for x in seen} == {56}
    for b in range(32):
        assert len({x[b] for x in seen}) > 100, f"byte {b} is not random"


class Rewound:
    """the generator with a shared state of its own, set back at will"""

    def __init__(self, env):
        self.g = env.aiootp.randoms.csprng.__globals__

    def __enter__(self):
        g = self.g
        try:
            P = g["ThreadingSafeEntropyPool"]
            self.keep = {k: g[k] for k in ("_gadget", "_pool")}
        except KeyError:
            return None
        self.P = P
        self.back()
        return self

    def back(self):
        g = self.g
        pool = deque((bytes([n]) * 32 for n in range(32)), maxlen=32)
        p = self.P.__new__(self.P)
        p._obj, p._pool = hashlib.shake_256(b"state"), pool
        g["_gadget"], g["_pool"] = p, pool
        return p

    def __exit__(self, *x):
        if hasattr(self, "P"):
            self.g.update(self.keep)


def do_rewound(env, i):
    """equal shared states still give different values"""
    a, r = i["a"], env.aiootp.randoms
    with Rewound(env) as w:
        if w is None:
            return
        outs, states = set(), set()
        for j in range(50):
            p = w.back()
            outs.add(one(env, a, r, "csprng", 32, entropy=b"same"))
            states.add(p.digest(32))
        assert len(outs) == 50, "the output has no fresh entropy"
        assert len(states) == 50, "the pool got no fresh entropy"
        outs, states = set(), set()
        for j in range(50):
            p = w.back()
            outs.add(one(env, a, p, "hash", b"same", size=32))
            states.add(p.digest(32))
        assert len(outs) == 50, "the pool's hash has no fresh entropy"
        assert len(states) == 50, "the pool got no fresh entropy from hash"
        for f in (0, 1):
            outs = set()
            for j in range(20):
                p = w.back()
                outs.add(one(env, a, r, "random_number_generator", 32,
                             entropy=b"same", freshness=f))
            assert len(outs) == 20, f"nothing fresh, freshness {f}"


def do_entropy(env, i):
    """the caller's entropy counts even when nothing else changes"""
    a, r = i["a"], env.aiootp.randoms
    P = (env.aiootp.randoms.threading_safe_entropy_pool
         .ThreadingSafeEntropyPool)
    mods = [r.csprng.__globals__, P.hash.__globals__]
    keep = [(g, k, g[k]) for g in mods
            for k in ("canonical_token", "acanonical_token") if k in g]
    if len(keep) != 4:
        return

    async def atoken():
        return b"t" * 56
    with Rewound(env) as w:
        if w is None:
            return
        try:
            for g, k, v in keep:
                g[k] = atoken if k[0] == "a" else lambda: b"t" * 56
            outs, states, n = set(), set(), 0
            for e in (b"", b"\0", b"a", b"b", b"ab", b"x" * 1000,
                      b"x" * 999 + b"y", b"y" + b"x" * 999, 1, 2, None,
                      "s", "t", [1], [2], b"c" * 136, b"c" * 137,
                      "x" * 9000, "x" * 8999 + "y", [0] * 5000,
                      [0] * 4999 + [1], {"k": "v" * 999}, {"k": "v" * 998},
                      "é", "è", " s", "s ", "S", b"Ab  c\n",
                      *env.alike(b"Ab  c\n"), bytes(1 << 17),
                      bytes((1 << 17) - 1) + b"x", bytes((1 << 17) + 1),
                      3 << 3000, 3 << 3001):
                p = w.back()
                outs.add(one(env, a, r, "csprng", 32, entropy=e))
                states.add(p.digest(32))
                n += 1
            assert len(outs) == n, "entropy without effect on the output"
            assert len(states) == n, "entropy without effect on the pool"
            outs = set()
            cases = [b"", b"a", b"b", 1, 2, "s", "x" * 999, "x" * 998,
                     b"Ab  c\n", *env.alike(b"Ab  c\n")]
            for e in cases:
                w.back()
                outs.add(one(env, a, r, "random_number_generator", 32,
                             entropy=e, freshness=0))
            assert len(outs) == len(cases), "entropy without effect"
            outs, states, n = set(), set(), 0
            for e in ((), (b"",), (b"a",), (b"b",), (b"a", b"b"), (b"ab",),
                      (b"x" * 500,), (b"x" * 499 + b"y",)):
                for size in (31, 32):
                    p = w.back()
                    outs.add(one(env, a, p, "hash", *e, size=size)[:31])
                    states.add(p.digest(32))
                    n += 1
            assert len(outs) == n, "data without effect on the hash"
            assert len(states) == n, "data without effect on the pool"
        finally:
            for g, k, v in keep:
                g[k] = v


def do_rng(env, i):
    r = env.aiootp.randoms
    seen = set()
    for f in (0, 1, 2):
        for n in (0, 1, 16, 64, 300):
            x = one(env, i["a"], r, "random_number_generator", n,
                    entropy=b"same", freshness=f)
            assert len(x) == n, f"{n}: {len(x)} bytes, freshness {f}"
            if n > 15:
                assert x[:16] not in seen, "a repeated value"
                seen.add(x[:16])
    for f in (-1, -5, True, False, 1.0, 0.0, "1", None):
        try:
            one(env, i["a"], r, "random_number_generator", 8, freshness=f)
        except Exception:
            continue
        return f"freshness {f!r} was accepted"


def do_pool(env, i):
    P = env.aiootp.randoms.threading_safe_entropy_pool.ThreadingSafeEntropyPool
    pool = deque([b"0" * 32] * 4, maxlen=4)
    p = P(b"seed", obj=hashlib.shake_256, pool=pool)
    q = P(b"seed", obj=hashlib.shake_256, pool=pool)
    assert p.digest(32) != q.digest(32), "pools start equal"
    for n in (1, 16, 32, 135, 136, 137, 1000):
        for d in ((), (b"",), (b"a", b"b" * 300)):
            before = p.digest(32)
            x = one(env, i["a"], p, "hash", *d, size=n)
            assert len(x) == n, f"{n}: {len(x)} bytes"
            assert p.digest(32) != before, "the state did not move"
            if n >= 16:
                assert x != p.digest(n)
    c = p.copy()
    before = p.digest(32)
    assert c.digest(32) == before
    c.update(b"x")
    one(env, i["a"], c, "hash", size=8)
    assert p.digest(32) == before, "a copy changed its origin"


def do_numbers(env, i):
    r, rnd = env.aiootp.randoms, random.Random(7)
    for k in (*range(1, 70), 256, 1000):
        xs = [one(env, i["a"], r, "token_bits", k) for j in range(30)]
        assert all(0 <= x < 1 << k for x in xs), f"{k} bits: {xs}"
        assert k < 8 or len({*xs}) > 5, f"{k} bits: repeated"
        assert k < 8 or any(x >> (k - 1) for x in xs), f"{k} bits: small"
    for n in (0, 1, 2, 16, 255, 4096):
        xs = [one(env, i["a"], r, "token_bytes", n) for j in range(5)]
        assert {len(x) for x in xs} == {n}, f"{n} bytes"
        assert n < 16 or len({*xs}) == 5, "repeated"
    for j in range(300):
        lo = rnd.uniform(-50, 50)
        hi = lo + rnd.choice([0, 1e-9, 1, 77])
        x = one(env, i["a"], r, "uniform", lo, hi)
        assert lo <= x <= hi, f"{x} not in {lo}..{hi}"
    for seq in ("a", "abc", [1, 2, 3], (None,), range(1000), b"xy"):
        for j in range(30):
            assert one(env, i["a"], r, "choice", seq) in seq
    seen = {one(env, i["a"], r, "choice", "abc") for j in range(200)}
    assert seen == {*"abc"}, "elements never chosen"
    env.run(r.arandom_sleep(0.001))
    r.random_sleep(0.001)
