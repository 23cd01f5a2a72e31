"""bounded stand-in for P13: real permutations, whole small domains"""
import random

NAMES = {"AffinePermutation": "affine_permutation",
         "AffineXORChain": "affine_xor_chain",
         "FastAffineXORChain": "fast_affine_xor_chain"}
SIZES = [*range(1, 33), 48, 64, 128, 192, 256]


def cases(env):
    for proof, name, m in env.models():
        if isinstance(m.get("key"), bytes):
            for v in ("v", "s", "x"):
                if v in m:
                    for n in NAMES:
                        for size in SIZES:
                            yield "points", dict(
                                n=n, size=size, seed=0, v=int(m[v]),
                                key=m["key"])
    for n in NAMES:
        for kind in ("zero", "ones", 1, 2, 3, 4, 5, 6):
            yield "domain", dict(n=n, kind=kind)
        for size in SIZES:
            for seed in (1, 2, 3):
                yield "points", dict(n=n, size=size, seed=seed)
            yield "keys", dict(n=n, size=size)
        for size in (1, 2, 3, 8, 16, 32, 256):
            if n != "AffinePermutation":
                yield "history", dict(n=n, size=size)
        if n != "AffinePermutation":
            for kind in (1, 2, 3):
                yield "steps", dict(n=n, kind=kind)


def type_of(n):
    import importlib
    return getattr(importlib.import_module(
        f"aiootp._permutations.{NAMES[n]}"), n)


def make_key(T, size, kind):
    k = T.key_size(size)
    if kind == "zero":
        return bytes(k)
    if kind == "ones":
        return b"\xff" * k
    return random.Random(f"{kind}/{size}").randbytes(k)


def pairs(p):
    yield p.permute, p.invert, p.apermute, p.ainvert
    if hasattr(p, "uncapped_permute"):
        yield (p.uncapped_permute, p.uncapped_invert, p.auncapped_permute,
               p.auncapped_invert)


def verify(env, p, size, values):
    D = 256 ** size
    for f, g, af, ag in pairs(p):
        seen = {}
        for v in values:
            for x, y, ax in ((f, g, af), (g, f, ag)):
                w = x(v)
                assert type(w) is int and 0 <= w < D, (
                    f"{x.__name__}({v}) left the domain: {w}")
                assert y(w) == v, f"{y.__name__}({x.__name__}({v})) != {v}"
                b = env.run(ax(v))
                assert b == w, f"{ax.__name__}({v}) != {x.__name__}({v})"
            w = f(v)
            assert seen.setdefault(w, v) == v, (
                f"{seen[w]} and {v} both map to {w}")


def check(env, case, a):
    T = type_of(a["n"])
    if case == "domain":
        p = T(key=make_key(T, 1, a["kind"]), config_id=1)
        for i in range(3):
            verify(env, p, 1, range(256))
            if hasattr(p, "step"):
                p.step()
        if a["kind"] in ("zero", 1):
            p = T(key=make_key(T, 2, a["kind"]), config_id=2)
            for f, g, *_ in pairs(p):
                out = [f(v) for v in range(65536)]
                assert sorted(out) == list(range(65536)), (
                    "not a bijection of the two byte values")
                assert all(g(w) == v for v, w in enumerate(out)), (
                    "inverse differs")
    elif case == "steps":
        # every position of a one byte chain which has moved on
        p = T(key=make_key(T, 1, a["kind"]), config_id=1)
        for i in range(1500):
            p.step()
            if i % 500 == 499:
                p.update_increment(a["kind"] * 37)
            for f, g, *_ in pairs(p):
                for v in (0, 255, i % 256):
                    w = f(v)
                    assert 0 <= w < 256, (
                        f"{f.__name__}({v}) left the domain: {w}")
                    assert g(w) == v, (
                        f"{g.__name__}({f.__name__}({v})) != {v}")
    elif case == "points":
        size = a["size"]
        key = make_key(T, size, a["seed"])
        if a.get("key"):
            key = (a["key"] * (len(key) // len(a["key"]) + 1))[:len(key)] \
                if a["key"] else key
        D = 256 ** size
        r = random.Random(a["seed"])
        vs = {0, 1, 2, D - 1, D - 2, D // 2, D // 2 - 1, *(
            r.randrange(D) for _ in range(8))}
        if "v" in a:
            vs.add(a["v"] % D)
        # values which reach the part of the prime field above the domain
        aff = type_of("AffinePermutation")
        p = T(key=key, config_id=size)
        verify(env, p, size, sorted(vs))
        if T is aff:
            k = int.from_bytes(key, "big")
            P, Mk = p.config.PRIME, p.config.MULTIPLICATIVE_KEY
            inv = pow(Mk, -1, P)
            hi = {inv * (t - k) % P for t in
                  (P - 1, P - 2, D, D + 1, (P + D) // 2) if D <= t < P}
            verify(env, p, size, sorted(v for v in hi if v < D))
            hi = {(Mk * t + k) % P for t in
                  (P - 1, P - 2, D, D + 1, (P + D) // 2) if D <= t < P}
            verify(env, p, size, sorted(v for v in hi if v < D))
            # keys under which several steps in a row leave the domain
            for z, y in {(D, P - 1), (P - 1, D), (D, D + 1), (P - 2, D),
                         (P - 1, P - 2), (D + 1, D)}:
                if D <= min(y, z) and max(y, z) < P and y != z:
                    k = (z - Mk * y) % P
                    p = T(key=k.to_bytes(2 * size, "big"), config_id=size)
                    vs = set()
                    for t, m in ((z, lambda t: Mk * t + k),
                                 (y, lambda t: inv * (t - k))):
                        for _ in range(4):
                            t = m(t) % P
                            if t < D:
                                vs.add(t)
                    verify(env, p, size, sorted(vs))
    elif case == "keys":
        n = T.key_size(a["size"])
        for k in {0, 1, n - 1, n + 1, 2 * n, n // 2} - {n}:
            try:
                T(key=bytes(k), config_id=a["size"])
            except ValueError:
                continue
            raise AssertionError(f"a key of {k} bytes was accepted")
        T(key=bytes(n), config_id=a["size"])
    elif case == "history":
        size = a["size"]
        D = 256 ** size
        r = random.Random(size)
        key = make_key(T, size, 9)
        p, q = (T(key=key, config_id=size) for _ in "ab")
        for i in range(24):
            op = r.randrange(3)
            if op == 0:
                u = r.choice([1, 2, D - 1, r.randrange(1, D)])
                p.update_increment(u)
                env.run(q.aupdate_increment(u))
            elif op == 1:
                p.step()
                env.run(q.astep())
            else:
                for u in (0, -1, D, D + 5):
                    try:
                        p.update_increment(u)
                    except ValueError:
                        pass
                    try:
                        env.run(q.aupdate_increment(u))
                    except ValueError:
                        pass
            vs = [0, D - 1, r.randrange(D), r.randrange(D)]
            verify(env, p, size, vs)
            assert [p.permute(v) for v in vs] == [q.permute(v) for v in vs], (
                "async and sync histories differ")
