"""
bounded stand-in for P27: real selections
"""
import itertools
import random


def cases(env):
    for a in (0, 1):
        yield "choices", dict(a=a)
        yield "bind", dict(a=a)
        yield "even", dict(a=a)
        yield "mnemonic", dict(a=a)
        yield "fresh", dict(a=a)
        yield "separate", dict(a=a)


def check(env, case, i):
    A = env.aiootp.asynchs
    old, A.Processes.pool = A.Processes.pool, A.Threads.pool
    try:
        return globals()["do_" + case](env, i)
    except AssertionError as e:
        return f"{case} {i}: {e}"
    finally:
        A.Processes.pool = old


def choose(env, a, *x, **k):
    m = env.aiootp.keygens.mnemonics
    r, e = env.collect((m.akeyed_choices if a else m.keyed_choices)(*x, **k),
                       bool(a))
    if e is not None:
        raise e
    return r


def phrase(env, a, *x, **k):
    m = env.aiootp.keygens.mnemonics
    r = (m.amnemonic if a else m.mnemonic)(*x, **k)
    return env.run(r) if a else r


def do_choices(env, i):
    rnd = random.Random(f"{i}")
    for n, size in itertools.product((1, 2, 3, 255, 256, 257, 70000),
                                     (1, 2, 3, 8, 100, 255, 300)):
        seq = range(n)
        key, dom = rnd.randbytes(64), rnd.randbytes(rnd.choice([0, 5, 200]))
        r = choose(env, i["a"], seq, size, domain=dom, key=key)
        assert len(r) == size, f"{size} of {n}: {len(r)} choices"
        assert all(type(x) is int and 0 <= x < n for x in r), r
        assert r == choose(env, 1 - i["a"], [*seq], size, domain=dom,
                           key=key), "sync and async differ"
    for n in (1, 5):
        try:
            r = choose(env, i["a"], range(n), 0, key=b"k" * 64)
        except Exception:
            continue
        assert r == [], f"no choice asked for, got {r}"
    for seq in ("abc", b"xyz", ("p", None), [[]]):
        r = choose(env, i["a"], seq, 20, key=b"k" * 64)
        assert len(r) == 20 and all(x in seq for x in r), r


def do_bind(env, i):
    base = dict(n=1000, size=16, domain=b"d", key=b"k" * 64)
    for name in ("domain", "key"):
        for x in (b"Ab  c\n", b" "):
            kw = dict(domain=b"d", key=b"k" * 64)
            seen = {}
            for y in (x, *env.alike(x)):
                kw[name] = y if name == "domain" else y + b"k" * 64 + y
                r = tuple(choose(env, i["a"], range(10 ** 6), 8, **kw))
                assert r not in seen, (
                    f"{name}s {y!r} and {seen[r]!r} choose alike")
                seen[r] = y
    seen = []
    for ch in ({}, dict(key=b"k" * 63 + b"l"), dict(key=b"l" + b"k" * 63),
               dict(domain=b""), dict(domain=b"e"), dict(domain=b"d\0"),
               dict(domain=b"dk", key=b"k" * 64), dict(n=1001), dict(n=999),
               dict(n=2000), dict(size=17), dict(size=15),
               dict(size=16 + 256), dict(n=1000 + 2 ** 16),
               dict(size=16 + 2 ** 16), dict(n=1000 + 2 ** 32),
               dict(n=1000 + 2 ** 48),
               dict(n=1000 * 7)):
        v = {**base, **ch}
        r = choose(env, i["a"], range(v["n"]), v["size"], domain=v["domain"],
                   key=v["key"])
        if "n" in ch or "size" in ch:
            t = [x % 1000 for x in r][:15]
        else:
            t = r[:15]
        for other, u in seen:
            assert t[:15] != u[:15], f"{ch} and {other} choose alike"
        seen.append((ch, t))


def do_even(env, i):
    """fixed keys, so the counts are always the same ones"""
    for n in (3 * 2 ** 14, 3 * 2 ** 22, 3 * 2 ** 30, 3 * 2 ** 46,
              3 * 2 ** 60, 2 ** 62 + 1):
        r = choose(env, i["a"], range(n), 1200, key=b"wide" * 16)
        counts = [sum(k * n // 6 <= x < (k + 1) * n // 6 for x in r)
                  for k in range(6)]
        assert all(abs(x - 200) < 6 * 15 for x in counts), (
            f"sixths of {n} choices are taken {counts} times")
        low = [sum(x % 6 == k for x in r) for k in range(6)]
        assert all(abs(x - 200) < 6 * 15 for x in low), (
            f"remainders by 6 of {n} choices are taken {low} times")
    for n in (2, 7, 10, 256):
        size = 400 * n
        r = choose(env, i["a"], range(n), size, key=b"even" * 16)
        counts = [r.count(k) for k in range(n)]
        assert all(abs(x - 400) < 6 * 20 for x in counts), (
            f"{n} choices are taken {counts} times")
        pairs = {(x, y) for x, y in zip(r, r[1:])}
        assert len(pairs) > min(n * n, size) * 0.5, "choices are related"


FAST = dict(mb=1, cpu=1, cores=1)


def do_mnemonic(env, i):
    a = i["a"]
    P, S = b"passphrase !", b"some salt"
    W = [f"w{k}".encode() for k in range(500)]
    one = phrase(env, a, P, salt=S, words=W, **FAST)
    assert one == phrase(env, 1 - a, P, salt=S, words=W, **FAST), "a/sync"
    assert one == phrase(env, a, P, 8, salt=S, words=tuple(W), **FAST)
    assert len(one) == 8 and set(one) <= set(W)
    for size in (1, 12, 40):
        r = phrase(env, a, P, size, salt=S, words=W, **FAST)
        assert len(r) == size and set(r) <= set(W), size
    seen = {}
    for x in (b"Pass  phrase c\n", b" " * 12):
        for y in (x, *env.alike(x)):
            if len(y) < 12:
                continue
            for k in (dict(P=y), dict(salt=y)):
                k = {**dict(P=P, salt=S, words=W), **FAST, **k}
                r = tuple(phrase(env, a, k.pop("P"), **k))
                assert r == tuple(phrase(env, a, y if k["salt"] == S else P,
                                         **k)), f"{y!r}: not repeatable"
                at = y, k["salt"] == S
                assert seen.setdefault(r, at) == at, (
                    f"{at} and {seen[r]}: the same words")
    seen = [one]
    for k in (dict(P=b"passphrase ?"), dict(P=P + b"\0"), dict(salt=b""),
              dict(salt=None, P=b"another pass"), dict(salt=S + b"\0"),
              dict(salt=S[:-1]), dict(mb=2), dict(cpu=2), dict(cores=2)):
        k = {**dict(P=P, salt=S, words=W), **FAST, **k}
        r = phrase(env, a, k.pop("P"), **k)
        assert r not in seen, f"{k}: the same words"
        seen.append(r)
    L = env.aiootp.commons.WORD_LIST if hasattr(
        env.aiootp.commons, "WORD_LIST") else None
    r = phrase(env, a, P, salt=S, **FAST)
    assert len(r) == 8 and r != one and (L is None or set(r) <= set(L))


def do_fresh(env, i):
    W = range(10 ** 6)
    rs = [tuple(phrase(env, i["a"], words=W)) for _ in range(20)]
    assert len(set(rs)) == 20 and all(len(r) == 8 for r in rs), "repeats"
    assert len({x[0] for x in rs}) > 10, "first words repeat"
    rs = [tuple(phrase(env, i["a"], size=3, salt=b"salt", words=W))
          for _ in range(10)]
    assert len(set(rs)) == 10 and all(len(r) == 3 for r in rs), "repeats"
    for bad in (dict(mb=1), dict(cpu=1), dict(cores=1), dict(mb=1, cpu=2)):
        try:
            phrase(env, i["a"], words=W, **bad)
        except Exception:
            continue
        assert False, f"unused settings {bad} accepted"


def do_separate(env, i):
    """a mnemonic is not the bare choice for the same passphrase hash"""
    P, S = b"passphrase !", b"some salt"
    W = range(100000)
    r = phrase(env, i["a"], P, salt=S, words=W, **FAST)
    q = phrase(env, i["a"], P, 9, salt=S, words=W, **FAST)
    assert r != q[:8], "number of words is not bound"
    q = phrase(env, i["a"], P, salt=S, words=range(100001), **FAST)
    assert r != q, "number of choices is not bound"
