"""
bounded stand-in for P22: real files swapped, altered, cut and emptied;
helpers crossed; other credentials
"""
import itertools
import random
import shutil
from pathlib import Path

from checks.c20 import real

TEXTS = ["", "a", "b", "aa", "a/b", "A", "a\0", "a" * 64, "a" * 65,
         "a ", " a", "a\n", "\ta", "\u00e9", "e\u0301", "\u00c9", "a.", "a\\b",
         "☃", "a" * 200 + "x", "a" * 200 + "y"]
AADS = [b"", b"a", b"b", b"\0", b"aa", b"x" * 200, b"x" * 201,
        b"A", b"a ", b" a", b"a\n"]


def cases(env):
    for a in (0, 1):
        for r in ("tag", "meta", "list", "metalist"):
            yield "replace", dict(a=a, role=r)
            yield "alter", dict(a=a, role=r)
        for r in ("tag", "meta"):
            yield "directory", dict(a=a, role=r)
        yield "names", dict(a=a)
        yield "metatags", dict(a=a)
        yield "keys", dict(a=a)
        for h in range(3):
            yield "helpers", dict(a=a, h=h)
        yield "ttl", dict(a=a)
        for k in range(len(CHANGES)):
            yield "profile", dict(a=a, k=k)


def check(env, case, i):
    d = Path(env.tmpdir())
    try:
        return globals()["do_" + case](env, real(env, i["a"]), i, d)
    except AssertionError as e:
        return f"{case} {i}: {e}"
    finally:
        shutil.rmtree(d)


def key(n=0):
    return bytes([n]) * 64


def refused(f, *x, **k):
    try:
        return False, f(*x, **k)
    except Exception as e:
        if isinstance(e, (TypeError, AttributeError, NameError)):
            return False, e
        return True, e


def build(r, d):
    db = r.open(key=key(), path=d)
    for t in ("t", "u"):
        r.apply(db, "set", t, b"value of " + t.encode())
    r.apply(db, "metatag", "m")
    for t in ("t", "v"):
        r.apply(db.m, "set", t, b"meta value of " + t.encode())
    r.apply(db, "save")
    o = r.open(key=key(1), path=d)
    r.apply(o, "set", "t", b"theirs")
    r.apply(o, "save")
    names = dict(tag=r.call(db, "filename", "t"),
                 meta=r.call(db.m, "filename", "t"))
    rest = {p.name for p in d.iterdir()}
    o_names = {r.call(o, "filename", "t")}
    known = {r.call(db, "filename", x) for x in "tu"} | {
        r.call(db.m, "filename", x) for x in "tv"} | o_names
    # lists: the file whose loss empties the database, or the metatag
    for n in sorted(rest - known):
        data = (d / n).read_bytes()
        (d / n).unlink()
        x = r.open(key=key(), path=d)
        if not x.tags:
            names["list"] = n
        elif not x.m.tags:
            names["metalist"] = n
        (d / n).write_bytes(data)
    return names


def reads(env, r, d, role, bad, path, what):
    good = path.read_bytes()
    if role in ("tag", "meta"):
        for op in ("query", "query-silent", "query-cache", "pop",
                   "pop-silent", "rollback-cache", "load-tags", "preload"):
            path.write_bytes(good)
            db = r.open(key=key(), path=d)
            path.write_bytes(bad)
            if op == "preload":
                ok, x = refused(r.open, key=key(), path=d, preload=True)
            else:
                y = db if role == "tag" else db.m
                ok, x = refused(r.apply, y, op,
                                None if op == "load-tags" else "t")
            assert ok, f"{what}: {op} returns {x!r:.80}"
    else:
        path.write_bytes(bad)
        for pre in (False, True):
            ok, x = refused(r.open, key=key(), path=d, preload=pre)
            assert ok, f"{what}: opening returns {x!r:.80}"
    path.write_bytes(good)


def do_replace(env, r, i, d):
    names = build(r, d)
    path = d / names[i["role"]]
    for p in sorted(d.iterdir()):
        if p != path:
            reads(env, r, d, i["role"], p.read_bytes(), path,
                  f"file {p.name} in place of another")


def do_alter(env, r, i, d):
    names = build(r, d)
    path = d / names[i["role"]]
    data = path.read_bytes()
    rnd = random.Random(f"{i}")
    n = len(data)
    for m in {0, 1, 32, n // 2, n - 256, n - 1, rnd.randrange(n)}:
        reads(env, r, d, i["role"], data[:m], path, f"cut to {m} bytes")
    for at in {0, 1, 31, 32, 47, 48, n // 2, n - 1, rnd.randrange(n)}:
        bad = bytearray(data)
        bad[at] ^= 1 << rnd.randrange(8)
        reads(env, r, d, i["role"], bytes(bad), path, f"byte {at} changed")
    for more in (b"\0", data, b"x" * 256):
        reads(env, r, d, i["role"], data + more, path, "longer")


def do_directory(env, r, i, d):
    """something unreadable in place of a file is not "nothing\""""
    names = build(r, d)
    path = d / names[i["role"]]
    for op in ("query", "query-silent", "query-cache", "load-tags"):
        db = r.open(key=key(), path=d)
        y = db if i["role"] == "tag" else db.m
        good = path.read_bytes()
        path.unlink()
        path.mkdir()
        ok, x = refused(r.apply, y, op, None if op == "load-tags" else "t")
        assert ok, f"directory in place of a file: {op} returns {x!r:.80}"
        path.rmdir()
        path.write_bytes(good)


def distinct(pairs, what):
    seen = {}
    for k, v in pairs:
        assert seen.setdefault(v, k) == k, f"{what}: {seen[v]} and {k}"


def do_names(env, r, i, d):
    """names of tags of databases, metatags and metatags of metatags"""
    pairs = []
    for k in range(2):
        db = r.open(key=key(k), path=d)
        dbs = {"": db}
        for m in ("m", "n"):
            dbs[m] = r.apply(db, "metatag", m) or getattr(db, m)
            r.apply(dbs[m], "metatag", "m")
            dbs[m + ".m"] = dbs[m].m
        for w, x in dbs.items():
            pairs += [((k, w, t), r.call(x, "filename", t)) for t in TEXTS]
    distinct(pairs, "file name")
    db = r.open(key=key(7), path=d)
    for t in TEXTS:
        r.apply(db, "set", t, t.encode())
    r.apply(db, "save")
    x = r.open(key=key(7), path=d)
    for t in TEXTS:
        assert r.call(x, "filename", t) == r.call(db, "filename", t)
        assert r.apply(x, "query", t) == t.encode()


def do_metatags(env, r, i, d):
    """same tag, same key, other place: sealed data is not shared"""
    db = r.open(key=key(), path=d)
    dbs = [db]
    for m in ("m", "n", "tag"):
        r.apply(db, "metatag", m)
        dbs.append(getattr(db, m))
    r.apply(db.m, "metatag", "n")
    dbs.append(db.m.n)
    dbs.append(r.open(key=key(3), path=d))
    y = d / "y"
    y.mkdir()
    dbs.append(r.open(key=key(), path=y))       # another salt
    for j, x in enumerate(dbs):
        c = r.call(x, "bytes_encrypt", b"x", filename="t", aad=b"a")
        for k, z in enumerate(dbs):
            ok, got = refused(r.call, z, "bytes_decrypt", c, filename="t",
                              aad=b"a")
            assert ok == (j != k), f"sealed by {j}, opened by {k}: {got!r}"


def do_keys(env, r, i, d):
    keys = [key(1), key(2), key(1)[:-1] + b"\2", b"\2" + key(1)[1:],
            key(1) + b"\1", key(1) + b"\0", key(1) * 2, key(1) * 3 + b"x"]
    for k in keys:
        db = r.open(key=k, path=d)
        assert not db.tags, "another key's tags"
        r.apply(db, "set", "t", k)
        r.apply(db, "metatag", "m")
        r.apply(db, "save")
    for k in keys:
        db = r.open(key=k, path=d)
        assert r.apply(db, "query", "t") == k, "value of another key"
    for n in (0, 1, 32, 63):
        ok, x = refused(r.open, key=b"k" * n, path=d)
        assert ok, f"key of {n} bytes accepted"


HELPERS = [("bytes_encrypt", "bytes_decrypt", b"text"),
           ("json_encrypt", "json_decrypt", [1, {"a": None}]),
           ("make_token", "read_token", b"text")]


def do_helpers(env, r, i, d):
    enc, dec, v = HELPERS[i["h"]]
    db = r.open(key=key(), path=d)
    r.apply(db, "save")
    o = real(env, 1 - i["a"])
    other = o.open(key=key(), path=d)
    where = list(itertools.product(TEXTS[:6] + TEXTS[-2:], AADS))
    rnd = random.Random(f"{i}")
    swap = [("a", b"b"), ("b", b"a"), ("", b"a"), ("a", b"")]
    for f, a in where:
        c = r.call(db, enc, v, filename=f, aad=a)
        for rr, x in ((r, db), (o, other)):
            assert rr.call(x, dec, c, filename=f, aad=a) == v, "same data"
        tries = [w for w in where if w[0] == f or w[1] == a]
        for g, b in rnd.sample(tries, 6) + rnd.sample(where, 4) + swap:
            if (g, b) == (f, a):
                continue
            ok, got = refused(r.call, db, dec, c, filename=g, aad=b)
            assert ok, f"{dec}: ({f!r}, {a!r}) opened as ({g!r}, {b!r})"
    for enc2, dec2, _ in HELPERS:
        if (enc2 == "make_token") != (enc == "make_token"):
            c = r.call(db, enc, v)
            ok, got = refused(r.call, db, dec2, c)
            assert ok, f"{enc} opened by {dec2}"


def do_ttl(env, r, i, d):
    db = r.open(key=key(), path=d)
    r.apply(db, "set", "t", b"x")
    r.apply(db, "save")
    now = 1_800_000_000
    clock = env.clock
    try:
        clock.fixed = now * 10 ** 9
        sealed = [r.call(db, h[0], h[2]) for h in HELPERS]
        r.call(db, "save_database")
        for later in (0, 5, 6, 100):
            clock.fixed = (now + later) * 10 ** 9
            for h, c in zip(HELPERS, sealed):
                for ttl in (0, 5, 99, 100, 10 ** 6):
                    ok, x = refused(r.call, db, h[1], c, ttl=ttl)
                    assert ok == (later > ttl), (
                        f"{h[1]} after {later} s with ttl {ttl}: {x!r}")
                    y = r.open(key=key(), path=d)
                    ok, x = refused(r.call, y, "query_tag", "t", ttl=ttl)
                    assert ok == (later > ttl), (
                        f"query after {later} s with ttl {ttl}: {x!r}")
    finally:
        clock.fixed = None


LONG = [b"p" * 150, b"p" * 400, b"p" * 2000]
CHANGES = [({}, x) for x in (
    dict(c=(b"c1c2",)), dict(c=(b"c1",)), dict(username=b"userx"),
    dict(passphrase=b"p" * 21), dict(salt=b"sal", aad=b"taad"),
    dict(aad=b"aae"), dict(mb=2), dict(cpu=2), dict(cores=2),
    dict(c=(b"c2", b"c1")), dict(c=(b"c1", b"c2", b"")), dict(c=()),
    dict(c=(b"", b"c1", b"c2")), dict(username=b"User"),
    dict(username=b"user\0"), dict(passphrase=b"p" * 19 + b" "),
    dict(salt=b"salt\0"), dict(salt=b""), dict(aad=b""))] + [
    (dict(passphrase=p), dict(passphrase=p[:-1] + b"q")) for p in LONG] + [
    (dict(username=p), dict(username=p[:-1] + b"q")) for p in LONG] + [
    (dict(salt=p), dict(salt=p[:-1] + b"q")) for p in LONG] + [
    (dict(c=(p,)), dict(c=(p[:-1] + b"q",))) for p in LONG]


def do_profile(env, r, i, d):
    workers = env.aiootp.asynchs.Processes
    old, workers.pool = workers.pool, env.aiootp.asynchs.Threads.pool
    base = dict(c=(b"c1", b"c2"), username=b"user", passphrase=b"p" * 20,
                salt=b"salt", aad=b"aad", mb=1, cpu=1, cores=1)
    more, change = CHANGES[i["k"]]
    base.update(more)

    def profile(**k):
        k = dict(k)
        x = (r.cls.agenerate_profile if i["a"] else r.cls.generate_profile)(
            *k.pop("c"), path=d, **k)
        return env.run(x) if i["a"] else x
    try:
        p = profile(**base)
        r.apply(p, "set", "t", b"mine")
        r.apply(p, "save")
        q = profile(**{**base, **change})
        assert not q.tags, f"{more} and {change!r:.100}: same profile"
        p = profile(**base)
        assert r.apply(p, "query", "t") == b"mine"
    finally:
        workers.pool = old
