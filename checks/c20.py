"""
bounded stand-in for P20 and P21: random histories on real databases in a
scratch directory, next to the state machine of checks/db_lib.py
"""
import copy
import itertools
import os
import random
import shutil
from pathlib import Path

from checks.db_lib import Disk, Mem, Real

TAGS = ["t", "", "0", "1", "keys", "clear", "_manifest", "a/b", "☃ tag",
        "x" * 300, "__dict__", "None"]
METAS = ["meta", "zz", "m_2"]
VALUES = [b"", b"\1\2", b"\1\2\1\2rest", b"\0", b"{}", b'"text"', b"x" * 5000,
          "", "text", "\1\2", "☃", 0, -1, 1.5, 2 ** 80, True, False,
          None, [], {}, [1, [2, {"a": None}]], {"k": [1, 2], "0": "1"},
          [None], "x" * 3000]
OPS = ["set"] * 4 + ["setitem", "set-save", "query", "query-silent",
                     "query-cache", "getitem", "pop", "pop-silent", "del",
                     "rollback", "rollback-cache", "save-tag",
                     "save-tag-drop", "save", "save", "clear", "load-tags",
                     "reload", "reopen", "reopen", "reopen-preload",
                     "metatag", "delete-metatag"]
SINGLE = ("save", "clear", "load-tags", "reload")


def cases(env):
    for v in range(len(VALUES)):
        yield "value", dict(v=v, a=v % 2)
    for t in range(len(TAGS)):
        yield "tag", dict(t=t, a=t % 2)
    yield from special(env)
    n = 200 if env.tier == "quick" else 1000
    for seed in range(n):
        yield "history", dict(seed=seed, a=seed % 2, steps=25)


def special(env):
    for a in (0, 1):
        yield "both", dict(a=a)
        yield "context", dict(a=a)
        yield "again", dict(a=a)
        yield "large", dict(a=a, n=1100)
        yield "in place", dict(a=a)
        for n in ((1, 3) if env.tier == "quick" else (1, 3, 40)):
            yield "metatags", dict(a=a, n=n)
        yield "many", dict(a=a, n=300)
        yield "profile", dict(a=a)


def check(env, case, i):
    d = Path(env.tmpdir())
    try:
        return inner(env, case, i, d)
    except AssertionError as e:
        return f"{case} {i}: {e}"
    finally:
        shutil.rmtree(d)


def key(n=0):
    return bytes([n]) + b"k" * 63


def real(env, a):
    A = env.aiootp
    return Real(A.AsyncDatabase if a else A.Database, a,
                (lambda f, *x, **k: env.run(f(*x, **k))) if a else
                (lambda f, *x, **k: f(*x, **k)))


def same(x, y):
    return type(x) is type(y) and x == y


def agree(r, db, mem, tags, what):
    assert db.tags == mem.tags, f"{what}: tags {db.tags}, not {mem.tags}"
    assert len(db) == len(mem.tags), f"{what}: length {len(db)}"
    assert len(db.filenames) == len(mem.tags), f"{what}: filenames"
    assert db.metatags == set(mem.metas), f"{what}: metatags {db.metatags}"
    assert bool(db) == bool(mem.tags or mem.metas), f"{what}: truth"
    for t in tags:
        known, v = mem.value(t)
        got = r.apply(db, "query-silent", t)
        assert same(got, v), f"{what}: {t!r} is {got!r:.60}, not {v!r:.60}"
        got = db[t]
        assert same(got, mem.cache.get(t)), f"{what}: cached {t!r}"
        assert (t in db) == (t in mem.tags or t in mem.cache), (
            f"{what}: membership of {t!r}")
    for m in mem.metas:
        agree(r, getattr(db, m), mem.subs[m], tags, f"{what}.{m}")


def settle(r, db, mem):
    """a metatag without a stored list draws a new salt: store it at once"""
    for m in mem.metas:
        sub = mem.subs[m]
        if sub.disk.tags is None:
            sub.disk.files.clear()
            sub.disk.subs.clear()
            r.apply(getattr(db, m), "save")
            sub.save()


def snapshot(d):
    return {p.name: (p.read_bytes() if p.is_file() else None)
            for p in d.iterdir()}


def inner(env, case, i, d):
    r = real(env, i["a"])
    if case == "history":
        return history(env, r, i, d)
    if case in ("value", "tag"):
        v = VALUES[i["v"]] if case == "value" else b"value"
        t = TAGS[i["t"]] if case == "tag" else "t"
        u = "other" if t != "other" else "u"
        db = r.open(key=key(), path=d)
        r.apply(db, "set", t, copy.deepcopy(v))
        r.apply(db, "set", u, "1")
        r.apply(db, "save")
        for pre in (False, True):
            x = r.open(key=key(), path=d, preload=pre)
            got = r.apply(x, "query", t)
            assert same(got, v), f"{t!r}: {got!r:.60} instead of {v!r:.60}"
            assert x.tags == {t, u}, f"tags {x.tags}"
            r.apply(x, "set", t, "unsaved")
            r.apply(x, "rollback", t)
            got = r.apply(x, "query", t)
            assert same(got, v), f"rolled back: {got!r:.60}"
        x = r.open(key=key(), path=d)
        assert same(r.apply(x, "pop", t), v), "popped value"
        assert t not in x and r.apply(x, "query", u) == "1"
        r.apply(x, "save")
        x = r.open(key=key(), path=d)
        assert x.tags == {u}, f"tags after pop {x.tags}"
        r.call(x, "delete_database")
        assert not list(d.iterdir()), "files left"
        return
    if case == "both":
        db = r.open(key=key(), path=d)
        mem = Mem(Disk())
        for k, t in enumerate(TAGS):
            v = VALUES[k]
            r.apply(db, "set", t, v)
            mem.apply("set", t, v)
        r.apply(db, "metatag", "meta")
        mem.apply("metatag", "meta")
        r.apply(db.meta, "set", "s", [1])
        mem.subs["meta"].apply("set", "s", [1])
        r.apply(db, "save")
        mem.save()
        o = real(env, 1 - i["a"])
        x = o.open(key=key(), path=d)
        agree(o, x, Mem(mem.disk), TAGS + ["s"], "other class")
        o.apply(x, "set", "back", b"x")
        o.apply(x, "pop", TAGS[0])
        o.apply(x, "save")
        db = r.open(key=key(), path=d)
        assert r.apply(db, "query", "back") == b"x", "written by the other"
        assert TAGS[0] not in db, "popped by the other"
        return
    if case == "metatags":
        return metatags(r, i, d)
    if case == "many":
        names = [f"m{k}" for k in range(i["n"])]
        db = r.open(key=key(), path=d)
        for k, n in enumerate(names):
            r.apply(db, "metatag", n)
            r.apply(db, "set", n, k)
        assert db.metatags == set(names), f"{len(db.metatags)} metatags"
        assert db.tags == set(names), f"{len(db.tags)} tags"
        r.apply(getattr(db, names[-1]), "set", "t", b"last")
        r.apply(db, "save")
        x = r.open(key=key(), path=d)
        assert x.metatags == set(names), f"{len(x.metatags)} metatags found"
        assert x.tags == set(names) and len(x) == len(names), "tags found"
        assert r.apply(getattr(x, names[-1]), "query", "t") == b"last"
        for k, n in enumerate(names):
            assert r.apply(x, "query", n) == k, f"value of {n}"
        r.call(x, "delete_database")
        assert not list(d.iterdir()), f"{len(list(d.iterdir()))} files left"
        return
    if case == "large":
        db = r.open(key=key(), path=d)
        for k in range(i["n"]):
            r.apply(db, "set", f"t{k}", k)
        r.apply(db, "save")
        x = r.open(key=key(), path=d)
        assert len(x) == i["n"], f"{len(x)} tags found"
        for k in (0, 1, i["n"] // 2, i["n"] - 2, i["n"] - 1):
            assert r.apply(x, "query", f"t{k}") == k, f"value of {k}"
        r.call(x, "delete_database")
        assert not list(d.iterdir()), f"{len(list(d.iterdir()))} files left"
        return
    if case == "again":
        # the same value set, saved, removed and set again in every order
        for n, steps in enumerate(itertools.product(
                ("set", "pop", "other", "rollback"), repeat=4)):
            db = r.open(key=key(n % 256), path=d)
            want = None
            r.apply(db, "set", "t", b"1")
            r.apply(db, "save")
            want = b"1"
            for s in steps:
                if s == "set":
                    want = b"1"
                    r.apply(db, "set", "t", want)
                elif s == "other":
                    want = b"2"
                    r.apply(db, "set", "t", want)
                elif s == "pop":
                    r.apply(db, "pop-silent", "t")
                    want = None
                else:
                    r.apply(db, "save")
                    if want is not None:
                        r.apply(db, "rollback", "t")
                r.apply(db, "save")
                x = r.open(key=key(n % 256), path=d)
                got = r.apply(x, "query-silent", "t")
                assert got == want, f"{steps}: {got} instead of {want}"
            r.call(db, "delete_database")
        return
    if case == "in place":
        db = r.open(key=key(), path=d)
        v = {"n": []}
        r.apply(db, "set", "t", v)
        for k in range(4):
            v["n"].append(k)
            r.apply(db, "save-tag" if k == 2 else "save", *("t",)[:k == 2])
            x = r.open(key=key(), path=d)
            got = r.apply(x, "query", "t")
            assert got == v, f"saved {v} and read {got}"
        return
    if case == "context":
        cls = r.cls
        for fails in (False, True):
            value = b"2" if fails else b"1"
            if i["a"]:
                async def go():
                    async with await cls(key=key(), path=d) as db:
                        db["a"] = value
                        if fails:
                            raise LookupError("body")
            else:
                def go():
                    with cls(key=key(), path=d) as db:
                        db["a"] = value
                        if fails:
                            raise LookupError("body")
            try:
                env.run(go()) if i["a"] else go()
                raised = False
            except LookupError:
                raised = True
            assert raised == fails, "an error in the block was swallowed"
            x = r.open(key=key(), path=d)
            got = r.apply(x, "query", "a")
            assert got == value, f"not saved at exit, error: {fails}"
        return
    if case == "profile":
        # sessions run in this process
        workers = env.aiootp.asynchs.Processes
        real_pool, workers.pool = workers.pool, env.aiootp.asynchs.Threads.pool
        try:
            return profiles(env, r, i, d)
        finally:
            workers.pool = real_pool


def metatags(r, i, d):
    """a deleted metatag is gone, with its own metatags, and nothing else"""
    db = r.open(key=key(), path=d)
    r.apply(db, "set", "t", b"top")
    r.apply(db, "save")
    before = set(snapshot(d))
    r.apply(db, "metatag", "keep")
    r.apply(db.keep, "set", "t", b"kept")
    r.apply(db, "save")
    kept = set(snapshot(d))
    r.apply(db, "metatag", "m")
    for k in range(i["n"]):
        r.apply(db.m, "set", f"t{k}", k)
    r.apply(db.m, "metatag", "inner")
    r.apply(db.m.inner, "set", "t", [1])
    r.apply(db, "save")
    assert len(snapshot(d)) == len(kept) + i["n"] + 3, "files of a metatag"
    db = r.open(key=key(), path=d)
    assert r.apply(db.m.inner, "query", "t") == [1], "inner value"
    r.apply(db.m, "set", "unsaved", 1)
    r.apply(db, "delete-metatag", "m")
    assert set(snapshot(d)) == kept, "files of a deleted metatag"
    assert db.metatags == {"keep"} and not hasattr(db, "m"), "listed metatags"
    r.apply(db, "metatag", "m")
    assert not db.m.tags and not db.m.metatags, "deleted metatag has data"
    assert r.apply(db.m, "query-silent", "t0") is None, "deleted value"
    r.apply(db.m, "set", "t0", b"again")
    r.apply(db, "save")
    db = r.open(key=key(), path=d, preload=True)
    assert db.metatags == {"keep", "m"} and db.m.tags == {"t0"}, "made again"
    assert r.apply(db.m, "query", "t0") == b"again", "set again"
    assert r.apply(db.keep, "query", "t") == b"kept", "another metatag"
    assert r.apply(db, "query", "t") == b"top", "value next to metatags"
    r.apply(db, "delete-metatag", "m")
    r.apply(db, "delete-metatag", "keep")
    r.apply(db, "save")
    assert set(snapshot(d)) == before, "files after deleting all metatags"
    db = r.open(key=key(), path=d)
    assert not db.metatags and db.tags == {"t"}, "found again"


def profiles(env, r, i, d):
    kw = dict(username=b"name", passphrase=b"p" * 20, path=d, mb=1,
              cpu=1, cores=1)
    (d / "mine").write_text("mine")

    def profile(**k):
        f = r.cls.agenerate_profile if i["a"] else r.cls.generate_profile
        x = f(b"cred", **{**kw, **k})
        return env.run(x) if i["a"] else x

    p = profile()
    r.apply(p, "set", "t", [1])
    r.apply(p, "save")
    q = profile()
    assert r.apply(q, "query", "t") == [1], "profile reopened"
    o = profile(passphrase=b"q" * 20)
    assert not o.tags, "another passphrase, the same profile"
    r.call(q, "delete_database")
    assert (d / "mine").read_text() == "mine"
    z = profile()
    assert not z.tags, "deleted profile is found again"


def history(env, r, i, d):
    rnd = random.Random(f"{i['seed']}")
    tags = rnd.sample(TAGS, 3)
    values = VALUES if i["seed"] % 3 else rnd.sample(VALUES, 2)
    (d / "0").write_bytes(b"mine")
    (d / "1").write_bytes(b"mine")
    other = r.open(key=key(9), path=d)
    r.apply(other, "set", tags[0], b"theirs")
    r.apply(other, "metatag", METAS[0])
    r.apply(other, "save")
    foreign = snapshot(d)
    db = r.open(key=key(), path=d)
    mem = Mem(Disk())
    r.apply(db, "save")
    mem.apply("save")
    log = []
    for _ in range(i["steps"]):
        op = rnd.choice(OPS)
        if op.startswith("reopen"):
            log.append(op)
            db = r.open(key=key(), path=d, preload=op.endswith("preload"))
            mem = Mem(mem.disk, op.endswith("preload"))
            settle(r, db, mem)
            agree(r, db, mem, tags, f"{log}")
            continue
        x, m, where = db, mem, ""
        if mem.metas and rnd.random() < .35:
            where = rnd.choice(mem.metas)
            x, m = getattr(db, where), mem.subs[where]
            if "metatag" in op or op == "reload":
                op = "save"
        t = None if op in SINGLE else rnd.choice(
            METAS if "metatag" in op else tags)
        v = copy.deepcopy(rnd.choice(values)) if op in (
            "set", "setitem", "set-save") else None
        log.append(f"{where}.{op} {(t or '')[:9]}"
                   + (f"={v!r:.20}" if v is not None else ""))
        if op == "reload" and m.disk.tags is None:
            continue
        try:
            got = ("value", r.apply(x, op, t, copy.deepcopy(v)))
        except Exception as e:
            got = ("error", e)
        want = m.apply(op, t, v)
        settle(r, db, mem)
        assert got[0] == want[0], f"{got} instead of {want}: {log}"
        if want[0] == "error":
            assert isinstance(got[1], want[1]), f"{got[1]!r}: {log}"
        elif op != "metatag":
            assert same(got[1], want[1]), (
                f"returned {got[1]!r:.60} instead of {want[1]!r:.60}: {log}")
        if op in ("delete-metatag",) or rnd.random() < .5:
            agree(r, db, mem, tags, f"{log}")
    agree(r, db, mem, tags, f"{log}")
    for pre in (False, True):
        y = r.open(key=key(), path=d, preload=pre)
        agree(r, y, Mem(mem.disk, pre), tags, f"reopened {log}")
    # delete: nothing of others
    r.call(db, "delete_database")
    now = snapshot(d)
    for n, data in foreign.items():
        assert now.get(n) == data, f"file {n} of others is gone: {log}"
    y = r.open(key=key(), path=d)
    assert not y.tags and not y.metatags, "deleted database found again"
    x = r.open(key=key(9), path=d)
    assert r.apply(x, "query", tags[0]) == b"theirs", "other database"
