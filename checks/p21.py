"""
P21  databases as mappings, over the contracts used in P20

From every reachable state every operation returns what the state machine of
checks/db_lib.py says, and afterwards listing, counting, membership, truth,
cached and queried values of every tag agree with it; deleting the database
then removes exactly the files of its listed tags, of its metatags and its
list, next to files of others.
"""
from checks import db_ghost as dg
from checks.db_lib import Mem
from checks.p20 import ASSUMPTIONS
from vf import core
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "other"
WORKERS = 6
BUDGET = 200
FOREIGN = ("0", "1", "notes", "_", "keys")


def observe(w, check):
    compare(w, check, w.db, w.mem)
    g = w.g
    fs = g.fs
    # files of others: another database, and plain files
    other = g.open(key=dg.OTHER)
    g.real.apply(other, "set", "t", b"theirs")
    g.real.apply(other, "metatag", "m")
    g.real.apply(other, "save")
    for n in FOREIGN:
        fs.files.setdefault(f"{dg.D}/{n}", [b"mine", 0o644])
    db = g.open(key=dg.OTHER)
    theirs = {p for p, f in fs.files.items()
              if not owned(w, p)}
    orphans = {p for p in fs.files if owned(w, p)} - listed(w)
    r = attempt(g.real.call, w.db, "delete_database")
    check(r.ok, "delete: succeeds", repr(r.exc))
    check(set(fs.files) == theirs | orphans, "delete: exactly its files",
          f"left {sorted(set(fs.files) - theirs - orphans)}, also gone "
          f"{sorted((theirs | orphans) - set(fs.files))}")
    again = attempt(g.open)
    check(again.ok and not again.value.tags and not again.value.metatags,
          "delete: nothing is found again", repr(again.exc))


def owned(w, p):
    return p in w.mine


def listed(w):
    """files of the open database and its metatags, as they are listed"""
    out = set()

    def one(db, mem):
        for t in mem.tags:
            out.add(f"{dg.D}/{w.g.real.call(db, 'filename', t)}")
        for m in mem.metas:
            one(getattr(db, m), mem.subs[m])
    one(w.db, w.mem)
    return {p for p in out if p in w.g.fs.files} | w.roots


def compare(w, check, db, mem):
    check(db.tags == mem.tags, "tags",
          f"{sorted(db.tags)} instead of {sorted(mem.tags)}")
    check(len(db) == len(mem.tags), "length", f"{len(db)}")
    check(len(db.filenames) == len(mem.tags), "filenames",
          f"{db.filenames}")
    check(db.metatags == set(mem.metas), "metatags", f"{db.metatags}")
    check(bool(db) == bool(mem.tags or mem.metas), "truth")
    for t in w.kinds:
        check((t in db) == (t in mem.tags or t in mem.cache), "membership",
              f"{t}: {t in db}")
        check(dg.same(db[t], mem.cache.get(t)), "cached value", f"{t}")
        r = attempt(w.g.real.apply, db, "query-silent", t)
        check(r.ok and dg.same(r.value, mem.value(t)[1]), "queried value",
              f"{t}: {r.value!r} {r.exc!r}")
    for m in mem.metas:
        compare(w, check, getattr(db, m), mem.subs[m])


def judge(w, check):
    # what is on disk now belongs to this database
    w.mine = set(w.g.fs.files)
    w.roots = set()

    def roots(db):
        w.roots.add(str(db._root_path))
        for m in db.metatags:
            roots(getattr(db, m))
    roots(w.db)
    w.roots &= w.mine
    observe(w, check)


def subject(pkg, a, sub):
    name, kinds, ops, starts = sub

    def fn(c):
        n, e = dg.explore(c, pkg, a, kinds, ops, starts, judge)
        c.prove(n >= 10, f"{name}: states explored", info=str(n))
    return fn


def proofs(pkg):
    F = ["databases.sync_database.Database",
         "databases.async_database.AsyncDatabase",
         "databases.database_properties.DatabaseProperties"]
    for a in (0, 1):
        n = "async" if a else "sync"
        for sub in dg.subjects(a):
            yield Proof(f"mapping[{n},{sub[0]}]", subject(pkg, a, sub),
                        functions=F, min_obligations=100)
