"""
P20  databases, over contracts of files, ciphers, key derivation

From every reachable state of a tag (listed or not, cached or not, saved or
not, listed on disk or not, cached value equal to the saved one or not), next
to another tag or with a metatag, every operation leaves on disk exactly what
the state machine of checks/db_lib.py says, which a newly opened database (of
either class) shows.  Values are symbolic: bytes of any length and content,
any JSON value.  Reachable states, with the database's internal state, are
closed under the operations, so the result holds for histories of any length.
"""
from checks import db_ghost as dg
from checks.db_lib import Mem
from vf import core
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "other"
WORKERS = 6
BUDGET = 200
ASSUMPTIONS = [
    "file operations behave as vf/ghostfs.py states",
    "ciphertexts open to exactly what was sealed, with the same key (P01, "
    "P02); key derivation is collision-free (P10, P11)",
    "one tag next to one other tag, and one metatag with one tag, stand for "
    "all: tags reach the code only through key derivation and the list",
    "JSON text starts with a byte >= 0x22; json.loads inverts json.dumps",
]


def observe(w, check, where=()):
    """what a newly opened database shows"""
    g = w.g
    files = dict(g.fs.files)
    for pre in (False, True):
        db = g.open(preload=pre)
        compare(w, check, db, Mem(w.mem.disk, pre), "reopened")
    check(g.fs.files.keys() == files.keys() and all(
        g.fs.files[k] is files[k] for k in files), "opening changes no file")


def compare(w, check, db, mem, what):
    check(db.tags == mem.tags, f"{what}: tags",
          f"{sorted(db.tags)} instead of {sorted(mem.tags)}")
    check(db.metatags == set(mem.metas), f"{what}: metatags",
          f"{db.metatags} instead of {mem.metas}")
    for t in w.kinds:
        known, v = mem.value(t)
        r = attempt(w.g.real.apply, db, "query-silent", t)
        check(r.ok, f"{what}: query", repr(r.exc))
        if r.ok:
            check(dg.same(r.value, v), f"{what}: value",
                  f"{t}: {r.value!r} instead of {v!r}")
        check(dg.same(db[t], mem.cache.get(t)), f"{what}: cached value",
              f"{t}: {db[t]!r}")
    for m in mem.metas:
        compare(w, check, getattr(db, m), mem.subs[m], f"{what} metatag")


def other(pkg, a, kinds):
    """databases of one class are read by the other"""
    def fn(c):
        w = dg.World(c, pkg, a, kinds)
        try:
            for op in (("set", "t"), ("set", "u"), ("metatag", "m"),
                       ("set", "v", ("m",)), ("save",), ("set", "t"),
                       ("pop", "u")):
                w.step(op)
        finally:
            w.close()
        x = dg.World(c, pkg, 1 - a, kinds)
        try:
            x.g.fs.files.clear()
            x.g.fs.files.update(w.g.fs.files)
            x.mem = Mem(w.mem.disk)

            def check(good, text, info=""):
                c.prove(good, text, info=info)
            observe(x, check)
        finally:
            x.close()
    return fn


def subject(pkg, a, sub):
    name, kinds, ops, starts = sub

    def fn(c):
        n, e = dg.explore(c, pkg, a, kinds, ops, starts, observe)
        c.prove(n >= 10, f"{name}: states explored", info=str(n))
    return fn


def proofs(pkg):
    F = ["databases.sync_database.Database",
         "databases.async_database.AsyncDatabase",
         "databases.database_properties.DatabaseProperties"]
    for a in (0, 1):
        n = "async" if a else "sync"
        for sub in dg.subjects(a):
            yield Proof(f"persist[{n},{sub[0]}]", subject(pkg, a, sub),
                        functions=F, min_obligations=100)
        yield Proof(f"both classes[{n}]", other(
            pkg, a, dict(t="bytes", u="json", v="json")), functions=F,
            min_obligations=10)
