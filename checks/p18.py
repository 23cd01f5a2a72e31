"""
P18  containers, parametric in the stored values

Values are opaque objects on which every operation fails, so each result
holds for every value.  Names enter the code only through membership tests
and attribute access: one representative per class of names (slot, private
slot, plain, capitalised, non-string, restricted), from every combination of
set and unset neighbours of the name.
"""
import itertools

from checks import containers_lib as cl
from vf import core
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "other"
WORKERS = 2
BUDGET = 60
ASSUMPTIONS = [
    "attribute names are covered by one representative per class of names",
]


def holds(c, f, what):
    try:
        f()
    except AssertionError as e:
        c.fail(what, info=str(e))
    else:
        c.prove(True, what)


def kind(pkg, which):
    def fn(c):
        name, T, frozen, typed, has_dict, names = next(
            k for k in cl.kinds() if k[0] == which)
        for n in names:
            neighbours = [m for m in names if m != n][:3]
            for mask in itertools.product((0, 1), repeat=len(neighbours)):
                base = {m: cl.Opaque(m) for m, on in zip(neighbours, mask)
                        if on}
                for how in cl.ways(n):
                    one(c, T, frozen, typed, base, n, how, names)
        for n in cl.RESTRICTED:
            for how in ("attr", "item", "update"):
                x = T()
                r = attempt(cl.assign, x, how, n, cl.Opaque(0))
                c.prove(r.raised(PermissionError), f"{n} is reserved",
                        info=repr(r.exc))
                c.prove(callable(getattr(x, n)), f"{n} still works")
        # clearing and deleting
        full = {n: cl.Opaque(n) for n in names}
        x = T(full)
        holds(c, lambda: cl.same(x, full, names), "constructed")
        for n in names:
            x = T(full)
            for how in ("attr", "item"):
                if how == "attr" and not isinstance(n, str):
                    continue
                r = attempt(delattr if how == "attr"
                            else type(x).__delitem__, x, n)
                want = dict(full)
                if frozen:
                    c.prove(r.raised(PermissionError), "deletion refused",
                            info=repr(r.exc))
                else:
                    want.pop(n)
                holds(c, lambda: cl.same(x, want, names),
                      f"after deleting {n!r}")
                if not frozen:
                    break
        x = T(full)
        r = attempt(x.clear)
        if frozen:
            c.prove(not r.ok, "clearing refused")
            holds(c, lambda: cl.same(x, full, names), "clear keeps all")
        else:
            c.prove(r.ok, "cleared", info=repr(r.exc))
            holds(c, lambda: cl.same(x, {}, names), "clear removes all")
    return fn


def one(c, T, frozen, typed, base, n, how, names):
    x = T(base)
    v, w = cl.Opaque("v"), cl.Opaque("w")
    is_typed = typed and n in cl.SLOT
    if is_typed:
        r = attempt(cl.assign, x, how, n, cl.Other())
        c.prove(r.raised(TypeError), "wrong type refused", info=repr(r.exc))
        holds(c, lambda: cl.same(x, base, names), "refused => unchanged")
    r = attempt(cl.assign, x, how, n, v)
    c.prove(r.ok, "assigned", info=repr(r.exc))
    want = {**base, n: v}
    holds(c, lambda: cl.same(x, want, names), "holds what was assigned")
    for again in cl.ways(n):
        r = attempt(cl.assign, x, again, n, w)
        if frozen:
            c.prove(r.raised(PermissionError), "reassignment refused",
                    info=repr(r.exc))
        else:
            c.prove(r.ok, "reassigned", info=repr(r.exc))
            want[n] = w
        holds(c, lambda: cl.same(x, want, names), "after reassignment")
        if is_typed:
            r = attempt(cl.assign, x, again, n, cl.Other())
            c.prove(not r.ok, "wrong type refused")
            holds(c, lambda: cl.same(x, want, names),
                  "refused => unchanged (set)")


def instance(pkg):
    def fn(c):
        T, names = cl.frozen_instance()
        for n in names:
            for m in (None, *names):
                base = {} if m in (None, n) else {m: cl.Opaque(m)}
                x = T(base)
                v = cl.Opaque("v")
                setattr(x, n, v)
                for f in (lambda: setattr(x, n, cl.Opaque("w")),
                          lambda: delattr(x, n)):
                    r = attempt(f)
                    c.prove(r.raised(PermissionError), "refused",
                            info=repr(r.exc))
                    c.prove(getattr(x, n) is v, "unchanged")
                    for k in base:
                        c.prove(getattr(x, k) is base[k], "others unchanged")
    return fn


def configs(pkg):
    def fn(c):
        Cfg, Map, Cfg2 = cl.config_kinds()
        for cid in ("name", 7, (1, 2), b"id"):
            x = Cfg(a=cl.Opaque("a"))
            m = Map({cid: x}, config_type=Cfg)
            c.prove(x.CONFIG_ID == cid, "takes its id")
            c.prove(m[cid] is x and cid in m and list(m) == [cid]
                    and len(m) == 1, "mapped")
            r = attempt(m.update, {cid: x})
            c.prove(r.ok and m[cid] is x, "same config again")
            for other in (Cfg(a=cl.Opaque("z")),):
                r = attempt(m.update, {cid: other})
                c.prove(not r.ok and m[cid] is x, "another config refused",
                        info=repr(r.exc))
            r = attempt(m.update, {"new": x})
            c.prove(not r.ok and "new" not in m and x.CONFIG_ID == cid,
                    "a config keeps its id", info=repr(r.exc))
            r = attempt(m.update, {"t": Cfg2()})
            c.prove(not r.ok and "t" not in m, "wrong config type refused",
                    info=repr(r.exc))
            r = attempt(setattr, x, "CONFIG_ID", "else")
            c.prove(not r.ok and x.CONFIG_ID == cid, "id is fixed")
            r = attempt(setattr, x, "a", cl.Opaque("b"))
            c.prove(r.raised(PermissionError) and x.a.tag == "a",
                    "config is frozen")
            r = attempt(type(m).__delitem__, m, cid)
            c.prove(r.raised(PermissionError) and m[cid] is x,
                    "config map is frozen")
            r = attempt(m.clear)
            c.prove(not r.ok and m[cid] is x, "config map is not cleared",
                    info=repr(r.exc))
            r = attempt(setattr, x, "b", cl.Other())
            c.prove(r.raised(TypeError) and "b" not in x, "config is typed")
        r = attempt(Map, {}, config_type=dict)
        c.prove(r.raised(TypeError), "config types only", info=repr(r.exc))
    return fn


def others(pkg):
    def fn(c):
        for name, T, frozen, typed in cl.unmapped():
            holds(c, lambda: cl.check_unmapped(T, frozen, typed),
                  f"unmapped names of {name}")
        for name, T, *_, names in cl.kinds():
            holds(c, lambda: cl.check_repr(name, T, names),
                  f"values are not shown by {name}")
    return fn


def proofs(pkg):
    F = ["commons/slots.py", "commons/typed_slots.py",
         "commons/namespaces.py"]
    for k in cl.kinds():
        yield Proof(f"kind[{k[0]}]", kind(pkg, k[0]), functions=F,
                    min_obligations=40)
    yield Proof("unmapped and masked", others(pkg), functions=F,
                min_obligations=20)
    yield Proof("instance", instance(pkg),
                functions=["commons/instances.py"], min_obligations=20)
    yield Proof("configs", configs(pkg), functions=["commons/configs.py"],
                min_obligations=40)
