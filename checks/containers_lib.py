"""the container kinds of the package, with representative attribute names"""
import sys


class Opaque:
    """a value nothing is known about: any operation on it is an error"""
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def _no(self, *_, **__):
        raise AssertionError("a stored value was inspected")
    __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = _no
    __iter__ = __getitem__ = __call__ = __add__ = __int__ = __bytes__ = _no
    __hash__ = object.__hash__

    def __repr__(self):
        return "<<the value>>"
    __str__ = __repr__


class Other:
    pass


SLOT = ("a", "b", "_p")
WORDS = ("x", "y_", "_z", "Name")
ODD = (1, (1, 2), b"k", 2.5, frozenset({3}), None, 0, ())
RESTRICTED = ("keys", "values", "items", "update", "clear")


def mods():
    m = sys.modules
    return (m["aiootp.commons.slots"], m["aiootp.commons.typed_slots"],
            m["aiootp.commons.namespaces"], m["aiootp.commons.instances"],
            m["aiootp.commons.configs"])


def kinds():
    """[(name, class, frozen, typed, has dict, names)]"""
    S, T, N, I, C = mods()
    out = []
    for n in ("Slots", "OpenSlots", "FrozenSlots", "OpenFrozenSlots"):
        base = getattr(S, n)
        out.append((n, type(n + "A", (base,), dict(__slots__=SLOT)),
                    "Frozen" in n, False, False, SLOT))
        out.append((n + "+dict", type(n + "B", (base,), dict(
            __slots__=SLOT + ("__dict__",))), "Frozen" in n, False, True,
            SLOT + WORDS + ODD))
    for n in ("TypedSlots", "OpenTypedSlots", "FrozenTypedSlots",
              "OpenFrozenTypedSlots"):
        base = getattr(T, n)
        types = dict.fromkeys(SLOT, Opaque)
        out.append((n, type(n + "A", (base,), dict(
            __slots__=SLOT, slots_types=types)), "Frozen" in n, True, False,
            SLOT))
        out.append((n + "+dict", type(n + "B", (base,), dict(
            __slots__=SLOT + ("__dict__",), slots_types=types)),
            "Frozen" in n, True, True, SLOT + WORDS + ODD))
        sub = type(n + "C", (type(n + "D", (base,), dict(
            __slots__=SLOT[:2], slots_types={k: Opaque for k in SLOT[:2]})),),
            dict(__slots__=SLOT[2:], slots_types={SLOT[2]: Opaque}))
        out.append((n + "+sub", sub, "Frozen" in n, True, False, SLOT))
    for n in ("Namespace", "OpenNamespace", "FrozenNamespace",
              "OpenFrozenNamespace"):
        out.append((n, getattr(N, n), "Frozen" in n, False, True,
                    WORDS + ODD))
    return out


def frozen_instance():
    I = mods()[3]
    return type("FI", (I.FrozenInstance,), dict(__slots__=SLOT)), SLOT


def config_kinds():
    C = mods()[4]
    cfg = type("Cfg", (C.Config,), dict(
        __slots__=SLOT, slots_types=dict.fromkeys(SLOT, Opaque)))
    return cfg, C.ConfigMap, type("Cfg2", (C.Config,), dict(
        __slots__=("q",), slots_types=dict(q=Opaque)))


def assign(c, how, name, value):
    if how == "attr":
        setattr(c, name, value)
    elif how == "item":
        c[name] = value
    elif how == "update":
        c.update({name: value})
    elif how == "kw":
        c.update(**{name: value})


def ways(name):
    return ("attr", "item", "update", "kw") if isinstance(name, str) else (
        "item", "update")


def view(c):
    """content of a container by every public route; they must agree"""
    names = list(c)
    assert len(names) == len(set(names)), f"repeated names {names}"
    assert len(c) == len(names), f"length {len(c)}, names {names}"
    assert bool(c) == bool(names), "truth differs from emptiness"
    assert list(c.keys()) == names, "keys differ from iteration"
    items = list(c.items())
    assert [k for k, _ in items] == names, "items differ from iteration"
    vals = list(c.values())
    assert len(vals) == len(names) and all(
        v is w for v, (_, w) in zip(vals, items)), "values differ from items"
    for k, v in items:
        assert k in c, f"{k!r} is listed but not contained"
        assert c[k] is v, f"item {k!r} differs"
        if isinstance(k, str):
            assert getattr(c, k) is v, f"attribute {k!r} differs"
    return dict(items)


def same(c, model, names):
    got = view(c)
    assert got.keys() == model.keys(), (
        f"contains {list(got)}, expected {list(model)}")
    for k, v in model.items():
        assert got[k] is v, f"{k!r} has another value"
    for n in names:
        assert (n in c) == (n in model), f"membership of {n!r}"
        if n not in model:
            try:
                c[n]
            except (AttributeError, KeyError):
                continue
            raise AssertionError(f"{n!r} can be read though never set")


def unmapped():
    """[(name, class, frozen, typed)]: slot `_p` is not part of the mapping"""
    S, T, N, I, C = mods()
    for m, names in ((S, ("Slots", "OpenSlots", "FrozenSlots",
                          "OpenFrozenSlots")),
                     (T, ("TypedSlots", "OpenTypedSlots", "FrozenTypedSlots",
                          "OpenFrozenTypedSlots"))):
        for n in names:
            body = dict(__slots__=SLOT,
                        _UNMAPPED_ATTRIBUTES=frozenset({"_p"}))
            if m is T:
                body["slots_types"] = dict.fromkeys(SLOT, Opaque)
            yield (n, type(n + "U", (getattr(m, n),), body), "Frozen" in n,
                   m is T)
    for n in ("Namespace", "OpenNamespace", "FrozenNamespace",
              "OpenFrozenNamespace"):
        yield (n, type(n + "U", (getattr(N, n),), dict(
            __slots__=(), _UNMAPPED_ATTRIBUTES=frozenset({"_p"}))),
            "Frozen" in n, False)


def check_unmapped(T, frozen, typed):
    for base in ((), ("a",), ("a", "b")):
        for how in ways("_p"):
            x = T({k: Opaque(k) for k in base})
            if typed:
                try:
                    assign(x, how, "_p", Other())
                except TypeError:
                    pass
                else:
                    raise AssertionError("wrong type accepted, not mapped")
                assert not hasattr(x, "_p"), "refused value was stored"
            v, w = Opaque("v"), Opaque("w")
            assign(x, how, "_p", v)
            assert x._p is v, "not stored"
            assert set(view(x)) == set(base), "an unmapped name is listed"
            for again in ways("_p"):
                try:
                    assign(x, again, "_p", w)
                    assert not frozen, "frozen, but assigned again"
                except PermissionError:
                    assert frozen, "refused"
                assert x._p is (v if frozen else w), "unmapped value"
                v = x._p
                w = Opaque("w")
            try:
                del x._p
                assert not frozen, "frozen, but deleted"
            except PermissionError:
                assert frozen and x._p is v, "deletion"


def check_repr(name, T, names):
    for n in names:
        x = T({n: Opaque(n)})
        shown = "the value" in repr(x) or "the value" in str(x)
        if "Open" not in name:
            assert not shown, f"{name} shows the value of {n!r}: {x!r}"
