"""bounded stand-in for P18: random histories against a dictionary"""
import random

from checks import containers_lib as cl


def cases(env):
    n = len(cl.kinds())
    for k in range(n):
        for seed in range(12 if env.tier == "quick" else 60):
            yield "history", dict(k=k, seed=seed)
    for seed in range(40):
        yield "instance", dict(seed=seed)
        yield "config", dict(seed=seed)
    yield "aiter", {}
    yield "unmapped", {}
    yield "masked", {}


SPECIAL = (None, 0, "", b"", (), False, 0.0, "v", b"v", 1, ..., Ellipsis)


def value(r, typed, tag):
    """a stored value: anything at all where no type is declared"""
    if typed or r.random() < .5:
        return cl.Opaque(tag)
    return r.choice(SPECIAL)


def refused(f, *types):
    try:
        f()
    except types:
        return True
    return False


def check(env, case, i):
    try:
        return inner(env, case, i)
    except AssertionError as e:
        return str(e)


def inner(env, case, i):
    r = random.Random(i.get("seed"))
    if case == "history":
        name, T, frozen, typed, has_dict, names = cl.kinds()[i["k"]]
        start = {n: value(r, typed, n) for n in names if r.random() < .4}
        kw = {n: start[n] for n in start if isinstance(n, str)
              and r.random() < .5}
        x = T(start) if r.random() < .5 else T(
            {n: v for n, v in start.items() if n not in kw}, **kw)
        model = dict(start)
        log = [f"{name}({list(start)})"]
        for _ in range(25):
            op = r.choice(["set", "set", "set", "del", "update", "bad",
                           "clear", "restricted", "read"])
            n = r.choice(names)
            v = value(r, typed, "v")
            log.append(f"{op} {n!r}")
            try:
                if op == "set":
                    how = r.choice(cl.ways(n))
                    no = refused(lambda: cl.assign(x, how, n, v),
                                 PermissionError)
                    assert no == (frozen and n in model), (
                        "assignment " + ("refused" if no else "accepted"))
                    if not no:
                        model[n] = v
                elif op == "del":
                    def rm():
                        if isinstance(n, str) and r.random() < .5:
                            delattr(x, n)
                        else:
                            del x[n]
                    no = refused(rm, PermissionError, AttributeError,
                                 KeyError)
                    assert no == (frozen or n not in model), (
                        "deletion " + ("refused" if no else "accepted"))
                    if not no:
                        model.pop(n)
                elif op == "update":
                    new = {k: value(r, typed, k) for k in r.sample(
                        names, min(3, len(names)))}
                    kw = {k: u for k, u in new.items() if isinstance(k, str)
                          and r.random() < .5}
                    new = {k: u for k, u in new.items() if k not in kw}
                    clash = frozen and any(k in model for k in (*new, *kw))
                    no = refused(lambda: x.update(new, **kw),
                                 PermissionError)
                    new.update(kw)
                    assert no == clash, "update " + (
                        "refused" if no else "accepted")
                    for k, u in new.items():
                        if k in model and frozen:
                            break
                        model[k] = u
                elif op == "bad" and typed and n in cl.SLOT:
                    no = refused(lambda: cl.assign(
                        x, r.choice(cl.ways(n)), n, r.choice(
                            [cl.Other(), None, 1, "s", cl.Opaque])),
                        TypeError, PermissionError)
                    assert no, "a value of the wrong type was accepted"
                elif op == "clear" and r.random() < .3:
                    no = refused(x.clear, PermissionError)
                    if not frozen:
                        assert not no, "clear refused"
                        model = {}
                    else:
                        assert no or not model, "a frozen one was cleared"
                elif op == "restricted":
                    k = r.choice(cl.RESTRICTED)
                    assert refused(lambda: cl.assign(
                        x, r.choice(("attr", "item", "update")), k, v),
                        PermissionError), f"{k} was replaced"
                cl.same(x, model, names)
            except AssertionError as e:
                raise AssertionError(f"{e}; history {log}")
    elif case == "instance":
        T, names = cl.frozen_instance()
        model = {n: value(r, False, n) for n in names if r.random() < .5}
        kw = {n: model[n] for n in model if r.random() < .5}
        x = T({n: model[n] for n in model if n not in kw}, **kw)
        for _ in range(20):
            n = r.choice(names)
            if r.random() < .5:
                v = value(r, False, "v")
                no = refused(lambda: setattr(x, n, v), PermissionError)
                assert no == (n in model), f"assignment to {n}: {no}"
                model.setdefault(n, v)
            else:
                assert refused(lambda: delattr(x, n), PermissionError,
                               AttributeError), f"{n} was deleted"
            for k in names:
                assert getattr(x, k, cl) is model.get(k, cl), f"{k} changed"
    elif case == "config":
        Cfg, Map, Cfg2 = cl.config_kinds()
        ids = ["a1", "b1", 3, 4, (5, 6), b"x", None, 0]
        m = Map(config_type=Cfg)
        model = {}
        cfgs = []
        for _ in range(25):
            cid = r.choice(ids)
            c = r.choice(cfgs) if cfgs and r.random() < .4 else Cfg()
            if all(c is not k for k in cfgs):
                cfgs.append(c)
            known = getattr(c, "CONFIG_ID", cid)
            try:
                m[cid] = c
                ok = True
            except (PermissionError, ValueError):
                ok = False
            may = known == cid and (cid not in model or model[cid] is c)
            assert ok == may, f"config {cid!r} " + (
                "accepted" if ok else "refused")
            if ok:
                model[cid] = c
            assert refused(lambda: m.__delitem__(cid), PermissionError), (
                "a config was removed")
            if r.random() < .2 and model:
                assert refused(m.clear, PermissionError), "map cleared"
            assert list(m) == list(m.keys()) and len(m) == len(model)
            for k in ids:
                assert (k in m) == (k in model), f"membership of {k!r}"
                if k in model:
                    assert m[k] is model[k], f"config {k!r} replaced"
                    assert m[k].CONFIG_ID == k, f"config {k!r} renamed"
            assert refused(lambda: m.__setitem__("w", Cfg2()), TypeError), (
                "a config of another type was accepted")
    elif case == "aiter":
        for name, T, frozen, typed, has_dict, names in cl.kinds():
            x = T({n: cl.Opaque(n) for n in names})
            got, err = env.collect(x, 1)
            assert err is None and got == list(x), f"{name}: async names"
    elif case == "unmapped":
        for name, T, frozen, typed in cl.unmapped():
            cl.check_unmapped(T, frozen, typed)
    elif case == "masked":
        for name, T, *_, names in cl.kinds():
            cl.check_repr(name, T, names)
            if "Open" not in name and "Typed" not in name:
                for v in ("hush-hush", b"hush-hush", 7734 * 10 ** 9,
                          ["hush-hush"], {"k": "hush-hush"},
                          T({names[0]: "hush-hush"}), 7734 * 10 ** 9 + .5):
                    x = T({n: v for n in names})
                    for text in (repr(x), str(x), f"{x}", f"{[x]}"):
                        assert "hush" not in text and "7734" not in text, (
                            f"{name} shows a value: {text}")
                if "+dict" in name or "Namespace" in name:
                    x = T({f"n{k}": cl.Opaque(k) for k in range(300)})
                    assert "the value" not in repr(x), (
                        f"a large {name} shows its values")
