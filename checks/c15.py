"""bounded stand-in for P15: real clocks under a set system time"""
import random

from checks.p15_units import UNITS


def cases(env):
    E = 1672531200 * 10 ** 9
    for proof, name, m in env.models():
        if "now" in m:
            yield "at", dict(epoch=int(m.get("epoch", 0)),
                             now=int(m["now"]), then=int(m.get("then",
                                                               m["now"])),
                             size=16)
            if isinstance(m.get("stamp"), bytes):
                yield "test", dict(epoch=int(m.get("epoch", 0)),
                                   now=int(m["now"]), stamp=m["stamp"],
                                   ttl=int(m.get("ttl", 0)))
    r = random.Random(5)
    for u, ns in UNITS.items():
        for k in (0, 1, 2, 7, 255, 256, 65535, 65536, 10 ** 6,
                  10 ** 17 // ns, 2 ** 53 // ns, 2 ** 57 // ns):
            for d in (0, 1, -1, ns // 2, ns - 1):
                t = k * ns + d
                if 0 <= t < 2 ** 62:
                    yield "at", dict(u=u, epoch=0, now=t, then=t + ns,
                                     size=8)
                    yield "at", dict(u=u, epoch=E, now=E + t,
                                     then=E + t + 1, size=8)
    for i in range(40):
        e = r.choice([0, 1, E, E + 1, r.randrange(2 ** 61)])
        n = e + r.randrange(2 ** r.randrange(1, 62))
        yield "at", dict(epoch=e, now=n, then=n + r.randrange(2 ** 40),
                         size=r.choice([4, 8, 9, 16]))
    for u in UNITS:
        for size in (1, 4, 8, 12):
            for now in (5, 5000, 2 ** 33, 2 ** 50 + 1):
                for ttl in (0, 1, -1, 60, 2 ** 33, 2 ** 64):
                    yield "edge", dict(u=u, size=size, now=now, ttl=ttl)
    yield "default", {}


def clocks(env, units, epoch):
    C = env.aiootp.asynchs.Clock
    return [(u, UNITS[u], C(u, epoch=epoch)) for u in units]


def check(env, case, i):
    C = env.aiootp.asynchs.Clock
    try:
        return inner(env, case, i, C)
    finally:
        env.clock.fixed = None


def expect(env, clock, unit, ts, ttl, delta, order, C):
    for a in (0, 1):
        try:
            env.call(clock, "test_timestamp", ts, ttl, byte_order=order,
                     is_async=a)
        except C.TimestampExpired as x:
            assert delta > ttl, f"expired, but {delta} <= {ttl} {unit}"
            assert (x.units, x.expired_by) == (unit, delta - ttl), (
                f"reports {x.units} {x.expired_by}, not {unit} {delta - ttl}")
        else:
            assert delta <= ttl, f"not expired, but {delta} > {ttl} {unit}"
        env.call(clock, "test_timestamp", ts, None, byte_order=order,
                 is_async=a)


def inner(env, case, i, C):
    if case == "default":
        env.clock.fixed = 1672531200 * 10 ** 9 + 12345 * 10 ** 9 + 17
        c = C()
        assert c.time() == 12345, f"seconds since 2023: {c.time()}"
        assert c.make_timestamp() == (12345).to_bytes(8, "big")
        c.test_timestamp(c.make_timestamp(), 0)
        return
    if case == "edge":
        ((u, ns, clock),) = clocks(env, [i["u"]], 10 ** 18)
        for back in (0, 1, i["ttl"], i["ttl"] + 1, i["ttl"] - 1):
            made = i["now"] - back
            if not 0 <= made < 256 ** i["size"]:
                continue
            for frac in (0, ns - 1):
                env.clock.fixed = 10 ** 18 + i["now"] * ns + frac
                for order in ("big", "little"):
                    expect(env, clock, u, made.to_bytes(i["size"], order),
                           i["ttl"], back, order, C)
        return
    for u, ns, clock in clocks(env, [i["u"]] if "u" in i else UNITS,
                               i["epoch"]):
        if case == "test":
            if i["now"] < i["epoch"]:
                continue
            env.clock.fixed = i["now"]
            for order in ("big", "little"):
                d = (i["now"] - i["epoch"]) // ns - int.from_bytes(
                    i["stamp"], order)
                expect(env, clock, u, i["stamp"], i["ttl"], d, order, C)
            continue
        if i["now"] < i["epoch"] or i["then"] < i["epoch"]:
            continue
        want = (i["now"] - i["epoch"]) // ns
        late = (i["then"] - i["epoch"]) // ns
        for a in (0, 1):
            env.clock.fixed = i["now"]
            t = env.call(clock, "time", is_async=a)
            assert t == want and type(t) is int, f"{u}: {t} is not {want}"
            for size in {i["size"], 4, 8}:
                for order in ("big", "little"):
                    env.clock.fixed = i["now"]
                    try:
                        ts = env.call(clock, "make_timestamp", size=size,
                                      byte_order=order, is_async=a)
                    except OverflowError:
                        assert want >= 256 ** size, (
                            f"{u}: {want} refused in {size} bytes")
                        continue
                    assert len(ts) == size, f"{u}: {len(ts)} bytes"
                    env.clock.fixed = i["then"]
                    got = env.call(clock, "read_timestamp", ts,
                                   byte_order=order, is_async=a)
                    assert got == want, f"{u}: reads {got}, not {want}"
                    d = env.call(clock, "delta", ts, byte_order=order,
                                 is_async=a)
                    assert d == late - want, (
                        f"{u}: delta {d}, not {late - want}")
                    expect(env, clock, u, ts, late - want, d, order, C)
                    expect(env, clock, u, ts, late - want - 1, d, order, C)
