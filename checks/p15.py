"""
P15  clocks

time      whole units since the epoch, for every instant and epoch
stamp     make -> read is the identity on every time that fits, refusal
          otherwise; delta = now - stamp for two different instants
test      raises exactly when the delta exceeds the limit, with unit and
          excess; silent when there is no limit
"""
from checks.p15_units import UNITS
from vf import core
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 2
BUDGET = 60
ASSUMPTIONS = []
BIGT = 1 << 200


def now(c, name, lo=0):
    t = c.int(name, 0, BIGT)
    c.state["time_ns"] = lambda: t
    return t


def whole(c, t, epoch, ns):
    """the number of whole units between two instants, as a relation"""
    q = c.fresh_int("units")
    d = num(t) - num(epoch)
    c.assume(q * ns <= d)
    c.assume(d < (q + 1) * ns)
    return core.mkint(q)


def clk(pkg):
    return pkg.asynchs.Clock


def time(pkg, unit, a):
    def fn(c):
        e = c.int("epoch", 0, BIGT)
        clock = clk(pkg)(unit, epoch=e)
        t = now(c, "now")
        c.assume(num(t) >= num(e))
        r = attempt(clock.atime if a else clock.time)
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        c.prove(r.value == whole(c, t, e, UNITS[unit]), "whole units")
    return fn


def later(pkg, unit):
    """time never runs backwards, also before the epoch"""
    def fn(c):
        e = c.int("epoch", 0, BIGT)
        clock = clk(pkg)(unit, epoch=e)
        t0 = now(c, "now")
        x = attempt(clock.time).get()
        t1 = now(c, "then")
        c.assume(num(t1) >= num(t0))
        y = attempt(clock.time).get()
        c.prove(y >= x, "does not run backwards")
    return fn


def stamp(pkg, unit, size, order, a):
    C = clk(pkg)

    def fn(c):
        e = c.int("epoch", 0, BIGT)
        clock = C(unit, epoch=e)
        t0 = now(c, "now")
        c.assume(num(t0) >= num(e))
        made = whole(c, t0, e, UNITS[unit])
        r = attempt(clock.amake_timestamp if a else clock.make_timestamp,
                    size=size, byte_order=order)
        if not r.ok:
            c.prove(isinstance(r.exc, OverflowError), "overflow error",
                    info=repr(r.exc))
            c.prove(made >= 256 ** size, "refused => does not fit")
            c.cover("refused")
            return
        c.prove(made < 256 ** size, "made => fits")
        c.prove(L(r.value) == size, "size")
        q = attempt(clock.aread_timestamp if a else clock.read_timestamp,
                    r.value, byte_order=order)
        if not q.ok:
            c.fail("reads", info=repr(q.exc))
            return
        c.prove(q.value == made, "reads back")
        t1 = now(c, "then")
        c.assume(num(t1) >= num(e))
        d = attempt(clock.adelta if a else clock.delta, r.value,
                    byte_order=order)
        if not d.ok:
            c.fail("delta", info=repr(d.exc))
            return
        c.prove(d.value == whole(c, t1, e, UNITS[unit]) - made, "delta")
        c.cover("made")
    return fn


def test(pkg, unit, size, order, a):
    C = clk(pkg)

    def fn(c):
        e = c.int("epoch", 0, BIGT)
        clock = C(unit, epoch=e)
        t = now(c, "now")
        c.assume(num(t) >= num(e))
        ts = c.bytes("stamp", size)
        made = core.int_from_bytes(ts, order)
        delta = whole(c, t, e, UNITS[unit]) - made
        f = clock.atest_timestamp if a else clock.test_timestamp
        ttl = c.int("ttl", -BIGT, BIGT)
        r = attempt(f, ts, ttl, byte_order=order)
        if r.ok:
            c.prove(delta <= ttl, "silent => within the limit")
            c.cover("silent")
        else:
            x = r.exc
            c.prove(isinstance(x, C.TimestampExpired), "expiry error",
                    info=repr(x))
            if isinstance(x, C.TimestampExpired):
                c.prove(delta > ttl, "raised => beyond the limit")
                c.prove(x.units == unit, "names the unit", info=repr(x.units))
                c.prove(x.expired_by == delta - ttl, "reports the excess")
            c.cover("raised")
        r = attempt(f, ts, None, byte_order=order)
        c.prove(r.ok, "no limit, no error", info=repr(r.exc))
    return fn


def proofs(pkg):
    F = ["asynchs/clocks.py"]
    for u in UNITS:
        for a in (0, 1):
            yield Proof(f"time[{u},{a}]", time(pkg, u, a), functions=F,
                        min_obligations=1)
            for size in (1, 4, 8, 16):
                for order in ("big", "little"):
                    yield Proof(f"stamp[{u},{size},{order},{a}]",
                                stamp(pkg, u, size, order, a), functions=F,
                                min_obligations=5)
                    yield Proof(f"test[{u},{size},{order},{a}]",
                                test(pkg, u, size, order, a), functions=F,
                                min_obligations=6)
        yield Proof(f"later[{u}]", later(pkg, u), functions=F,
                    min_obligations=1)
