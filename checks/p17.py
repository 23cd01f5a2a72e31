"""
P17  guard life cycle and target managers

tracker   the complete transition relation (5 states x 4 operations)
refuse    entering a guard that is not unused raises and leaves the shared
          deques as they were
register  a manager gives a guard the deques of its target's state, adds one
          user there and touches no other target; a guard that cannot take
          them leaves no trace
forget    leaving removes one user and forgets the target exactly when no
          user, no queued and no observing guard remains
managed   every way into and out of a managed guard, over the contracts of
          the guard it extends: users are balanced on success, failure and
          errors of the body
"""
import z3

from checks.p16 import POL, Seq, Sys, lost, status, zi
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 2
BUDGET = 120
G = "aiootp.asynchs.guards.concurrency_guard"
ASSUMPTIONS = [
    "threading.Lock excludes (with self._resource_lock): the registration "
    "and the clean-up of a target are single steps",
]
OPS = ("transition_to_pending", "transition_to_running", "transition_to_done",
       "enter_fault_state")
STATES = ("unused", "pending", "running", "done", "faulted")
PATH = dict(unused=[], pending=OPS[:1], running=OPS[:2], done=OPS[:3],
            faulted=OPS[3:])
NEXT = {("unused", OPS[0]): "pending", ("pending", OPS[1]): "running",
        ("running", OPS[2]): "done"}


def flag(s):
    return ["has_faulted" if s == "faulted" else f"is_{s}"]


def tracker(pkg):
    T = pkg.asynchs.ConcurrencyGuard._UseTracker
    Bad = pkg.asynchs.ConcurrencyGuard.InvalidStateTransition

    def fn(c):
        for s in STATES:
            for op in OPS:
                t = T()
                for p in PATH[s]:
                    getattr(t, p)()
                c.prove(status(t) == flag(s), f"reports {s}",
                        info=repr(status(t)))
                r = attempt(getattr(t, op))
                if (s, op) in NEXT:
                    c.prove(r.ok, f"{s}: {op} allowed", info=repr(r.exc))
                    c.prove(status(t) == flag(NEXT[s, op]),
                            f"{s}: {op} reported", info=repr(status(t)))
                elif op == OPS[3]:
                    c.prove(status(t) == flag("faulted"), f"{s}: fault")
                else:
                    c.prove(r.raised(Bad), f"{s}: {op} refused",
                            info=repr(r.exc))
                    c.prove(status(t) == flag("faulted"),
                            f"{s}: refused {op} faults",
                            info=repr(status(t)))
                r = attempt(t.__init__)
                c.prove(r.raised(Bad), "cannot be reset", info=repr(r.exc))
    return fn


def refuse(pkg, kind, state, a):
    Bad = pkg.asynchs.ConcurrencyGuard.InvalidStateTransition

    def fn(c):
        s = Sys(c, pkg, kind, "unused")
        g = s.g
        for p in PATH[state]:
            getattr(g._use_tracker, p)()
        s.set()
        q, o = list(s.Q.parts), list(s.O.parts)
        r = attempt(g.__aenter__ if a else g.__enter__)
        c.prove(r.raised(Bad), "refused", info=repr(r.exc))
        c.prove(len(q) == len(s.Q.parts) and all(
            x is y for x, y in zip(q, s.Q.parts)), "queue untouched")
        c.prove(len(o) == len(s.O.parts) and all(
            x is y for x, y in zip(o, s.O.parts)), "observers untouched")
    return fn


class Mgr:
    """a manager with an arbitrary state of target t, and another target"""

    def __init__(self, c, pkg, present=None):
        self.c = c
        asy = pkg.asynchs
        self.m = asy.MultiConcurrencyGaurd()
        T = self.m.targets
        self.u = u = T._TargetState()
        object.__setattr__(u, "users", Seq([(lambda: None,
                                             c.int("other.users", 1))]))
        T["u"] = u
        self.uparts = (u.deques, u.users, list(u.users.parts))
        self.present = c.decide(z3.Bool("present")) if present is None \
            else present
        self.n = 0
        if self.present:
            self.s = s = T._TargetState()
            self.n = c.int("users", 1)
            object.__setattr__(s, "users", Seq([(lambda: None, self.n)]))
            T["t"] = s
            self.q, self.o = c.int("queued", 0), c.int("observing", 0)
            for d, k in (("queue", self.q), ("observers", self.o)):
                object.__setattr__(s.deques, d, Seq([(lambda: None, k)]))

    def untouched(self):
        T = self.m.targets
        u = self.u
        self.c.prove(T.get("u") is u and u.deques is self.uparts[0]
                     and u.users is self.uparts[1]
                     and u.users.parts == self.uparts[2],
                     "the other target is untouched")

    def users(self, s):
        k = 0
        for p in parts(s.users):
            k = k + (p[1] if isinstance(p, list) else 1)
        return k


def parts(d):
    return d.parts if type(d) is Seq else list(d)


def register(pkg, used, a):
    def fn(c):
        m = Mgr(c, pkg)
        T = m.m.targets
        g = m.m.guard("t") if c.decide(z3.Bool("exclusive")) else \
            m.m.monitor("t")
        if used:
            g._set_deques(pkg.asynchs.ConcurrencyGuard.DequePair())
        r = attempt(m.m._ainitialize_guard if a else m.m._initialize_guard,
                    "t", g)
        m.untouched()
        if used:
            c.prove(not r.ok, "refused")
            if m.present:
                c.prove(T.get("t") is m.s, "the target is kept")
                c.prove(m.users(m.s) == m.n, "no user is added")
            else:
                c.prove("t" not in T, "no target is added")
            return
        if not r.ok:
            c.fail("registers", info=repr(r.exc))
            return
        s = T.get("t")
        c.prove(s is not None, "the target is known")
        if m.present:
            c.prove(s is m.s, "the target's state is shared")
        c.prove(g.deques is s.deques and g.queue is s.deques.queue
                and g.observers is s.deques.observers,
                "the guard uses the target's deques")
        c.prove(s.deques is not m.u.deques, "targets do not share deques")
        c.prove(m.users(s) == m.n + 1, "one user is added")
    return fn


def forget(pkg, a):
    def fn(c):
        m = Mgr(c, pkg, present=True)
        T = m.m.targets
        r = attempt(m.m._acleanup_references if a
                    else m.m._cleanup_references, "t")
        if not r.ok:
            c.fail("cleans up", info=repr(r.exc))
            return
        m.untouched()
        last = core.band(m.n == 1, m.q == 0, m.o == 0)
        if "t" in T:
            c.prove(T["t"] is m.s, "the state is kept")
            c.prove(core.bnot(last), "kept => still in use")
            c.prove(m.users(m.s) == m.n - 1, "one user is removed")
            c.cover("kept")
        else:
            c.prove(last, "forgotten => last user left")
            c.cover("forgotten")
        c.prove(not m.m._resource_lock.locked(), "the lock is released")
    return fn


class Boom(Exception):
    pass


def managed(pkg, step, a):
    def fn(c):
        m = Mgr(c, pkg)
        T = m.m.targets
        g = m.m.guard("t") if c.decide(z3.Bool("exclusive")) else \
            m.m.monitor("t")
        fails = c.decide(z3.Bool("fails"))

        def spec(*_):
            if fails:
                raise Boom
            return g if step == "enter" else True

        async def aspec(*_):
            return spec()
        q = "ConcurrencyGuard.__{}{}__"
        before = m.n
        if step == "exit":
            attempt(m.m._initialize_guard, "t", g).get()
            before = m.n + 1
        calls = []

        def sub(c, f, *x, **k):
            calls.append(x)
            return aspec() if a else spec()
        c.contracts[(G, q.format("a" * a, step))] = sub
        args = ()
        if step == "exit":
            raised = c.decide(z3.Bool("raised"))
            args = (Boom, Boom(), None) if raised else (None, None, None)
        r = attempt(getattr(g, f"__{'a' * a}{step}__"), *args)
        if not calls:
            lost("the guard's own step")
        m.untouched()
        s = T.get("t")
        if fails:
            c.prove(r.raised(Boom), "the error propagates", info=repr(r.exc))
        else:
            c.prove(r.ok, "no error", info=repr(r.exc))
        if step == "enter" and r.ok:
            c.prove(r.value is g, "returns the guard")
            c.prove(s is not None, "the target is known")
            c.prove(m.users(s) == before + 1, "one more user")
        elif step == "enter":
            if s is None:
                c.prove(not m.present or core.band(
                    zi(m.n) == 0), "forgotten => nobody used it")
            else:
                c.prove(m.users(s) == before, "no user is left behind")
        else:
            if s is None:
                c.prove(before == 1, "forgotten => it was the last user")
            else:
                c.prove(m.users(s) == before - 1, "one user less")
                c.prove(core.bnot(core.band(
                    before == 1, (m.q if m.present else 0) == 0,
                    (m.o if m.present else 0) == 0)),
                    "kept => still in use")
        c.prove(not m.m._resource_lock.locked(), "the lock is released")
    return fn


def proofs(pkg):
    S = ["asynchs/guards/state_machine.py"]
    F = ["asynchs/guards/manager.py"]
    yield Proof("tracker", tracker(pkg), functions=S, min_obligations=60)
    for a in (0, 1):
        for kind in POL:
            for s in STATES[1:]:
                yield Proof(f"refuse[{kind},{s},{a}]",
                            refuse(pkg, kind, s, a), functions=S + [
                                "asynchs/guards/concurrency_guard.py"],
                            min_obligations=3)
        for used in (0, 1):
            yield Proof(f"register[{used},{a}]", register(pkg, used, a),
                        functions=F, min_obligations=4)
        yield Proof(f"forget[{a}]", forget(pkg, a), functions=F,
                    min_obligations=4)
        for step in ("enter", "exit"):
            yield Proof(f"managed[{step},{a}]", managed(pkg, step, a),
                        functions=F, min_obligations=4)
