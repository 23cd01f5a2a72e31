"""
P16  guards sharing one pair of deques

State (any number of guards): the queue holds the waiting guards in order of
arrival, with a running exclusive guard at its head; the observers hold one
entry per running non-exclusive guard to the left of one entry per waiting or
running exclusive guard.  Every step of the real code is run from an arbitrary
such state and proved to (a) let a guard in only when nobody conflicting is
inside and it is first in the queue, (b) let it in whenever that is so, and
(c) lead to such a state again.
"""
from collections import deque

import z3

from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 120
M = "aiootp.asynchs.guards.concurrency_guard"
LOOPS = [(M, "ConcurrencyGuard.__aenter__"), (M, "ConcurrencyGuard.__enter__")]
ASSUMPTIONS = [
    "steps of coroutines interleave only at awaits; for threads the proof "
    "treats everything between two sleeps as one step, interleavings of "
    "threads at every source line are covered by the bounded check",
]
POL = dict(E="Exclusive", N="NonExclusive", M="QueueManually",
           O="NonExclusiveQueueManually")


def lost(what):
    raise core.Unsupported(f"data invariant lost: {what}")


class Seq(deque):
    """
    a deque of symbolic length: items and runs (pick, count) of `count`
    further elements, each of which is whatever `pick` returns
    """

    def __init__(self, parts):
        super().__init__()
        self.parts = [list(p) if isinstance(p, tuple) else p for p in parts]

    def trim(self, left):
        """make the outermost part an item or the deque empty"""
        i = 0 if left else -1
        while self.parts:
            p = self.parts[i]
            if not isinstance(p, list):
                return p
            if p[1] > 0:        # forks
                p[1] = p[1] - 1
                x = p[0]()
                if left:
                    self.parts.insert(0, x)
                else:
                    self.parts.append(x)
                return x
            self.parts.pop(i)
        raise IndexError("empty deque")

    def append(self, x):
        self.parts.append(x)

    def appendleft(self, x):
        self.parts.insert(0, x)

    def pop(self):
        x = self.trim(False)
        self.parts.pop()
        return x

    def popleft(self):
        x = self.trim(True)
        self.parts.pop(0)
        return x

    def __getitem__(self, i):
        if i not in (0, -1):
            lost("deque indexed in the middle")
        return self.trim(i == 0)

    def __len__(self):
        lost("length of a shared deque")

    def __bool__(self):
        try:
            self.trim(True)
            return True
        except IndexError:
            return False

    def __iter__(self):
        lost("iteration over a shared deque")

    def clear(self):
        self.parts = []

    def remove(self, x):
        for k, p in enumerate(self.parts):
            if p is x:
                del self.parts[k]
                return
        lost("removal from the middle of a shared deque")

    def __contains__(self, x):
        return any(p is x for p in self.parts)


class Sys:
    """an arbitrary state of the system with one guard of interest"""

    def __init__(self, c, pkg, kind, where):
        G = pkg.asynchs.ConcurrencyGuard
        P = G.policies
        self.c, self.kind, self.ex = c, kind, kind in "EM"
        self.other = {k: G(pkg.asynchs.guards.DequePair(),
                           policy=getattr(P, POL[k])()) for k in "EN"}
        for g in self.other.values():
            g._use_tracker.transition_to_pending()
        self.a = c.int("running.nonexclusive", 0)       # other guards
        self.b = c.int("exclusives", 0)                 # other guards
        self.er = False
        self.pair = G.DequePair(queue=Seq([]), observers=Seq([]))
        self.Q, self.O = self.pair.queue, self.pair.observers
        self.g = G(self.pair, policy=getattr(P, POL[kind])())
        self.where = where

    def pick_waiting(self):
        return self.other["E" if self.c.decide(
            z3.Bool(self.c._fresh("waits.exclusive"))) else "N"]

    def set(self):
        """the state while the guard of interest is unused/waiting/running"""
        c, g = self.c, self.g
        w = self.where
        queued = w == "pending" or (w == "unused" and self.kind in "MO")
        pre = c.int("ahead", 0) if queued else None
        post = c.int("behind", 0)
        self.pre, self.post = pre, post
        q = []
        # is another exclusive guard running? then it heads the queue, and
        # nobody else is inside
        self.er = c.decide(z3.Bool("exclusive.running")) \
            if w != "running" or not self.ex else False
        if self.er:
            c.assume(num(self.a) == 0)
            c.assume(num(self.b) >= 1)
            if w == "running":
                # a non-exclusive guard is inside: impossible state
                raise core.ProofStop
            q.append(self.other["E"])
        if queued:
            q.append((self.pick_waiting, pre))
            q.append(g)
        elif w == "running" and self.ex:
            q.append(g)
            c.assume(num(self.a) == 0)
        q.append((self.pick_waiting, post))
        own_n = int(w == "running" and not self.ex)
        own_e = int(w in ("pending", "running") and self.ex)
        self.n0, self.e0 = self.a + own_n, self.b + own_e
        self.Q.parts = [list(p) if isinstance(p, tuple) else p for p in q]
        self.O.parts = [[lambda: self.other["N"], self.n0],
                        [lambda: self.other["E"], self.e0]]
        self.pre_parts = list(map(repr_part, self.Q.parts))

    def observers(self):
        """(non-exclusive entries, exclusive entries); order checked"""
        n, e = 0, 0
        seen_e = False
        for p in self.O.parts:
            if isinstance(p, list):
                k, m = p[0]().policy.is_exclusive(), p[1]
            else:
                k, m = p.policy.is_exclusive(), 1
            if not core.is_sym(m) and m == 0:
                continue
            if k:
                e, seen_e = e + m, True
            else:
                if seen_e and self.c.entails(num(e) > 0) and \
                        self.c.entails(num(m) > 0 if core.is_sym(m)
                                       else z3.BoolVal(m > 0)):
                    lost("order of the observers")
                n = n + m
        return n, e

    def settle(self, n, e, what):
        """the observers count n running non-exclusives, e exclusives"""
        x, y = self.observers()
        if not self.c.entails(z3.And(zi(x) == zi(n), zi(y) == zi(e))):
            lost(f"observers {what}")
        self.c.prove(core.mkbool(z3.And(zi(x) == zi(n), zi(y) == zi(e))),
                     f"observers {what}")


def zi(x):
    e = num(x)
    return e if core.isz(e) else z3.IntVal(e)


def repr_part(p):
    return p


def status(g):
    return [n for n in ("is_unused", "is_pending", "is_running", "is_done",
                        "has_faulted") if getattr(g, n)()]


class Wait:
    """the waiting loop: others may have done anything in between"""

    def __init__(self, s):
        self.s = s
        self.reached = False

    def head(self, c, vals):
        s = self.s
        g = s.g
        if vals:
            lost("the waiting loop carries state")
        if not self.reached:
            self.reached = True
            # the steps before the loop: pending, queued last, observed
            c.prove(status(g) == ["is_pending"], "waiting reports pending",
                    info=repr(status(g)))
            manual = s.kind in "MO"
            if not manual and (not s.Q.parts or s.Q.parts[-1] is not g):
                lost("queueing")
            if sum(p is g for p in s.Q.parts) != 1:
                lost("queued once")
            s.settle(s.n0, s.e0 + int(s.ex), "after arrival")
            c.cover("arrived")
        s.where = "pending"
        s.set()
        return vals

    def back(self, c, vals):
        s = self.s
        # not let in: there must be a reason, and nothing changed
        c.prove(status(s.g) == ["is_pending"], "still pending")
        free = [core.bnot(core.mkbool(z3.BoolVal(s.er))), s.pre == 0]
        if s.ex:
            free.append(s.a == 0)
        c.prove(core.bnot(core.band(*free)),
                "kept waiting => something is in its way")
        s.settle(s.n0, s.e0, "while waiting")
        c.cover("waits")
        raise core.ProofStop


def enter(pkg, kind, a):
    def fn(c):
        s = Sys(c, pkg, kind, "unused")
        s.set()
        g = s.g
        w = Wait(s)
        name = "__aenter__" if a else "__enter__"
        c.cuts[repr((M, f"ConcurrencyGuard.{name}", 0))] = w
        r = attempt(getattr(g, name))
        if not w.reached:
            lost("the waiting loop")
        if not r.ok:
            c.fail("enters without an error", info=repr(r.exc))
            return
        c.prove(r.value is g, "returns the guard")
        c.prove(status(g) == ["is_running"], "running", info=status(g))
        c.prove(not s.er, "enters => no exclusive guard is inside")
        if s.ex:
            c.prove(s.a == 0, "enters exclusively => nobody is inside")
        c.prove(s.pre == 0, "enters => first in the queue")
        # bookkeeping: an exclusive guard keeps its place, others leave it
        try:
            head = s.Q[0]
        except IndexError:
            head = None
        if s.ex:
            if head is not g:
                lost("the running exclusive guard heads the queue")
            s.settle(s.n0, s.e0, "after entering")
        else:
            if any(p is g for p in s.Q.parts):
                lost("the running non-exclusive guard left the queue")
            s.settle(s.n0 + 1, s.e0, "after entering")
        c.cover("enters")
    return fn


def leave(pkg, kind, a, raised):
    def fn(c):
        s = Sys(c, pkg, kind, "running")
        g = s.g
        g._use_tracker.transition_to_pending()
        g._use_tracker.transition_to_running()
        s.set()
        exc = ValueError("body")
        args = (ValueError, exc, None) if raised else (None, None, None)
        r = attempt(getattr(g, "__aexit__" if a else "__exit__"), *args)
        if not r.ok:
            c.fail("leaves without an error", info=repr(r.exc))
            return
        if raised:
            c.prove(not r.value, "the body's error propagates")
        c.prove(status(g) == ["is_done"], "done", info=status(g))
        c.prove(not any(p is g for p in s.Q.parts),
                "leaves => not in the queue")
        others = [p for p in s.Q.parts if isinstance(p, list)]
        if len(others) != 1 or not c.entails(
                zi(others[0][1]) == zi(s.post)) or len(s.Q.parts) != 1:
            lost("the others keep their places")
        s.settle(s.a, s.b, "after leaving")
        c.cover("left")
    return fn


def proofs(pkg):
    F = ["asynchs/guards/concurrency_guard.py", "asynchs/guards/policies.py",
         "asynchs/guards/state_machine.py"]
    for kind in POL:
        for a in (0, 1):
            yield Proof(f"enter[{kind},{a}]", enter(pkg, kind, a),
                        functions=F, min_obligations=6)
            for raised in (0, 1):
                yield Proof(f"leave[{kind},{a},{raised}]",
                            leave(pkg, kind, a, raised), functions=F,
                            min_obligations=2)
