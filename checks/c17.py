"""bounded stand-in for P17: status histories; managers under interleavings"""
import itertools
import random
import time

from checks import guards_lib as gl
from checks.c16 import fault, make_guard, status

OPS = ("transition_to_pending", "transition_to_running", "transition_to_done",
       "enter_fault_state")
NEXT = {("unused", OPS[0]): "pending", ("pending", OPS[1]): "running",
        ("running", OPS[2]): "done"}


def cases(env):
    for n in range(0, 5):
        for ops in itertools.product(OPS, repeat=n):
            yield "tracker", dict(ops=list(ops))
    for kind in "ENMO":
        for a in (0, 1):
            yield "reuse", dict(kind=kind, a=a)
            for managed in (0, 1):
                yield "managed-reuse", dict(kind=kind, a=a)
    for n in (1, 2, 3):
        for spec in itertools.product(("Ex", "Nx", "Ey"), repeat=n):
            yield "async", dict(spec=list(spec), raises=[], steps=0)
            yield "async", dict(spec=list(spec), raises=[0, n - 1], steps=1)
    for spec in (["Ex", "Ex", "Ey", "Nx"], ["Nx", "Ex", "Ny", "Ey"],
                 ["Ex", "Ey", "Ex", "Ey"]):
        yield "async", dict(spec=spec, raises=[1], steps=0)
    for spec in (["Ex", "Ex"], ["Ex", "Nx"], ["Ex", "Ey"],
                 ["Ex", "Ey", "Nx"], ["Nx", "Ex", "Ex"]):
        yield "threads", dict(spec=spec)
    for seed in range(6):
        yield "random", dict(seed=seed)
    yield "bad", {}
    for kind in "EN":
        for a in (0, 1):
            yield "fault", dict(kind=kind, a=a)
    for a in (0, 1):
        yield "apart", dict(a=a)
    yield "unqueued-manual-guard", {}


WAITS = [0]


def gl_wait(*_):
    WAITS[0] += 1
    if WAITS[0] > 50:
        raise gl.Bad("waits for another target")


async def agl_wait(*_):
    gl_wait()


def check(env, case, i):
    try:
        return inner(env, case, i)
    except gl.Bad as b:
        return f"{i.get('spec')}: {b}"


def make_managed(m, kind, target):
    p = m.policies
    if kind == "E":
        return m.guard(target)
    if kind == "M":
        return m.guard(target, policy=p.QueueManually())
    if kind == "O":
        return m.monitor(target, policy=p.NonExclusiveQueueManually())
    return m.monitor(target)


def maker(env, spec, raises=(), steps=0, sync=False, managers=None):
    from aiootp.asynchs.guards.manager import MultiConcurrencyGaurd

    def make():
        m = MultiConcurrencyGaurd()
        if managers is not None:
            managers[:] = [m]
        gs = [make_managed(m, s[0], s[1]) for s in spec]

        def queue_of(i):
            try:
                return gs[i].queue
            except AttributeError:
                return None

        w = World17(gs, [s[0] == "E" for s in spec], queue_of,
                    strict=not sync, group=lambda i: spec[i][1])
        w.manager, w.spec, w.sync = m, spec, sync

        def user(i):
            async def run():
                async with gs[i] as x:
                    assert x is gs[i]
                    w.enter(i)
                    for _ in range(steps):
                        await gl._pause()
                    w.exit(i)
                    if i in raises:
                        raise gl.Body

            def srun():
                with gs[i]:
                    w.enter(i)
                    w.exit(i)
                    if i in raises:
                        raise gl.Body
            return srun if sync else run

        def key(w):
            return (tuple(status(g) for g in gs),
                    tuple(sorted((t, len(s.users), ids(gs, s.deques.queue),
                                  ids(gs, s.deques.observers))
                                 for t, s in m.targets.items())))

        def end(w):
            for i, g in enumerate(gs):
                if not g.is_done():
                    raise gl.Bad(f"guard {i} left but reports {status(g)}")
            if m.targets:
                raise gl.Bad(f"targets left over: {list(m.targets)}")
            if set(raises) - set(w.errors) and not sync:
                raise gl.Bad("the error of a guarded body was swallowed")
        return w, [user(i) for i in range(len(gs))], key, end
    return make


class World17(gl.World):
    def observe(self):
        super().observe()
        if self.sync:
            return
        for t in {s[1] for s in self.spec}:
            mine = [i for i, s in enumerate(self.spec) if s[1] == t]
            busy = [i for i in mine if self.guards[i].is_pending()
                    or self.guards[i].is_running()]
            if busy and t not in self.manager.targets:
                raise gl.Bad(f"target {t} forgotten while guards {busy} "
                             f"use it")
            left = all(i in self.done or i in getattr(
                self, "untouched", ()) for i in mine)
            if left and t in self.manager.targets and self.done & set(mine):
                raise gl.Bad(f"target {t} is kept although its last user "
                             f"has left")


def ids(gs, d):
    m = {id(g): i for i, g in enumerate(gs)}
    return tuple(m.get(id(g)) for g in d)


def inner(env, case, i):
    from aiootp.asynchs.guards import manager as mm
    from aiootp.asynchs.guards.concurrency_guard import (
        ConcurrencyGuard, DequePair)
    from aiootp.asynchs.guards.state_machine import (
        ConcurrencyGuardUseTracker as Tracker)
    Invalid = Tracker.InvalidStateTransition
    until = time.monotonic() + 30
    if case == "tracker":
        t = Tracker()
        g = ConcurrencyGuard(DequePair())
        object.__setattr__(g, "_use_tracker", t)
        now = "unused"
        for op in i["ops"]:
            want = NEXT.get((now, op), "faulted")
            legal = (now, op) in NEXT or op == OPS[3]
            try:
                getattr(t, op)()
            except Invalid:
                if legal:
                    return f"{now} -> {op} refused"
            else:
                if not legal:
                    return f"{now} -> {op} allowed"
            now = want
            for x in (t, g):
                s = status(x)
                w = ("has_faulted",) if now == "faulted" else (f"is_{now}",)
                if s != w:
                    return f"{s} reported after {i['ops']}, expected {w}"
        try:
            t.__init__()
        except Invalid:
            return None
        return "a tracker can be reset"
    if case == "reuse":
        d = DequePair()
        g = make_guard(env, i["kind"], d)
        if i["kind"] in "MO":
            d.queue.append(g)

        async def use():
            if i["a"]:
                async with g:
                    assert g.is_running()
            else:
                with g:
                    assert g.is_running()
        assert status(g) == ("is_unused",)
        env.run(use())
        assert status(g) == ("is_done",), status(g)
        assert not d.queue and not d.observers
        try:
            env.run(use())
        except Invalid:
            pass
        else:
            return "a used guard was entered again"
        assert not d.queue and not d.observers, (
            "a refused guard left its bookkeeping behind")
        h = make_guard(env, "E", d)
        with h:
            # re-entering the running guard
            try:
                env.run(h.__aenter__()) if i["a"] else h.__enter__()
            except Invalid:
                assert len(d.queue) == 1 and len(d.observers) == 1, (
                    "a refused guard was queued")
                # the guard is now faulted; leaving reports it
                object.__setattr__(h, "_use_tracker", Tracker())
                h._use_tracker.transition_to_pending()
                h._use_tracker.transition_to_running()
            else:
                return "a running guard was entered again"
        assert not d.queue and not d.observers
    elif case == "managed-reuse":
        m = mm.MultiConcurrencyGaurd()
        g = make_managed(m, "E" if i["kind"] in "EM" else "N", "x")

        def use(g):
            async def run():
                async with g:
                    assert "x" in m.targets

            def srun():
                with g:
                    assert "x" in m.targets
            return env.run(run()) if i["a"] else srun()
        use(g)
        assert not m.targets, "the target was not forgotten"
        try:
            use(g)
        except (Invalid, PermissionError):
            pass
        else:
            return "a used guard was entered again"
        assert not m.targets, "a refused guard keeps its target alive"
        with make_managed(m, "E", "x") as h:
            try:
                use(g)
            except (Invalid, PermissionError):
                pass
            else:
                return "a used guard was entered again"
            assert "x" in m.targets, "the target in use was forgotten"
        assert not m.targets, "a refused guard keeps its target alive"
        use(make_managed(m, "E", "x"))
        assert not m.targets
    elif case == "async":
        with gl.async_time():
            x = gl.Coroutines(maker(env, i["spec"], i["raises"], i["steps"]))
            x.explore(until=until)
            gl.Coroutines.graveyard.clear()
    elif case == "threads":
        managers = []
        t = gl.Threads(maker(env, i["spec"], sync=True, managers=managers),
                       lock=lambda: managers[0]._resource_lock.locked())
        n = len(i["spec"])
        rng = random.Random(env.seed)
        q = env.tier == "quick"
        for order in itertools.permutations(range(n)):
            points = t.run(list(order), {})
            plans = [{p: k} for p in range(1, points + 1) for k in range(n)]
            rng.shuffle(plans)
            plans = plans[:(300, 60)[q] if n == 2 else (100, 15)[q]]
            plans += [{rng.randrange(1, points + 1): rng.randrange(n)
                       for _ in range(rng.choice((2, 3, 6)))}
                      for _ in range((200, 40)[q] if n == 2 else (100, 15)[q])]
            for plan in plans:
                t.run(list(order), plan)
                if time.monotonic() > until:
                    return
    elif case == "random":
        rng = random.Random(i["seed"])
        n = 7
        with gl.async_time():
            for _ in range(60):
                spec = [rng.choice("EEN") + rng.choice("xy")
                        for _ in range(n)]
                i["spec"] = spec
                x = gl.Coroutines(maker(env, spec, [rng.randrange(n)], 2))
                w, users, key, end = x.make()
                cos = [u() for u in users]
                w.alive = alive = set(range(n))
                path = []
                for _ in range(5000):
                    if not alive:
                        break
                    k = rng.choice(sorted(alive))
                    path.append(k)
                    try:
                        x.step(w, cos, alive, k)
                    except gl.Bad as b:
                        raise gl.Bad(f"{b}; schedule {path}")
                if alive:
                    raise gl.Bad(f"guards {alive} never entered; {path}")
                end(w)
    elif case == "bad":
        m = mm.MultiConcurrencyGaurd()
        for f, p in ((m.guard, m.policies.NonExclusive()),
                     (m.monitor, m.policies.Exclusive())):
            try:
                f("x", policy=p)
            except TypeError:
                pass
            else:
                return "a policy of the wrong kind was accepted"
        assert not m.targets
    elif case == "fault":
        for inside in (0, 1):
            m = mm.MultiConcurrencyGaurd()
            other = make_managed(m, "N", "y")
            other.__enter__()
            if not inside:
                why = fault(env, i, m)
                if why:
                    return why
            else:
                # faulted in its body: leaving fails, but it leaves
                g = make_managed(m, i["kind"], "x")

                async def use():
                    if i["a"]:
                        async with g:
                            g._use_tracker.enter_fault_state()
                    else:
                        with g:
                            g._use_tracker.enter_fault_state()
                try:
                    env.run(use())
                except Invalid:
                    pass
                else:
                    return "a faulted guard left as if nothing happened"
            if "x" in m.targets:
                return "a faulted guard keeps its target alive"
            if "y" not in m.targets:
                return "a faulted guard ended another target"
            with make_managed(m, "E", "x"):
                pass
            other.__exit__()
            if m.targets:
                return "a target was not forgotten"
        # a manually queued monitor that nobody queued
        m = mm.MultiConcurrencyGaurd()
        g = make_managed(m, "O", "x")
        try:
            env.run(g.__aenter__()) if i["a"] else g.__enter__()
        except IndexError:
            pass
        else:
            return "a guard that was never queued entered"
        if m.targets:
            return "a guard that failed to enter keeps its target alive"
    elif case == "apart":
        # targets which are different keys never wait for each other
        names = [1, "1", b"1", (1,), ("1",), 1.5, "1.5", None, "None", "",
                 b"", (), 0, "0", -1, -2, frozenset(), 2 ** 61 - 2, 10 ** 30,
                 str, "x", "x ", "X", b"x", type("T", (), {})(),
                 type("T", (), {})()]
        m = mm.MultiConcurrencyGaurd()
        undo = gl.patched([time.sleep], gl_wait)
        import asyncio
        undo += gl.patched([asyncio.sleep], agl_wait)
        gs = []
        try:
            for t in names:
                WAITS[0] = 0
                g = make_managed(m, "E", t)
                env.run(g.__aenter__()) if i["a"] else g.__enter__()
                gs.append(g)
                if list(m.targets).count(t) != 1 or len(m.targets) != len(
                        gs):
                    return f"targets {list(m.targets)} after {t!r}"
            # equal keys are one target
            for t in (1.0, True, -1.0, (1.0,)):
                WAITS[0] = 0
                try:
                    g = make_managed(m, "E", t)
                    env.run(g.__aenter__()) if i["a"] else g.__enter__()
                except gl.Bad:
                    continue
                return f"{t!r} did not wait for an equal target"
        finally:
            gl.restore(undo)
    elif case == "unqueued-manual-guard":
        m = mm.MultiConcurrencyGaurd()
        g = make_managed(m, "M", "x")
        try:
            with g:
                pass
        except IndexError:
            pass
        if m.targets:
            return ("the target of a manually queued exclusive guard which "
                    "nobody queued is never forgotten")
