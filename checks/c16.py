"""bounded stand-in for P16: every interleaving of small groups of guards"""
import itertools
import random
import time

from checks import guards_lib as gl

KINDS = "ENMO"      # exclusive, non-exclusive, and both queued manually


def cases(env):
    # targeted ones first: the exhaustive ones may meet the budget
    yield "shared", {}
    for kinds in ("EE", "EN", "NE"):
        for a in (0, 1):
            yield "patience", dict(kinds=kinds, a=a)
    for kind in "EN":
        for a in (0, 1):
            yield "fault", dict(kind=kind, a=a)
    yield "cancelled-waiter", {}
    for n in (1, 2, 3):
        for kinds in itertools.product("EN", repeat=n):
            yield "async", dict(kinds="".join(kinds), raises=[],
                                steps=1)
            yield "async", dict(kinds="".join(kinds),
                                raises=list(range(n)), steps=0)
    for n in (1, 2, 3):
        for kinds in itertools.product("ENMO", repeat=n):
            if set(kinds) & set("MO"):
                yield "async", dict(kinds="".join(kinds), raises=[0],
                                    steps=0)
    for kinds in itertools.product("EN", repeat=4):
        yield "async", dict(kinds="".join(kinds), raises=[1], steps=0)
    for kinds in ("EE", "EN", "NE", "NN", "EEE", "ENE", "NEN", "NNE",
                  "ENN", "NEE", "EEN"):
        yield "threads", dict(kinds=kinds)
    for kinds in ("ENENNE", "EEEEE", "NENENE", "NNENNE"):
        for seed in range(4):
            yield "random", dict(kinds=kinds, seed=seed)
            yield "random", dict(kinds=kinds, seed=seed, threads=1)


def make_guard(env, kind, deques):
    from aiootp.asynchs.guards.concurrency_guard import ConcurrencyGuard as G
    p = G.policies
    policy = dict(E=None, N=p.NonExclusive, M=p.QueueManually,
                  O=p.NonExclusiveQueueManually)[kind]
    return G(deques, policy=policy and policy())


def maker(env, kinds, raises=(), steps=0, sync=False):
    from aiootp.asynchs.guards.concurrency_guard import DequePair

    def make():
        d = DequePair()
        gs = [make_guard(env, k, d) for k in kinds]
        w = gl.World(gs, [k in "EM" for k in kinds], lambda i: d.queue,
                     strict=not sync)
        for g, k in zip(gs, kinds):
            if k in "MO":
                d.queue.append(g)
        w.observe()

        def user(i):
            async def run():
                async with gs[i] as x:
                    assert x is gs[i]
                    w.enter(i)
                    for _ in range(steps):
                        await gl._pause()
                    w.exit(i)
                    if i in raises:
                        raise gl.Body

            def srun():
                with gs[i]:
                    w.enter(i)
                    time.sleep  # noqa
                    w.exit(i)
                    if i in raises:
                        raise gl.Body
            return srun if sync else run

        def key(w):
            return (tuple(map(id_of(gs), d.queue)),
                    tuple(map(id_of(gs), d.observers)),
                    tuple(status(g) for g in gs))

        def end(w):
            for i, g in enumerate(gs):
                if not g.is_done():
                    raise gl.Bad(f"guard {i} left but reports {status(g)}")
            if d.queue or d.observers:
                raise gl.Bad(f"left over: queue {list(d.queue)} observers "
                             f"{list(d.observers)}")
            if set(raises) - set(w.errors) and not sync:
                raise gl.Bad("the error of a guarded body was swallowed")
        return w, [user(i) for i in range(len(gs))], key, end
    return make


def fault(env, i, manager=None):
    """a guard which faults while it waits takes its entries with it"""
    from aiootp.asynchs.guards.concurrency_guard import (
        ConcurrencyGuard as G, DequePair)
    base = G.policies.Exclusive if i["kind"] == "E" \
        else G.policies.NonExclusive

    class Policy(base):
        __slots__ = ()

        def notify_on(self, guard):
            super().notify_on(guard)
            guard._use_tracker.enter_fault_state()

    if manager:
        make = manager.guard if i["kind"] == "E" else manager.monitor
        g = make("x", policy=Policy())
    else:
        g = G(DequePair(), policy=Policy())
    try:
        if i["a"]:
            env.run(g.__aenter__())
        else:
            g.__enter__()
    except G.InvalidStateTransition:
        pass
    else:
        return "a faulted guard entered"
    if g.queue or g.observers:
        return "a guard which failed to enter left its entries behind"
    if not g.has_faulted():
        return f"a faulted guard reports {status(g)}"


def id_of(gs):
    ids = {id(g): i for i, g in enumerate(gs)}
    return lambda g: ids.get(id(g))


def status(g):
    return tuple(n for n in ("is_unused", "is_pending", "is_running",
                             "is_done", "has_faulted") if getattr(g, n)())


def check(env, case, i):
    try:
        return inner(env, case, i)
    except gl.Bad as b:
        return f"{i.get('kinds')}: {b}"


def inner(env, case, i):
    until = time.monotonic() + 30
    if case == "async":
        with gl.async_time():
            x = gl.Coroutines(maker(env, i["kinds"], i["raises"],
                                    i["steps"]))
            x.explore(until=until)
            gl.Coroutines.graveyard.clear()
    elif case == "threads":
        t = gl.Threads(maker(env, i["kinds"], sync=True))
        n = len(i["kinds"])
        q = env.tier == "quick"
        orders = list(itertools.permutations(range(n)))
        rng = random.Random(env.seed)
        for order in orders:
            points = t.run(list(order), {})
            plans = [{p: k} for p in range(1, points + 1) for k in range(n)]
            rng.shuffle(plans)
            for plan in plans[:(400, 100)[q] if n == 2 else (120, 20)[q]]:
                t.run(list(order), plan)
                if time.monotonic() > until:
                    return
            for _ in range((300, 60)[q] if n == 2 else (120, 20)[q]):
                plan = {rng.randrange(1, points + 1): rng.randrange(n)
                        for _ in range(rng.choice((2, 3, 6)))}
                t.run(list(order), plan)
                if time.monotonic() > until:
                    return
    elif case == "random":
        rng = random.Random(i["seed"] + env.seed)
        n = len(i["kinds"])
        if i.get("threads"):
            t = gl.Threads(maker(env, i["kinds"], sync=True))
            for _ in range(40):
                order = rng.sample(range(n), n)
                t.run(order, {rng.randrange(1, 300): rng.randrange(n)
                              for _ in range(rng.choice((1, 3, 20, 100)))})
            return
        with gl.async_time():
            for _ in range(60):
                x = gl.Coroutines(maker(env, i["kinds"],
                                        [rng.randrange(n)], 2))
                w, users, key, end = x.make()
                cos = [u() for u in users]
                alive = set(range(n))
                path = []
                for _ in range(5000):
                    if not alive:
                        break
                    k = rng.choice(sorted(alive))
                    path.append(k)
                    try:
                        x.step(w, cos, alive, k)
                    except gl.Bad as b:
                        raise gl.Bad(f"{b}; schedule {path}")
                if alive:
                    raise gl.Bad(f"guards {alive} never entered; {path}")
                end(w)
    elif case == "patience":
        # however long the holder stays, the waiter waits
        import asyncio
        from aiootp.asynchs.guards.concurrency_guard import DequePair
        d = DequePair()
        holder, waiter = (make_guard(env, k, d) for k in i["kinds"])
        probes, left = 0, 0

        def probe(*_):
            nonlocal probes, left
            probes += 1
            if probes == 1000000:
                left = 1
                holder.__exit__()

        async def aprobe(*_):
            probe()
        holder.__enter__()
        undo = gl.patched([time.sleep], probe)
        undo += gl.patched([asyncio.sleep], aprobe)
        try:
            if i["a"]:
                env.run(waiter.__aenter__())
            else:
                waiter.__enter__()
        finally:
            gl.restore(undo)
        if not left:
            return f"the second of {i['kinds']} entered after {probes} probes"
        waiter.__exit__()
        assert not d.queue and not d.observers, "bookkeeping left over"
    elif case == "fault":
        return fault(env, i)
    elif case == "shared":
        # under the real event loop, many tasks
        import asyncio
        from aiootp.asynchs.guards.concurrency_guard import DequePair

        async def go():
            d = DequePair()
            inside = []
            order = []

            async def user(n, kind):
                async with make_guard(env, kind, d):
                    order.append(n)
                    inside.append(kind)
                    if "E" in inside and len(inside) > 1:
                        raise gl.Bad(f"inside together: {inside}")
                    await asyncio.sleep(0)
                    inside.remove(kind)
            rng = random.Random(3)
            ks = [rng.choice("EEN") for _ in range(40)]
            await asyncio.wait_for(asyncio.gather(
                *(user(n, k) for n, k in enumerate(ks))), 20)
            if order != sorted(order):
                raise gl.Bad(f"entered out of order: {order}")
            if d.queue or d.observers:
                raise gl.Bad("bookkeeping left over")
        env.run(go())
    elif case == "cancelled-waiter":
        import asyncio
        from aiootp.asynchs.guards.concurrency_guard import DequePair

        async def go():
            d = DequePair()
            first = make_guard(env, "E", d)

            async def waiter():
                async with make_guard(env, "E", d):
                    pass
            async with first:
                t = asyncio.ensure_future(waiter())
                for _ in range(5):
                    await asyncio.sleep(0.001)
                t.cancel()
                try:
                    await t
                except asyncio.CancelledError:
                    pass
            try:
                await asyncio.wait_for(waiter(), 2)
            except asyncio.TimeoutError:
                return ("a guard whose task was cancelled while waiting "
                        "blocks every later guard")
        return env.run(go())
