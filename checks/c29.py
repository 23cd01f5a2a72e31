"""
bounded stand-in for P29: real threads, and processes in a helper program
"""
import asyncio
import itertools
import json
import os
import signal
import subprocess
import sys
import time

VALUES = [None, 0, "", b"", False, [], {}, 1, "x", b"x" * 70000, [None], (),
          float("inf"), ValueError("value"), Exception]


def cases(env):
    for how in ("new", "anew", "submit", "asubmit", "anew2", "asubmit2"):
        yield "values", dict(how=how)
        yield "errors", dict(how=how)
        yield "delays", dict(how=how)
    for a, n in itertools.product((0, 1), (0, 1, 2, 5, 12)):
        yield "gather", dict(a=a, n=n)
    for a in (0, 1):
        yield "gather_errors", dict(a=a)
        yield "many", dict(a=a)
    yield "futures", {}
    for part in ("small", "large", "errors", "pool", "gather"):
        yield "processes", dict(part=part)


def check(env, case, i):
    try:
        return globals()["do_" + case](env, i)
    except AssertionError as e:
        return f"{case} {i}: {e}"


class Mine(Exception):
    pass


def value(x, *, wait=0):
    time.sleep(wait)
    return x


async def avalue(x, *, wait=0):
    await asyncio.sleep(wait)
    return x


def nested(x):
    from aiootp.asynchs import Processes
    return Processes.new(value, x)


def fail(x, *, wait=0):
    time.sleep(wait)
    raise Mine(x)


async def afail(x, *, wait=0):
    await asyncio.sleep(wait)
    raise Mine(x)


def start(env, how, sync, asyn, *x, **k):
    T = env.aiootp.asynchs.Threads
    f = asyn if how.endswith("2") else sync
    how = how.rstrip("2")
    r = getattr(T, how)(f, *x, **k)
    if how == "asubmit":
        return env.run(env.run(r).aresult())
    if how == "anew":
        return env.run(r)
    return r.result() if how == "submit" else r


def do_values(env, i):
    for wait in (0, 0.004):
        for v in VALUES:
            r = start(env, i["how"], value, avalue, v, wait=wait)
            assert r is v, f"{v!r} became {r!r}"


def quiet(f):
    """threads report uncaught errors; keep the log clean"""
    import threading
    old, threading.excepthook = threading.excepthook, lambda *a: None
    try:
        return f()
    finally:
        threading.excepthook = old


def do_errors(env, i):
    def go():
        for wait in (0, 0.004):
            try:
                r = start(env, i["how"], fail, afail, 5, wait=wait)
            except Mine as e:
                assert e.args == (5,)
            except Exception as e:
                assert i["how"].startswith(("new", "anew")), repr(e)
            else:
                assert False, f"returned {r!r} instead of raising"
    quiet(go)


def do_delays(env, i):
    ran = []

    def f(x):
        ran.append(x)
        return x

    async def af(x):
        ran.append(x)
        return x
    for bad in (0, -1, -0.001, 0.0, float("nan"), "1", b"1", [1]):
        try:
            start(env, i["how"], f, af, 1, probe_delay=bad)
            assert False, f"probe delay {bad!r} accepted"
        except (ValueError, TypeError):
            pass
    time.sleep(0.01)
    assert not ran, "ran although refused"
    for good in (None, 0.0001, 1e-9, 0.002):
        r = start(env, i["how"], f, af, 7, probe_delay=good)
        assert r == 7, r


def do_gather(env, i):
    T = env.aiootp.asynchs.Threads
    n = i["n"]
    for order in (range(n), reversed(range(n)), sorted(
            range(n), key=lambda k: k * 7 % 5)):
        waits = {k: w * 0.002 for w, k in enumerate(order)}

        def make(k):
            if i["a"] and k % 2:
                async def f(*x, **kw):
                    await asyncio.sleep(waits[k])
                    return k, x, kw
            else:
                def f(*x, **kw):
                    time.sleep(waits[k])
                    return k, x, kw
            return f
        fs = [make(k) for k in range(n)]
        a, kw = (1, "two"), dict(three=3)
        r = (env.run(T.agather(*fs, args=a, kwargs=kw)) if i["a"]
             else T.gather(*fs, args=a, kwargs=kw))
        assert r == [(k, a, kw) for k in range(n)], r
        r = env.run(T.agather(*fs)) if i["a"] else T.gather(*fs)
        assert r == [(k, (), {}) for k in range(n)], r
        fs = fs[::-1] + fs + fs[:1]
        r = env.run(T.agather(*fs)) if i["a"] else T.gather(*fs)
        assert r == [(k, (), {}) for k in (
            *reversed(range(n)), *range(n), *range(n)[:1])], r
    count = []
    f = lambda *x: count.append(x) or len(count)
    r = (env.run(T.agather(*[f] * n, args=[n])) if i["a"]
         else T.gather(*[f] * n, args=[n]))
    assert sorted(r) == list(range(1, n + 1)) and count == [(n,)] * n, (
        f"one function {n} times: {r}")


def do_gather_errors(env, i):
    T = env.aiootp.asynchs.Threads
    for at in range(3):
        fs = [lambda k=k: k if k != at else fail(k) for k in range(3)]
        try:
            r = env.run(T.agather(*fs)) if i["a"] else T.gather(*fs)
        except Mine as e:
            assert e.args == (at,)
        else:
            assert False, f"returned {r!r}"
    for at in range(3):
        waits = [0.03 * (k != at) for k in range(3)]
        fs = [lambda k=k: (fail if k == at else value)(k, wait=waits[k])
              for k in range(3)]
        try:
            r = env.run(T.agather(*fs)) if i["a"] else T.gather(*fs)
        except Mine as e:
            assert e.args == (at,)
        else:
            assert False, f"returned {r!r}"


def do_many(env, i):
    """many at once: nobody gets another's result"""
    T = env.aiootp.asynchs.Threads
    n = 40

    async def alls():
        return await asyncio.gather(*(
            T.anew(value if k % 2 else avalue, k, wait=k * 7 % 5 / 2000)
            for k in range(n)))

    async def subs():
        fs = [await T.asubmit(value, k, wait=k * 7 % 5 / 2000)
              for k in range(n)]
        return [await f.aresult() for f in fs[::-1]][::-1]
    if i["a"]:
        assert env.run(alls()) == list(range(n)), "anew"
        assert env.run(subs()) == list(range(n)), "asubmit"
    else:
        fs = [T.submit(value, k, wait=k * 7 % 5 / 2000) for k in range(n)]
        assert [f.result() for f in fs[::-1]] == list(range(n))[::-1]


def do_futures(env, i):
    T = env.aiootp.asynchs.Threads
    a, b = T.submit(value, 1, wait=0.01), T.submit(value, 2)
    for _ in range(3):
        assert (b.result(), a.result()) == (2, 1)
        assert env.run(a.aresult()) == 1 and env.run(b.aresult()) == 2


def program(part):
    """runs in a separate interpreter"""
    import multiprocessing
    try:
        multiprocessing.get_context("spawn").Queue(1)
    except OSError:
        print("no process queues here; held", flush=True)
        return
    from aiootp.asynchs import Processes
    run = asyncio.run
    if part == "small":
        for v in [None, b"", {"k": (1, None)}]:
            assert Processes.new(value, v) == v, v
            assert run(Processes.anew(avalue, v)) == v, v
        assert Processes.new(nested, 3) == 3, "worker of a worker"
    elif part == "large":
        for n in (66000, 400000):
            v = bytes([n % 251]) * n
            assert Processes.new(bytes, v) == v, n
            assert run(Processes.anew(value, v)) == v, n
            assert run(Processes.anew(avalue, v)) == v, n
    elif part == "errors":
        for f in (lambda: Processes.new(fail, 1),
                  lambda: run(Processes.anew(fail, 1)),
                  lambda: run(Processes.anew(afail, 1))):
            try:
                r = f()
            except Exception:
                continue
            assert False, f"returned {r!r} instead of raising"
    elif part == "pool":
        fs = [Processes.submit(value, k, wait=0.01 * (5 - k))
              for k in range(5)]
        assert [f.result() for f in fs] == list(range(5))

        async def go():
            fs = [await Processes.asubmit(avalue, k, wait=0.01 * (5 - k))
                  for k in range(5)]
            f = await Processes.asubmit(afail, 7)
            try:
                await f.aresult()
                assert False, "error lost"
            except Mine as e:
                assert e.args == (7,)
            return [await f.aresult() for f in fs]
        assert run(go()) == list(range(5))
        v = b"z" * 300000
        assert Processes.submit(value, v).result() == v
    elif part == "gather":
        r = Processes.gather(value, bytes, repr, args=(b"q",))
        assert r == [b"q", b"q", repr(b"q")], r
        r = run(Processes.agather(avalue, value, args=(5,), kwargs={}))
        assert r == [5, 5], r
        try:
            Processes.gather(value, fail, args=(5,))
            assert False, "error lost"
        except Mine as e:
            assert e.args == (5,)
    print("held", flush=True)


def do_processes(env, i):
    tree = os.path.dirname(os.path.dirname(env.aiootp.__file__))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    # processes that import the package at the same time read each other's
    # half-written salt file (recorded for P19): one after another here
    code = ("import fcntl, sys; sys.path[:0] = %r\n"
            "with open(__file__) as f:\n"
            "    fcntl.flock(f, fcntl.LOCK_EX)\n"
            "    import aiootp\n"
            "from checks import c29\n"
            "if __name__ == '__main__':\n"
            "    c29.program(%r)\n" % ([tree, here], i["part"]))
    d = env.tmpdir()
    main = os.path.join(d, "program.py")
    with open(main, "w") as f:
        f.write(code)
    out = os.path.join(d, "out")
    with open(out, "w") as f:
        p = subprocess.Popen(
            [sys.executable, "-B", main], stdout=f, stderr=f, cwd=d,
            stdin=subprocess.DEVNULL, start_new_session=True,
            env={**os.environ, "PYTHONPATH": "",
                 "PYTHONDONTWRITEBYTECODE": "1"})
    limit = 36
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        hung = True
    else:
        hung = False
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    p.wait()
    text = open(out, errors="replace").read()
    assert not hung, f"no result within {limit} s\n{text[-800:]}"
    assert text.rstrip().endswith("held") and p.returncode == 0, text[-1500:]
