"""
P29  thread and process helpers

delay      probe delays: None is the default, positive ones are kept, all
           others are refused
new        a new worker, under any interleaving of its steps with the
           caller's probes: the function is called once with the given
           arguments and its very result is returned; when the function
           raises, an error is raised; a worker that cannot end before its
           result is taken does not block the caller
submit     the future gives the function's very result or error
gather     results in the order of the functions, whatever order they end
           in; a function's error is raised
"""
from concurrent.futures import CancelledError

from checks import pass_lib as pl
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "other"
WORKERS = 4
BUDGET = 60
PROBES = 3
ASSUMPTIONS = [
    "threads, processes, queues and pools of the standard library: a worker "
    "runs its target once with the given arguments, a queue gives back what "
    "was put, a process may be unable to end before its result was taken",
    f"at most {PROBES} probes before the next step of a worker (the loops "
    "carry no state); gathers of up to 3 functions",
]
M = "aiootp.asynchs.concurrency_interface."


class Hang(BaseException):
    pass


class Boom(Exception):
    pass


class Opaque:
    """a value nobody looks into"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        raise core.Unsupported("results are compared")

    def __bool__(self):
        raise core.Unsupported("truth of a result")

    __hash__ = None


class Loop:
    def run_until_complete(self, x):
        return models.run(x)

    def shutdown_asyncgens(self):
        async def nothing():
            return None
        return nothing()

    def close(self):
        pass

    def __getattr__(self, name):
        raise core.Unsupported(f"loop.{name}")


class Worker:
    """waiting -> ran -> (result taken, if need be) -> ended"""

    def __init__(self, c, w, target, args, kwargs):
        self.c, self.w, self.n = c, w, 0
        self.job = target, args, kwargs
        self.state = "new"

    def start(self):
        if self.state != "new":
            raise RuntimeError("started twice")
        self.state = "waiting"
        self.w.started += 1

    def step(self, force=False):
        """perhaps do the next step"""
        self.n += 1
        if self.state in ("new", "ended"):
            return False
        if self.state == "ran" and self.w.large and self.w.queue.items:
            if force or self.n > 4 * PROBES:
                raise Hang
            return False
        if not force and self.n <= PROBES and not bool(
                self.c.bool(f"go{self.n}")):
            return False
        if self.state == "waiting":
            self.state = "ran"
            target, args, kwargs = self.job
            try:
                models.call(target, *args, **kwargs)
            except Boom:
                pass                    # shown on stderr
        else:
            self.state = "ended"
        return True

    def is_alive(self):
        self.step()
        return self.state in ("waiting", "ran")

    def join(self, timeout=None):
        if timeout is not None:
            raise core.Unsupported("join with a time limit")
        while self.state != "ended":
            self.step(force=True)

    def __getattr__(self, name):
        raise core.Unsupported(f"worker.{name}")


class Queue:
    def __init__(self, w):
        self.w, self.items = w, []

    def put_nowait(self, x):
        if self.items:
            import queue
            raise queue.Full
        self.items.append(x)

    put = put_nowait

    def empty(self):
        self.w.task.step()
        return not self.items

    def get_nowait(self):
        self.w.task.step()
        if not self.items:
            import queue
            raise queue.Empty
        return self.items.pop()

    def get(self, *a, **k):
        if a or k:
            raise core.Unsupported("queue.get with arguments")
        while not self.items:
            if self.w.task.state == "ended":
                raise Hang
            self.w.task.step(force=True)
        return self.items.pop()

    def __getattr__(self, name):
        raise core.Unsupported(f"queue.{name}")


def stubs(pkg):
    m = pkg.asynchs.concurrency_interface
    g = m.ConcurrencyInterface.new.__func__.__globals__

    async def asleep(*a):
        return None
    return pl.replaced((g, "sleep", lambda *a: None), (g, "asleep", asleep),
                       (g, "new_event_loop", Loop))


def function(kind, fails, log, out):
    """a function to run: sync or async, returning or raising"""
    def f(*a, **k):
        log.append((a, k))
        if fails:
            raise out
        return out

    async def af(*a, **k):
        return f(*a, **k)
    return af if kind else f


def arguments():
    return (Opaque("x"), Opaque("y")), dict(k=Opaque("k"), func=Opaque("f"))


def called(c, log, a, k):
    c.prove(len(log) == 1, "called once")
    for x, y in log[:1]:
        c.prove(len(x) == len(a) and all(i is j for i, j in zip(x, a)),
                "positional arguments")
        c.prove(set(y) == set(k) and all(y[n] is k[n] for n in k),
                "keyword arguments")


def new(pkg, a, kind, fails, large):
    C = pkg.asynchs.concurrency_interface.ConcurrencyInterface

    def fn(c):
        class W(C):
            _default_probe_delay = 0.5
            started = 0

            @classmethod
            def _get_queue(cls, maxsize=1):
                W.queue = Queue(W)
                return W.queue

            @staticmethod
            def _type(target, args=(), kwargs={}):
                W.task = Worker(c, W, target, args, kwargs)
                return W.task
        W.large = large
        log, out = [], Boom() if fails else Opaque("result")
        x, k = arguments()
        f = function(kind, fails, log, out)
        with stubs(pkg):
            try:
                r = attempt(W.anew if a else W.new, f, *x, **k)
            except Hang:
                c.fail("the result is collected",
                       info="the worker waits for its result to be taken")
                return
        called(c, log, x, k)
        c.prove(W.started == 1, "one worker")
        c.prove(r.ok is not fails, "an error only if the function raised",
                info=repr(r.exc))
        if not fails:
            c.prove(r.value is out, "the function's result")
    return fn


class Future:
    def __init__(self, c, name, job):
        self.c, self.job, self.n, self.name = c, job, 0, name
        self.state, self.cancelled_ = "waiting", False
        self.outcome = None

    def step(self):
        self.n += 1
        if self.state == "waiting" and (
                self.n > PROBES or bool(self.c.bool(f"{self.name}.{self.n}"))):
            self.run()

    def run(self):
        f, a, k = self.job
        self.state = "done"
        try:
            r = models.call(f, *a, **k)
            self.outcome = r, None
        except Exception as e:
            self.outcome = None, e

    def done(self):
        self.step()
        return self.state == "done"

    def result(self, timeout=None):
        if self.state != "done":
            self.run()
        r, e = self.outcome
        if e is not None:
            raise e
        return r

    def cancel(self):
        """ends what has not been started"""
        if self.state != "done" and not bool(
                self.c.bool(f"{self.name}.running")):
            self.cancelled_ = True
            self.state = "done"
            self.outcome = None, CancelledError()
        return self.cancelled_

    def cancelled(self):
        return self.cancelled_

    def exception(self, timeout=None):
        if self.state != "done":
            self.run()
        if self.cancelled_:
            raise self.outcome[1]
        return self.outcome[1]

    def __getattr__(self, name):
        if name in ("aresult", "_original_result") or name[:2] == "__":
            raise AttributeError(name)
        raise core.Unsupported(f"future.{name}")


def pool(c):
    class Pool:
        made = []

        def submit(self, f, *a, **k):
            fu = Future(c, f"done{len(self.made)}", (f, a, k))
            self.made.append(fu)
            return fu

        def __getattr__(self, name):
            raise core.Unsupported(f"pool.{name}")
    Pool.made = []
    return Pool()


def submit(pkg, a, b, kind, fails):
    C = pkg.asynchs.concurrency_interface.ConcurrencyInterface

    def fn(c):
        W = type("W", (C,), dict(_default_probe_delay=0.5, pool=pool(c)))
        log, out = [], Boom() if fails else Opaque("result")
        x, k = arguments()
        f = function(kind, fails, log, out)
        with stubs(pkg):
            fu = attempt(W.asubmit if a else W.submit, f, *x, **k)
            if not fu.ok:
                c.fail("submitted", info=repr(fu.exc))
                return
            for again in range(2):
                r = attempt(fu.value.aresult if b else fu.value.result)
                if fails:
                    c.prove(r.exc is out, "the function's error",
                            info=repr(r.exc))
                else:
                    c.prove(r.ok and r.value is out, "the function's result",
                            info=repr(r.exc))
        called(c, log, x, k)
    return fn


def gather(pkg, a, kind, n):
    C = pkg.asynchs.concurrency_interface.ConcurrencyInterface

    def fn(c):
        W = type("W", (C,), dict(_default_probe_delay=0.5, pool=pool(c)))
        logs, outs, fs, bad = [], [], [], []
        for i in range(n):
            fails = bool(c.bool(f"fails{i}"))
            bad.append(fails)
            logs.append([])
            outs.append(Boom() if fails else Opaque(f"result{i}"))
            fs.append(function(kind, fails, logs[i], outs[i]))
        x, k = arguments()
        with stubs(pkg):
            r = attempt(W.agather if a else W.gather, *fs, args=x, kwargs=k)
        if any(bad):
            c.prove(any(r.exc is o for o, b in zip(outs, bad) if b),
                    "a function's error", info=repr(r.exc))
        else:
            c.prove(r.ok and len(r.value) == n and all(
                p is q for p, q in zip(r.value, outs)),
                "results in order", info=repr(r.exc))
            for log in logs:
                called(c, log, x, k)
    return fn


def delay(pkg):
    f = pkg.asynchs.concurrency_interface.process_probe_delay

    def fn(c):
        d = Opaque("default")
        f.__globals__["float"] = lambda x: x
        try:
            c.prove(f(None, default=d) is d, "default")
            x = c.int("delay")
            r = attempt(f, x, default=d)
        finally:
            del f.__globals__["float"]
        c.prove(core.mkbool(bexpr(r.ok) == bexpr(x > 0)),
                "exactly positive delays are accepted")
        if r.ok:
            c.cover("accepted")
            c.prove(r.value == x, "delay kept")
        else:
            c.cover("refused")
            c.prove(r.raised(ValueError), "ValueError")
    return fn


def proofs(pkg):
    yield Proof("delay", delay(pkg), functions=[M + "process_probe_delay"],
                min_obligations=3)
    I = M + "ConcurrencyInterface."
    for a in (0, 1):
        for kind in range(a + 1):
            for fails in (False, True):
                for large in (False, True):
                    yield Proof(f"new[{a},{kind},{fails},{large}]",
                                new(pkg, a, kind, fails, large),
                                functions=[I + x for x in (
                                    ("anew", "_arun_func") if a else
                                    ("new", "_run_func"))],
                                min_obligations=3)
                for b in (0, 1):
                    yield Proof(f"submit[{a},{b},{kind},{fails}]",
                                submit(pkg, a, b, kind, fails),
                                functions=[I + x for x in (
                                    "asubmit" if a else "submit",
                                    "_package_result_methods",
                                    "_get_result")], min_obligations=3)
            for n in range(4):
                yield Proof(f"gather[{a},{kind},{n}]",
                            gather(pkg, a, kind, n), functions=[
                    I + ("agather" if a else "gather")], min_obligations=1)
