"""
Schedulers for the bounded checks of the guards: real guards, every
interleaving of coroutines at their awaits, and of threads at source lines.
"""
import asyncio
import random
import sys
import threading
import time
import types
import warnings

warnings.filterwarnings("ignore", category=RuntimeWarning)
sys.unraisablehook = lambda *_: None

class Bad(Exception):
    pass


class Body(Exception):
    """raised by guarded bodies"""


@types.coroutine
def _pause(*_):
    yield


def patched(names, new):
    """replace functions wherever the package's modules hold them"""
    if not SCOPES:
        import gc
        for f in gc.get_objects():
            if type(f) is types.FunctionType and str(
                    f.__globals__.get("__name__")).split(".")[0] == "aiootp":
                SCOPES.setdefault(id(f.__globals__), f.__globals__)
    undo = []
    for m in SCOPES.values():
        for k, v in list(m.items()):
            if any(v is o for o in names):
                undo.append((m, k, v))
                m[k] = new
    return undo


SCOPES = {}


def restore(undo):
    for m, k, v in undo:
        m[k] = v


class World:
    """what happened so far; decides whether the property was broken"""

    def __init__(self, guards, exclusive, queue_of, strict=True, group=None):
        # in threads, a non-exclusive guard that was let in may reach its
        # body after a later non-exclusive one: not strict
        self.strict = strict
        self.guards = guards
        self.exclusive = exclusive
        self.queue_of = queue_of        # index -> deque or None
        self.group = group or (lambda i: 0)     # guards that share a target
        self.arrival = []               # indexes in order of queueing
        self.entered = []
        self.inside = set()
        self.done = set()
        self.errors = {}

    def observe(self):
        seen = set(self.arrival)
        ids = {id(g): i for i, g in enumerate(self.guards)}
        qs = []
        for i in range(len(self.guards)):
            q = self.queue_of(i)
            if q is not None and not any(q is x for x in qs):
                qs.append(q)
        for q in qs:
            for g in list(q):
                i = ids.get(id(g))
                if i is not None and i not in seen:
                    self.arrival.append(i)
                    seen.add(i)

    def enter(self, i):
        self.observe()
        q = self.group(i)
        same = [j for j in self.inside if self.group(j) == q]
        for j in same:
            if self.exclusive[i] or self.exclusive[j]:
                raise Bad(f"guards {j} and {i} are inside together, "
                          f"exclusive: {self.exclusive}")
        for j in self.arrival:
            if j == i:
                break
            if (self.group(j) == q and j not in self.entered
                    and (self.strict or self.exclusive[i]
                         or self.exclusive[j])):
                raise Bad(f"guard {i} entered before guard {j}, "
                          f"which queued earlier: {self.arrival}")
        self.inside.add(i)
        self.entered.append(i)

    def exit(self, i):
        self.inside.discard(i)

    def may_wait(self, i):
        """is there a reason for guard i not to enter?"""
        q = self.group(i)
        for j in self.arrival:
            if j == i:
                break
            if self.group(j) == q and j not in self.entered:
                return True
        for j in self.entered:
            if j not in self.done and self.group(j) == q and (
                    self.exclusive[i] or self.exclusive[j]):
                return True
        return False


def chain(co):
    """where a suspended coroutine stands"""
    out = []
    while co is not None:
        if hasattr(co, "cr_frame"):
            f, co = co.cr_frame, co.cr_await
        elif hasattr(co, "ag_frame"):
            f, co = co.ag_frame, co.ag_await
        elif hasattr(co, "gi_frame"):
            f, co = co.gi_frame, co.gi_yieldfrom
        else:
            break
        if f is None:
            break
        out.append((f.f_code.co_name, f.f_lasti))
    return tuple(out)


class Coroutines:
    """all interleavings of the users' coroutines, by re-execution"""

    def __init__(self, make, after=None):
        self.make = make        # () -> World, [coroutine function], key, end
        self.runs = 0
        self.states = set()

    def replay(self, path):
        world, users, key, end = self.make()
        cos = [u() for u in users]
        alive = set(range(len(cos)))
        world.alive = alive
        for i in path:
            self.step(world, cos, alive, i)
        return world, cos, alive, key, end

    def step(self, world, cos, alive, i):
        """one step of coroutine i; True if anything changed"""
        was = chain(cos[i])
        n = len(world.entered)
        pend = world.guards[i].is_pending()
        world.observe()
        queued = i in world.arrival
        try:
            cos[i].send(None)
        except StopIteration:
            alive.discard(i)
            world.done.add(i)
            world.inside.discard(i)
        except Body:
            alive.discard(i)
            world.done.add(i)
            world.errors[i] = True
        world.observe()
        if (pend and queued and i in alive and world.guards[i].is_pending()
                and not world.may_wait(i)):
            raise Bad(f"guard {i} was not let in although nothing is in its "
                      f"way; queued {world.arrival}, entered "
                      f"{world.entered}, left {sorted(world.done)}")
        return i not in alive or chain(cos[i]) != was

    def explore(self, limit=20000, until=None):
        import gc
        stack = [()]
        while stack:
            path = stack.pop()
            if until and time.monotonic() > until:
                return False
            world, cos, alive, key, end = self.replay(path)
            self.runs += 1
            if not alive:
                self.close(cos)
                end(world)
                continue
            progress = False
            todo = sorted(alive)
            self.close(cos)
            for i in todo:
                w, cs, al, key, end = self.replay(path)
                before = self.key(w, cs, al, key)
                try:
                    moved = self.step(w, cs, al, i)
                    k = self.key(w, cs, al, key)
                except Bad as b:
                    raise Bad(f"{b}; schedule {list(path) + [i]}")
                finally:
                    self.close(cs)
                if k == before and not moved:
                    continue
                progress = True
                if k not in self.states:
                    self.states.add(k)
                    stack.append(path + (i,))
            if not progress:
                raise Bad(f"guards {todo} wait forever after {list(path)}; "
                          f"entered {world.entered}")
            if len(self.states) > limit:
                return False
        return True

    @staticmethod
    def key(w, cos, alive, key):
        return (tuple(chain(c) if i in alive else None
                      for i, c in enumerate(cos)), key(w),
                tuple(w.arrival), tuple(w.entered), tuple(sorted(w.inside)))

    @staticmethod
    def close(cos):
        for c in cos:
            Coroutines.graveyard.append(c)

    graveyard = []


class async_time:
    """sleeping becomes one scheduling point"""

    def __enter__(self):
        self.undo = patched([asyncio.sleep], _pause)

    def __exit__(self, *_):
        restore(self.undo)


class Threads:
    """
    real threads, one running at a time, switched at source lines of the
    guard modules and at sleeps, following a given list of preemptions
    """

    def __init__(self, make, lock=lambda: False,
                 files=("/asynchs/guards/",)):
        self.make = make
        self.lock = lock
        self.files = files

    def run(self, order, preempt, max_points=4000):
        """
        order: indexes in order of preference; preempt: {point: index}
        returns number of points
        """
        world, users, key, end = self.make()
        n = len(users)
        go = [threading.Semaphore(0) for _ in range(n)]
        back = threading.Semaphore(0)
        alive = set(range(n))
        waiting = {}
        failure = []
        local = threading.local()
        stop = []

        class Stop(BaseException):
            pass

        def point(sleeping=False):
            i = getattr(local, "i", None)
            if i is None:
                return
            if not sleeping and self.lock():
                return
            waiting[i] = sleeping
            back.release()
            go[i].acquire()
            if stop:
                raise Stop

        def trace(frame, event, arg):
            name = frame.f_code.co_filename
            if not any(f in name for f in self.files):
                return None
            if event == "call":
                return trace
            if event == "line":
                point()
            return trace

        def body(i):
            local.i = i
            go[i].acquire()
            sys.settrace(trace)
            try:
                if not stop:
                    users[i]()
            except Body:
                pass
            except Stop:
                pass
            except BaseException as e:
                failure.append((i, e))
            finally:
                sys.settrace(None)
                world.done.add(i)
                world.inside.discard(i)
                alive.discard(i)
                back.release()

        undo = patched([time.sleep], lambda *_: point(True))
        ts = [threading.Thread(target=body, args=(i,), daemon=True)
              for i in range(n)]
        for t in ts:
            t.start()
        cur = order[0]
        points = 0
        idle = 0
        trail = []
        try:
            while alive and not failure:
                points += 1
                if points > max_points:
                    raise Bad(f"guards {sorted(alive)} wait forever; "
                              f"entered {world.entered}; schedule {trail}")
                want = preempt.get(points)
                if want is not None and want in alive:
                    cur = want
                elif cur not in alive or waiting.get(cur):
                    # a sleeping thread hands over
                    rest = [i for i in order if i in alive and i != cur]
                    k = order.index(cur)
                    nxt = [i for i in order[k + 1:] + order[:k + 1]
                           if i in alive]
                    cur = nxt[0]
                if not trail or trail[-1] != cur:
                    trail.append(cur)
                waiting[cur] = False
                go[cur].release()
                back.acquire()
                world.observe()
        finally:
            stop.append(1)
            for g in go:
                g.release()
            for t in ts:
                t.join(5)
            restore(undo)
        if failure:
            i, e = failure[0]
            if isinstance(e, Bad):
                raise Bad(f"{e}; threads switched {trail}")
            raise Bad(f"guard {i} raised {e!r}; threads switched {trail}")
        end(world)
        return points
