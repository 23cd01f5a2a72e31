"""
bounded stand-in for P19: real files in a directory of an unprivileged user;
histories, failing file operations, interleavings of two operations
"""
import asyncio
import io
import itertools
import os
import random
import resource
import select
import shutil
import signal
import stat
import tempfile
import time
import types
from pathlib import Path

from checks import guards_lib as gl

NOBODY = 65534
KEYS = [random.Random(k).randbytes(n) for k, n in enumerate((32, 33, 64))]
OPS = ("make", "read", "update", "delete")


def cases(env):
    for seed in range(30 if env.tier == "quick" else 150):
        yield "history", dict(seed=seed)
    for a in (0, 1):
        for n in (0, 1, 31, 32, 33, 64, 1000, 70000):
            yield "sizes", dict(a=a, n=n)
        for op in OPS:
            yield "write-fails", dict(a=a, op=op)
            yield "directory-read-only", dict(a=a, op=op)
        yield "path", dict(a=a)
    for x, y in itertools.product(OPS, repeat=2):
        for ex in (0, 1):
            yield "tasks", dict(ops=[x, y], exists=ex)
    for ops in (("read", "read"), ("read", "update"), ("update", "update"),
                ("read", "delete"), ("update", "delete")):
        yield "threads", dict(ops=list(ops))
    yield "names", {}
    yield "other-process", {}


class Place:
    """a scratch directory, and no privileges"""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf-salt-")
        self.root = os.geteuid() == 0
        if self.root:
            os.chown(self.d, NOBODY, NOBODY)
            os.setegid(NOBODY)
            os.seteuid(NOBODY)
        return Path(self.d)

    def __exit__(self, *_):
        if self.root:
            os.seteuid(0)
            os.setegid(0)
        for base, ds, fs in os.walk(self.d):
            for n in ds + fs:
                os.chmod(os.path.join(base, n), 0o700)
        shutil.rmtree(self.d)
        return False


def peek(p):
    """(mode, content) or None"""
    if not p.exists():
        return None
    m = stat.S_IMODE(p.stat().st_mode)
    p.chmod(0o600)
    data = p.read_bytes()
    p.chmod(m)
    return m, data


def expect_state(p, want, what):
    got = peek(p)
    if want is None:
        assert got is None, f"{what}: the file exists"
        return
    assert got is not None, f"{what}: the file is gone"
    assert got[1] == want, (f"{what}: {len(got[1])} bytes "
                            f"{got[1][:8].hex()}... instead of "
                            f"{want[:8].hex()}...")
    assert got[0] == 0, f"{what}: permissions are {oct(got[0])}"


def fn(env, a, op):
    P = env.aiootp._paths
    return getattr(P, ("_a" if a else "_") + op + "_salt_file")


def do(env, a, op, p, salt=None):
    f = fn(env, a, op)
    kw = {} if salt is None else dict(salt=salt)
    try:
        r = f(p, **kw)
        if a:
            r = env.run(r)
        return "ok", r
    except Exception as e:
        return type(e).__name__, e


def model(state, op, salt):
    """expected (outcome, value, new state)"""
    if op in ("make", "update") and len(salt) < 32:
        return "ValueError", None, state
    if op == "make":
        if state is not None:
            return "PermissionError", None, state
        return "ok", None, salt
    if state is None:
        return "FileNotFoundError", None, None
    if op == "update":
        return "ok", None, salt
    if op == "read":
        if len(state) < 32:
            return "ValueError", None, state
        return "ok", state, state
    return "ok", None, None


def check(env, case, i):
    if os.name != "posix":
        return
    with Place() as d:
        try:
            return inner(env, case, i, d)
        except (AssertionError, gl.Bad) as e:
            return f"{case} {i}: {e}"


def put(p, data):
    p.write_bytes(data)
    p.chmod(0)


def inner(env, case, i, d):
    if case == "history":
        r = random.Random(i["seed"])
        ps = [d / "one", d / "two"]
        states = [None, None]
        log = []
        for step in range(14):
            k = r.randrange(2)
            a = r.randrange(2)
            op = r.choice(OPS if states[k] is not None else OPS + ("make",))
            salt = None
            if op in ("make", "update"):
                salt = r.randbytes(r.choice([1, 31, 32, 32, 40, 64, 200]))
            log.append(f"{op}{'' if salt is None else len(salt)}"
                       f"{'a' if a else ''}@{k}")
            out, v = do(env, a, op, ps[k], salt)
            w, wv, new = model(states[k], op, salt)
            if op == "update" and states[k] is None and out == "ok":
                w, new = out, salt
            assert out == w, f"{out} ({v!r}) instead of {w} after {log}"
            if wv is not None:
                assert v == wv, f"read another salt after {log}"
            states[k] = new
            for p, s in zip(ps, states):
                expect_state(p, s, f"{p.name} after {log}")
    elif case == "sizes":
        a, n = i["a"], i["n"]
        salt = random.Random(n).randbytes(n)
        p, q = d / "x", d / "y"
        put(q, bytes(range(40)))
        out, v = do(env, a, "make", p, salt)
        if n == 0:
            assert out == "ok", v
            m, data = peek(p)
            assert m == 0 and len(data) >= 32, "random salt"
            assert do(env, a, "make", d / "z")[0] == "ok"
            assert peek(d / "z")[1] != data, "salts repeat"
        elif n < 32:
            assert out == "ValueError", f"{n} bytes: {out}"
            expect_state(p, None, "refused")
        else:
            assert out == "ok", v
            expect_state(p, salt, "made")
        out, v = do(env, a, "update", q, salt)
        if n < 32:
            assert out == "ValueError", f"{n} bytes: {out}"
            expect_state(q, bytes(range(40)), "refused")
        else:
            assert out == "ok", v
            expect_state(q, salt, "updated")
        put(d / "w", salt)
        out, v = do(env, a, "read", d / "w")
        if n < 32:
            assert out == "ValueError", f"{n} bytes: {out}"
        else:
            assert out == "ok" and v == salt, "read back"
        expect_state(d / "w", salt, "read")
    elif case == "other-process":
        other_process(env, d)
    elif case == "write-fails":
        old = bytes(range(64))
        p, q = d / "x", d / "y"
        if i["op"] != "make":
            put(p, old)
        put(q, old)
        salt = bytes(5000) if i["op"] in ("make", "update") else None
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        was = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        try:
            resource.setrlimit(resource.RLIMIT_FSIZE, (100, hard))
            out, v = do(env, i["a"], i["op"], p, salt)
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            signal.signal(signal.SIGXFSZ, was)
        if salt is not None:
            assert out not in ("ok", "ValueError"), f"write failed, but {out}"
            got = peek(p)
            assert got is None or got[0] == 0, (
                f"permissions {oct(got[0])} after a failed write")
        expect_state(q, old, "other file")
        if i["op"] == "read":
            expect_state(p, old, "read")
    elif case == "directory-read-only":
        old = bytes(range(64))
        p = d / "x"
        if i["op"] != "make":
            put(p, old)
        d.chmod(0o500)
        new = bytes(range(1, 41))
        try:
            out, v = do(env, i["a"], i["op"], p,
                        new if i["op"] in ("make", "update") else None)
        finally:
            d.chmod(0o700)
        if i["op"] == "make":
            assert out == "PermissionError", out
            expect_state(p, None, "not made")
        elif i["op"] == "delete":
            assert out == "PermissionError", out
            expect_state(p, old, "not deleted")
        else:
            assert out == "ok", v
            expect_state(p, new if i["op"] == "update" else old, i["op"])
    elif case == "path":
        P = env.aiootp._paths
        f = P.AsyncSecureSaltPath if i["a"] else P.SecureSaltPath
        run = env.run if i["a"] else (lambda x: x)
        seen = {}
        for key, admin in itertools.product(
                KEYS, (False, True)):
            x = run(f(d, key=key, _admin=admin))
            assert run(f(d, key=key, _admin=admin)) == x, "another path"
            m, data = peek(x)
            assert m == 0 and len(data) >= 32, f"salt file {oct(m)}"
            assert x not in seen, "two keys share a salt file"
            assert data not in seen.values(), "two keys share a salt"
            seen[x] = data
            for y, was in seen.items():
                expect_state(y, was, "kept")
    elif case == "names":
        P = env.aiootp._paths
        seen = {}
        for size in (1, 2, 8, 16):
            for key in (bytes(64), b"\1" + bytes(63), bytes(63) + b"\1",
                        bytes(range(64))):
                n = P.deniable_filename(key, size=size)
                assert n == env.run(P.adeniable_filename(key, size=size))
                assert n == P.deniable_filename(key, size=size)
                x = P._find_salt_file(d, key=key, size=size)
                assert x == d / n
                assert env.run(P._afind_salt_file(d, key=key, size=size)) == x
        for bad in (0, 17, -1):
            for f in (P.deniable_filename,
                      lambda k, size: env.run(P.adeniable_filename(
                          k, size=size))):
                try:
                    f(bytes(64), size=bad)
                    return f"size {bad} accepted"
                except ValueError:
                    pass
    elif case == "tasks":
        return tasks(env, i, d)
    elif case == "threads":
        return threads(env, i, d)


# -- interleavings ----------------------------------------------------------
class Loop:
    """an event loop whose executor is one scheduling point before and after"""

    @types.coroutine
    def run_in_executor(self, executor, func, *args):
        yield
        try:
            r = func(*args)
        finally:
            yield
        return r

    def __getattr__(self, name):
        raise RuntimeError(f"loop.{name}")


class Blocks(BaseException):
    pass


def no_sleep(*_):
    raise Blocks


SALTS = [bytes([k]) * (40 + k) for k in range(4)]


def allowed(ops, exists):
    """outcomes of the operations one after another, in any order"""
    out = []
    for order in itertools.permutations(range(len(ops))):
        state = SALTS[3] if exists else None
        res = [None] * len(ops)
        for k in order:
            w, v, state = model(state, ops[k], SALTS[k])
            res[k] = (w, v)
        out.append((res, state))
    return out


def judge(ops, exists, got, p, how):
    final = peek(p)
    for res, state in allowed(ops, exists):
        if [r[0] for r in res] == [g[0] for g in got] and all(
                r[1] is None or r[1] == g[1] for r, g in zip(res, got)):
            if state is None and final is None:
                return
            if final and state == final[1]:
                assert final[0] == 0, (f"permissions {oct(final[0])}; {how}")
                return
    shown = [(g[0], str(g[1])[:60]) for g in got]
    raise gl.Bad(f"outcomes {shown}, file {final and (oct(final[0]), len(final[1]))} "
                 f"fit no order of {ops}; {how}")


def other_process(env, d):
    """another process reads the file while this one updates it"""
    p = d / "x"
    put(p, SALTS[3])
    go, come = os.pipe(), os.pipe()
    child = os.fork()
    if child == 0:
        try:
            os.read(go[0], 1)
            out, v = do(env, 0, "read", p)
            text = out if out != "ok" else (
                "ok" if v in (SALTS[0], SALTS[3]) else "another salt")
            os.write(come[1], text.encode())
        finally:
            os._exit(0)
    answer = []

    def ask():
        if not answer:
            os.write(go[1], b"x")
            ready, _, _ = select.select([come[0]], [], [], 0.5)
            answer.append(os.read(come[0], 100).decode() if ready else None)
    real = io.open

    class File:
        """the file was opened; before anything is written"""

        def __init__(self, f):
            self.f = f

        def write(self, data):
            ask()
            return self.f.write(data)

        def __enter__(self):
            self.f.__enter__()
            return self

        def __exit__(self, *x):
            return self.f.__exit__(*x)

        def __getattr__(self, name):
            return getattr(self.f, name)

    def opened(f, mode="r", *x, **k):
        r = real(f, mode, *x, **k)
        return File(r) if "w" in mode or "a" in mode else r
    try:
        io.open = opened
        try:
            out, v = do(env, 0, "update", p, SALTS[0])
        finally:
            io.open = real
        ask()
        if answer == [None]:        # it waits for this one to end
            ready, _, _ = select.select([come[0]], [], [], 10)
            answer = [os.read(come[0], 100).decode() if ready else "nothing"]
    finally:
        os.kill(child, signal.SIGKILL)
        os.waitpid(child, 0)
        for f in (*go, *come):
            os.close(f)
    assert out == "ok", f"update: {out} {v!r}"
    assert answer == ["ok"], (f"a read by another process during an update "
                              f"gives {answer[0]}")


def tasks(env, i, d):
    ops, exists = i["ops"], i["exists"]
    p = d / "x"
    undo = gl.patched([asyncio.sleep], gl._pause)
    undo += gl.patched([time.sleep], no_sleep)
    loop = Loop()
    end = time.monotonic() + (4 if env.tier == "quick" else 20)

    def run(switches):
        if p.exists():
            p.chmod(0o600)
            p.unlink()
        if exists:
            put(p, SALTS[3])
        cos = [fn(env, 1, o)(p, **(dict(salt=SALTS[k]) if o in (
            "make", "update") else {})) for k, o in enumerate(ops)]
        got = [None] * len(ops)
        plan = list(switches)
        cur, n, total, trail = 0, 0, 0, []
        count = [0] * len(ops)
        asyncio._set_running_loop(loop)
        try:
            while any(g is None for g in got):
                total += 1
                if total > 600:
                    raise gl.Bad(f"waits for ever; schedule {switches}")
                if got[cur] is not None or (plan and n >= plan[0]) or (
                        not plan and n >= 7):
                    if plan:
                        plan.pop(0)
                    cur, n = (cur + 1) % len(ops), 0
                    if got[cur] is not None:
                        continue
                n += 1
                count[cur] += 1
                try:
                    cos[cur].send(None)
                except StopIteration as s:
                    got[cur] = ("ok", s.value)
                except Blocks:
                    raise gl.Bad(f"{ops[cur]} blocks the event loop while "
                                 f"another operation uses the file; "
                                 f"schedule {switches}")
                except Exception as e:
                    got[cur] = (type(e).__name__, e)
        finally:
            asyncio._set_running_loop(None)
            gl.Coroutines.close(cos)
        judge(ops, exists, got, p, f"steps between switches {switches}")
        return count

    try:
        c = run([10 ** 6, 10 ** 6])
        top = [c[0] + 1, c[1] + 8]
        plans = [(a, b) for a in range(top[0]) for b in range(1, top[1])]
        plans += [(a, b, e) for a in range(0, top[0], 2)
                  for b in range(1, top[1], 3) for e in (1, 3)]
        random.Random(env.seed).shuffle(plans)
        for s in plans:
            if time.monotonic() > end:
                break
            run(list(s))
    finally:
        gl.restore(undo)


def threads(env, i, d):
    ops = i["ops"]
    p = d / "x"
    box = {}

    class W:
        def __init__(self):
            self.done, self.inside, self.entered = set(), set(), []

        def observe(self):
            pass

    def make():
        if p.exists():
            p.chmod(0o600)
            p.unlink()
        put(p, SALTS[3])
        got = box["got"] = [None] * len(ops)

        def user(k):
            def go():
                try:
                    kw = dict(salt=SALTS[k]) if ops[k] == "update" else {}
                    got[k] = ("ok", fn(env, 0, ops[k])(p, **kw))
                except Exception as e:
                    got[k] = (type(e).__name__, e)
            return go

        def over(w):
            judge(ops, 1, got, p, "threads")
        return W(), [user(0), user(1)], None, over

    P = env.aiootp._paths._make_salt_file.__globals__["guards"]
    t = gl.Threads(make, lock=lambda: P._resource_lock.locked(),
                   files=("/_paths.py", "/asynchs/guards/"))
    n = t.run([0, 1], {})
    end = time.monotonic() + (4 if env.tier == "quick" else 20)
    for k in range(1, n + 1):
        if time.monotonic() > end:
            break
        try:
            t.run([0, 1], {k: 1})
        except gl.Bad as b:
            raise gl.Bad(f"{b}; switched at point {k}")
