"""
P19  salt files, over the contracts of the file operations (vf/ghostfs) and
     of the guards (P16, P17)

each       every operation on an existing or missing file with any content
           and any salt: result, content, permissions, other files, and that
           the file is only touched inside an exclusive guard of that path
fail       the same with any one file operation failing
target     sync and async operations on one path use the same guard target,
           different paths different ones (hash ideal)
path       SecureSaltPath creates a missing salt file once, keeps others
"""
import itertools

from vf import core, ghostfs, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 2
BUDGET = 60
ASSUMPTIONS = [
    "file operations behave as vf/ghostfs.py states, for the owner of the "
    "file without privileges; taking the permissions away does not fail",
    "exclusive guards exclude one another (proved in P16, P17)",
    "collision-freeness of the hash that makes guard targets from paths",
]
D = "/ghost"
M = "aiootp._paths"


class Guards:
    """contract of the guard manager: exclusive while inside"""

    def __init__(self, c, a):
        self.c, self.a = c, a
        self.held = []
        self.targets = []

    def guard(self, target, **k):
        if k:
            raise core.Unsupported("guard with a policy")
        return Guard(self, target, True)

    def monitor(self, target, **k):
        if k:
            raise core.Unsupported("guard with a policy")
        return Guard(self, target, False)

    def __getattr__(self, name):
        raise core.Unsupported(f"guards.{name}")


class Guard:
    def __init__(self, gs, target, exclusive):
        self.gs, self.target, self.exclusive = gs, target, exclusive

    def enter(self):
        self.gs.held.append(self)
        self.gs.targets.append(self.target)
        return self

    def __enter__(self):
        self.gs.c.prove(not self.gs.a,
                        "an async operation does not block its event loop")
        return self.enter()

    def __exit__(self, *_):
        self.gs.held.remove(self)
        return False

    async def __aenter__(self):
        return self.enter()

    async def __aexit__(self, *_):
        self.gs.held.remove(self)
        return False


class Env:
    """the module with its file operations and guards under contract"""

    def __init__(self, c, pkg, a, fail=None):
        self.c, self.a = c, a
        self.p = pkg._paths
        self.gs = Guards(c, a)
        self.broken = []
        self.failed = []
        self.fail_at = fail
        self.n = 0
        self.fs = ghostfs.FS(dirs=("/", D), fail=self.fail, on=self.on)
        g = self.p._make_salt_file.__globals__
        for k in ("Path", "aiofiles", "aos", "wrap_in_executor", "guards"):
            if k not in g:
                raise core.Unsupported(f"{M}.{k} is not there")
        self.g = g
        self.new = dict(Path=self.fs.path, aiofiles=ghostfs.Aiofiles(self.fs),
                        aos=ghostfs.AOS(self.fs), wrap_in_executor=self.wrap,
                        guards=self.gs)

    def wrap(self, f):
        async def runner(*a, **k):
            was, self.gs.a = self.gs.a, 0       # in another thread
            try:
                return f(*a, **k)
            finally:
                self.gs.a = was
        return runner

    def fail(self, op, p):
        self.n += 1
        if self.fail_at == self.n:
            self.failed.append(op)
            raise OSError(5, "ghost: input/output error", p)

    def on(self, op, p):
        if op in ("stat", "mkdir"):
            return
        if not any(g.exclusive for g in self.gs.held):
            self.broken.append(op)

    def __enter__(self):
        self.old = {k: self.g[k] for k in self.new}
        self.g.update(self.new)
        return self

    def __exit__(self, *_):
        self.g.update(self.old)
        return False

    def run(self, name, *a, **k):
        f = getattr(self.p, "_" + ("a" if self.a else "") + name)
        return attempt(f, *a, **k)


def settled(c, e):
    """after any operation: no permissions, no guard held"""
    for p, (_, mode) in e.fs.files.items():
        c.prove(mode == 0, "no permission bits", info=f"{p}: {oct(mode)}")
    c.prove(not e.gs.held, "guard left")
    if e.broken:
        raise core.Unsupported(
            f"lost: file touched outside an exclusive guard {e.broken}")


def scene(c, e, exists):
    """an existing or missing file, next to another one"""
    e.fs.files[D + "/other"] = [c.bytes("other"), 0]
    if exists:
        e.fs.files[D + "/x"] = [c.bytes("old"), 0]
    return {k: v[0] for k, v in e.fs.files.items()}


def frame(c, e, want, what):
    got = {k: v[0] for k, v in e.fs.files.items()}
    c.prove(got.keys() == want.keys(), what + ": the same files",
            info=f"{list(got)} instead of {list(want)}")
    for k in want:
        if k in got:
            c.prove_bytes_eq(got[k], want[k], what + f": content of {k}")


def each(pkg, a, op, exists, fail=None):
    def fn(c):
        with Env(c, pkg, a, fail) as e:
            before = scene(c, e, exists)
            X = D + "/x"
            path = e.fs.path(X)
            salt = c.bytes("salt") if op in ("make", "update") else None
            if op == "make":
                kw = dict(salt=salt) if c.bool("given") else {}
                r = e.run("make_salt_file", path, **kw)
                if not kw:
                    drawn = c.state.get("drawn", [])
                    salt = drawn[-1] if drawn else b""
                elif L(salt) == 0:
                    salt = c.state["drawn"][-1] if c.state.get(
                        "drawn") else b""
            elif op == "update":
                r = e.run("update_salt_file", path, salt=salt)
            else:
                r = e.run(f"{op}_salt_file", path)
            settled(c, e)
            short = op in ("make", "update") and bool(L(salt) < 32)
            if e.failed:
                c.prove(r.raised(OSError, ValueError), "failure is reported",
                        info=repr(r.exc))
                # the salt itself may be lost only by writing
                touched = op in ("make", "update") and not short
                want = {k: v for k, v in before.items() if k != X}
                got = {k: v[0] for k, v in e.fs.files.items() if k != X}
                c.prove(got.keys() == want.keys(), "other files remain")
                if not touched:
                    c.prove((X in e.fs.files) == exists or op == "delete",
                            "file remains")
                    if X in e.fs.files and exists:
                        c.prove_bytes_eq(e.fs.files[X][0], before[X],
                                         "content remains")
            elif short:
                c.prove(r.raised(ValueError), "short salt refused",
                        info=repr(r.exc))
                frame(c, e, before, "refused")
            elif op == "make" and exists:
                c.prove(r.raised(PermissionError), "an existing salt file "
                        "is not opened", info=repr(r.exc))
                frame(c, e, before, "refused")
            elif op == "make" or (op == "update" and exists):
                c.prove(r.ok, "written", info=repr(r.exc))
                frame(c, e, {**before, X: salt}, "written")
            elif not exists:
                # update may create the file, the others report it missing
                if op == "update" and r.ok:
                    frame(c, e, {**before, X: salt}, "written")
                else:
                    c.prove(r.raised(FileNotFoundError), "missing",
                            info=repr(r.exc))
                    frame(c, e, before, "missing")
            elif op == "read":
                if L(before[X]) >= 32:
                    c.prove(r.ok, "read", info=repr(r.exc))
                    if r.ok:
                        c.prove_bytes_eq(r.value, before[X], "exactly")
                else:
                    c.prove(r.raised(ValueError), "short content refused",
                            info=repr(r.exc))
                frame(c, e, before, "read")
            elif op == "delete":
                c.prove(r.ok, "deleted", info=repr(r.exc))
                want = dict(before)
                del want[X]
                frame(c, e, want, "deleted")
    return fn


OPS = ("make", "read", "update", "delete")


def target(pkg):
    def fn(c):
        seen = {}
        for name in ("x", "y"):
            for a, op in itertools.product((0, 1), OPS):
                with Env(c, pkg, a) as e:
                    if op != "make":
                        e.fs.files[f"{D}/{name}"] = [bytes(32), 0]
                    path = e.fs.path(f"{D}/{name}")
                    kw = dict(salt=bytes(32)) if op == "update" else {}
                    r = e.run(f"{op}_salt_file", path, **kw)
                    c.prove(r.ok, "done", info=repr(r.exc))
                    if len(e.gs.targets) != 1:
                        raise core.Unsupported("lost: one guard per call")
                    seen[name, a, op] = e.gs.targets[0]
        x, y = seen["x", 0, "make"], seen["y", 0, "make"]
        for (name, a, op), t in seen.items():
            c.prove_bytes_eq(t, x if name == "x" else y,
                             "one target per path")
        c.prove(x != y, "different paths, different targets")
    return fn


def path(pkg, a, admin, exists):
    def fn(c):
        with Env(c, pkg, a) as e:
            sec = D + "/secure"
            where = sec + ("/_admin" if admin else "")
            X = where + "/name"
            key = c.bytes("key", 32)
            for k in ("", "a"):
                def spec(c_, f, path, *, key, size=8, _a=bool(k)):
                    r = path / "name"
                    if not _a:
                        return r

                    async def go():
                        return r
                    return go()
                c.contracts[M, k + "find_salt_file"] = spec
            if exists:
                e.fs.dirs |= {sec, where}
                e.fs.files[X] = [c.bytes("old"), 0]
            before = {k: v[0] for k, v in e.fs.files.items()}
            f = e.p.AsyncSecureSaltPath if a else e.p.SecureSaltPath
            r = attempt(f, e.fs.path(D), key=key, _admin=admin)
            c.prove(r.ok, "found", info=repr(r.exc))
            c.prove(str(r.value) == X, "in its directory",
                    info=str(r.value))
            settled(c, e)
            if exists:
                frame(c, e, before, "kept")
            else:
                c.prove(list(e.fs.files) == [X], "created",
                        info=repr(list(e.fs.files)))
                drawn = c.state.get("drawn", [])
                new = e.fs.files[X][0]
                c.prove(L(new) >= 32, "at least 32 bytes")
                c.prove(bool(drawn), "fresh randomness")
                if drawn:
                    c.prove_bytes_eq(new, drawn[-1], "is the salt")
    return fn


def proofs(pkg):
    for a in (0, 1):
        n = "async" if a else "sync"
        for op in OPS:
            F = [f"_paths.{'a' if a else ''}{op}_salt_file"]
            for ex in (True, False):
                yield Proof(f"{op}[{n},{'existing' if ex else 'missing'}]",
                            each(pkg, a, op, ex), functions=F,
                            min_obligations=3)
                for k in range(1, 6):
                    yield Proof(
                        f"{op}[{n},{'existing' if ex else 'missing'},"
                        f"operation {k} fails]", each(pkg, a, op, ex, k),
                        functions=F, min_obligations=2)
        for admin in (False, True):
            for ex in (True, False):
                yield Proof(f"path[{n},{admin},{ex}]",
                            path(pkg, a, admin, ex),
                            functions=["_paths.SecureSaltPath"],
                            min_obligations=3)
    yield Proof("target", target(pkg),
                functions=["_paths.filename_to_index_key"],
                min_obligations=17)
