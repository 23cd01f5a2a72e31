"""
The real database classes over contracts of what they use: files (ghost file
system), ciphers (authenticated boxes, P01/P02), key derivation (a
collision-free function, P11), random salts.
"""
import hashlib

from checks.db_lib import Disk, Mem, Real, labels
from vf import core, ghostfs, models
from vf.util import *  # noqa

KEY = b"k" * 64
OTHER = b"o" * 64
D = "/ghost"


class Box:
    """a ciphertext: opens with its key only"""
    __slots__ = ("key", "text", "kind")

    def __init__(self, kind, key, text):
        self.kind, self.key, self.text = kind, key, text

    def __bool__(self):
        return True

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class Bad(Exception):
    pass


def cipher(kind, bad=Bad):
    class Cipher:
        def __init__(self, key, **k):
            if k or not isinstance(key, bytes) or not core.blen_int(key):
                raise core.Unsupported("cipher arguments")
            self.key = key

        def seal(self, text):
            return Box(kind, self.key, text)

        def open(self, box):
            if (type(box) is not Box or box.kind != kind
                    or not core.same_rope(box.key, self.key)):
                raise bad
            return box.text

        def bytes_encrypt(self, text, **k):
            none(k)
            return self.seal(text)

        def bytes_decrypt(self, box, ttl=None, **k):
            none(k)
            return self.open(box)

        def json_encrypt(self, x, **k):
            none(k)
            return self.seal(models.m_json_dumps(x).encode())

        def json_decrypt(self, box, ttl=None, **k):
            none(k)
            return models.m_json_loads(self.open(box))

        async def abytes_encrypt(self, *a, **k):
            return self.bytes_encrypt(*a, **k)

        async def abytes_decrypt(self, *a, **k):
            return self.bytes_decrypt(*a, **k)

        async def ajson_encrypt(self, *a, **k):
            return self.json_encrypt(*a, **k)

        async def ajson_decrypt(self, *a, **k):
            return self.json_decrypt(*a, **k)

        def make_token(self, text):
            return self.seal(text)

        def read_token(self, box, ttl=None):
            return self.open(box)

        async def amake_token(self, text):
            return self.seal(text)

        async def aread_token(self, box, ttl=None):
            return self.open(box)

        def __getattr__(self, name):
            raise core.Unsupported(f"cipher.{name}")
    return Cipher


def none(k):
    if k:
        raise core.Unsupported(f"cipher options {list(k)}")


class KDF:
    """collision-free function of everything it is given"""

    def __init__(self, domain, *data, key):
        self.state = (domain, data, key)

    def out(self, alg, data, aad, size):
        h = hashlib.shake_256(repr((self.state, alg, data, aad, size)
                                   ).encode())
        return h.digest(size)

    def shake_128(self, *data, aad=b"", size):
        return self.out("shake_128", data, aad, size)

    def sha3_512(self, *data, aad=b""):
        return self.out("sha3_512", data, aad, 64)

    async def ashake_128(self, *data, aad=b"", size):
        return self.out("shake_128", data, aad, size)

    async def asha3_512(self, *data, aad=b""):
        return self.out("sha3_512", data, aad, 64)

    def __getattr__(self, name):
        raise core.Unsupported(f"kdf.{name}")


class Ghost:
    """the database class over the contracts; one directory"""

    def __init__(self, c, pkg, a):
        self.c, self.a, self.pkg = c, a, pkg
        self.cls = pkg.AsyncDatabase if a else pkg.Database
        self.fs = ghostfs.FS(dirs=("/", D))
        self.real = Real(self.cls, a, call)
        io = pkg.generics.ByteIO
        g_io = io.read.__globals__
        g_db = (self.cls.aload_tags if a
                else self.cls.load_tags).__globals__
        fs = self.fs

        async def salt(n):
            return b"s" * n

        async def path(cls, p):
            return fs.path(D)

        def m(d, k):
            if k not in d:
                raise core.Unsupported(f"{k} is not used here")
        self.items = [(g_io, "Path", fs.path),
                      (g_io, "aiofiles", ghostfs.Aiofiles(fs))]
        if a:
            self.items += [(g_db, "aos", ghostfs.AOS(fs)),
                           (g_db, "atoken_bytes", salt)]
        else:
            self.items += [(g_db, "token_bytes", lambda n: b"s" * n)]
        for d, k, _ in self.items:
            m(d, k)
        P = next(k for k in self.cls.__mro__ if "_DBKDF" in k.__dict__)
        bad = getattr(self.cls, "InvalidSHMAC", Bad)
        self.attrs = [(P, "_DBKDF", KDF), (P, "_Cipher", cipher("file", bad)),
                      (P, "_TokenCipher", cipher("token", bad)),
                      (self.cls, "_aformat_path" if a else "_format_path",
                       classmethod(path if a else
                                   lambda cls, p: fs.path(D)))]

    def __enter__(self):
        async def name(c, f, value):
            return value.hex()
        io = "aiootp.generics.byte_io"
        self.c.contracts[io, "ByteIO.bytes_to_filename"] = (
            lambda c, f, value: value.hex())
        self.c.contracts[io, "ByteIO.abytes_to_filename"] = name
        self.old = [(d, k, d[k]) for d, k, _ in self.items]
        self.olda = [(o, k, o.__dict__[k]) for o, k, _ in self.attrs]
        for d, k, v in self.items:
            d[k] = v
        for o, k, v in self.attrs:
            setattr(o, k, v)
        return self

    def __exit__(self, *_):
        for d, k, v in self.old:
            d[k] = v
        for o, k, v in self.olda:
            setattr(o, k, v)
        return False

    def open(self, key=KEY, **k):
        return self.real.open(key=key, path=D, **k)


class Value:
    """makes fresh symbolic values: bytes of any length, or any JSON value"""

    def __init__(self, c):
        self.c = c
        self.n = 0

    def __call__(self, kind):
        self.n += 1
        pool = self.c.state.setdefault("value pool", {})
        if (kind, self.n) not in pool:
            name = f"{kind} {self.n}"
            pool[kind, self.n] = (self.c.bytes(name) if kind == "bytes"
                                  else models.OpaqueJSON(name))
        return pool[kind, self.n]


def same(x, y):
    if x is y:
        return True
    if isinstance(x, bytes) and isinstance(y, bytes):
        return core.same_rope(x, y)
    if type(x) is models.OpaqueJSON or type(y) is models.OpaqueJSON:
        return False
    return type(x) is type(y) and x == y


class World:
    """a history: the real database and its state machine, side by side"""

    def __init__(self, c, pkg, a, kinds):
        self.c, self.kinds = c, kinds
        self.g = Ghost(c, pkg, a)
        self.g.__enter__()
        self.value = Value(c)
        try:
            self.db = self.g.open()
            self.mem = Mem(Disk())
            self.step(("save",))
        except BaseException:
            self.close()
            raise

    def close(self):
        self.g.__exit__()

    def at(self, where):
        db, mem = self.db, self.mem
        for m in where:
            db, mem = getattr(db, m), mem.subs[m]
        return db, mem

    def step(self, op, check=None):
        """
        op = (name[, tag[, where]]); check(good, what, info) judges
        """
        name, t, where = (*op, None, ())[:3] if len(op) < 3 else op
        if len(op) == 1:
            t, where = None, ()
        elif len(op) == 2:
            where = ()
        if name.startswith("reopen"):
            pre = name == "reopen-preload"
            self.db = self.g.open(preload=pre)
            self.mem = Mem(self.mem.disk, pre)
            return
        db, mem = self.at(where)
        v = None
        if name in ("set", "set-save", "setitem"):
            v = self.value(self.kinds[t])
        r = attempt(self.g.real.apply, db, name, t, v)
        how, want = mem.apply(name, t, v)
        if check is None:
            return
        if how == "error":
            check(r.raised(want), f"{name}: reported missing", repr(r.exc))
        else:
            check(r.ok, f"{name}: succeeds", repr(r.exc))
            if r.ok and name not in ("metatag",):
                check(same(r.value, want), f"{name}: result",
                      f"{r.value!r} instead of {want!r}")

    def shape(self):
        """internal state, values replaced by their order of appearance"""
        raw = []

        def skip(path, x):
            if type(x) is models.OpaqueJSON:
                raw.append((path, "value", x.name))
            elif type(x) is Box:
                raw.append((path, "box", (x.kind, x.key)))
                scan(path + ".text", x.text)
            elif isinstance(x, ghostfs.GPath):
                raw.append((path, "const", str(x)))
            elif type(x) is KDF:
                raw.append((path, "const", repr(x.state)))
            else:
                return False
            return True

        def scan(path, x):
            for p, k, v in leaves(x, skip):
                if k == "symbytes":
                    raw.append((path + p, "value", v.key()))
                elif k in ("const", "alias"):
                    raw.append((path + p, k, v if isinstance(
                        v, (str, bytes, int, bool, tuple, type(None)))
                        else type(v).__name__))
                else:
                    raw.append((path + p, k, ""))
        scan("db", self.db)
        scan("fs", dict(self.g.fs.files))
        names = {}
        return [(p, k, names.setdefault(v, len(names)) if k == "value"
                 else v) for p, k, v in sorted(raw, key=lambda r: r[0])]

    def valid(self, op):
        mem = self.mem
        for m in (op[2] if len(op) > 2 else ()):
            if m not in mem.metas:
                return False
            mem = mem.subs[m]
        return True


def explore(c, pkg, a, kinds, ops, starts, judge, limit=4000):
    """
    every operation from every reachable state (of the state machine and of
    the database's internals, values up to renaming); judge(world, check)
    observes the resulting state
    """
    seen = {}
    todo = []
    edges = 0

    def run(path, last=None):
        nonlocal edges
        w = World(c, pkg, a, kinds)
        try:
            for op in path:
                w.step(op)
            if last is not None and not w.valid(last):
                return
            if last is not None:
                edges += 1
                hist = [*path, last]

                def check(good, what, info=""):
                    if good is not True:
                        c.prove(good, what, info=f"{info}; history {hist}")
                w.step(last, check)
            else:
                hist = path

                def check(good, what, info=""):
                    if good is not True:
                        c.prove(good, what, info=f"{info}; history {path}")
            key = repr((labels(w.mem), w.shape()))
            if key not in seen:
                seen[key] = True
                todo.append([*path] + ([last] if last else []))
                if len(seen) > limit:
                    raise core.Unsupported("too many states")
            n = len(c.obligations)
            judge(w, check)
            if n == len(c.obligations):
                c.prove(True, f"{(last or ('start',))[0]}: as specified, "
                        f"in a state reached by {len(path)} operations")
        finally:
            w.close()

    for s in starts:
        run(list(s))
    while todo:
        path = todo.pop(0)
        for op in ops:
            run(path, op)
    return len(seen), edges


def tag_ops(t):
    return [(o, t) for o in (
        "set", "setitem", "set-save", "query", "query-cache", "getitem",
        "pop", "pop-silent", "del", "rollback", "rollback-cache", "save-tag",
        "save-tag-drop")]


WHOLE = [("save",), ("clear",), ("load-tags",), ("reload",), ("reopen",),
         ("reopen-preload",), ("context",), ("context-error",)]
STARTS = [[("set", "u")], [("set", "u"), ("save",)],
          [("set", "u"), ("save",), ("set", "u")], []]


def subjects(a):
    """(name, kinds, ops, starts)"""
    m = ("m",)
    for t, u in (("bytes", "json"), ("json", "bytes")):
        for k, s in enumerate(STARTS):
            yield (f"tags {t} {k}", dict(t=t, u=u), tag_ops("t") + WHOLE, [s])
    sub = [(o, "v", m) for o in ("set", "pop-silent", "rollback",
                                 "save-tag")] + [("save", None, m)]
    yield ("metatag", dict(v="bytes"),
           sub + [("metatag", "m"), ("delete-metatag", "m"), ("save",),
                  ("clear",), ("reopen",), ("reopen-preload",)],
           [[("metatag", "m"), ("save",)]])
