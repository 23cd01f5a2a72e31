"""
P22  database files are bound to database, tag and key

requests   what two operations (of the same kind or not, on databases with
           any salts) ask of the key derivation is equal only if kind, salt,
           tag, file name and associated data are; with the derivation's
           binding (P10) so are file names, cipher keys and metatag keys
helpers    what one helper sealed another opens exactly when tag, associated
           data, salt and database agree; text and time to live are passed on
files      any file replaced by any other file, by a foreign box or by any
           bytes: whatever reads it raises
root       the database's derivation state binds its key
profile    the login key binds user name, passphrase, salts, credentials,
           associated data and settings
"""
import itertools

from checks import db_ghost as dg
from checks.db_lib import Mem
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 6
BUDGET = 120
CAP = (1 << 32) - 1
ASSUMPTIONS = [
    "key derivation output determines its inputs (P10: keys of equal "
    "length; see KNOWN_FINDINGS.txt for keys of different lengths)",
    "a ciphertext opens only with the key that sealed it (P02)",
    "file name encoding is injective for names of one size (P11)",
    "file operations behave as vf/ghostfs.py states",
]


class Text:
    """any text: reaches the code through its encoding"""

    def __init__(self, data):
        self.data = data

    def encode(self, *a):
        if a not in ((), ("utf-8",), ("utf8",)):
            raise core.Unsupported("encoding")
        return self.data

    def __getattr__(self, name):
        raise core.Unsupported(f"text.{name}")


class Log:
    """a derivation that records requests and answers arbitrary bytes"""

    def __init__(self, c, tag):
        self.c, self.tag, self.log = c, tag, []

    def ask(self, alg, data, aad, size):
        r = (alg, list(data), aad, size)
        n = self.c.state["answers"] = self.c.state.get("answers", 0) + 1
        out = self.c.bytes(f"{self.tag} answer {n}", size)
        self.log.append((r, out))
        return out

    def shake_128(self, *data, aad=b"", size):
        return self.ask("shake_128", data, aad, size)

    def shake_256(self, *data, aad=b"", size):
        return self.ask("shake_256", data, aad, size)

    def sha3_512(self, *data, aad=b""):
        return self.ask("sha3_512", data, aad, 64)

    def sha3_256(self, *data, aad=b""):
        return self.ask("sha3_256", data, aad, 32)

    async def ashake_128(self, *data, aad=b"", size):
        return self.ask("shake_128", data, aad, size)

    async def ashake_256(self, *data, aad=b"", size):
        return self.ask("shake_256", data, aad, size)

    async def asha3_512(self, *data, aad=b""):
        return self.ask("sha3_512", data, aad, 64)

    async def asha3_256(self, *data, aad=b""):
        return self.ask("sha3_256", data, aad, 32)

    def __getattr__(self, name):
        raise core.Unsupported(f"kdf.{name}")


def equal(r, s):
    """decide whether two requests are equal (splits paths)"""
    if r[0] != s[0] or len(r[1]) != len(s[1]) or r[3] != s[3]:
        return False
    return all(core.bytes_eq(x, y) for x, y in zip(
        [r[2], *r[1]], [s[2], *s[1]]))


class Op:
    """one operation on a database with an arbitrary salt"""

    def __init__(self, c, g, kind, n):
        self.c, self.kind = c, kind
        db = g.open()
        if not (hasattr(db, "_root_kdf") and hasattr(db, "_root_salt")):
            raise core.Unsupported("where the keys are")
        self.kdf = db._root_kdf = Log(c, f"{kind}{n}")
        self.salt = db._root_salt = c.bytes(f"salt{n}", 24)
        self.db, self.a, self.real = db, g.a, g.real
        self.binds = {}
        getattr(self, kind)(c, n)

    def call(self, name, *x, **k):
        pre = "_a" if name[0] == "_" and self.a else "a" if self.a else ""
        f = getattr(self.db, pre + name.lstrip("_") if self.a else name, None)
        if f is None:
            raise core.Unsupported(f"no {name}")
        return call(f, *x, **k)

    def text(self, name, n):
        self.binds[name] = self.c.bytes(f"{name}{n}", hi=CAP)
        return Text(self.binds[name])

    def take(self, used=None):
        if len(self.kdf.log) != 1:
            raise core.Unsupported("not one request")
        self.request, self.answer = self.kdf.log[0]
        if used is not None:
            self.c.prove(core.same_rope(used, self.answer),
                         f"{self.kind}: the derived key is used")

    def filename(self, c, n):
        self.binds["salt"] = self.salt
        out = self.call("filename", self.text("tag", n))
        self.take(out.data if type(out) is Named else out)

    def root(self, c, n):
        out = self.db._root_filename
        self.take(out.data if type(out) is Named else out)

    def list_(self, c, n):
        self.db.path = None             # nothing is to be written
        box = self.call("_encrypt_manifest")
        if type(box) is not dg.Box:
            raise core.Unsupported("list not sealed")
        self.take(box.key)

    def metatag(self, c, n):
        self.binds["salt"] = self.salt
        self.take(self.call("_metatag_key", self.text("tag", n)))

    def seal(self, c, n):
        self.binds["salt"] = self.salt
        self.binds["aad"] = c.bytes(f"aad{n}", hi=CAP)
        box = self.call("bytes_encrypt", b"text", filename=self.text(
            "name", n), aad=self.binds["aad"])
        if type(box) is not dg.Box:
            raise core.Unsupported("not sealed")
        c.prove(L(box.key) >= 64, "cipher keys have at least 64 bytes")
        self.take(box.key)


class Named:
    """a file name made of these bytes"""

    def __init__(self, data):
        self.data = data


KINDS = ("filename", "root", "list_", "metatag", "seal")


def naming(c):
    io = "aiootp.generics.byte_io"

    async def name(c, f, value):
        return Named(value)
    c.contracts[io, "ByteIO.bytes_to_filename"] = (
        lambda c, f, value: Named(value))
    c.contracts[io, "ByteIO.abytes_to_filename"] = name


def requests(pkg, a, b, k1, k2):
    def fn(c):
        with dg.Ghost(c, pkg, a) as g:
            old = dict(c.contracts)
            one = opened(c, g, k1, 1)
            c.contracts.update(old)
        with dg.Ghost(c, pkg, b) as g:
            two = opened(c, g, k2, 2)
        if equal(one.request, two.request):
            if k1 != k2:
                c.fail(f"{k1} and {k2} never share a key or name")
                return
            for k in one.binds:
                c.prove_bytes_eq(one.binds[k], two.binds[k],
                                 f"equal {k1}: same {k}")
            c.cover("equal")
        else:
            c.prove(True, "different")
    return fn


def opened(c, g, kind, n):
    class Late:
        """names stay hexadecimal while the database is opened"""
        def __getattr__(self, k):
            return getattr(g, k)

        def open(self):
            db = g.open()
            naming(c)
            return db
    return Op(c, Late(), kind, n)


SEAL = [("bytes_encrypt", "bytes_decrypt"), ("json_encrypt", "json_decrypt"),
        ("make_token", "read_token")]


def helpers(pkg, a, b, pair):
    enc, dec = pair

    def fn(c):
        with dg.Ghost(c, pkg, a) as g:
            db = g.open()
            kdf = Log(c, "one")
            db._root_kdf, db._root_salt = kdf, c.bytes("salt1", 24)
            x = models.OpaqueJSON("x") if "json" in enc else c.bytes("x")
            n1, a1 = c.bytes("n1", hi=CAP), c.bytes("a1", hi=CAP)
            r = attempt(g.real.call, db, enc, x, filename=Text(n1), aad=a1)
            if not r.ok:
                c.fail("seals", info=repr(r.exc))
                return
            box = r.value
            if type(box) is not dg.Box or len(kdf.log) != 1:
                raise core.Unsupported("not sealed")
            s1 = db._root_salt
        with dg.Ghost(c, pkg, b) as g:
            db = g.open()
            log = Log(c, "two")
            s2 = db._root_salt = c.bytes("salt2", 24)
            n2, a2 = c.bytes("n2", hi=CAP), c.bytes("a2", hi=CAP)
            # a function: equal requests have equal answers, others not

            def ask(alg, data, aad, size):
                r = (alg, list(data), aad, size)
                out = kdf.log[0][1] if equal(r, kdf.log[0][0]) else (
                    c.bytes("other key", size))
                log.log.append((r, out))
                return out
            log.ask = ask
            db._root_kdf = log
            r = attempt(g.real.call, db, dec, box, filename=Text(n2), aad=a2)
            if r.ok:
                good = (r.value is x if "json" in enc
                        else core.same_rope(r.value, x))
                c.prove(good, "opens to what was sealed")
                c.prove_bytes_eq(n1, n2, "opens: same tag")
                c.prove_bytes_eq(a1, a2, "opens: same associated data")
                c.prove_bytes_eq(s1, s2, "opens: same salt")
                c.cover("opened")
            else:
                same = (core.bytes_eq(n1, n2) and core.bytes_eq(a1, a2)
                        and core.bytes_eq(s1, s2))
                if same:
                    c.fail("opens what it sealed", info=repr(r.exc))
                else:
                    c.prove(True, "refused")
    return fn


def lifetime(pkg, a, dec):
    """the time to live reaches the cipher"""
    def fn(c):
        with dg.Ghost(c, pkg, a) as g:
            db = g.open()
            got = []
            P = next(k for k in g.cls.__mro__ if "_Cipher" in k.__dict__)

            class Cipher:
                def __init__(self, key, **k):
                    pass

                def __getattr__(self, name):
                    def f(box, ttl="none given", **k):
                        got.append((name.removeprefix("a"), ttl))
                        return b"[]"

                    async def af(*x, **k):
                        return f(*x, **k)
                    return af if g.a else f
            old = P._Cipher, P._TokenCipher
            P._Cipher = P._TokenCipher = Cipher
            try:
                ttl = c.int("ttl")
                if dec == "query_tag":
                    p = D_path(g, db)
                    g.fs.files[p] = [dg.Box("file", b"", b""), 0o644]
                    attempt(g.real.call, db, dec, "t", ttl=ttl).get()
                else:
                    attempt(g.real.call, db, dec, b"x", ttl=ttl).get()
            finally:
                P._Cipher, P._TokenCipher = old
            c.prove(len(got) == 1 and got[0][1] is ttl,
                    "time to live passed on", info=repr(got))
            if dec != "query_tag":
                c.prove(got[0][0] == dec, "matching cipher method",
                        info=repr(got))
    return fn


def D_path(g, db):
    return f"{dg.D}/" + g.real.call(db, "filename", "t")


# ---------------------------------------------------------------- files
READS = ("query", "query-silent", "query-cache", "pop", "pop-silent",
         "rollback-cache", "load-tags")


def build(c, pkg, a):
    """two databases in one directory; {file: (reader, arguments)}"""
    w = dg.World(c, pkg, a, dict(t="bytes", u="bytes", v="bytes"))
    try:
        for op in (("set", "t"), ("set", "u"), ("metatag", "m"),
                   ("set", "v", ("m",)), ("set", "t", ("m",)), ("save",)):
            w.step(op)
        g = w.g
        db = w.db
        name = g.real.call
        roles = {}
        for t in ("t", "u"):
            roles[name(db, "filename", t)] = ("tag", t, ())
        for t in ("v", "t"):
            roles[name(db.m, "filename", t)] = ("tag", t, ("m",))
        roles[db._root_filename] = ("list", None, ())
        roles[db.m._root_filename] = ("list", None, ("m",))
        other = g.open(key=dg.OTHER)
        g.real.apply(other, "set", "t", c.bytes("theirs"))
        g.real.apply(other, "save")
    except BaseException:
        w.close()
        raise
    return w, {f"{dg.D}/{k}": v for k, v in roles.items()}


def files(pkg, a):
    def fn(c):
        w, roles = build(c, pkg, a)
        g = w.g
        try:
            stored = {k: list(v) for k, v in g.fs.files.items()}
            if set(roles) - set(stored) or len(stored) != len(roles) + 2:
                raise core.Unsupported("files are not where expected")
            boxes = [v[0] for v in stored.values()]
            some = boxes[0]
            junk = ([b for b in boxes]
                    + [dg.Box("file", c.bytes("key"), c.bytes("text")),
                       dg.Box("token", some.key, some.text),
                       b"", c.bytes("junk")])

            def reset():
                g.fs.files.clear()
                g.fs.files.update({k: list(v) for k, v in stored.items()})
            for path, (role, tag, where) in roles.items():
                for bad in junk:
                    if bad is stored[path][0]:
                        continue
                    for read in (READS if role == "tag" else ("open",)) + (
                            "open-preload",):
                        reset()
                        db = None
                        if not read.startswith("open"):
                            db = g.open()
                        g.fs.files[path][0] = bad
                        if db is None:
                            r = attempt(g.open, preload="preload" in read)
                        else:
                            x = db
                            for m in where:
                                x = getattr(x, m)
                            r = attempt(g.real.apply, x, read,
                                        None if read == "load-tags" else tag)
                        c.prove(not r.ok, f"{read}: a replaced {role} file "
                                "is refused", info=f"{path} {bad!r}")
            reset()
            # other credentials: nothing of it
            x = g.open(key=b"x" * 64)
            c.prove(not x.tags and not x.metatags,
                    "other credentials show nothing")
            for t in ("t", "u", "v"):
                r = attempt(g.real.apply, x, "query-silent", t)
                c.prove(r.ok and r.value is None,
                        "other credentials read nothing")
        finally:
            w.close()
    return fn


# ----------------------------------------------------------------- root
def root(pkg):
    K = pkg.databases.dbkdf.DBKDF

    def fn(c):
        keys = [c.bytes(f"k{i}", lo=64, hi=CAP) for i in (1, 2)]
        c.assume(core.rope(keys[0]).n == core.rope(keys[1]).n)
        D = pkg.databases.dbdomains.DBDomains.ROOT_KDF
        p, q = (attempt(K, D, key=k) for k in keys)
        if not (p.ok and q.ok):
            c.fail("accepts keys of 64 bytes or more", info=repr(p.exc))
            return
        p, q = p.value, q.value
        if core.bytes_eq(p._payload.transcript, q._payload.transcript):
            c.prove_bytes_eq(*keys, "equal state: same key")
            c.cover("equal")
        else:
            c.prove(True, "different")
    return fn


def short(pkg):
    K = pkg.databases.dbkdf.DBKDF

    def fn(c):
        k = c.bytes("k", hi=63)
        r = attempt(K, pkg.databases.dbdomains.DBDomains.ROOT_KDF, key=k)
        c.prove(r.raised(ValueError), "short keys refused", info=repr(r))
    return fn


def key_used(pkg, a):
    """a database derives from exactly the key it was given"""
    def fn(c):
        with dg.Ghost(c, pkg, a) as g:
            seen = []
            P = next(k for k in g.cls.__mro__ if "_DBKDF" in k.__dict__)

            class K(dg.KDF):
                def __init__(self, domain, *data, key):
                    seen.append((domain, data, key))
                    super().__init__(domain, *data, key=len(seen))
            P._DBKDF = K
            key = c.bytes("key", lo=64, hi=CAP)
            db = attempt(g.open, key=key).get()
            c.prove(len(seen) == 1 and core.same_rope(seen[0][2], key),
                    "key of the database", info=repr(seen))
            sub = attempt(g.real.call, db, "metatag", "m").get()
            c.prove(len(seen) == 2, "metatag has its own key")
            k = seen[1][2]
            pre = "_ametatag_key" if a else "_metatag_key"
            if hasattr(db, pre):
                c.prove(k == call(getattr(db, pre), "m"), "metatag key used")
            c.prove(isinstance(k, bytes) and len(k) >= 64,
                    "metatag keys have at least 64 bytes")
            c.prove(str(sub.path) == str(db.path), "metatag in the directory")
    return fn


# -------------------------------------------------------------- profile
def profile(pkg, a, n, m):
    mod = pkg.databases.profile_tokens
    T = mod.AsyncProfileTokens if a else mod.ProfileTokens

    def fn(c):
        g = (T.agenerate if a else T.generate).__globals__
        hashes = []
        device = c.bytes("device", 64)

        def digest(kind, req):
            """a collision-free function: one constant per request"""
            for old, out in hashes:
                if old[0] == kind and same(old[1], req):
                    return out
            out = bytes([len(hashes)]) * 64
            hashes.append(((kind, req), out))
            return out

        def same(x, y):
            return len(x) == len(y) and all(
                (core.bytes_eq(i, j) if isinstance(i, bytes)
                 and isinstance(j, bytes) else i == j)
                for i, j in zip(x, y))

        def hash_bytes(*x, key=b"", hasher, size=None, pad=b""):
            if size is not None or pad:
                raise core.Unsupported("hash arguments")
            return digest("hash", [getattr(hasher, "__name__", ""), key, *x])

        async def ahash_bytes(*x, **k):
            return hash_bytes(*x, **k)

        def path(p, *, key, _admin=False):
            return ("path", p, key, _admin)

        async def apath(*x, **k):
            return path(*x, **k)

        def read(p):
            if p[3]:
                return device
            return digest("salt", [p[1], p[2]])

        async def aread(p):
            return read(p)

        class Passcrypt:
            def __init__(self, **k):
                self.k = k

            def new(self, *, passphrase, salt, aad):
                out = digest("passcrypt", [passphrase, salt, aad, *(
                    x for p in sorted(self.k.items()) for x in p)])
                return out

            async def anew(self, **k):
                return self.new(**k)
        new = dict(hash_bytes=hash_bytes, ahash_bytes=ahash_bytes,
                   SecureSaltPath=path, AsyncSecureSaltPath=apath,
                   read_salt_file=read, aread_salt_file=aread,
                   Passcrypt=Passcrypt)
        old = {k: g.get(k) for k in new}
        T0 = T.slots_types
        g.update(new)
        T.slots_types = {}
        calls = []
        try:
            for i, cnt in ((1, n), (2, m)):
                k = {x: c.bytes(f"{x}{i}", hi=CAP) for x in (
                    "username", "salt", "aad", "passphrase")}
                creds = [c.bytes(f"cred{i}{j}", hi=CAP) for j in range(cnt)]
                pc = {x: c.int(f"{x}{i}", 1, 255) for x in (
                    "mb", "cpu", "cores")}
                r = attempt(getattr(T(), "agenerate" if a else "generate"),
                            *creds, **k, **pc, path="/p")
                if not r.ok:
                    raise core.Unsupported(f"generate: {r.exc!r}")
                calls.append((k, creds, pc, r.value.login_key))
        finally:
            g.update(old)
            T.slots_types = T0
        (k, x, p, one), (l, y, q, two) = calls
        if core.bytes_eq(one, two):
            for i in k:
                c.prove_bytes_eq(k[i], l[i], f"equal login key: same {i}")
            c.prove(len(x) == len(y), "equal login key: same number of "
                    "credentials")
            for i, j in zip(x, y):
                c.prove_bytes_eq(i, j, "equal login key: same credential")
            for i in p:
                c.prove(p[i] == q[i], f"equal login key: same {i}")
            c.cover("equal")
        else:
            c.prove(True, "different")
    return fn


def proofs(pkg):
    F = ["databases.database_properties.DatabaseProperties",
         "databases.sync_database.Database",
         "databases.async_database.AsyncDatabase"]
    for k1, k2 in itertools.combinations_with_replacement(KINDS, 2):
        for a, b in ((0, 0), (0, 1), (1, 1)):
            yield Proof(f"requests[{k1},{k2},{a}{b}]", requests(
                pkg, a, b, k1, k2), functions=F, min_obligations=1)
    for pair in SEAL:
        for a in (0, 1):
            for b in (0, 1):
                yield Proof(f"helpers[{pair[0]},{a}{b}]", helpers(
                    pkg, a, b, pair), functions=F, min_obligations=4)
    for a in (0, 1):
        for dec in ("bytes_decrypt", "json_decrypt", "read_token",
                    "query_tag"):
            yield Proof(f"lifetime[{dec},{a}]", lifetime(pkg, a, dec),
                        functions=F, min_obligations=1)
        yield Proof(f"files[{a}]", files(pkg, a), functions=F,
                    min_obligations=200)
        yield Proof(f"key used[{a}]", key_used(pkg, a), functions=F,
                    min_obligations=4)
        for n, m in ((0, 0), (1, 1), (0, 1), (1, 2), (2, 2)):
            yield Proof(f"profile[{a},{n},{m}]", profile(pkg, a, n, m),
                        functions=["databases.profile_tokens"],
                        min_obligations=1)
    yield Proof("root", root(pkg), functions=["databases.dbkdf.DBKDF"],
                min_obligations=2)
    yield Proof("short", short(pkg), functions=["databases.dbkdf.DBKDF"],
                min_obligations=1)
