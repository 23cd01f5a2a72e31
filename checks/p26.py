"""
P26  package signatures

verify     any summary: accepted exactly when the signing key, the checksum
           over everything but checksum and signature, every listed file and
           the signature over the checksum are right
sign       the stored signature is the one over the checksum of exactly the
           added files, credentials, scope and public key
summarize  returns those with checksum and signature, or raises when the
           stored signature does not match
whole      what the signer summarises the verifier accepts, also after a
           JSON round trip
files      a file's digest is that of its content, under its name
"""
import types

from checks import pass_lib as pl
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = [
    "hashing and JSON text determine their input, keys in order "
    "(collision-free)",
    "signatures: contract of P25; unforgeable",
    "the database gives back what was stored (P20) and tokens open to the "
    "sealed key (P22)",
    "summaries with up to 2 files, 2 extra scope fields and 2 credentials "
    "(more: bounded check)",
]
S, V = "aiootp.keygens.package_signer.", "aiootp.keygens.package_verifier."


def flat(x):
    if type(x) is core.SymHex:
        return ["hex", x.raw]
    if isinstance(x, dict):
        out = ["dict", len(x)]
        for k, v in x.items():
            out += flat(k) + flat(v)
        return out
    if isinstance(x, (list, tuple)):
        out = ["list", len(x)]
        for v in x:
            out += flat(v)
        return out
    return [x]


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)) and type(x) is not core.SymHex:
        return [copy(v) for v in x]
    return x


class World:
    def __init__(self, c, pkg):
        self.c, self.F = c, pl.Functions(c)
        self.dumped, self.log, self.hashed = [], [], []
        w = self

        class Text(str):
            """JSON text of a value"""
            def encode(self, *a):
                return self.raw

            @property
            def __class__(self):
                return str

        class JSON:
            @staticmethod
            def dumps(x, **k):
                if k:
                    raise core.Unsupported("options of json.dumps")
                t = Text()
                t.value = copy(x)
                t.raw = w.F("json", flat(x))
                w.dumped.append((t.value, t.raw))
                return t

            @staticmethod
            def loads(x):
                if type(x) is Text:
                    return copy(x.value)
                raise core.Unsupported("other JSON text")

            def __getattr__(self, name):
                raise core.Unsupported(f"json.{name}")
        self.JSON = JSON()

        class Hasher:
            def __init__(self, data=b""):
                self.data = data

            def update(self, data):
                self.data = self.data + data

            def digest(self):
                w.hashed.append(self.data)
                return w.F("hash", [self.data], None)

            def hexdigest(self):
                return self.digest().hex()

            def __getattr__(self, name):
                raise core.Unsupported(f"hasher.{name}")
        self.Hasher = Hasher
        E = pkg.keygens.Ed25519

        class Bad(E.InvalidSignature):
            pass

        class Signer:
            def __init__(self):
                self.secret = self.public = None

            def generate(self):
                return self.import_secret_key(c.bytes("generated", 32))

            def import_secret_key(self, key):
                self.secret, self.public = key, w.F("public", [key])
                return self

            def import_public_key(self, key):
                self.public = key
                return self

            @property
            def secret_bytes(self):
                return self.secret

            @property
            def public_bytes(self):
                return self.public

            def sign(self, data):
                out = w.F("signature", [self.public, data])
                w.log.append(("sign", self.public, data, out))
                return out

            def verify(self, signature, data, *, public_key=None):
                p = self.public if public_key is None else public_key
                w.log.append(("verify", p, signature, data))
                if w.refuse is None:
                    bad = all(
                        not (k == "signature" and w.F.eq(x[0], p)
                             and w.F.eq(x[1], data) and w.F.eq(o, signature))
                        for k, x, o in w.F.known)
                else:
                    bad = w.refuse
                if bad:
                    raise Bad

            def __getattr__(self, name):
                raise core.Unsupported(f"signer.{name}")
        self.Signer = Signer
        self.refuse = None
        self.present = True

        class P:
            """paths below one directory; file content is arbitrary"""
            def __init__(self, x="."):
                self.x = x.x if isinstance(x, P) else x

            def absolute(self):
                return self

            def __truediv__(self, o):
                return P((self.x, o))

            def read_bytes(self):
                w.log.append(("read", self.x))
                base, name = self.x
                if base != "base":
                    raise core.Unsupported("another directory")
                if w.content[name] is None:
                    raise FileNotFoundError(name)
                return w.content[name]

            def __getattr__(self, name):
                raise core.Unsupported(f"path.{name}")
        self.P = P

        class DB:
            def __init__(self):
                self.d, self.tokens, self.saved = {}, [], 0

            def __getitem__(self, tag):
                return self.d[tag]

            def __setitem__(self, tag, v):
                self.d[tag] = v

            def make_token(self, plain, aad=b""):
                t = core.SymHex(w.F("token", [plain, aad]))
                self.tokens.append((t, plain, aad))
                return types.SimpleNamespace(decode=lambda: t)

            def read_token(self, t, aad=b""):
                for k, p, a in self.tokens:
                    if k is t and w.F.eq(a, aad):
                        return p
                raise ValueError("token")

            def __enter__(self):
                return self

            def __exit__(self, *x):
                self.saved += not x[0]

            def __getattr__(self, name):
                raise core.Unsupported(f"database.{name}")
        self.DB = DB

    def patch(self, pkg):
        k = pkg.keygens
        s, v = k.package_signer, k.package_verifier
        self.s = type("Sig", (s.PackageSigner,), dict(
            _Hasher=self.Hasher, _Signer=self.Signer, _Database=self.DB,
            __slots__=()))
        self.v = type("Ver", (v.PackageVerifier,), dict(
            _Hasher=self.Hasher, _Signer=self.Signer, __slots__=()))
        gs = s.PackageSigner.sign_package.__globals__
        gv = v.PackageVerifier.verify_summary.__globals__
        return pl.replaced((gs, "json", self.JSON), (gv, "json", self.JSON),
                           (gs, "canonical_pack", lambda *x: self.F(
                               "pack", [*x])),
                           (gv, "Path", self.P))

    def verifier(self, key, files):
        if files:
            return self.v(key, path="base")
        return self.v(key, verify_files=False)


def run(f, *x, **k):
    r = attempt(f, *x, **k)
    if not r.ok:
        raise r.exc
    return r.value


def verify(pkg, nfiles, files, text):
    def fn(c):
        w = World(c, pkg)
        w.refuse = bool(c.bool("refused"))
        H = lambda name, n=48: c.bytes(name, n).hex()  # noqa: E731
        names = [f"f{i}" for i in range(nfiles)]
        w.content = {}
        for n in names:
            there = bool(c.bool(f"there.{n}")) if files else True
            w.content[n] = c.bytes(f"content.{n}") if there else None
        sums = {n: H(f"digest.{n}") for n in names}
        key = c.bytes("key", 32)
        summary = dict(
            checksum=H("checksum"), checksums=sums,
            public_credentials=dict(a="b"),
            scope=dict(package="p", version="1", date=3),
            signing_key=H("purported", 32), signature=H("signature", 64))
        rest = {k: v for k, v in summary.items()
                if k not in ("checksum", "signature")}
        with w.patch(pkg):
            v = w.verifier(key, files)
            arg = w.JSON.dumps(summary) if text else copy(summary)
            r = attempt(v.verify_summary, arg)
            want = w.F("hash", [w.F("json", flat(rest))])
            good = (w.F.eq(summary["signing_key"].raw, key)
                    and w.F.eq(summary["checksum"].raw, want))
            if files:
                for n in names:
                    good = good and w.content[n] is not None and w.F.eq(
                        w.F("hash", [w.content[n]]), sums[n].raw)
        good = good and not w.refuse
        c.prove(r.ok is bool(good), "accepted exactly when all is right",
                info=repr(r.exc))
        if r.ok:
            c.cover("accepted")
            c.prove(r.value is None, "returns nothing")
            done = [x for x in w.log if x[0] == "verify"]
            c.prove(len(done) >= 1, "signature checked")
            for _, p, s, d in done:
                c.prove_bytes_eq(p, key, "with the verifier's key")
                c.prove_bytes_eq(s, summary["signature"].raw,
                                 "the summary's signature")
                c.prove_bytes_eq(d, summary["checksum"].raw,
                                 "over the checksum")
    return fn


def signer(c, w, names, creds, extra, order):
    """a signer with arbitrary key and file contents"""
    s = w.s("pkg", "1.0", date=77, **extra)
    s._db = w.DB()
    s.db["pkg"] = s._database_template()
    key = c.bytes("secret", 32)
    run(s.update_signing_key, key)
    run(s.update_public_credentials, **creds)
    contents = {n: c.bytes(f"content.{n}") for n in names}
    w.content = contents
    for n in (reversed(names) if order else names):
        run(s.add_file, n, contents[n])
    return s, key, contents


CONFIGS = [([], {}, {}, 0), (["a"], dict(x="y"), dict(z=1), 0),
           (["a", "b"], dict(b="y", a="z"), dict(z=1, h=[1]), 0),
           (["a", "b"], dict(b="y", a="z"), dict(z=1, h=[1]), 1)]


def expected(w, key, contents, creds, extra):
    public = w.F("public", [key])
    return dict(
        checksums={n: w.F("hash", [contents[n]]).hex()
                   for n in sorted(contents)},
        public_credentials=dict(sorted(creds.items())),
        scope=dict(sorted(dict(extra, package="pkg", version="1.0",
                               date=77).items())),
        signing_key=public.hex()), public


def same(c, got, want, name):
    c.prove(set(got) == set(want), f"{name}: fields", info=repr(list(got)))
    for k in want:
        if k not in got:
            continue
        g, v = got[k], want[k]
        if type(v) is core.SymHex:
            if type(g) is core.SymHex:
                c.prove_bytes_eq(g.raw, v.raw, f"{name}: {k}")
            else:
                c.fail(f"{name}: {k}", info=repr(g))
        elif isinstance(v, dict):
            same(c, g, v, f"{name}: {k}")
        else:
            c.prove(g == v, f"{name}: {k}")


def sign(pkg, i, part):
    names, creds, extra, order = CONFIGS[i]

    def fn(c):
        w = World(c, pkg)
        with w.patch(pkg):
            s, key, contents = signer(c, w, names, creds, extra, order)
            want, public = expected(w, key, contents, creds, extra)
            r = attempt(s.summarize)
            c.prove(not r.ok, "not signed yet: refused")
            del w.log[:], w.hashed[:]
            r = attempt(s.sign_package)
            if not r.ok:
                c.fail("packages can be signed", info=repr(r.exc))
                return
            c.prove(r.value is s, "returns itself")
            signed = [x for x in w.log if x[0] == "sign"]
            c.prove(len(signed) == 1, "signed once")
            _, p, data, sig = signed[0]
            c.prove_bytes_eq(p, public, "with the stored key")
            text = [x for x, raw in w.dumped
                    if w.F("hash", [raw]) is data]
            c.prove(len(text) >= 1, "the checksum is that of a summary")
            for t in text:
                same(c, t, want, "signed")
            stored = s.db["pkg"]["versions"]
            c.prove(list(stored) == ["1.0"], "stored under its version")
            c.prove_bytes_eq(stored["1.0"].raw, sig, "stored signature")
            c.prove(s.db.saved >= 1, "database saved")
            if part == "sign":
                return
            r = attempt(s.summarize)
            if not r.ok:
                c.fail("signed packages are summarised", info=repr(r.exc))
                return
            q = r.value
            same(c, q, dict(want, checksum=data.hex(), signature=sig.hex()),
                 "summary")
            if part == "whole":
                for files in (False, True):
                    for text in (False, True):
                        v = w.verifier(public, files)
                        r = attempt(v.verify_summary, w.JSON.dumps(q)
                                    if text else copy(q))
                        c.prove(r.ok, "accepted by the verifier",
                                info=repr(r.exc))
                return
            # anything signed changes: refused until signed again
            changes = dict(
                scope=lambda: run(s.update_scope, z=2),
                scope2=lambda: run(s.update_scope, new="x"),
                creds=lambda: run(s.update_public_credentials, x="other"),
                key=lambda: run(s.update_signing_key, c.bytes("k2", 32)),
                file=lambda: run(s.add_file, "c", c.bytes("c")),
                again=lambda: run(s.add_file, "a", c.bytes("a2")),
                version=lambda: run(s.update_scope, version="1.1"))
            for name in changes:
                if name == part:
                    changes[name]()
                    r = attempt(s.summarize)
                    if name in ("again", "key"):
                        # the same content or key again is no change
                        old = (contents.get("a"), key)[name == "key"]
                        new = w.c_last
                        if r.ok:
                            c.prove_bytes_eq(new, old, "unchanged")
                        else:
                            c.prove(old is None or not core.bytes_eq(
                                new, old), "changed")
                    else:
                        c.prove(not r.ok, f"{name} changed: refused")
                    c.prove(attempt(s.sign_package).ok
                            and attempt(s.summarize).ok, "signed again")

        return
    def outer(c):
        made = c.bytes

        def spy(name, *x, **k):
            r = made(name, *x, **k)
            if name in ("a2", "k2"):
                World.c_last = r
            return r
        c.bytes = spy
        return fn(c)
    return outer


def files(pkg):
    def fn(c):
        w = World(c, pkg)
        with w.patch(pkg):
            s = w.s("pkg", "1.0")
            one, two = c.bytes("one"), c.bytes("two")
            for name in ("a", "_b", "__init__.py", "dir/x", ""):
                c.prove(run(s.add_file, name, one) is s, "returns itself")
                c.prove_bytes_eq(s.files[name].raw, w.F("hash", [one]),
                                 "digest of the content")
                run(s.add_file, name, two)
                c.prove_bytes_eq(s.files[name].raw, w.F("hash", [two]),
                                 "digest of the last content")
            c.prove(sorted(dict(s.files.items())) == sorted(
                ("a", "_b", "__init__.py", "dir/x", "")), "files added")
    return fn


def proofs(pkg):
    for n in (0, 1, 2):
        for f in (0, 1):
            for t in (0, 1):
                yield Proof(f"verify[{n},{f},{t}]",
                            verify(pkg, n, bool(f), bool(t)), functions=[
                    V + "PackageVerifier." + x for x in (
                        "__init__", "verify_summary", "_import_summary",
                        "_verify_file_checksums")], min_obligations=4)
    F = [S + "PackageSigner." + x for x in (
        "add_file", "sign_package", "summarize", "update_signing_key",
        "update_public_credentials", "update_scope")]
    for i in range(len(CONFIGS)):
        for part in ("sign", "whole", "scope", "scope2", "creds", "key",
                     "file", "again", "version"):
            if i > 1 and part not in ("sign", "whole"):
                continue
            yield Proof(f"{part}[{i}]", sign(pkg, i, part), functions=F,
                        min_obligations=5, max_paths=3000)
    yield Proof("files", files(pkg), functions=F[:1], min_obligations=5)
