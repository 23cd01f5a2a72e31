"""
P24  composed passphrase hashes and limits

format     export then import gives back every permitted timestamp, setting,
           salt and tag; import then export gives back the bytes; anything
           that is not of the documented layout is refused
settings   accepted exactly within the documented bounds, at creation
inputs     passphrase and salt sizes likewise
verify     limits and time to live are enforced before the computation
"""
from checks import pass_lib as pl
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = [
    "clock tests as proved in P15 (contract: expired or not, any answer)",
    "time to live None or below 9 * 10**6 s (larger: bounded check)",
    "arguments that are not ints or bytes are enumerated (bounded check)",
]


def format_(pkg):
    H = pkg.keygens.passcrypt.hash_format.PasscryptHash

    def fn(c):
        v = dict(timestamp=c.bytes("ts", 8), mb=c.int("mb", 1, 256 ** 3),
                 cpu=c.int("cpu", 1, 256), cores=c.int("cores", 1, 256),
                 salt=c.bytes("salt", lo=4, hi=256),
                 tag=c.bytes("tag", lo=16))
        r = attempt(lambda: H(**v).export_hash())
        if not r.ok:
            c.fail("permitted settings are exported", info=repr(r.exc))
            return
        h = r.value
        n = L(v["salt"])
        c.prove(L(h) == 14 + n + L(v["tag"]), "size of the composed hash")
        p = pl.Parts(h)
        for k in v:
            x = getattr(p, k)
            if isinstance(x, bytes):
                c.prove_bytes_eq(x, v[k], f"layout: {k}")
            else:
                c.prove(x == v[k], f"layout: {k}")
        r = attempt(lambda: H().import_hash(h))
        if not r.ok:
            c.fail("what was exported is imported", info=repr(r.exc))
            return
        q = r.value
        for k in v:
            x = getattr(q, k)
            if isinstance(x, bytes):
                c.prove_bytes_eq(x, v[k], f"imported {k}")
            else:
                c.prove(x == v[k], f"imported {k}")
        c.prove(q.salt_size == n, "salt size")
        c.prove(q.tag_size == L(v["tag"]), "tag size")
    return fn


def any_bytes(pkg):
    H = pkg.keygens.passcrypt.hash_format.PasscryptHash

    def fn(c):
        h = c.bytes("h")
        r = attempt(lambda: H().import_hash(h))
        p = pl.formed(h)
        if p is None:
            c.prove(r.raised(ValueError, TypeError),
                    "malformed or cut hashes are refused", info=repr(r))
            return
        if not r.ok:
            c.fail("well formed hashes are imported", info=repr(r.exc))
            return
        q = r.value
        for k in ("timestamp", "salt", "tag"):
            c.prove_bytes_eq(getattr(q, k), getattr(p, k), f"imported {k}")
        for k in ("mb", "cpu", "cores"):
            c.prove(getattr(q, k) == getattr(p, k), f"imported {k}")
        c.prove_bytes_eq(q.export_hash(), h, "exported unchanged")
        c.cover("imported")
    return fn


def ranges(pkg):
    H = pkg.keygens.passcrypt.hash_format.PasscryptHash

    def fn(c):
        v = dict(timestamp=c.bytes("ts", 8), mb=c.int("mb", 1, 256 ** 3),
                 cpu=c.int("cpu", 1, 256), cores=c.int("cores", 1, 256),
                 salt=c.bytes("salt", lo=4, hi=256),
                 tag=c.bytes("tag", lo=16))
        rs = [pl.Range(c, x) for x in ("mb", "cpu", "cores")]
        r = attempt(H(**v).in_allowed_ranges, *rs)
        good = all([bool(x.has(v[k])) for x, k in zip(
            rs, ("mb", "cpu", "cores"))])
        if good:
            c.prove(r.ok, "within every range: accepted", info=repr(r.exc))
        else:
            c.prove(r.raised(ResourceWarning, ValueError),
                    "outside a range: refused", info=repr(r))
    return fn


BOUNDS = dict(mb=(1, 256 ** 3), cpu=(1, 256), cores=(1, 256),
              tag_size=(16, None), salt_size=(4, 256))


def within(v):
    return all([lo <= v[k] and (hi is None or v[k] <= hi)
                for k, (lo, hi) in BOUNDS.items()])


def settings(pkg):
    P = pkg.keygens.passcrypt.interface.Passcrypt

    def fn(c):
        v = {k: c.int(k) for k in BOUNDS}
        r = attempt(P, **v)
        if within(v):
            c.prove(r.ok, "permitted settings are accepted",
                    info=repr(r.exc))
            if r.ok:
                for k in v:
                    c.prove(getattr(r.value._settings, k) == v[k],
                            f"{k} is kept")
        else:
            c.prove(r.raised(ValueError), "other settings are refused",
                    info=repr(r))
    return fn


def session(pkg):
    S = pkg.keygens.passcrypt.session_init.PasscryptSession
    spec = pkg.keygens.passcrypt.config.passcrypt_spec

    def fn(c):
        v = {k: c.int(k) for k in BOUNDS if k != "salt_size"}
        pw, salt, aad = c.bytes("pass"), c.bytes("salt"), c.bytes("aad")
        r = attempt(S, pw, salt, aad=aad, config=spec, **v)
        good = (within({**v, "salt_size": L(salt)}) and L(pw) >= 12)
        if good:
            c.prove(r.ok, "permitted inputs are accepted", info=repr(r.exc))
        else:
            c.prove(r.raised(ValueError), "other inputs are refused",
                    info=repr(r))
    return fn


def proofs(pkg):
    K = "keygens.passcrypt."
    yield Proof("format", format_(pkg), min_obligations=10,
                functions=[K + "hash_format.PasscryptHash"])
    yield Proof("any bytes", any_bytes(pkg), min_obligations=8,
                functions=[K + "hash_format.PasscryptHash"])
    yield Proof("ranges", ranges(pkg), min_obligations=4,
                functions=[K + "hash_format.PasscryptHash"])
    yield Proof("settings", settings(pkg), min_obligations=6,
                functions=[K + "config.PasscryptConfig",
                           K + "interface.Passcrypt"])
    yield Proof("session", session(pkg), min_obligations=6,
                functions=[K + "config.PasscryptConfig",
                           K + "session_init.PasscryptSession"])
    for a in (0, 1):
        for timed in (0, 1):
            yield Proof(f"verify[{a},{timed}]", pl.verify(pkg, a, True, timed),
                        functions=[K + "interface.Passcrypt"],
                        min_obligations=10)
