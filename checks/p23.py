"""
P23  passphrase hashes

bind       equal hashes (collision-free primitives) come from equal
           passphrase, salt, associated data, pepper, mb, cpu, cores and tag
           size, whatever two of the four ways to compute them; the hash has
           the requested size
session    the digest a session starts from absorbs the hash of all its
           parameters
compose    composed hashes hold the fresh salt, timestamp and settings and
           the hash computed with them
verify     on any bytes: recomputed with exactly the parts, accepted exactly
           when equal
"""
from checks import pass_lib as pl
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 120
CAP = (1 << 32) - 1
ASSUMPTIONS = [
    "hashes and packing determine their inputs (P09, P10; keys of equal "
    "length)",
    "1 and 2 cores are proved one by one (more: bounded check)",
    "filling and mixing memory only appends to the digest that holds the "
    "session's parameters and ends with its output (real hashes compared "
    "in the bounded check)",
    "workers return the function's result (P29)",
]
I = "aiootp.keygens.passcrypt."


def patches(c, pkg, F):
    """contracts of packing, hashing, workers and the memory work"""
    pc = pkg.keygens.passcrypt
    g_i = pc.interface.Passcrypt.new.__globals__
    g_s = pc.session_init.PasscryptSession.prepare_session.__globals__
    g_m = pc.sessions_manager.PasscryptProcesses.spawn.__globals__

    def hash_bytes(*x, key=b"", hasher, size=None, pad=b""):
        name = getattr(hasher, "__name__", str(hasher))
        return F(f"hash {name}", [pad, size, *x, key],
                 size if size is not None else 64)

    async def ahash_bytes(*x, **k):
        return hash_bytes(*x, **k)

    def pack(*x, **k):
        return F("pack", [*x, *(v for p in sorted(k.items()) for v in p)])

    class Workers:
        pool = type("Pool", (), dict(_broken=False))

        @staticmethod
        def submit(f, *x, probe_delay=None, **k):
            r = models.call(f, *x, **k)
            return pl.Future(r)

        @staticmethod
        async def asubmit(f, *x, probe_delay=None, **k):
            return pl.Future(models.call(f, *x, **k))

        def __getattr__(self, name):
            raise core.Unsupported(f"workers.{name}")

    def allocate(ct, f, self):
        return self

    def prover(ct, f, *x):
        (session,) = [y for y in x if hasattr(y, "proof")]
        return F("work", [session.proof.transcript], 168)
    c.contracts[I + "session_init", "PasscryptSession.allocate_ram"] = (
        allocate)
    c.contracts[I + "sessions_manager",
                "PasscryptProcesses._work_memory_prover"] = prover
    return pl.replaced((g_i, "hash_bytes", hash_bytes),
                       (g_i, "ahash_bytes", ahash_bytes),
                       (g_i, "Processes", Workers),
                       (g_s, "hash_bytes", hash_bytes),
                       (g_m, "canonical_pack", pack),
                       (g_m, "Processes", Workers))


def inputs(c, n, cores):
    # permitted values; the limits themselves are P24
    return dict(pepper=c.bytes(f"pepper{n}", hi=CAP),
                aad=c.bytes(f"aad{n}", hi=CAP),
                mb=c.int(f"mb{n}", 1, 256 ** 3),
                salt=c.bytes(f"salt{n}", lo=4, hi=256),
                cpu=c.int(f"cpu{n}", 1, 256),
                cores=cores, tag_size=c.int(f"tag{n}", 16, CAP),
                passphrase=c.bytes(f"pass{n}", lo=12, hi=CAP))


def compute(pkg, a, v):
    P = pkg.keygens.passcrypt.interface.Passcrypt
    Q = type("Q", (P,), dict(PEPPER=v["pepper"], __slots__=()))
    p = Q(**{k: v[k] for k in ("mb", "cpu", "cores", "tag_size")})
    return attempt(p.anew if a else p.new, v["passphrase"], v["salt"],
                   aad=v["aad"])


def bind(pkg, a, b, n, m):
    def fn(c):
        F = pl.Functions(c)
        one, two = inputs(c, 1, n), inputs(c, 2, m)
        same = all(F.eq(one[k], two[k]) for k in one)
        with patches(c, pkg, F):
            r, s = compute(pkg, a, one), compute(pkg, b, two)
        for x, v in ((r, one), (s, two)):
            if not x.ok:
                c.fail("permitted inputs are hashed", info=repr(x.exc))
                return
            c.prove(L(x.value) == v["tag_size"], "size of the hash")
        if r.value is s.value:
            for k in one:
                if isinstance(one[k], bytes):
                    c.prove_bytes_eq(one[k], two[k], f"equal: same {k}")
                else:
                    c.prove(one[k] == two[k], f"equal: same {k}")
            c.cover("equal")
        else:
            if same:
                c.fail("equal inputs have equal hashes")
            else:
                c.prove(True, "different")
    return fn


def session(pkg):
    """the parameters are absorbed, and nothing else varies"""
    S = pkg.keygens.passcrypt.session_init.PasscryptSession
    spec = pkg.keygens.passcrypt.config.passcrypt_spec

    def fn(c):
        F = pl.Functions(c)
        s = []
        with patches(c, pkg, F):
            for n in (1, 2):
                v = inputs(c, n, n)
                s.append(S(v["passphrase"], v["salt"], aad=v["aad"],
                           mb=v["mb"], cpu=v["cpu"], cores=n,
                           tag_size=v["tag_size"], config=spec))
                attempt(s[-1].prepare_session).get()
        a, b = (x.proof.transcript for x in s)
        c.prove(L(a) == L(b), "fixed size start")
        outs = [o for k, _, o in F.known if k.startswith("hash")]
        for t, o in zip((a, b), outs):
            c.prove_bytes_eq(t[L(t) - L(o):], o,
                             "parameters are absorbed last")
        c.prove(L(outs[0]) >= 32, "parameter hash of 32 bytes or more")
    return fn


def compose(pkg, a):
    P = pkg.keygens.passcrypt.interface.Passcrypt

    def fn(c):
        log = []
        ts = c.bytes("ts", 8)
        v = dict(mb=c.int("mb", 1, 256 ** 3), cpu=c.int("cpu", 1, 256),
                 cores=c.int("cores", 1, 256), tag_size=c.int("t", 16, CAP),
                 salt_size=c.int("n", 4, 256))
        p = P(**v)
        pw, aad = c.bytes("pass", lo=12, hi=CAP), c.bytes("aad", hi=CAP)

        def new(ct, f, self, passphrase, salt, *, aad=b""):
            out = c.bytes("tag", self._settings.tag_size)
            log.append((self, passphrase, salt, aad, out))
            return out

        async def anew(*x, **k):
            return new(*x, **k)

        def stamp(ct, f, self, *, size=8, **k):
            if k or size != 8:
                raise core.Unsupported("timestamp size")
            return ts

        async def astamp(*x, **k):
            return stamp(*x, **k)
        fresh = []

        def rnd(n):
            fresh.append(c.bytes(f"fresh{len(fresh)}", n))
            return fresh[-1]

        async def arnd(n):
            return rnd(n)
        c.contracts[I + "interface", "Passcrypt.new"] = new
        c.contracts[I + "interface", "Passcrypt.anew"] = anew
        M = "aiootp.asynchs.clocks"
        c.contracts[M, "Clock.make_timestamp"] = stamp
        c.contracts[M, "Clock.amake_timestamp"] = astamp
        g = P.new.__globals__
        with pl.replaced((g, "csprng", rnd), (g, "acsprng", arnd)):
            r = attempt(p.ahash_passphrase if a else p.hash_passphrase, pw,
                        aad=aad)
        if not r.ok:
            c.fail("permitted settings are hashed", info=repr(r.exc))
            return
        if len(log) != 1 or len(fresh) != 1:
            raise core.Unsupported("not one computation with one salt")
        who, q, salt, ad, out = log[0]
        c.prove(who is p, "computed with its own settings")
        c.prove_bytes_eq(q, pw, "computed with the passphrase")
        c.prove_bytes_eq(salt, fresh[0], "computed with the fresh salt")
        c.prove(L(fresh[0]) == v["salt_size"], "salt of the chosen size")
        c.prove_bytes_eq(ad, concat([ts, aad]),
                         "computed with timestamp and associated data")
        h = pl.Parts(r.value)
        for k, x in (("timestamp", ts), ("salt", fresh[0]), ("tag", out)):
            c.prove_bytes_eq(getattr(h, k), x, f"composed: {k}")
        for k in ("mb", "cpu", "cores"):
            c.prove(getattr(h, k) == v[k], f"composed: {k}")
    return fn


def proofs(pkg):
    K = "keygens.passcrypt."
    for n, m in ((1, 1), (2, 2), (1, 2)):
        for a, b in ((0, 0), (0, 1), (1, 1)):
            yield Proof(f"bind[{a},{b},{n},{m}]", bind(pkg, a, b, n, m),
                        functions=[K + "interface.Passcrypt",
                                   K + "sessions_manager",
                                   K + "session_init"],
                        min_obligations=3, max_paths=4000)
    yield Proof("session", session(pkg), functions=[K + "session_init"],
                min_obligations=3)
    for a in (0, 1):
        yield Proof(f"compose[{a}]", compose(pkg, a),
                    functions=[K + "interface.Passcrypt"],
                    min_obligations=10)
        for timed in (0, 1):
            yield Proof(f"verify[{a},{timed}]", pl.verify(
                pkg, a, False, timed), functions=[
                    K + "interface.Passcrypt"], min_obligations=10)
