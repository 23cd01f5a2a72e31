"""
P25  key exchanges and signatures

keys       import, export and generation, from any content; a second import
           is refused and changes nothing
exchange   the shared secret is the curve's, for the own secret and the
           given public key
sign       signatures are the curve's; verification accepts exactly when the
           curve does, for the own or the given key
agree      both sides of an exchange give their key derivation the same
           domain, items and key
bind       two runs of one side with equal derivation inputs used the same
           public keys and shared secrets; the two exchanges never coincide
"""
from checks import pass_lib as pl
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = [
    "curve operations (cryptography): exchange is symmetric, keys are 32 "
    "bytes and survive raw export and import; signatures are unforgeable",
    "equal key derivation states come from equal domain, items and key (P10)",
]
M = "aiootp.keygens.curve_25519."


class Curve:
    """ideal curve: public keys and shared secrets are arbitrary bytes"""

    def __init__(self, c, pkg):
        self.c, self.n, self.log = c, 0, []
        self.owners, self.shared = [], []
        cv = self

        class Public:
            def __init__(self, raw):
                self.raw = raw

            @classmethod
            def from_public_bytes(cls, raw):
                if not L(raw) == 32:
                    raise ValueError("size")
                return cls(raw)

            def public_bytes_raw(self):
                return self.raw

            def verify(self, signature, data):
                cv.log.append(("verify", self.raw, signature, data))
                if cv.refuse:
                    raise pkg.keygens.Ed25519.InvalidSignature

            def __getattr__(self, name):
                raise core.Unsupported(f"public key.{name}")

        class Secret:
            def __init__(self, raw=None):
                cv.n += 1
                self.raw = c.bytes(f"secret{cv.n}", 32) if raw is None else raw
                self.public = c.bytes(f"public{cv.n}", 32)
                cv.owners.append(self)

            @classmethod
            def from_private_bytes(cls, raw):
                if not L(raw) == 32:
                    raise ValueError("size")
                for o in cv.owners:
                    if o.raw is raw:
                        return o
                return cls(raw)

            @classmethod
            def generate(cls):
                return cls()

            def public_key(self):
                return Public(self.public)

            def private_bytes_raw(self):
                return self.raw

            def exchange(self, public):
                return cv.exchange(self, public)

            def sign(self, data):
                cv.log.append(("sign", self.raw, data))
                return cv.signature

            def __getattr__(self, name):
                raise core.Unsupported(f"secret key.{name}")
        self.Public, self.Secret = Public, Secret
        self.signature = c.bytes("signature", 64)
        D = pkg.keygens.domain_kdf.DomainKDF

        class KDF(D, salt_label=b"x"):
            def __init__(self, domain, *data, key):
                self.request = (domain, data, key)
        self.X = type("X", (pkg.keygens.X25519,), dict(
            PublicKey=Public, SecretKey=Secret, _KDF=KDF, __slots__=()))
        self.E = type("E", (pkg.keygens.Ed25519,), dict(
            PublicKey=Public, SecretKey=Secret, __slots__=()))

    def exchange(self, secret, public):
        if type(public) is not self.Public:
            raise TypeError("public key")
        raw = public.raw
        for o in self.owners:
            if o.public is raw or models_same(o.public, raw):
                raw = o
                break
        key = {id(secret), id(raw)}
        for k, out, *_ in self.shared:
            if k == key:
                return out
        out = self.c.bytes(f"shared{len(self.shared)}", 32)
        self.shared.append((key, out, secret, raw))
        return out


def models_same(x, y):
    """syntactically the same byte string"""
    try:
        return x.key() == y.key()
    except Exception:
        return False


def run(f, *x):
    """call, with exceptions as harness failures"""
    r = attempt(f, *x)
    if not r.ok:
        raise r.exc
    return r.value


def pick(o, name, a):
    return getattr(o, "a" + name if a else name)


def keys(pkg, kind, a):
    def fn(c):
        cv = Curve(c, pkg)
        K = cv.X if kind == "x" else cv.E
        raw = c.bytes("raw", hi=100)
        fits = L(raw) == 32
        for what in ("secret", "public"):
            k = K()
            c.prove(not k.has_secret_key() and not k.has_public_key(),
                    "starts empty")
            for bad in ("x" * 32, None, 5, bytearray(32), object()):
                r = attempt(pick(k, f"import_{what}_key", a), bad)
                c.prove(not r.ok, f"{what}: {type(bad).__name__} refused")
                c.prove(not k.has_secret_key() and not k.has_public_key(),
                        "refused: nothing changes")
            r = attempt(pick(k, f"import_{what}_key", a), raw)
            c.prove(implies(fits, r.ok), f"{what}: 32 bytes imported")
            if not r.ok:
                c.prove(not fits, f"{what}: only other sizes refused")
                c.prove(not k.has_secret_key() and not k.has_public_key(),
                        "refused: nothing changes")
                continue
            c.cover("imported")
            c.prove(r.value is k, "returns itself")
            check(c, k, raw, what)
            for w2 in ("secret", "public"):
                other = c.bytes(f"other.{what}.{w2}", 32)
                r = attempt(pick(k, f"import_{w2}_key", a), other)
                c.prove(not r.ok, f"{what} then {w2}: refused")
                check(c, k, raw, what)
            # key objects
            k2 = K()
            pick2 = k.secret_key if what == "secret" else k.public_key
            run(pick(k2, f"import_{what}_key", a), pick2)
            check(c, k2, raw, what)
            r = attempt(pick(k, "generate", a))
            c.prove(not r.ok, "generate over a key: refused")
            check(c, k, raw, what)
        k = K()
        r = run(pick(k, "generate", a))
        c.prove(r is k and k.has_secret_key() and k.has_public_key(),
                "generated")
        made = cv.owners[-1]
        c.prove_bytes_eq(k.secret_bytes, made.raw, "generated secret")
        c.prove_bytes_eq(k.public_bytes, made.public, "generated public")
        j = run(K().generate)
        c.prove(j.secret_bytes is not k.secret_bytes
                and len(cv.owners) >= 2, "generated anew")

    def check(c, k, raw, what):
        if what == "secret":
            c.prove_bytes_eq(k.secret_bytes, raw, "secret exported")
            owner = [o for o in [k.secret_key] if o is not None]
            c.prove(len(owner) == 1 and k.has_secret_key()
                    and k.has_public_key(), "has both keys")
            c.prove_bytes_eq(k.public_bytes, owner[0].public,
                             "public key of the secret key")
        else:
            c.prove_bytes_eq(k.public_bytes, raw, "public exported")
            c.prove(k.secret_key is None and not k.has_secret_key()
                    and k.has_public_key(), "no secret key")
    return fn


def exchange(pkg, a):
    def fn(c):
        cv = Curve(c, pkg)
        k = run(cv.X().generate)
        me = cv.owners[-1]
        raw = c.bytes("peer", 32)
        out = run(pick(k, "exchange", a), raw)
        out2 = run(pick(k, "exchange", a), cv.Public(raw))
        c.prove(len(cv.shared) == 1 and cv.shared[0][2] is me
                and cv.shared[0][3] is raw, "the curve's exchange")
        c.prove_bytes_eq(out, cv.shared[0][1], "exchanged")
        c.prove_bytes_eq(out2, cv.shared[0][1], "exchanged (object)")
        bad = c.bytes("bad", hi=100)
        r = attempt(pick(k, "exchange", a), bad)
        c.prove(core.mkbool(bexpr(L(bad) == 32) == bexpr(r.ok)),
                "32 bytes only")
    return fn


def sign(pkg, a):
    def fn(c):
        cv = Curve(c, pkg)
        k = run(cv.E().generate)
        me = cv.owners[-1]
        data, sig = c.bytes("data"), c.bytes("sig")
        out = run(pick(k, "sign", a), data)
        c.prove_bytes_eq(out, cv.signature, "the curve's signature")
        c.prove(len(cv.log) == 1 and cv.log[0][0] == "sign", "signed once")
        c.prove_bytes_eq(cv.log[0][1], me.raw, "own secret key")
        c.prove_bytes_eq(cv.log[0][2], data, "signed data")
        raw = c.bytes("other", 32)
        pub = cv.E().import_public_key(raw)
        for key, want, kw in (
                (k, me.public, {}), (k, raw, dict(public_key=raw)),
                (k, raw, dict(public_key=cv.Public(raw))), (pub, raw, {}),
                (cv.E(), raw, dict(public_key=raw))):
            for cv.refuse in (False, True):
                del cv.log[:]
                r = attempt(pick(key, "verify", a), sig, data, **kw)
                c.prove(r.ok is not cv.refuse, "accepted as by the curve")
                c.prove(r.value is None, "returns nothing")
                c.prove(len(cv.log) == 1, "verified once")
                _, p, s, d = cv.log[0]
                c.prove_bytes_eq(p, want, "key used")
                c.prove_bytes_eq(s, sig, "signature checked")
                c.prove_bytes_eq(d, data, "data checked")
                if cv.refuse:
                    c.prove(r.raised(cv.E.InvalidSignature), "error raised")
        cv.refuse = False
        for bad in ("x", 5, bytearray(32)):
            r = attempt(pick(k, "verify", a), sig, data, public_key=bad)
            c.prove(not r.ok, f"key {type(bad).__name__} refused")
        r = attempt(pick(cv.E(), "verify", a), sig, data)
        c.prove(not r.ok, "no key: refused")
    return fn


def session(cv, n, ca, sa, obj=False):
    """a whole exchange; returns the states of both sides"""
    ident = run(cv.X().generate)
    peer = ident.public_key if obj else ident.public_bytes
    wrap = cv.Public if obj else (lambda x: x)
    if n == 2:
        cl, sv = run(cv.X.dh2_client), run(ident.dh2_server)
        eph = run(pick(cl, "send", ca), peer)
        theirs = run(pick(sv, "receive", sa), wrap(eph))
        mine = run(pick(cl, "receive", ca), wrap(run(pick(sv, "send", sa))))
        used = [eph]
    else:
        me = run(cv.X().generate)
        cl, sv = run(me.dh3_client), run(ident.dh3_server)
        mid, eph = run(pick(cl, "send", ca), peer)
        theirs = run(pick(sv, "receive", sa), wrap(mid), wrap(eph))
        mine = run(pick(cl, "receive", ca), wrap(run(pick(sv, "send", sa))))
        used = [mid, eph]
    return mine, theirs, used


def same_request(c, r, s, name):
    (d1, x1, k1), (d2, x2, k2) = r.request, s.request
    c.prove_bytes_eq(d1, d2, f"{name}: domain")
    c.prove(len(x1) == len(x2), f"{name}: number of items")
    for i, (x, y) in enumerate(zip(x1, x2)):
        c.prove_bytes_eq(x, y, f"{name}: item {i}")
    c.prove_bytes_eq(k1, k2, f"{name}: key")


def agree(pkg, n, ca, sa):
    def fn(c):
        for obj in (False, True):
            cv = Curve(c, pkg)
            mine, theirs, used = session(cv, n, ca, sa, obj)
            same_request(c, mine, theirs, "agree")
            c.prove(len(cv.owners) == (3 if n == 2 else 4),
                    "fresh key on each side")
            c.prove(len(cv.shared) == n, "number of shared secrets")
    return fn


def side(c, cv, n, which, a, tag):
    """one run of one side against arbitrary keys: state, keys used"""
    pub = [c.bytes(f"{tag}.pub{i}", 32) for i in range(2)]
    if which == "client":
        if n == 2:
            o = run(cv.X.dh2_client)
            sent = [run(pick(o, "send", a), pub[0])]
        else:
            o = run(run(cv.X().generate).dh3_client)
            sent = [*run(pick(o, "send", a), pub[0])]
        st = run(pick(o, "receive", a), pub[1])
        used = sent + pub
    else:
        me = run(cv.X().generate)
        o = run(me.dh2_server if n == 2 else me.dh3_server)
        st = run(pick(o, "receive", a), *pub[:n - 1])
        used = [*pub[:n - 1], me.public_bytes, run(pick(o, "send", a))]
    return st, used


def bind(pkg, n, which, a):
    def fn(c):
        states = []
        for tag in ("one", "two"):
            cv = Curve(c, pkg)
            st, used = side(c, cv, n, which, a, tag)
            c.prove(len(cv.shared) == n, "all pairs of keys exchanged")
            states.append((st, used, [s[1] for s in cv.shared]))
        (r, ru, rs), (s, su, ss) = states
        (d1, x1, k1), (d2, x2, k2) = r.request, s.request
        c.prove_bytes_eq(d1, d2, "same domain")
        c.prove(len(x1) == len(x2), "same number of items")
        for x, y in zip([*x1, k1], [*x2, k2]):
            c.assume(bexpr(core.bytes_eq(x, y)))
        for i, (x, y) in enumerate(zip(ru, su)):
            c.prove_bytes_eq(x, y, f"public key {i} is bound")
        for i, (x, y) in enumerate(zip(rs, ss)):
            c.prove_bytes_eq(x, y, f"shared secret {i} is bound")
        c.cover("equal states")
        # the other exchange
        cv = Curve(c, pkg)
        st, _ = side(c, cv, 5 - n, which, a, "three")
        if isinstance(core.bytes_eq(st.request[0], d1), bool):
            c.prove(st.request[0] != d1, "double and triple differ")
        else:
            c.prove(~core.bytes_eq(st.request[0], d1),
                    "double and triple differ")
    return fn


def proofs(pkg):
    B = [M + "shared_interface.Base25519." + f for f in (
        "import_secret_key", "import_public_key", "generate",
        "aimport_secret_key", "aimport_public_key", "agenerate")]
    for kind in "xe":
        for a in (0, 1):
            yield Proof(f"keys[{kind},{a}]", keys(pkg, kind, a), functions=B,
                        min_obligations=30)
    for a in (0, 1):
        yield Proof(f"exchange[{a}]", exchange(pkg, a), functions=[
            M + "x25519.X25519.exchange", M + "x25519.X25519.aexchange"],
            min_obligations=3)
        yield Proof(f"sign[{a}]", sign(pkg, a), functions=[
            M + "ed25519.Ed25519." + f for f in (
                "sign", "asign", "verify", "averify")], min_obligations=20)
    names = {2: "Double", 3: "Triple"}
    for n in (2, 3):
        F = [f"{M}{names[n].lower()}_diffie_hellman_{w.lower()}."
             f"{names[n]}DiffieHellman{w}.{p}{f}"
             for w in ("Client", "Server") for p in ("", "a")
             for f in ("send", "receive")]
        for ca in (0, 1):
            for sa in (0, 1):
                yield Proof(f"agree[{n},{ca},{sa}]", agree(pkg, n, ca, sa),
                            functions=F, min_obligations=8)
            for which in ("client", "server"):
                yield Proof(f"bind[{n},{which},{ca}]",
                            bind(pkg, n, which, ca), functions=F,
                            min_obligations=7)
