"""
P27  keyed choices and mnemonics

choices    any key, domain, sequence length: exactly the requested number of
           elements, each inside the sequence, from one keyed stream (sizes
           1..4 with the real batching)
size       any size: the stream is cut into one piece per choice, any one of
           which selects an element (batches: P12)
bind       equal streams come from equal key, domain, number of choices and
           number of selections
mnemonic   the choices' key is the passphrase's hash under salt and settings,
           or fresh bytes; settings without passphrase are refused
"""
from checks import pass_lib as pl
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = [
    "key derivation: the stream is a collision-free function of domain, "
    "items, key, size and associated data (P10)",
    "passphrase hashing (P23), packing (P09), csprng (P28), batches (P12) "
    "through their contracts",
]
M = "aiootp.keygens.mnemonics."


class Words:
    """a sequence of any length; elements are remembered by index"""

    def __init__(self, c, name, lo=1):
        self.c, self.n = c, c.int(f"{name}.length", lo, (1 << 63) - 1)
        self.used = []

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        self.c.prove(i >= 0, "index not negative")
        self.c.prove(i < self.n, "index inside the sequence")
        self.used.append(i)
        return ("word", len(self.used) - 1)

    def __bool__(self):
        return True

    def __getattr__(self, name):
        raise core.Unsupported(f"sequence.{name}")


class World:
    def __init__(self, c, pkg):
        self.c, self.pkg, self.F = c, pkg, pl.Functions(c)
        w = self
        self.streams, self.batched, self.keys = [], [], []

        class KDF:
            def __init__(self, domain, *data, key):
                self.req = [domain, len(data), *data, key]

            def shake_256(self, *data, size, aad=b""):
                req = [*self.req, len(data), *data, size, aad]
                out = w.stream(req, size)
                w.streams.append((req, out))
                return out

            async def ashake_256(self, *data, **k):
                return self.shake_256(*data, **k)

            def __getattr__(self, name):
                raise core.Unsupported(f"kdf.{name}")
        self.KDF = KDF

    def stream(self, req, size):
        return self.c.bytes(f"stream{len(self.streams)}", size)

    def patch(self, *more):
        m = self.pkg.keygens.mnemonics
        g = m.keyed_choices.__globals__
        return pl.replaced((g, "DomainKDF", self.KDF), *(
            (g, k, v) for k, v in more))


def select(pkg, a, words, size, **k):
    m = pkg.keygens.mnemonics
    return collect((m.akeyed_choices if a else m.keyed_choices)(
        words, size, **k))


def choices(pkg, a, size):
    def fn(c):
        w = World(c, pkg)
        words = Words(c, "words")
        with w.patch():
            out = select(pkg, a, words, size, domain=c.bytes("domain"),
                         key=c.bytes("key"))
        c.prove(len(out) == size and len(words.used) == size,
                "number of choices")
        c.prove([x[1] for x in out] == list(range(size)),
                "elements of the sequence")
        c.prove(len(w.streams) == 1, "one stream")
    return fn


def size(pkg, a):
    """any number of choices, an arbitrary one of the pieces"""
    def fn(c):
        w = World(c, pkg)
        words = Words(c, "words")
        n = c.int("size", 1, (1 << 50))
        cut = []

        def batch(data, size):
            cut.append((data, size))
            return [c.bytes("piece", size)]

        async def abatch(data, size):
            for x in batch(data, size):
                yield x
        with w.patch(("abatch", abatch) if a else ("batch", batch)):
            out = select(pkg, a, words, n, key=c.bytes("key"))
        c.prove(len(cut) == 1 and len(w.streams) == 1, "one stream, cut once")
        c.prove_bytes_eq(cut[0][0], w.streams[0][1], "the stream is cut")
        c.prove(cut[0][1] > 0, "pieces are not empty")
        c.prove(L(cut[0][0]) == n * cut[0][1], "one piece per choice")
        c.prove(len(out) == 1 and len(words.used) == 1,
                "one choice per piece")
    return fn


def bind(pkg, a, b):
    def fn(c):
        reqs, ins = [], []
        for i, k in enumerate((a, b)):
            w = World(c, pkg)
            words = Words(c, f"words{i}")
            n = c.int(f"size{i}", 0, 1 << 50)
            v = dict(domain=c.bytes(f"domain{i}"), key=c.bytes(f"key{i}"))

            def batch(data, size):
                return []

            async def abatch(data, size):
                return
                yield
            with w.patch(("batch", batch), ("abatch", abatch)):
                select(pkg, k, words, n, **v)
            reqs.append(w.streams[0][0])
            ins.append([v["domain"], v["key"], words.n, n])
        c.prove(len(reqs[0]) == len(reqs[1]), "same form")
        for x, y in zip(*reqs):
            if isinstance(x, bytes) and isinstance(y, bytes):
                c.assume(bexpr(core.bytes_eq(x, y)))
            else:
                c.assume(bexpr(x == y))
        for name, x, y in zip(("domain", "key", "choices", "selections"),
                              *ins):
            if isinstance(x, bytes):
                c.prove_bytes_eq(x, y, f"equal streams: same {name}")
            else:
                c.prove(x == y, f"equal streams: same {name}")
        c.cover("equal streams")
    return fn


def mnemonic(pkg, a, given, salted, listed):
    m = pkg.keygens.mnemonics

    def fn(c):
        w = World(c, pkg)
        log = []
        fresh = c.bytes("fresh", 64)
        word_list = Words(c, "default")
        words = Words(c, "words") if listed else None

        class Passcrypt:
            def __init__(self, **k):
                self.k = k

            def new(self, passphrase, salt, *, aad=b""):
                key = c.bytes("hash", 64)
                log.append((self.k, passphrase, salt, aad, key))
                return key

            async def anew(self, *x, **k):
                return self.new(*x, **k)

            def __getattr__(self, name):
                raise core.Unsupported(f"passcrypt.{name}")

        def csprng(*x, **k):
            log.append(("fresh", x, k))
            return fresh

        async def acsprng(*x, **k):
            return csprng(*x, **k)

        def pack(*x, **k):
            if k:
                raise core.Unsupported("options of packing")
            return w.F("pack", [*x])

        async def apack(*x, **k):
            return pack(*x, **k)
        made = []

        def choose(seq, n, *, domain=b"", key):
            made.append((seq, n, domain, key))
            yield from (("one",), ("two",))

        async def achoose(*x, **k):
            for y in choose(*x, **k):
                yield y
        n = c.int("size", 0, 1 << 50)
        phrase = c.bytes("passphrase", lo=1) if given else None
        salt = c.bytes("salt", lo=1) if salted else None
        settings = dict(mb=c.int("mb"), cpu=c.int("cpu"),
                        cores=c.int("cores")) if given else {}
        kw = dict(salt=salt, words=words, **settings)
        names = (("Passcrypt", Passcrypt), ("WORD_LIST", word_list),
                 ("acsprng", acsprng), ("acanonical_pack", apack),
                 ("akeyed_choices", achoose)) if a else (
                ("Passcrypt", Passcrypt), ("WORD_LIST", word_list),
                ("csprng", csprng), ("canonical_pack", pack),
                ("keyed_choices", choose))
        f = m.amnemonic if a else m.mnemonic
        with w.patch(*names):
            r = attempt(f, phrase, n, **kw)
            if not given:
                for bad in (dict(mb=1), dict(cores=2, cpu=1)):
                    q = attempt(f, None, n, salt=salt, words=words, **bad)
                    c.prove(not q.ok, "unused settings refused")
        if not r.ok:
            c.fail("mnemonic made", info=repr(r.exc))
            return
        c.prove(r.value == [("one",), ("two",)], "returns the choices")
        c.prove(len(log) == 1 and len(made) == 1, "one key, one selection")
        seq, k, domain, key = made[0]
        c.prove(seq is (words if listed else word_list), "word list used")
        c.prove(k == n, "number of words")
        if given:
            k, p, s, aad, out = log[0]
            c.prove_bytes_eq(key, out, "key is the passphrase's hash")
            c.prove_bytes_eq(p, phrase, "passphrase hashed")
            packed = [x for kind, x, o in w.F.known if o is s]
            c.prove(len(packed) == 1, "salt is packed")
            want = salt if salted else b""
            c.prove(any(bexpr_true(c, x, want) for x in packed[0]),
                    "the given salt is packed")
            for name in settings:
                c.prove(name in k and k[name] == settings[name],
                        f"setting {name}")
            c.prove(set(k) <= set(settings) | {"tag_size"},
                    "no other settings")
            if "tag_size" in k:
                c.prove(k["tag_size"] >= 32, "key size")
        else:
            c.prove_bytes_eq(key, fresh, "fresh key")
    return fn


def bexpr_true(c, x, y):
    if not isinstance(x, bytes):
        return False
    e = core.bytes_eq(x, y)
    return e is True or c.entails(bexpr(e))


def proofs(pkg):
    C = [M + "keyed_choices", M + "akeyed_choices"]
    for a in (0, 1):
        for n in range(1, 5):
            yield Proof(f"choices[{a},{n}]", choices(pkg, a, n),
                        functions=C[a:a + 1], min_obligations=3)
        yield Proof(f"size[{a}]", size(pkg, a), functions=C[a:a + 1],
                    min_obligations=5)
        for b in (0, 1):
            yield Proof(f"bind[{a},{b}]", bind(pkg, a, b), functions=C,
                        min_obligations=5)
        for g in (0, 1):
            for s in (0, 1):
                for ls in (0, 1):
                    yield Proof(f"mnemonic[{a},{g},{s},{ls}]",
                                mnemonic(pkg, a, g, s, ls), functions=[
                        M + ("amnemonic" if a else "mnemonic")],
                        min_obligations=5)
