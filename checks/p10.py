"""
P10  hashes and derived keys bind every input

hash      the bytes absorbed by the hash helper determine key, size and every
          item (two calls, lengths and contents arbitrary)
prefix    packed updates are prefix-free: whatever follows, equal streams
          start with the same update, so by induction over the updates equal
          payload transcripts have equal update histories
kdf.*     construction, update, copy and output calls from ANY payload state
"""
import itertools

from checks import p09
from vf import core, models
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = [
    "keys (with the domain appended) of equal length; different lengths are "
    "in the bounded part and KNOWN_FINDINGS.txt",
    "item counts 0..2 (construction, hashing) and 1..2 (update) are proved "
    "one by one; the encoding of any number of items is the packing lemma, "
    "proved here as well",
]
ALGS = ("sha3_256", "sha3_512", "shake_128", "shake_256")
CAP = (1 << 32) - 1


def hasher(pkg, alg, log):
    real = models.make_xof(alg)

    def factory(*a, **k):
        h = real(*a, **k)
        log.append(h)
        return h
    return factory


def items(c, tag, n):
    return [c.bytes(f"{tag}{k}", hi=CAP) for k in range(n)]


def size_of(c, tag, alg):
    return {"size": c.int(tag + "size", 1, CAP)} if "shake" in alg else {}


def same(c, xs, ys, what):
    c.prove(len(xs) == len(ys), f"{what}: same number of items")
    for k, (x, y) in enumerate(zip(xs, ys)):
        c.prove_bytes_eq(x, y, f"{what}: same item {k}")


def hashing(pkg, alg, a, b, keyed, n, m):
    h = pkg.generics.hashing
    fs = [h.ahash_bytes if x else h.hash_bytes for x in (a, b)]

    def fn(c):
        xs, ys = items(c, "x", n), items(c, "y", m)
        k1, k2 = size_of(c, "1.", alg), size_of(c, "2.", alg)
        if keyed:
            k1["key"] = c.bytes("key1", lo=1, hi=CAP)
            k2["key"] = c.bytes("key2", lo=1, hi=CAP)
            c.assume(core.rope(k1["key"]).n == core.rope(k2["key"]).n)
        log = []
        H = hasher(pkg, alg, log)
        r1 = attempt(fs[0], *xs, hasher=H, **k1)
        r2 = attempt(fs[1], *ys, hasher=H, **k2)
        for r in (r1, r2):
            if not r.ok:
                c.fail("returns", info=repr(r.exc))
                return
        if len(log) != 2:
            raise core.Unsupported("not one hash object per call")
        for r, o, k in ((r1, log[0], k1), (r2, log[1], k2)):
            n_ = k.get("size", o.digest_size)
            c.prove(L(r.value) == n_, "digest has the requested size")
            c.prove_bytes_eq(r.value, o.digest(n_) if "shake" in alg
                             else o.digest(),
                             "result is the hash of the absorbed bytes")
        if core.bytes_eq(log[0].transcript, log[1].transcript):
            same(c, xs, ys, "equal input to the hash")
            for name in k1:
                if name == "size":
                    c.prove(k1["size"] == k2["size"],
                            "equal input to the hash: same size")
                else:
                    c.prove_bytes_eq(k1[name], k2[name],
                                     f"equal input to the hash: same {name}")
            c.cover("equal")
        else:
            c.prove(True, "different input")
    return fn


def twin(pkg, alg, keyed):
    """async and sync agree, pad included"""
    h = pkg.generics.hashing

    def fn(c):
        xs = items(c, "x", 2)
        kw = size_of(c, "", alg)
        kw["pad"] = c.bytes("pad", 1)
        if keyed:
            kw["key"] = c.bytes("key", lo=1, hi=CAP)
        kw["hasher"] = models.make_xof(alg)
        r = attempt(h.hash_bytes, *xs, **kw).get()
        s = attempt(h.ahash_bytes, *xs, **kw).get()
        c.prove_bytes_eq(r, s, "same digest")
    return fn


def prefix(pkg, a, n, m):
    """update streams: equal bytes => equal first updates"""
    def fn(c):
        k1, k2 = kdf(pkg, c, "1."), kdf(pkg, c, "2.")
        xs, ys = items(c, "x", n), items(c, "y", m)
        base = c.bytes("T")
        k1._payload._parts, k2._payload._parts = [base], [base]
        for k, v in ((k1, xs), (k2, ys)):
            r = attempt(k.aupdate if a else k.update, *v)
            if not r.ok:
                c.fail("update returns", info=repr(r.exc))
                return
            c.prove(r.value is k, "returns itself")
        t1, t2 = k1._payload.transcript, k2._payload.transcript
        c.prove_bytes_eq(t1[:L(base)], base, "earlier state kept")
        d = L(t1) - L(base)
        c.prove(d > 0, "something absorbed")
        if core.bytes_eq(concat([t1, c.bytes("rest1")]),
                         concat([t2, c.bytes("rest2")])):
            same(c, xs, ys, "equal streams")
            c.prove(L(t1) == L(t2), "equal streams: same split")
            c.cover("equal")
        else:
            c.prove(True, "different")
    return fn


def kdf(pkg, c, tag):
    return pkg.keygens.domain_kdf.DomainKDF(
        c.bytes(tag + "d", 4), key=c.bytes(tag + "k", 32))


def construct(pkg, n, m):
    K = pkg.keygens.domain_kdf.DomainKDF

    def fn(c):
        d1, d2 = c.bytes("d1", hi=CAP), c.bytes("d2", hi=CAP)
        k1, k2 = (c.bytes("key1", lo=1, hi=CAP),
                  c.bytes("key2", lo=1, hi=CAP))
        c.assume(core.rope(k1).n + core.rope(d1).n
                 == core.rope(k2).n + core.rope(d2).n)
        xs, ys = items(c, "x", n), items(c, "y", m)
        a, b = K(d1, *xs, key=k1), K(d2, *ys, key=k2)
        ta, tb = a._payload.transcript, b._payload.transcript
        c.prove(L(ta) == L(tb), "fixed size initial state")
        if core.bytes_eq(ta, tb):
            c.prove_bytes_eq(d1, d2, "equal state => same domain")
            c.prove_bytes_eq(k1, k2, "equal state => same key")
            same(c, xs, ys, "equal state")
            c.cover("equal")
        else:
            c.prove(True, "different")
    return fn


def outputs(pkg, alg, a, b, n, m):
    def fn(c):
        ks = [kdf(pkg, c, "1."), kdf(pkg, c, "2.")]
        Ts = [c.bytes("T1"), c.bytes("T2")]
        xs, ys = items(c, "x", n), items(c, "y", m)
        kw = [dict(size_of(c, t, alg), aad=c.bytes(t + "aad", hi=CAP))
              for t in ("1.", "2.")]
        out = []
        for k, T, v, w, is_async in zip(ks, Ts, (xs, ys), kw, (a, b)):
            k._payload._parts = [T]
            r = attempt(getattr(k, "a" * is_async + alg), *v, **w)
            if not r.ok:
                c.fail("returns", info=repr(r.exc))
                return
            c.prove_bytes_eq(k._payload.transcript, T,
                             "output calls change nothing")
            c.prove(L(r.value) == w.get("size", 64 if alg == "sha3_512"
                                        else 32), "size honoured")
            out.append(r.value)
        if "size" in kw[0]:
            c.assume(kw[0]["size"].e >= 16)
        if core.bytes_eq(*out):
            c.prove_bytes_eq(Ts[0], Ts[1], "equal keys => same state")
            c.prove_bytes_eq(kw[0]["aad"], kw[1]["aad"],
                             "equal keys => same aad")
            same(c, xs, ys, "equal keys")
            c.cover("equal")
        else:
            c.prove(True, "different")
    return fn


def copies(pkg, a):
    def fn(c):
        k = kdf(pkg, c, "1.")
        T = c.bytes("T")
        k._payload._parts = [T]
        r = attempt(k.copy)
        if not r.ok:
            c.fail("copies", info=repr(r.exc))
            return
        q = r.value
        c.prove(type(q) is type(k) and q is not k, "a new object")
        c.prove_bytes_eq(q._payload.transcript, T, "copy has the state")
        attempt(q.aupdate if a else q.update, c.bytes("x", hi=CAP)).get()
        c.prove_bytes_eq(k._payload.transcript, T,
                         "updating the copy leaves the original")
        q2 = k.copy()
        attempt(k.aupdate if a else k.update, c.bytes("y", hi=CAP)).get()
        c.prove_bytes_eq(q2._payload.transcript, T,
                         "updating the original leaves the copy")
        r = attempt(k.aupdate if a else k.update)
        c.prove(r.raised(ValueError), "empty update refused", info=repr(r))
    return fn


def proofs(pkg):
    H, K = ["generics/hashing.py"], ["keygens/domain_kdf.py"]
    pairs = ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2))
    for alg in ALGS:
        for keyed in (0, 1):
            for n, m in pairs:
                yield Proof(f"hash[{alg},{keyed},{n},{m}]",
                            hashing(pkg, alg, n % 2, keyed, keyed, n, m),
                            functions=H, min_obligations=3)
            yield Proof(f"twin[{alg},{keyed}]", twin(pkg, alg, keyed),
                        functions=H, min_obligations=1)
        for n, m in pairs:
            for a, b in ((0, 1), (1, 0)):
                yield Proof(f"kdf.{alg}[{a},{b},{n},{m}]",
                            outputs(pkg, alg, a, b, n, m),
                            functions=H + K, min_obligations=5,
                            thorough=n == 2, max_paths=3000)
    for n, m in ((1, 1), (1, 2), (2, 2)):
        for a in (0, 1):
            yield Proof(f"kdf.update[{a},{n},{m}]", prefix(pkg, a, n, m),
                        functions=K, min_obligations=5, thorough=n == 2,
                        max_paths=3000)
    for n, m in pairs:
        yield Proof(f"kdf.init[{n},{m}]", construct(pkg, n, m),
                    functions=H + K, min_obligations=2, thorough=n == 2,
                    max_paths=3000)
    for p in p09.proofs(pkg):
        if p.name.lstrip("a").split("[")[0] in ("encode", "ljust", "inject"):
            p.name = "packing." + p.name
            yield p
    for a in (0, 1):
        yield Proof(f"kdf.copy[{a}]", copies(pkg, a), functions=K,
                    min_obligations=5)
