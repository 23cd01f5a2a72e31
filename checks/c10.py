"""bounded stand-in for P10: real hashing, all pairs of a structured family"""
import hashlib
import itertools

ALGS = ("sha3_256", "sha3_512", "shake_128", "shake_256")



def cases(env):
    for proof, name, m in env.models():
        xs = [m[k] for k in sorted(m) if k[:1] == "x" and k[1:].isdigit()]
        ys = [m[k] for k in sorted(m) if k[:1] == "y" and k[1:].isdigit()]
        if proof.startswith("hash") and all(
            isinstance(v, bytes) for v in xs + ys
        ):
            yield "pair", dict(
                alg=proof[5:].split(",")[0], xs=xs, ys=ys,
                k1=m.get("key1"), k2=m.get("key2"),
                s1=m.get("1.size"), s2=m.get("2.size"))
        if proof.startswith("kdf.init"):
            yield "init", dict(d1=m.get("d1", b""), d2=m.get("d2", b""),
                               k1=m.get("key1", b"k"),
                               k2=m.get("key2", b"k"), xs=xs, ys=ys)
    for alg in ALGS:
        yield "family", dict(alg=alg, keyed=0)
        yield "family", dict(alg=alg, keyed=1)
        for n in (0, 1, 2, 3, 5, 9, 40):
            for keyed in (0, 1):
                yield "spec", dict(alg=alg, n=n, keyed=keyed,
                                   size=1 + n * 37)
        for n in (1, 60, 118, 119, 120, 121, 135, 136, 137, 150, 151, 152,
                  167, 168, 169, 200, 3000, 65535, 65536, 70001):
            yield "keylen", dict(alg=alg, n=n)
        yield "kdf-family", dict(alg=alg)
        yield "alike", dict(alg=alg)
        yield "histories", dict(alg=alg, seed=len(alg))
    yield "init-family", dict()
    yield "copies", dict()
    for a in (0, 1):
        yield "many", dict(a=a)
    yield "keys", dict()
    yield "related-long-keys", dict(alg="sha3_512")
    for k in range(20 if env.tier == "quick" else 400):
        yield "histories", dict(alg=ALGS[k % 4], seed=100 + k)


def uniq(pairs):
    """pairs (input, digest): same digest <=> same input"""
    seen = {}
    for k, d in pairs:
        if seen.setdefault(d, k) != k:
            return f"{k!r} and {seen[d]!r} give the same result"


def H(env, a, *items, **kw):
    return env.call(env.aiootp.generics.hashing, "hash_bytes", *items,
                    is_async=a, **kw)


def check(env, case, i):
    K = env.aiootp.keygens.domain_kdf.DomainKDF
    if "alg" in i:
        alg = i["alg"]
        hasher = getattr(hashlib, alg)
        shake = "shake" in alg
    alphabet = (b"", b"\x00", b"a", b"\x00\x00", b"ab", b"b", b"\x00a")
    if case == "pair":
        ds = []
        for v, k, s in ((i["xs"], i["k1"], i["s1"]),
                        (i["ys"], i["k2"], i["s2"])):
            kw = dict(hasher=hasher)
            if k is not None:
                kw["key"] = k
            if shake:
                kw["size"] = min(int(s or 32), 4096)
            ds.append((H(env, 0, *v, **kw), (v, k, kw.get("size"))))
            if H(env, 1, *v, **kw) != ds[-1][0]:
                return "async digest differs"
        if ds[0][0] == ds[1][0] and ds[0][1] != ds[1][1]:
            return "different inputs hash alike"
    elif case == "family":
        out = []
        keys = (b"k", b"\x00", b"a") if i["keyed"] else (None,)
        for n in range(4):
            for v in itertools.product(alphabet, repeat=n):
                for key in keys:
                    kw = dict(hasher=hasher)
                    if key is not None:
                        kw["key"] = key
                    if shake:
                        kw["size"] = 32
                    out.append(((v, key), H(env, 0, *v, **kw)))
        m = uniq(out)
        if m:
            return m
        if shake:
            for v in itertools.product(alphabet, repeat=2):
                ds = [H(env, 0, *v, hasher=hasher, size=s)
                      for s in (16, 17, 32, 64)]
                if any(x[:16] == y[:16] for x, y in
                       itertools.combinations(ds, 2)):
                    return "output sizes are not separated"
                if [len(x) for x in ds] != [16, 17, 32, 64]:
                    return "size not honoured"
    elif case == "spec":
        v = [env.blob(k * 29 % 200, k) for k in range(i["n"])]
        for pad in (b"\x00", b"\xff", b"z"):
            kw = dict(hasher=hasher, pad=pad)
            if i["keyed"]:
                kw["key"] = env.blob(i["n"] * 13 + 1, 5)
            if shake:
                kw["size"] = i["size"]
            x, y = H(env, 0, *v, **kw), H(env, 1, *v, **kw)
            if x != y:
                return "async digest differs"
            if len(x) != kw.get("size", hasher().digest_size):
                return "digest size not honoured"
            out = [("all", x)]
            for k, item in enumerate(v):
                w = list(v)
                w[k] = item + b"\x00"
                out.append((k, H(env, k % 2, *w, **kw)))
            if len(x) >= 16:
                m = uniq(out)
                if m:
                    return m
    elif case == "alike":
        size = dict(size=32) if shake else {}
        for x in (b"Ab  c\n", b" ", b"\0"):
            out = []
            for a, y in enumerate([x, *env.alike(x)]):
                a %= 2
                out += [(("item", y), H(env, a, y, hasher=hasher, **size)),
                        (("second", y), H(env, a, x, y, hasher=hasher,
                                          **size)),
                        (("keyed", y), H(env, a, y, key=b"k" * 32,
                                         hasher=hasher, **size))]
                if y:
                    out.append((("key", y), H(env, a, b"m", key=y,
                                              hasher=hasher, **size)))
                    k = K(b"dom", b"x", key=y)
                    out.append((("kdf key", y), env.call(
                        k, alg, is_async=a, **size)))
                k = K(y, b"x", key=b"k" * 32)
                out.append((("domain", y), env.call(k, alg, is_async=a,
                                                    **size)))
                k = K(b"dom", y, key=b"k" * 32)
                out.append((("payload", y), env.call(k, alg, is_async=a,
                                                     **size)))
                k = K(b"dom", b"x", key=b"k" * 32)
                out.append((("kdf item", y), env.call(k, alg, y, is_async=a,
                                                      **size)))
                out.append((("kdf aad", y), env.call(
                    k, alg, b"i", aad=y, is_async=a, **size)))
                env.call(k, "update", y, is_async=a)
                out.append((("updated", y), env.call(k, alg, is_async=a,
                                                     **size)))
            m = uniq(out)
            if m:
                return m
    elif case == "keylen":
        n = i["n"]
        kw = dict(hasher=hasher)
        if shake:
            kw["size"] = 32
        k = env.blob(n, 9)
        out = []
        for p in range(0, n, max(1, n // 40)):
            q = k[:p] + bytes([k[p] ^ 1]) + k[p + 1:]
            out.append((q, H(env, p % 2, b"m", key=q, **kw)))
        q = k[:-1] + bytes([k[-1] ^ 1])
        out.append((q, H(env, 0, b"m", key=q, **kw)))
        for q in (k, k + b"\x00", b"\x00" + k, k + k[:1]):
            if H(env, 0, b"m", key=q, **kw) != H(env, 1, b"m", key=q, **kw):
                return f"sync and async differ for a {len(q)} byte key"
            for item in (b"m", b"", k[-1:]):
                out.append(((q, item), H(env, 0, item, key=q, **kw)))
        return uniq(out)
    elif case == "kdf-family":
        size = dict(size=32) if shake else {}
        out = []
        for n in range(3):
            for v in itertools.product(alphabet, repeat=n):
                for aad in (b"", b"a", b"\x00"):
                    k = K(b"dom", b"x", key=b"k" * 32)
                    out.append(((v, aad), env.call(
                        k, alg, *v, aad=aad, is_async=n % 2, **size)))
        for u in itertools.product(alphabet, repeat=2):
            k = K(b"dom", b"x", key=b"k" * 32).update(*u)
            out.append((("u", u), env.call(k, alg, **size)))
            k = K(b"dom", b"x", key=b"k" * 32).update(u[0]).update(u[1])
            out.append((("uu", u), env.call(k, alg, **size)))
        m = uniq(out)
        if m:
            return m
        k = K(b"dom", key=b"k" * 32)
        outs = [k.sha3_256(), k.sha3_512(), k.shake_128(size=32),
                k.shake_256(size=32), k.shake_256(size=64),
                k.shake_128(size=64)]
        if len({x[:24] for x in outs}) != len(outs):
            return "output kinds are not separated"
        for s in (1, 16, 31, 32, 64, 200, 1000):
            if shake and len(env.call(k, alg, size=s)) != s:
                return "size not honoured"
    elif case == "init-family":
        out = []
        for d in alphabet:
            for key in (b"k", b"ka", b"kab", b"k\x00", b"\x00"):
                for n in range(3):
                    for v in itertools.product(alphabet[:5], repeat=n):
                        out.append(((d, key, v),
                                    K(d, *v, key=key).sha3_256()))
        return uniq(out)
    elif case == "init":
        if len(i["k1"] + i["d1"]) != len(i["k2"] + i["d2"]):
            return None
        x = (i["d1"], i["k1"], i["xs"])
        y = (i["d2"], i["k2"], i["ys"])
        r = [K(d, *v, key=k).sha3_256() for d, k, v in (x, y)]
        if r[0] == r[1] and x != y:
            return "different constructions give the same key"
    elif case == "copies":
        for a in (0, 1):
            k = K(b"d", b"x", key=b"k" * 64)
            r0 = k.sha3_256(b"q")
            c = k.copy()
            if c.sha3_256(b"q") != r0:
                return "copy differs"
            env.call(c, "update", b"more", is_async=a)
            if k.sha3_256(b"q") != r0:
                return "original changed with its copy"
            r1 = c.sha3_256(b"q")
            env.call(k, "update", b"other", is_async=a)
            if c.sha3_256(b"q") != r1 or r1 == r0:
                return "copy changed with its original"
            try:
                env.call(k, "update", is_async=a)
            except ValueError:
                pass
            else:
                return "empty update accepted"
    elif case == "many":
        a = i["a"]
        long = [*range(40), *range(240, 280), 500, 511, 512, 513, 1000,
                  4095, 65535, 65536, 65537]
        for item in (b"\0", b"ab", b""):
            if item:
                counts = long[:-3]
            else:
                counts = long
            m = uniq([((n, item), H(env, a, *[item] * n)) for n in counts])
            m = m or uniq([((n, item), H(env, a, *[item] * n, key=b"k"))
                           for n in counts])
            if m:
                return m
            out = []
            for n in counts[1:]:
                k = K(b"d", b"p", key=b"k" * 64)
                if a:
                    env.run(k.aupdate(*[item] * n))
                else:
                    k.update(*[item] * n)
                out.append(((n, item), k.sha3_256()))
            m = uniq(out)
            if m:
                return "updates " + m
        big = 1 << 22
        m = uniq([((what, n), H(env, a, *x))
                  for n in (big, big + 1, 65535, 65536, 65537)
                  for what, x in (("one", (bytes(n),)),
                                  ("two", (bytes(n - 1), b"\0")),
                                  ("three", (b"\0", bytes(n - 1))))])
        if m:
            return m
    elif case == "keys":
        for a in (0, 1):
            for kw in (dict(key=b""),):
                try:
                    H(env, a, b"m", **kw)
                except ValueError:
                    continue
                return "empty key accepted"
            if H(env, a, b"m") == H(env, a, b"m", key=b"k"):
                return "key ignored"
    elif case == "histories":
        import random
        r = random.Random(i["seed"])
        size = dict(size=r.randrange(16, 200)) if shake else {}
        d, key = env.blob(r.randrange(20), 1), env.blob(r.randrange(1, 99), 2)
        v = [env.blob(r.randrange(30), k) for k in range(r.randrange(4))]
        k = K(d, *v, key=key)
        bs = 168
        payload = None
        model = []
        twin = [k, K(d, *v, key=key)]
        for step in range(12):
            op = r.randrange(3)
            item = [env.blob(r.randrange(400), step + q)
                    for q in range(r.randrange(1, 4))]
            if op == 0:
                env.call(twin[0], "update", *item)
                env.call(twin[1], "update", *item, is_async=1)
                model.append(item)
            elif op == 1:
                twin[0].copy().update(b"noise")
                twin[1] = twin[1].copy()
            x = env.call(twin[0], alg, *item, aad=d, **size)
            y = env.call(twin[1], alg, *item, aad=d, is_async=1, **size)
            fresh = K(d, *v, key=key)
            for u in model:
                fresh.update(*u)
            z = env.call(fresh, alg, *item, aad=d, **size)
            if not x == y == z:
                return "result depends on more than the update history"
            # size separation and item order
            if len(item) > 1 and item[0] != item[1]:
                sw = [item[1], item[0], *item[2:]]
                if env.call(fresh, alg, *sw, aad=d, **size) == z:
                    return "item order is not bound"
    elif case == "related-long-keys":
        # a longer key spelling out the encoding of a shorter key and the
        # start of the packed items that were hashed with it
        from aiootp.generics.canon import canonical_pack, encode_key
        bs = hasher().block_size
        k1 = b"k" * 32
        e1 = encode_key(k1, bs)
        ds = hasher().digest_size.to_bytes(8, "big")
        for n in range(1, 2000):
            x1 = b"\x77" * n
            head = canonical_pack(ds, x1, blocksize=bs)
            k2 = e1 + head[:head.index(x1)]
            tail = encode_key(k2, bs)[len(k2):] + canonical_pack(
                ds, b"other", blocksize=bs)
            # x1 := tail without the padding that pack() would add anyway
            body = tail.rstrip(b"\x00")
            if len(body) <= n <= len(tail):
                x1 = tail[:n]
                break
        else:
            return None
        if H(env, 0, x1, hasher=hasher, key=k1) == H(
            env, 0, b"other", hasher=hasher, key=k2
        ):
            return "a 32 byte key and a longer related key hash alike"
