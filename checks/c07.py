"""bounded stand-in for P07: all short and random long call histories"""
import itertools

CS = ("Chunky2048", "Slick256")
OPS = ("enc", "dec", "jes", "jea", "jds", "jda", "step", "fin", "afin",
       "result", "test", "id")
SOPS = ("feed", "read", "fin", "tag", "result", "feed0")


def cases(env):
    for C in CS:
        for a in (0, 1):
            for iv in (0, 1):
                for first in OPS:
                    yield "all", dict(C=C, a=a, iv=iv, first=first, n=3)
                d = "enc" if not iv else "dec"
                j = "j" + d[0] + "sa"[a]
                for first in OPS:
                    yield "after", dict(C=C, a=a, iv=iv, pre=[d, j],
                                        first=first, n=3)
                    yield "after", dict(C=C, a=a, iv=iv,
                                        pre=[d, j, "step", "step", "fin"],
                                        first=first, n=2)
            for n in (1, 2, 3, 4, 5):
                yield "stream", dict(C=C, a=a, n=n, enc=1)
                yield "stream", dict(C=C, a=a, n=n, enc=0)
            yield "fresh", dict(C=C, a=a)
            yield "exact", dict(C=C, a=a)
    r = env.rng
    for k in range(100 if env.tier == "quick" else 3000):
        yield "random", dict(C=CS[k % 2], a=r.randrange(2),
                             iv=r.randrange(2),
                             ops=[r.choice(OPS) for _ in range(
                                 r.randrange(4, 12))])


class Model:
    def __init__(self, a, iv):
        self.a, self.iv = a, iv
        self.mode, self.reg, self.fin = None, False, False

    def allowed(self, op):
        """True / False / None (not specified)"""
        if op in ("enc", "dec"):
            ok = self.mode is None and (op == "dec") == bool(self.iv)
            if ok and self.fin:
                return None
            return ok
        if op[0] == "j":
            d = "enc" if op[1] == "e" else "dec"
            ok = self.mode == d and (op[2] == "a") == bool(self.a)
            if not ok:
                return False
            return None if self.reg is None or self.fin and not self.reg \
                else not self.reg
        if op == "step":
            if self.fin or self.mode is None:
                return False
            return True if self.reg is True else None
        if op in ("fin", "afin"):
            return False if self.fin else (True if self.mode else None)
        if op in ("result", "test"):
            return bool(self.fin)
        if op == "id":
            return False if self.fin else None

    def done(self, op, ok):
        if op in ("enc", "dec") and ok:
            self.mode = op
        elif op[0] == "j":
            self.reg = True if ok else (self.reg or None)
        elif op in ("fin", "afin") and ok:
            self.fin = True


class Session:
    def __init__(self, env, C, a, iv):
        self.env, self.C, self.a = env, C, a
        cfg = C._config
        self.c = C(env.blob(64, 1))
        kw = dict(salt=env.blob(cfg.SALT_BYTES, 2), aad=b"x")
        if iv:
            kw["iv"] = env.blob(cfg.IV_BYTES, 3)
        kb = self.c._KeyAADBundle(kdfs=self.c._kdfs, **kw)
        self.kb = env.run(kb.async_mode()) if a else kb.sync_mode()
        self.s = self.c._StreamHMAC(self.kb)
        self.gen = None
        self.tag = None

    def src(self):
        n = 0
        while True:
            yield self.env.blob(self.C._config.BLOCKSIZE, n)
            n += 1

    async def asrc(self):
        n = 0
        while True:
            yield self.env.blob(self.C._config.BLOCKSIZE, n)
            n += 1

    def do(self, op):
        s, env = self.s, self.env
        if op == "enc":
            return s._for_encryption()
        if op == "dec":
            return s._for_decryption()
        if op[0] == "j":
            f = getattr(self.c._Junction, "a" * (op[2] == "a") + "bytes_" + (
                "encipher" if op[1] == "e" else "decipher"))
            g = f(self.asrc() if op[2] == "a" else self.src(), shmac=s)
            self.gen = g
            return g
        if op == "step":
            if self.gen is None:
                raise LookupError("nothing to step")
            return env.step(self.gen, self.a)
        if op == "fin":
            return s.finalize()
        if op == "afin":
            return env.run(s.afinalize())
        if op == "result":
            return s.result
        if op == "test":
            return env.call(s, "test_shmac", self.tag or b"x" * 32,
                            is_async=self.a)
        if op == "id":
            return env.call(s, "next_block_id", b"block", is_async=self.a)


def run(env, C, a, iv, ops):
    S, m = Session(env, C, a, iv), Model(a, iv)
    for k, op in enumerate(ops):
        want = m.allowed(op)
        try:
            v = S.do(op)
            ok = True
        except Exception as e:
            v, ok = e, False
        if want is True and not ok:
            return f"{ops[:k + 1]}: refused with {v!r}"
        if want is False and ok:
            return f"{ops[:k + 1]}: accepted"
        if op in ("fin", "afin") and ok:
            S.tag = v
        if op == "result" and ok and v != S.tag:
            return f"{ops[:k + 1]}: result is not the tag"
        m.done(op, ok)


def near(x):
    yield from (x + bytes([b]) for b in range(256))
    yield from (bytes([b]) + x for b in range(256))
    yield from (x[:k] for k in range(len(x)))
    yield from (x[k:] for k in range(1, len(x)))
    yield from (x[::-1], x * 2, x.hex().encode())
    yield from few(x)


def few(x):
    yield from (x.upper(), x.lower(), x.strip(), x.strip(b"\0"),
                x.swapcase(), x.rstrip(b"=")[:-1], x + b"\n", b" " + x)
    for k in range(len(x)):
        for bit in (1, 32, 128):
            yield x[:k] + bytes([x[k] ^ bit]) + x[k + 1:]


def exact(env, C, a):
    c = C(env.blob(64, 1))
    for k in range(60):
        key = c._KeyAADBundle(c._kdfs)
        key = env.run(key.async_mode()) if a else key.sync_mode()
        sh = c._StreamHMAC(key)._for_encryption()
        j = (c._Junction.abytes_encipher if a else c._Junction.bytes_encipher)
        blk = env.blob(c._config.BLOCKSIZE, k)
        g = env.aiootp._gentools
        src = (g.abatch if a else g.batch)(blk, size=len(blk))
        out, e = env.collect(j(src, shmac=sh), a)
        if e is not None:
            raise e
        bid = env.call(sh, "next_block_id", blk, is_async=a)
        env.call(sh, "test_next_block_id", bid, blk, is_async=a)
        for what, x, arg in (("id", bid, (blk,)), ("tag", None, ())):
            if what == "tag":
                x = env.call(sh, "finalize", is_async=a)
                env.call(sh, "test_shmac", x, is_async=a)
            name = "test_shmac" if what == "tag" else "test_next_block_id"
            for y in (near if k < 2 else few)(x):
                if y == x:
                    continue
                try:
                    env.call(sh, name, y, *arg, is_async=a)
                except Exception:
                    continue
                return f"{what} {y.hex()} accepted for {x.hex()}"


def check(env, case, i):
    C = getattr(env.aiootp, i["C"])
    a = i["a"]
    cfg = C._config
    if case in ("all", "after"):
        for rest in itertools.product(OPS, repeat=i["n"] - 1):
            bad = run(env, C, a, i["iv"],
                      list(i.get("pre", ())) + [i["first"], *rest])
            if bad:
                return bad
    elif case == "random":
        return run(env, C, a, i["iv"], i["ops"])
    elif case == "exact":
        return exact(env, C, a)
    elif case == "fresh":
        c = C(env.blob(64, 1))
        ivs, salts = set(), set()
        salt = env.blob(cfg.SALT_BYTES, 2)
        S, A, I = cfg.SHMAC_BYTES, cfg.SALT_BYTES, cfg.IV_BYTES
        n = 0
        for k in range(40):
            for given in (None, salt):
                ct = env.call(c, "bytes_encrypt", b"m", salt=given,
                              is_async=a)
                st = env.call(c, "stream_encrypt", salt=given, is_async=a)
                tok = env.call(c, "make_token", b"m", is_async=a)
                js = env.call(c, "json_encrypt", 1, salt=given, is_async=a)
                raw = env.aiootp.generics.ByteIO.urlsafe_to_bytes(tok)
                for g, x in ((given, ct[S:]), (given, js[S:]),
                             (None, raw[S:]),
                             (given, st.salt + st.iv + b".")):
                    sa, iv = x[:A], x[A:A + I]
                    n += 1
                    ivs.add(iv)
                    if g is not None and sa != g:
                        return "given salt not used"
                    if g is None:
                        if sa in salts:
                            return "salt reused"
                        salts.add(sa)
                    if len(ivs) != n:
                        return "IV reused"
    elif case == "stream":
        B = cfg.BLOCKSIZE
        kw = dict(salt=env.blob(cfg.SALT_BYTES, 2))
        for ops in itertools.product(SOPS, repeat=i["n"]):
            if i["n"] >= 4 and (ops.count("fin") == 0 or
                                ops[-1] in ("result", "tag", "feed0")):
                continue
            c = C(env.blob(64, 1))
            if i["enc"]:
                s = env.call(c, "stream_encrypt", is_async=a, **kw)
                feed = [env.blob(B, 1)] * 9
            else:
                e = c.stream_encrypt(**kw)
                feed = [b"".join(p) for p in e.buffer(env.blob(9 * B, 1))]
                feed += [b"".join(p) for p in e.finalize()]
                s = env.call(c, "stream_decrypt", is_async=a, iv=e.iv, **kw)
            fin, fed, started, tag = False, 0, False, None
            for k, op in enumerate(ops):
                h = f"{ops[:k + 1]}"
                try:
                    if op == "feed":
                        env.call(s, "buffer", feed[fed], is_async=a)
                        fed += 1
                        if fin:
                            return f"{h}: fed after finalize"
                    elif op == "feed0":
                        if i["enc"]:
                            env.call(s, "buffer", b"", is_async=a)
                            if fin:
                                return f"{h}: fed after finalize"
                    elif op == "read":
                        it, err = env.collect(s, a)
                        if fin and it and i["enc"]:
                            return f"{h}: packets after finalize"
                    elif op == "fin":
                        g = s.afinalize() if a else s.finalize()
                        it, err = env.collect(g, a)
                        if fin and (it or not err):
                            return f"{h}: finalized twice"
                        if not fin and i["enc"] and (err or not it):
                            return f"{h}: first finalize failed {err!r}"
                        if not i["enc"] and not fed and not fin:
                            break       # nothing received: not specified
                        fin = True
                    elif op == "result":
                        t = s.shmac.result
                        if not fin:
                            return f"{h}: tag before finalize"
                        if tag is not None and tag != t:
                            return f"{h}: tag changed"
                        tag = t
                    elif op == "tag":
                        try:
                            t = s.shmac.result
                        except Exception:
                            t = b"x" * cfg.SHMAC_BYTES
                        env.call(s.shmac, "test_shmac", t, is_async=a)
                        if not fin:
                            return f"{h}: tag test before finalize"
                except Exception as e:
                    ok = op in ("result", "tag") and not fin or fin and (
                        op in ("feed", "fin", "feed0"))
                    if not ok:
                        return f"{h}: {e!r}"
