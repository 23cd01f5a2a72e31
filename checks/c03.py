"""bounded stand-in for P03: ages around the limit, stream call orders"""
S = 10 ** 9
OPS = {"bytes": ("bytes_encrypt", "bytes_decrypt"),
       "json": ("json_encrypt", "json_decrypt"),
       "token": ("make_token", "read_token")}
ORDERS = ["br", "rbr", "rrbr", "bbr", "brbr", "bf", "rbf", "brf", "bbrf",
          "rbrbf", "bbbrbrf", "f"]


def cases(env):
    CS = ("Chunky2048", "Slick256")
    for proof, name, m in env.models():
        for C in CS:
            for kind in OPS:
                for a in (0, 1):
                    yield "message", dict(
                        C=C, kind=kind, a=a, then=m.get("then", 1000),
                        now=m.get("now", 1000), ttl=m.get("ttl"))
            for order in ORDERS:
                yield "stream", dict(C=C, a=0, order=order, age=int(
                    m.get("now", 9)) % 10 ** 6, ttl=m.get("ttl"))
            for order in ("br", "bf"):
                for a in (0, 1):
                    yield "stream", dict(
                        C=C, a=a, order=order, ttl=5, age=6,
                        n=max(1, min(20000, int(m.get("queued", 1)))))
    for C in CS:
        for kind in (*OPS, "stream"):
            for one in (0, 1):
                yield "again", dict(C=C, kind=kind, a=0, one=one)
    n = 0
    for C in CS:
        for kind in OPS:
            for ttl in (0, 1, 2, 60, 3600, None, 86400 * 400):
                for d in (-1, 0, 1, 2, 1000):
                    now = 10 ** 8 + (ttl or 0) + d
                    n += 1
                    yield "message", dict(C=C, kind=kind, a=n % 2,
                                          then=10 ** 8, now=now, ttl=ttl)
        for order in ORDERS:
            for ttl, age in ((5, 5), (5, 6), (0, 0), (0, 1), (None, 10 ** 6),
                             (100, 10 ** 6), (100, 3)):
                for a in (0, 1):
                    yield "stream", dict(C=C, a=a, order=order, ttl=ttl,
                                         age=age)
        for order in ("br", "bf", "rbr", "brf"):
            for blocks in (0, 1, 2, 3, 70, 1500 if C == "Slick256" else 300):
                for age in (5, 6, 7000):
                    for a in (0, 1):
                        yield "stream", dict(C=C, a=a, order=order, ttl=5,
                                             age=age, n=blocks)
    r = env.rng
    for k in range(150 if env.tier == "quick" else 3000):
        C = CS[k % 2]
        then = r.randrange(0, 1 << 31)
        ttl = r.choice([None, 0, 1, r.randrange(1, 1 << 30)])
        now = max(0, min((1 << 32) - 1, then + (ttl or 0)
                         + r.choice([0, 1, -1, r.randrange(-9, 1 << 20)])))
        yield "message", dict(C=C, kind=r.choice(list(OPS)),
                              a=r.randrange(2), then=then, now=now, ttl=ttl)
        yield "stream", dict(
            C=C, a=r.randrange(2), ttl=ttl, age=max(0, now - then),
            order="".join(r.choice("brbrf") for _ in range(6)))


def judge(out, err, TE, age, ttl, what):
    """None, or why the outcome does not fit the age"""
    late = ttl is not None and age > ttl
    if late and not isinstance(err, TE):
        return (f"{what}: age {age} > limit {ttl} but no expiry error: "
                f"{err!r} {str(out)[:60]}")
    if late and out:
        return f"{what}: expired but released {str(out)[:60]}"
    if late and err.expired_by != age - ttl:
        return (f"{what}: age {age} limit {ttl}: error says expired by "
                f"{err.expired_by}")
    if not late and isinstance(err, TE):
        return f"{what}: age {age} within limit {ttl} refused: {err!r}"


def again(env, C, TE, key, aad, i):
    """one message read many times at several ages and limits"""
    epoch, then = C._config.EPOCH_NS, 10 ** 8
    env.clock.fixed = epoch + then * S
    one = C(key)
    data = [1, "x"] if i["kind"] == "json" else env.blob(37, 3)
    if i["kind"] == "stream":
        e = one.stream_encrypt(aad=aad)
        ct = b"".join(b"".join(p) for p in e.buffer(data))
        ct += b"".join(b"".join(p) for p in e.finalize())
    else:
        enc, dec = OPS[i["kind"]]
        ct = getattr(one, enc)(data, aad=aad)
    k = 0
    for age, ttl in ((0, 5), (5, 5), (6, 5), (6, 6), (6, 5), (7, None),
                     (7, 0), (9 ** 7, 5), (3, 5), (6, 5), (3, 0), (3, None),
                     (7, 5), (7, 5)):
        for a in (k % 2, 1 - k % 2):
            k += 1
            env.clock.fixed = epoch + (then + age) * S
            c = one if i["one"] else C(key)
            out = err = None
            try:
                if i["kind"] == "stream":
                    kw = dict(salt=e.salt, aad=aad, iv=e.iv, ttl=ttl)
                    d = (env.run(c.astream_decrypt(**kw)) if a
                         else c.stream_decrypt(**kw))
                    env.call(d, "buffer", ct, is_async=a)
                    out, err = env.collect(d.afinalize() if a
                                           else d.finalize(), a)
                    out = b"".join(out)
                else:
                    out = env.call(c, dec, ct, aad=aad, is_async=a, ttl=ttl)
            except Exception as x:
                err = x
            m = judge(out, err, TE, age, ttl, f"read {k} of a message")
            if m:
                return m
            if err is not None and not isinstance(err, TE):
                return f"read {k} of a genuine message: {err!r}"
            if err is None and out != data:
                return f"read {k} returned something else"


def check(env, case, i):
    C = getattr(env.aiootp, i["C"])
    cfg = C._config
    TE = env.aiootp.asynchs.Clock.TimestampExpired
    key, aad, a = env.blob(64, 1), env.blob(7, 2), i["a"]
    epoch = cfg.EPOCH_NS
    if case == "again":
        return again(env, C, TE, key, aad, i)
    if case == "message":
        enc, dec = OPS[i["kind"]]
        data = [1, "x"] if i["kind"] == "json" else env.blob(37, 3)
        env.clock.fixed = epoch + i["then"] * S + 5
        ct = env.call(C(key), enc, data, aad=aad, is_async=a)
        env.clock.fixed = epoch + i["now"] * S + 9
        kw = {} if i["ttl"] is None else dict(ttl=i["ttl"])
        out = err = None
        try:
            out = env.call(C(key), dec, ct, aad=aad, is_async=a, **kw)
        except Exception as e:
            err = e
        m = judge(out, err, TE, i["now"] - i["then"], i["ttl"], dec)
        if m:
            return m
        if err is not None and not isinstance(err, TE):
            return f"{dec} of a genuine message: {err!r}"
        if err is None and out != data:
            return f"{dec} returned something else"
        return
    # streams
    then = 10 ** 8
    env.clock.fixed = epoch + then * S
    e = C(key).stream_encrypt(aad=aad)
    data = env.blob(i.get("n", 6) * cfg.BLOCKSIZE + 11 * (i.get("n") != 0), 4)
    pk = [b"".join(p) for p in e.buffer(data)]
    pk += [b"".join(p) for p in e.finalize()]
    env.clock.fixed = epoch + (then + i["age"]) * S
    ci = C(key)
    kw = dict(salt=e.salt, aad=aad, iv=e.iv, ttl=i["ttl"])
    d = env.run(ci.astream_decrypt(**kw)) if a else ci.stream_decrypt(**kw)
    order, fed, got, passed = i["order"], 0, b"", False
    nb = max(1, order.count("b"))
    per = -(-len(pk) // nb)
    late = i["ttl"] is not None and i["age"] > i["ttl"]
    for k, op in enumerate(order):
        what = f"{order!r} step {k} ({op})"
        if op == "b":
            part = pk[fed:fed + per]
            if not part:
                continue
            fed += len(part)
            env.call(d, "buffer", b"".join(part), is_async=a)
            continue
        if op == "f":
            if fed == len(pk):
                d.shmac.test_shmac if False else None
            it = d.afinalize() if a else d.finalize()
        else:
            it = d
        out, err = env.collect(it, a)
        if op == "f" and not fed:
            if out:
                return f"{what}: {out[:2]}"
            return
        if not fed:
            if out or isinstance(err, TE):
                return f"{what}: read without data gave {out} {err!r}"
            continue
        m = judge(out, err, TE, i["age"], i["ttl"], what)
        if m:
            return m
        if err is not None and not late:
            return f"{what}: {err!r}"
        got += b"".join(out)
        if op == "f":
            if not late and fed == len(pk) and got != data:
                return f"{what}: wrong data"
            return
    if not late and not data.startswith(got):
        return f"{order!r}: released data is not a prefix of the message"
    if late and got:
        return f"{order!r}: expired data released"
