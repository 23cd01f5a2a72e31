"""
bounded stand-in for P24: boundaries, other types, recorded computation
"""
import itertools
import random

SETTINGS = dict(mb=(1, 256 ** 3), cpu=(1, 256), cores=(1, 256),
                tag_size=(16, None), salt_size=(4, 256))
OK = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=8)
STAMP = (123).to_bytes(8, "big")


def cases(env):
    yield "header", {}
    for k in SETTINGS:
        yield "setting", dict(k=k)
    yield "inputs", {}
    for a in (0, 1):
        yield "limits", dict(a=a)
        yield "ttl", dict(a=a)
        yield "cut", dict(a=a)
        yield "default", dict(a=a)


def check(env, case, i):
    try:
        return globals()["do_" + case](env, i)
    except AssertionError as e:
        return f"{case} {i}: {e}"
    finally:
        env.clock.fixed = None


def compose(ts, mb, cpu, cores, salt, tag):
    return (ts + (mb - 1).to_bytes(3, "big") + bytes([cpu - 1, cores - 1,
            len(salt) - 1]) + salt + tag)


def outcome(f, *x, **k):
    try:
        return None, f(*x, **k)
    except Exception as e:
        return e, None


def do_header(env, i):
    H = env.aiootp.keygens.passcrypt.hash_format.PasscryptHash
    rnd = random.Random(5)
    mbs = [1, 2, 255, 256, 257, 65535, 65536, 65537, 256 ** 3 - 1, 256 ** 3]
    small = [1, 2, 127, 128, 255, 256]
    for mb, cpu, cores in itertools.chain(
            itertools.product(mbs, small[::2] + [256], (1, 256)),
            itertools.product((1, 70000), small, small)):
        v = dict(timestamp=rnd.randbytes(8), mb=mb, cpu=cpu, cores=cores,
                 salt=rnd.randbytes(rnd.choice([4, 5, 8, 255, 256])),
                 tag=rnd.randbytes(rnd.choice([16, 17, 32, 300])))
        h = H(**v).export_hash()
        want = compose(v["timestamp"], mb, cpu, cores, v["salt"], v["tag"])
        assert h == want, f"{v}: {h.hex()}"
        p = H().import_hash(h)
        got = {k: getattr(p, k) for k in v}
        assert got == v, f"{v} imported as {got}"
        assert p.export_hash() == h
        assert p.tag_size == len(v["tag"]) and p.salt_size == len(v["salt"])


def do_setting(env, i):
    P = env.aiootp.keygens.Passcrypt
    k = i["k"]
    lo, hi = SETTINGS[k]
    for x in {lo - 1, lo, lo + 1, 0, -1, 2 ** 70, *(
            () if hi is None else (hi - 1, hi, hi + 1))}:
        good = lo <= x and (hi is None or x <= hi)
        e, p = outcome(P, **{**OK, k: x})
        assert (e is None) == good, f"{k}={x}: {e!r}"
        assert e is None or isinstance(e, ValueError), f"{k}={x}: {e!r}"
    for x in (True, 1.0, 16.0, "16", b"16", None, [16], (16,)):
        e, p = outcome(P, **{**OK, k: x})
        assert isinstance(e, (ValueError, TypeError)), f"{k}={x!r}: {e!r}"


def do_inputs(env, i):
    M = env.aiootp.keygens.passcrypt
    S, spec = M.session_init.PasscryptSession, M.config.passcrypt_spec

    def session(p=b"p" * 12, s=b"s" * 8, a=b"", **k):
        return outcome(S, p, s, aad=a, config=spec, **{
            **dict(mb=1, cpu=1, cores=1, tag_size=16), **k})[0]
    for n in (0, 1, 11, 12, 13, 1000):
        assert (session(p=b"p" * n) is None) == (n >= 12), f"passphrase {n}"
    for n in (0, 1, 3, 4, 5, 255, 256, 257):
        assert (session(s=b"s" * n) is None) == (4 <= n <= 256), f"salt {n}"
    for bad in ("p" * 12, bytearray(12), None, 12, ["p"] * 12):
        assert session(p=bad) is not None, f"passphrase {bad!r}"
        assert session(s=bad) is not None, f"salt {bad!r}"
        assert session(a=bad) is not None, f"aad {bad!r}"
    for k, (lo, hi) in SETTINGS.items():
        if k != "salt_size":
            assert session(**{k: lo - 1}) is not None, f"{k} {lo - 1}"
            assert session(**{k: lo}) is None, f"{k} {lo}"
            if hi:
                assert session(**{k: hi}) is None, f"{k} {hi}"
                assert session(**{k: hi + 1}) is not None, f"{k} {hi + 1}"


def spy(env):
    P = env.aiootp.keygens.Passcrypt
    log = []

    class Spy(P):
        def new(self, passphrase, salt, *, aad=b""):
            s = self._settings
            log.append((s.mb, s.cpu, s.cores, s.tag_size, passphrase, salt,
                        aad))
            return b"t" * s.tag_size

        async def anew(self, *x, **k):
            return self.new(*x, **k)
    return Spy, log


def verify(env, a, P, h, **k):
    f = P.averify if a else P.verify
    return outcome(lambda: env.run(f(h, b"p" * 12, aad=b"A", **k)) if a
                   else f(h, b"p" * 12, aad=b"A", **k))[0]


def do_limits(env, i):
    P, log = spy(env)
    tag, salt = b"t" * 20, b"salt"
    ranges = [range(1, 2), range(1, 10), range(5, 10), range(2, 20, 3),
              range(0), range(255, 257), range(1, 257)]
    vals = [1, 2, 4, 5, 9, 10, 11, 255, 256]
    full = range(1, 256 ** 3 + 1)
    for pos, r, v in itertools.product(range(3), ranges, vals):
        nums = [3, 3, 3]
        nums[pos] = v
        allowed = [full] * 3
        allowed[pos] = r
        del log[:]
        e = verify(env, i["a"], P, compose(STAMP, *nums, salt, tag),
                   ttl=None, mb_allowed=allowed[0], cpu_allowed=allowed[1],
                   cores_allowed=allowed[2])
        good = v in r
        assert (e is None) == good, f"{nums} with {allowed}: {e!r}"
        assert bool(log) == good, f"{nums} with {allowed}: work {log}"
        if good:
            assert log == [(*nums, 20, b"p" * 12, salt, STAMP + b"A")], log


def do_default(env, i):
    """the default ranges"""
    P, log = spy(env)
    for pos, v, good in ((0, 511, 1), (0, 512, 0), (1, 32, 1), (1, 33, 0),
                         (2, 8, 1), (2, 9, 0), (0, 1, 1), (0, 256 ** 3, 0)):
        nums = [1, 1, 1]
        nums[pos] = v
        del log[:]
        e = verify(env, i["a"], P, compose(STAMP, *nums, b"salt", b"t" * 16))
        assert (e is None) == bool(good), f"{nums}: {e!r}"
        assert len(log) == good, f"{nums}: work"


def do_ttl(env, i):
    P, log = spy(env)
    epoch = env.aiootp.keygens.passcrypt.config.passcrypt_spec.EPOCH_NS
    S = 10 ** 9
    made = 1000 * S + 17
    h = compose(made.to_bytes(8, "big"), 1, 1, 1, b"salt", b"t" * 16)
    for ttl in (None, 0, 1, 2, 30, 3600, 10 ** 7, 10 ** 8, 0.5, 1.5):
        for past in (0, 1, S // 2, S - 1, S, S + 1, 2 * S, 30 * S,
                     30 * S + 1, 3600 * S, 3600 * S + 1, 10 ** 8 * S,
                     10 ** 8 * S + 1):
            env.clock.fixed = epoch + made + past
            del log[:]
            e = verify(env, i["a"], P, h, ttl=ttl)
            good = ttl is None or past <= ttl * S
            assert (e is None) == good, f"ttl {ttl} after {past} ns: {e!r}"
            assert bool(log) == good, f"ttl {ttl} after {past} ns: work"
            if not good:
                assert isinstance(e, P.TimestampExpired), repr(e)


def do_cut(env, i):
    P, log = spy(env)
    for n in (4, 8, 256):
        h = compose(STAMP, 1, 1, 1, b"s" * n, b"t" * 16)
        for m in range(len(h)):
            e = verify(env, i["a"], P, h[:m])
            assert isinstance(e, (ValueError, TypeError)), (
                f"salt of {n}, cut to {m} bytes: {e!r}")
            assert not log, f"cut to {m} bytes: work"
        e = verify(env, i["a"], P, h)
        assert e is None and log, f"whole hash: {e!r}"
        del log[:]
    for n in (1, 2, 3):
        h = compose(STAMP, 1, 1, 1, b"s" * n, b"t" * 40)
        e = verify(env, i["a"], P, h)
        assert isinstance(e, ValueError) and not log, f"salt of {n}: {e!r}"
