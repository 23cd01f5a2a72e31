"""
bounded stand-in for P26: real packages, files and databases
"""
import copy
import json
import random
from pathlib import Path


def cases(env):
    n = 4 if env.tier == "quick" else 20
    for s in range(n):
        yield "roundtrip", dict(s=s)
        yield "changed", dict(s=s)
        yield "files", dict(s=s)
        yield "resign", dict(s=s)
    yield "names", {}
    yield "large", dict(n=1500)
    for s in range(3):
        yield "special", dict(s=s)
    yield "keys", {}
    yield "reopen", {}


def check(env, case, i):
    A = env.aiootp.asynchs
    old, A.Processes.pool = A.Processes.pool, A.Threads.pool
    try:
        return globals()["do_" + case](env, i, Path(env.tmpdir()))
    except AssertionError as e:
        return f"{case} {i}: {e}"
    finally:
        A.Processes.pool = old


def connect(s, d):
    return s.connect_to_secure_database(
        username=b"user" * 4, passphrase=b"pass" * 4, salt=b"salt" * 2,
        path=d, mb=1, cpu=1, cores=1)


def package(env, rnd, d, scope=None, n=None):
    K = env.aiootp.keygens
    (d / "db").mkdir(exist_ok=True)
    (d / "src").mkdir(exist_ok=True)
    scope = scope if scope is not None else dict(
        author="A", n=rnd.randrange(99), nested=dict(b=[1, {"c": None}], a=2))
    s = K.PackageSigner("pkg", "1.0", date=rnd.choice([5, 19999]), **scope)
    connect(s, d / "db")
    s.update_signing_key(s.generate_signing_key())
    s.update_public_credentials(x="y", email="a@b", k=[1, 2])
    names = rnd.sample(["b.txt", "a.py", "__init__.py", "_z", "d/e.bin",
                        "d/é", "empty", "A.py"], rnd.randrange(1, 7)
                       if n is None else n)
    files = {}
    for name in names:
        files[name] = rnd.randbytes(rnd.choice([1, 40, 3000]))
        if name == "empty":
            files[name] = b""
        (d / "src" / name).parent.mkdir(exist_ok=True)
        (d / "src" / name).write_bytes(files[name])
        assert s.add_file(name, files[name]) is s
    return s, files


def accepts(env, key, summary, path=None):
    V = env.aiootp.keygens.PackageVerifier
    v = V(key, verify_files=False) if path is None else V(key, path=path)
    try:
        r = v.verify_summary(summary)
        assert r is None, f"verification returns {r!r}"
        return True
    except (ValueError, KeyError, TypeError, OSError, AttributeError,
            V.InvalidSignature):
        return False


def do_roundtrip(env, i, d):
    rnd = random.Random(f"{i}")
    s, files = package(env, rnd, d)
    s.sign_package()
    q = s.summarize()
    H = env.aiootp.keygens.PackageSigner._Hasher
    assert q["checksums"] == {n: H(x).hexdigest() for n, x in files.items()}
    assert q["signing_key"] == s.signing_key.public_bytes.hex()
    assert q["scope"]["package"] == "pkg" and q["scope"]["version"] == "1.0"
    assert q["public_credentials"] == dict(x="y", email="a@b", k=[1, 2])
    pub = s.signing_key.public_bytes
    E = env.aiootp.keygens.Ed25519
    for key in (pub, s.signing_key.public_key, E().import_public_key(pub),
                s.signing_key):
        for x in (q, json.dumps(q), json.dumps(q).encode(),
                  json.dumps(q, indent=3)):
            before = copy.deepcopy(x)
            assert accepts(env, key, x), "own summary refused"
            assert accepts(env, key, x, d / "src"), "own files refused"
            assert x == before, "summary modified by verification"


def paths(x, p=()):
    yield p
    if isinstance(x, dict):
        for k in x:
            yield from paths(x[k], p + (k,))
    elif isinstance(x, list):
        for k in range(len(x)):
            yield from paths(x[k], p + (k,))


def mutate(q, p, rnd):
    """all kinds of changes at one place"""
    def at(y):
        for k in p[:-1]:
            y = y[k]
        return y
    x = at(q)[p[-1]]
    options = [None, 7, "other", [], {}, [x], {"k": x}]
    if isinstance(x, str):
        k = rnd.randrange(len(x)) if x else 0
        c = x[k:k + 1]
        options += [x + "0", x[:-1], x[:k] + ("1" if c != "1" else "2")
                    + x[k + 1:], x + "00", x[2:]]
    if isinstance(x, int):
        options += [x + 1, -x - 1, str(x)]
    if isinstance(x, dict):
        options += [{**x, "new": "00" * 48}, dict(list(x.items())[1:])]
    for o in options:
        if o == x:
            continue
        y = copy.deepcopy(q)
        at(y)[p[-1]] = o
        yield o, y
    if isinstance(at(q), dict):
        y = copy.deepcopy(q)
        at(y)["renamed"] = at(y).pop(p[-1])
        yield "renamed", y
        y = copy.deepcopy(q)
        del at(y)[p[-1]]
        yield "removed", y


def do_changed(env, i, d):
    rnd = random.Random(f"{i}")
    s, files = package(env, rnd, d, n=3)
    s.sign_package()
    q = s.summarize()
    key = s.signing_key.public_bytes
    assert accepts(env, key, q, d / "src")
    H = env.aiootp.keygens.PackageSigner._Hasher
    for p in list(paths(q))[1:]:
        for what, y in mutate(q, p, rnd):
            assert not accepts(env, key, y), f"{p} = {what!r} accepted"
            assert not accepts(env, key, json.dumps(y), d / "src")
            if p[0] not in ("checksum", "signature") and {
                    "checksum", "signature"} <= set(y):
                # with the right checksum, only the signature can tell
                rest = {k: v for k, v in y.items()
                        if k not in ("checksum", "signature")}
                y["checksum"] = H(json.dumps(rest).encode()).hexdigest()
                assert not accepts(env, key, y), (
                    f"{p} = {what!r} and checksum accepted")
    for x in (1, 0, "", None, [], {}, False, "00", {"a": ""}):
        for n in ("extra", "", "Checksum", "checksum ", "~", "0"):
            y = {**q, n: x}
            assert not accepts(env, key, y), f"extra {n!r}: {x!r} accepted"
            y = {n: x, **q}
            assert not accepts(env, key, y), f"extra {n!r}: {x!r} accepted"
    for part in ("scope", "public_credentials", "checksums"):
        for x in (0, "", None, [], {}, False):
            y = {**q, part: {**q[part], "extra": x}}
            assert not accepts(env, key, y), f"{part}: extra {x!r} accepted"
    other = env.aiootp.keygens.Ed25519().generate()
    assert not accepts(env, other.public_bytes, q), "other key accepted"
    y = {**q, "signing_key": other.public_bytes.hex()}
    assert not accepts(env, other.public_bytes, y)
    rest = {k: v for k, v in y.items() if k not in ("checksum", "signature")}
    y["checksum"] = H(json.dumps(rest).encode()).hexdigest()
    assert not accepts(env, other.public_bytes, y)
    assert not accepts(env, key, y)


def do_files(env, i, d):
    rnd = random.Random(f"{i}")
    s, files = package(env, rnd, d, n=4)
    s.sign_package()
    q = s.summarize()
    key = s.signing_key.public_bytes
    src = d / "src"
    assert accepts(env, key, q, src)
    for name, data in files.items():
        bad = [data + b"\0", data[:-1] if data else b"x"]
        for _ in range(4):
            if data:
                b = bytearray(data)
                b[rnd.randrange(len(b))] ^= 1 << rnd.randrange(8)
                bad.append(bytes(b))
        bad.append(bytes([data[0] ^ 1]) + data[1:] if data else b"\0")
        bad.append(data[:-1] + bytes([data[-1] ^ 1]) if data else b"\0\0")
        for x in bad:
            (src / name).write_bytes(x)
            assert not accepts(env, key, q, src), f"{name} altered: accepted"
            assert accepts(env, key, q), "files not asked for"
        (src / name).unlink()
        assert not accepts(env, key, q, src), f"{name} missing: accepted"
        (src / name).write_bytes(data)
        assert accepts(env, key, q, src), "restored"
    a, b = list(files)[:2]
    (src / a).write_bytes(files[b])
    (src / b).write_bytes(files[a])
    assert not accepts(env, key, q, src), "swapped files accepted"


def summary(s):
    try:
        return s.summarize()
    except Exception:
        return None


def do_resign(env, i, d):
    rnd = random.Random(f"{i}")
    s, files = package(env, rnd, d, n=3)
    assert summary(s) is None, "summary before signing"
    key = s.signing_key.public_bytes
    name = sorted(files)[0]
    for what, f in (
            ("scope", lambda: s.update_scope(author="B")),
            ("new scope", lambda: s.update_scope(more=1)),
            ("date", lambda: s.update_scope(date=6)),
            ("version", lambda: s.update_scope(version="1.1")),
            ("credential", lambda: s.update_public_credentials(x="z")),
            ("new credential", lambda: s.update_public_credentials(w=1)),
            ("file", lambda: s.add_file(name, b"changed")),
            ("new file", lambda: s.add_file("new", b"")),
            ("key", lambda: s.update_signing_key(
                s.generate_signing_key()))):
        s.sign_package()
        q = summary(s)
        assert q is not None and accepts(env, s.signing_key, q), what
        assert f() is s
        r = summary(s)
        assert r is None, f"{what} changed: still summarised"
        s.sign_package()
        r = summary(s)
        assert r is not None and r != q, f"{what}: signed again"
        assert accepts(env, s.signing_key, r), f"{what}: signed again"
    assert s.signing_key.public_bytes != key
    assert not accepts(env, key, r), "old key accepted"


def do_names(env, i, d):
    """a name is either refused or listed with its digest"""
    rnd = random.Random(1)
    K = env.aiootp.keygens
    s, files = package(env, rnd, d, n=0)
    want = {}
    H = K.PackageSigner._Hasher
    for n in ("items", "keys", "update", "a b", "", "x" * 300, "é", "1",
              "__x__", "_", "a/b/c", "..", "../x", "__class__", "copy",
              "checksum", "signature", "scope"):
        try:
            s.add_file(n, n.encode())
            want[n] = H(n.encode()).hexdigest()
        except (PermissionError, TypeError):
            pass
    assert len(want) >= 12, f"only {sorted(want)} can be added"
    s.sign_package()
    q = s.summarize()
    assert q["checksums"] == want, "listed files"
    assert accepts(env, s.signing_key, json.dumps(q))


def do_large(env, i, d):
    s, _ = package(env, random.Random(1), d, n=0)
    H = env.aiootp.keygens.PackageSigner._Hasher
    want = {}
    for k in range(i["n"]):
        name, data = f"dir{k % 7}/f{k}", b"%d" % k
        s.add_file(name, data)
        want[name] = H(data).hexdigest()
    s.sign_package()
    q = s.summarize()
    assert q["checksums"] == want, f"{len(q['checksums'])} files listed"
    assert accepts(env, s.signing_key, json.dumps(q)), "own summary refused"
    for name in ("dir0/f0", f"dir{(i['n'] - 1) % 7}/f{i['n'] - 1}"):
        z = copy.deepcopy(q)
        z["checksums"][name] = H(b"x").hexdigest()
        assert not accepts(env, s.signing_key, z), f"{name} changed"
        del z["checksums"][name]
        assert not accepts(env, s.signing_key, z), f"{name} removed"


SPECIAL = ["", " ", "0", " 1", "1 ", "a\nb", "é", "x" * 300, "None", "items",
           "keys", "\0", "\ud800", "A", "a"]


def do_special(env, i, d):
    """unusual names, versions, fields and contents are kept apart"""
    rnd = random.Random(1)
    K = env.aiootp.keygens
    (d / "db").mkdir()
    (d / "src").mkdir()
    E = K.Ed25519
    key = E().generate()
    H = K.PackageSigner._Hasher
    seen = []
    for k, x in enumerate(SPECIAL):
        name, version = ("pkg", x) if i["s"] == 0 else (x, "1")
        if "\ud800" in name:
            continue
        date = [1, 10 ** 9, 3][k % 3]
        more = {} if i["s"] < 2 else dict(
            field=[x, "", None, [], {}, 0, False][k % 7], other="")
        s = K.PackageSigner(name, version, date=date, **more)
        connect(s, d / "db")
        s.update_signing_key(key)
        s.update_public_credentials(e="", n=None, z=0, x=x)
        data = [b"", b"\r\n", b"\n", b" x ", b"\0" * 70, b"\xff\xfe",
                b"x" * 70000][k % 7]
        s.add_file(f"f{k}", b"first")
        s.add_file(f"f{k}", data)
        (d / "src" / f"f{k}").write_bytes(data)
        s.sign_package()
        q = s.summarize()
        assert q["scope"] == dict(package=name, version=version, date=date,
                                  **more), f"{x!r}: scope {q['scope']}"
        assert q["public_credentials"] == dict(e="", n=None, z=0, x=x)
        assert q["checksums"] == {f"f{k}": H(data).hexdigest()}, "digest"
        assert accepts(env, key, q, d / "src"), f"{x!r}: own files refused"
        assert accepts(env, key, json.dumps(q)), f"{x!r}: own text refused"
        for z in (data + b"\n", data.replace(b"\n", b"\r\n") + b" ",
                  data.strip() + b"\r"):
            (d / "src" / f"f{k}").write_bytes(z)
            if z != data:
                assert not accepts(env, key, q, d / "src"), f"{z!r:.40}"
        seen.append((s, q))
    for s, q in seen:
        if i["s"] == 0:
            t = K.PackageSigner("pkg", q["scope"]["version"],
                                date=q["scope"]["date"])
            connect(t, d / "db")
            t.update_public_credentials(**q["public_credentials"])
            for n in q["checksums"]:
                t.files[n] = q["checksums"][n]
            assert t.summarize()["signature"] == q["signature"], (
                f"version {q['scope']['version']!r}: another's signature")


def do_keys(env, i, d):
    rnd = random.Random(1)
    K = env.aiootp.keygens
    s, _ = package(env, rnd, d)
    E = K.Ed25519
    for make in (lambda k: k, lambda k: k.secret_bytes,
                 lambda k: k.secret_key):
        k = E().generate()
        s.update_signing_key(make(k))
        assert s.signing_key.secret_bytes == k.secret_bytes, "stored key"
        s.sign_package()
        assert accepts(env, k.public_bytes, s.summarize(), d / "src")
    t = K.PackageSigner("other", "1")
    connect(t, d / "db")
    assert summary(t) is None, "other package without key"
    try:
        t.sign_package()
    except Exception:
        return
    assert False, "signed without a key"


def do_reopen(env, i, d):
    rnd = random.Random(1)
    K = env.aiootp.keygens
    s, files = package(env, rnd, d, scope={})
    s.sign_package()
    q = s.summarize()
    t = K.PackageSigner("pkg", "1.0", date=q["scope"]["date"])
    connect(t, d / "db")
    for n, x in reversed(files.items()):
        t.add_file(n, x)
    assert t.signing_key.secret_bytes == s.signing_key.secret_bytes
    assert t.summarize() == q, "reopened: another summary"
    t.add_file("late", b"x")
    assert summary(t) is None, "reopened and changed"
