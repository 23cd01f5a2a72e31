"""bounded stand-in for P11: real encoders, independent arithmetic"""
import itertools
import random


def cases(env):
    for proof, name, m in env.models():
        if "x" in m and isinstance(m["x"], bytes) and len(m["x"]) < 9999:
            yield "filename", dict(x=m["x"])
            yield "urlsafe", dict(x=m["x"])
        if "N" in m or "m" in m:
            n = int(m.get("table size", 95))
            b = int(m.get("base", n))
            if n <= 256:
                for k in (m.get("N", 0), m.get("m", 0)):
                    yield "number", dict(n=int(k), base=b, size=n)
    for size in (2, 3, 10, 38, 64, 95, 128, 255, 256):
        for base in {2, 3, size // 2, size - 1, size}:
            if 2 <= base <= size:
                yield "numbers", dict(base=base, size=size)
    yield "tables", {}
    yield "foreign", {}
    for n in range(0, 70):
        x = env.blob(n, 1)
        yield "urlsafe", dict(x=x)
        yield "urlsafe", dict(x=bytes(n))
        yield "urlsafe", dict(x=b"\xff" * n)
        if n:
            yield "filename", dict(x=b"\x01" + x[1:])
            yield "filename", dict(x=b"\xff" + x[1:])
            yield "filename", dict(x=b"\x01" + bytes(n - 1))
            yield "filename", dict(x=b"\xff" * n)
            yield "phrase", dict(x=x)
    yield "phrase", dict(x=bytes(range(256)))
    yield "injective", {}
    for n in (0, 1, 255, 256, 257, 65535, 65536, 70001):
        yield "files", dict(n=n)
    r = env.rng
    for k in range(60 if env.tier == "quick" else 2000):
        x = r.randbytes(r.randrange(1, 300))
        yield "urlsafe", dict(x=x)
        yield "filename", dict(x=x.lstrip(b"\x00") or b"\x01")
        yield "phrase", dict(x=x)


def digits(n, base):
    out = []
    while n:
        n, d = divmod(n, base)
        out.append(d)
    return out[::-1] or [0]


def number(env, n, base, table, explicit=True):
    g = env.aiootp.generics.transform
    kw = dict(table=table)
    if explicit:
        kw["base"] = base
    texts = [env.call(g, "int_as_base", n, is_async=a, **kw) for a in (0, 1)]
    want = [table[d] for d in digits(n, base)]
    want = bytes(want) if type(table) is bytes else "".join(want)
    if texts != [want, want]:
        return f"{n} in base {base} is written {texts}"
    for a in (0, 1):
        if env.call(g, "base_as_int", texts[0], is_async=a, **kw) != n:
            return f"{n} in base {base} reads back differently"


def check(env, case, i):
    g = env.aiootp.generics.transform
    B = env.aiootp.generics.byte_io.ByteIO
    if case == "number":
        t = bytes(range(i["size"]))
        return number(env, i["n"], i["base"], t) or number(
            env, i["n"], i["base"], "".join(map(chr, t)))
    if case == "numbers":
        r = random.Random(i["base"])
        t = bytes(r.sample(range(256), i["size"]))
        s = "".join(chr(0x100 + x) for x in t)
        b = i["base"]
        ns = {0, 1, 2, b - 1, b, b + 1, 2 * b, b * b - 1, b * b, b * b + 1,
              b ** 3 - 1, b ** 3, b ** 7, b ** 20 - 1, b ** 20, 2 ** 53 - 1,
              2 ** 53, 2 ** 53 + 1, 2 ** 64 - 1, 2 ** 64, 2 ** 512 + 1}
        ns |= {r.randrange(2 ** r.randrange(1, 600)) for _ in range(30)}
        for n in ns:
            for table in (t, s):
                m = number(env, n, b, table)
                if not m and b == i["size"]:
                    m = number(env, n, b, table, False)
                if m:
                    return m
    elif case == "tables":
        T = env.aiootp._constants.datasets.Tables
        for name, t in dict(T.items()).items() if hasattr(
            T, "items"
        ) else vars(T).items():
            if type(t) not in (str, bytes) or name.startswith("_"):
                continue
            if len(set(t)) != len(t):
                return f"table {name} repeats a character"
            if len(t) > 1:
                for n in (0, 1, len(t) - 1, len(t), 12345678901234567890):
                    m = number(env, n, len(t), t, False)
                    if m:
                        return m
        for n in (0, 1, 94, 95, 10 ** 30):
            for a in (0, 1):
                x = env.call(g, "int_as_base", n, is_async=a)
                if env.call(g, "base_as_int", x, is_async=a) != n:
                    return "default table"
    elif case == "foreign":
        for a in (0, 1):
            for text, table, base in (
                ("1a", "0123456789", 10), ("a", "0123456789", 10),
                ("9", "0123456789", 9), ("19", "0123456789", 9),
                ("91", "0123456789", 9), (b"1z", b"0123456789", 10),
                (b"z1", b"0123456789", 10), ("0-", "0123456789", 10),
                ("00\x00", "0123456789", 10), ("1 1", "0123456789", 10),
                ("A", "abc", 3), ("é", "abc", 3), (b"\xff", b"abc", 3),
                (b"c", b"abc", 2), ("c", "abc", 2),
            ):
                try:
                    x = env.call(g, "base_as_int", text, base, table=table,
                                 is_async=a)
                except ValueError:
                    continue
                return f"{text!r} read as {x} in base {base} of {table!r}"
            for name in ("A", "a.b", "a/b", "Z", "é", "a b"):
                try:
                    env.call(B, "filename_to_bytes", name, is_async=a)
                except ValueError:
                    continue
                return f"{name!r} accepted as a filename"
    elif case in ("filename", "urlsafe", "phrase"):
        x = i["x"]
        if case == "filename":
            x = x.lstrip(b"\x00")
            if not x:
                return None
        p = "_" if case == "phrase" else ""
        enc = getattr(B, p + f"bytes_to_{case}")(x)
        aenc = env.run(getattr(B, p + f"abytes_to_{case}")(x))
        if enc != aenc:
            return "async text differs"
        if getattr(B, p + f"{case}_to_bytes")(enc) != x or env.run(
            getattr(B, p + f"a{case}_to_bytes")(enc)
        ) != x:
            return "reads back differently"
        if case == "filename":
            if not set(enc) <= set("-_0123456789abcdefghijklmnopqrstuvwxyz"):
                return "unsafe character in a filename"
        if case == "urlsafe":
            if set(enc) - set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqr"
                              b"stuvwxyz0123456789-_"):
                return "unsafe character"
            if B.urlsafe_to_bytes(enc.decode()) != x or env.run(
                B.aurlsafe_to_bytes(enc.decode())
            ) != x:
                return "text form reads back differently"
    elif case == "injective":
        seen = {}
        for n in range(0, 3):
            for x in itertools.product(range(0, 256, 15 if n > 1 else 1),
                                       repeat=n):
                x = bytes(x)
                for kind in ("urlsafe", "phrase"):
                    p = "_" if kind == "phrase" else ""
                    if kind == "phrase" and not x:
                        continue
                    k = (kind, getattr(B, p + f"bytes_to_{kind}")(x))
                    if seen.setdefault(k, x) != x:
                        return f"{x!r} and {seen[k]!r} are written alike"
    elif case == "files":
        import os
        d = env.tmpdir()
        x, y = env.blob(i["n"], 1), env.blob(i["n"] // 2 + 1, 2)
        for a in (0, 1):
            f = os.path.join(d, f"f{a}")
            env.call(B, "write", f, b"previous, longer content" * 9,
                     is_async=a)
            env.call(B, "write", f, x, is_async=a)
            if env.call(B, "read", f, is_async=a) != x:
                return "written data reads back differently"
            env.call(B, "append", f, y, is_async=a)
            if env.call(B, "read", f, is_async=1 - a) != x + y:
                return "appended data reads back differently"
            for n in (0, 1, len(x), len(x) + 1):
                if env.call(B, "read", f, n, is_async=a) != (x + y)[:n]:
                    return "partial read differs"
            for z in (b"", b"\n", b" ", b"", b"\r\n", b"\0", b"A a\t"):
                env.call(B, "append", f, z, is_async=a)
                y += z
                if env.call(B, "read", f, is_async=a) != x + y:
                    return f"appended {z!r} reads back differently"
            with open(f, "rb") as h:
                if h.read() != x + y:
                    return "file content differs"
            for z in (b"", b"\n", b" \r\n", b"\0\0", b"\n x\n\n"):
                env.call(B, "write", f, z, is_async=a)
                if env.call(B, "read", f, is_async=a) != z:
                    return f"written {z!r} reads back differently"
