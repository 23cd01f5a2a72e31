"""bounded stand-in for P12: real generators against list arithmetic"""
import collections
import itertools


def cases(env):
    for proof, name, m in env.models():
        if "size" in m and ("data" in m or "seq" in m):
            x = m.get("data", m.get("seq"))
            if isinstance(x, bytes) and len(x) < 10 ** 5:
                yield "split", dict(x=x, size=int(m["size"]),
                                    blocks=m.get("blocks"))
        if "start" in m or "i" in m:
            for s in (m.get("start", 0), m.get("i", 0)):
                yield "count", dict(start=int(s))
        if "a0" in m:
            yield "range", dict(a=[int(m[k]) for k in ("a0", "a1", "a2")
                                   if k in m])
    for n in range(0, 14):
        for size in list(range(1, 16)) + [100]:
            yield "split", dict(x=env.blob(n, 1), size=size, blocks=None)
            for b in (1, 2, 3, n, n + 1):
                if b:
                    yield "split", dict(x=env.blob(n, 1), size=size,
                                        blocks=b)
    for n, size in ((1000, 256), (1024, 256), (1025, 256), (1023, 256),
                    (65536, 4096), (65537, 4096)):
        yield "split", dict(x=env.blob(n, 1), size=size, blocks=None)
        yield "split", dict(x=env.blob(n, 1), size=size, blocks=n // size)
    yield "refuse", {}
    for n in range(0, 6):
        yield "pass", dict(n=n)
        yield "cycle", dict(n=n)
    yield "pass", dict(n=1000)
    for name in SPECIAL:
        yield "special", dict(name=name)
    for x in (b"  a \n", b"\0\0\0", b"\0a\0", b"\n\n", b"\xff" * 7,
              b"aaaa"):
        for size in (1, 2, 3, 7):
            yield "split", dict(x=x, size=size, blocks=None)
            yield "split", dict(x=x, size=size, blocks=2)
    for lens in itertools.chain([()], itertools.product(range(4), repeat=1),
                                itertools.product(range(4), repeat=2),
                                itertools.product(range(3), repeat=3)):
        yield "many", dict(lens=list(lens))
    for s in (0, 1, 254, 255, 256, 65534, 2 ** 32 - 2, 2 ** 53, 2 ** 64 - 2,
              10 ** 30, -3):
        yield "count", dict(start=s)
    for a in ([0], [1], [5], [300], [2, 9], [9, 2], [250, 260], [0, 20, 3],
              [1, 20, 19], [1, 20, 20], [20, 0, -3], [5, 5, 1], [0, 7, 7],
              [65530, 65540], [255, 257, 1]):
        yield "range", dict(a=a)


class Boom(Exception):
    pass


class Odd:
    """an item which cannot be compared, hashed, measured or tested"""
    def refuse(self, *a):
        raise Boom
    __eq__ = __ne__ = __hash__ = __bool__ = __len__ = refuse
    __iter__ = __await__ = __call__ = refuse


SPECIAL = {
    "none": [None, None, 1, None],
    "falsy": [0, "", b"", [], False, 0.0, ()],
    "zeros": [0, 0, 0],
    "same": [7, 7, 7, 8, 7],
    "equal": [1, 1.0, True, 1],
    "nested": [[1], [1], {"a": 1}, (), (1, 2)],
    "errors": [StopIteration(), StopAsyncIteration(), IndexError(),
               StopIteration],
    "marks": [..., NotImplemented, "END", b"\0", "\n"],
    "nan": [float("nan"), float("nan")],
    "odd": [Odd(), Odd()],
    "lots": [k % 3 for k in range(300)],
}


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def sources(items, fail=False):
    """the same items as list, iterator, generator, async generator ..."""
    def gen():
        yield from items
        if fail:
            raise Boom

    async def agen():
        for x in items:
            yield x
        if fail:
            raise Boom

    class AIt:
        def __aiter__(self):
            self.it = gen()
            return self

        async def __anext__(self):
            for x in self.it:
                return x
            raise StopAsyncIteration
    if not fail:
        yield "s", lambda: list(items)
        yield "s", lambda: tuple(items)
        yield "s", lambda: iter(list(items))
        yield "s", lambda: collections.deque(items)
    yield "s", gen
    yield "a", agen
    yield "a", AIt


def take(env, it, is_async, n):
    out = []
    it = env.iterate(it, is_async)
    for _ in range(n):
        try:
            out.append(env.step(it, is_async))
        except (StopIteration, StopAsyncIteration):
            out.append("END")
            break
    return out


def check(env, case, i):
    import aiootp._gentools as g
    if case == "split":
        x, size, blocks = i["x"], i["size"], i["blocks"]
        if size < 1 or size > 10 ** 9 or (
            blocks is not None and not 1 <= blocks < 10 ** 9
        ):
            return None
        want = [x[k:k + size] for k in range(0, len(x), size)]
        for a in (0, 1):
            t = "a" * a
            if blocks is None:
                r = env.collect(getattr(g, t + "batch")(x, size=size), a)
                if r != (want, None):
                    return f"{t}batch yields {r}"
                import io
                s = "".join(map(chr, x))
                r = env.collect(getattr(g, t + "batch")(
                    s, size=size, buffer_type=io.StringIO), a)
                if ("".join(r[0]), r[1]) != (s, None) or any(
                    len(p) != size for p in r[0][:-1]
                ):
                    return f"{t}batch of text yields {r}"
            for seq in (x, list(x), x.decode("latin1"), tuple(x)):
                w = [seq[k:k + size] for k in range(0, len(x), size)]
                w = w[:blocks]
                r = env.collect(getattr(g, t + "resize")(
                    seq, size, **({} if blocks is None else dict(
                        blocks=blocks))), a)
                if r != (w, None):
                    return f"{t}resize({seq!r}, {size}, {blocks}): {r}"
    elif case == "refuse":
        for a in (0, 1):
            for args, kw in (((b"abc", 0), {}), ((b"abc", -1), {}),
                             ((b"", 0), {}),
                             ((b"abc", 1), dict(blocks=0)),
                             ((b"abc", 1), dict(blocks=-1))):
                r = env.collect(getattr(g, "a" * a + "resize")(*args, **kw),
                                a)
                if r[0] or not isinstance(r[1], ValueError):
                    return f"resize{args}{kw}: {r}"
            for bad in (1.0, "1", None, b"1", True):
                r = env.collect(itertools.islice(g.count(start=bad), 2)
                                if not a else g.acount(start=bad), a) if (
                    bad is not True or not a) else None
                if r and not isinstance(r[1], TypeError):
                    return f"count(start={bad!r}): {r}"
    elif case == "pass":
        items = [object() for _ in range(i["n"])]
        for fail in (False, True):
            for kind, make in sources(items, fail):
                want = (items, Boom if fail else None)
                todo = [("aunpack", 1)]
                if kind == "s":
                    todo.append(("unpack", 0))
                for name, a in todo:
                    r = env.collect(getattr(g, name)(make()), a)
                    if (r[0], r[1] and type(r[1])) != want:
                        return f"{name} yields {r}"
        for name, a in (("popleft", 0), ("apopleft", 1)):
            q = collections.deque(items)
            r = env.collect(getattr(g, name)(q), a)
            if r != (items, None) or q:
                return f"{name} yields {r}"
            # items added while draining come too
            q = collections.deque(items)
            it = env.iterate(getattr(g, name)(q), a)
            out = []
            extra = [object(), object()]
            while True:
                try:
                    out.append(env.step(it, a))
                except (StopIteration, StopAsyncIteration):
                    break
                if extra:
                    q.append(extra[0])
                    items2 = items + [extra.pop(0)]
                    items = items2
            if out != items:
                return f"{name} loses items added while draining"
    elif case == "special":
        items = SPECIAL[i["name"]]
        for kind, make in sources(items):
            todo = [("aunpack", 1), ("acollate", 1)]
            if kind == "s":
                todo += [("unpack", 0), ("collate", 0)]
            for name, a in todo:
                r = env.collect(getattr(g, name)(make()), a)
                if not same(r[0], items) or r[1] is not None:
                    return f"{name} of {i['name']} items yields {len(r[0])}"
            for name, a in [("acycle", 1)] + [("cycle", 0)] * (kind == "s"):
                r = take(env, getattr(g, name)(make()), a,
                         2 * len(items) + 1)
                if not same(r, items * 2 + items[:1]):
                    return f"{name} of {i['name']} items yields {len(r)}"
            r = env.collect(g.azip(make(), items), 1)
            if not same(sum(map(list, r[0]), []),
                        [x for y in items for x in (y, y)]) or r[1]:
                return f"azip of {i['name']} items yields {len(r[0])}"
        for name, a in (("popleft", 0), ("apopleft", 1)):
            q = collections.deque(items)
            r = env.collect(getattr(g, name)(q), a)
            if not same(r[0], items) or r[1] or len(q):
                return f"{name} of {i['name']} items yields {len(r[0])}"
        for a in (0, 1):
            for size in (1, 2, 3):
                for seq in (items, tuple(items)):
                    r = env.collect(getattr(g, "a" * a + "resize")(
                        seq, size), a)
                    if not same(sum(map(list, r[0]), []), items) or r[1]:
                        return f"resize of {i['name']} items"
    elif case == "cycle":
        items = [object() for _ in range(i["n"])]
        for kind, make in sources(items):
            todo = [("acycle", 1)] + [("cycle", 0)] * (kind == "s")
            for name, a in todo:
                r = take(env, getattr(g, name)(make()), a, 3 * len(items) + 2)
                if items:
                    want = [items[k % len(items)] for k in range(len(r))]
                    if len(r) != 3 * len(items) + 2 or r != want:
                        return f"{name} yields {r}"
                elif r != ["END"]:
                    return f"{name} of nothing yields {r}"
    elif case == "many":
        cols = [[(j, k) for k in range(n)] for j, n in enumerate(i["lens"])]
        kinds = [list(sources(col)) for col in cols]
        for mix in range(8):
            pick = [ks[(mix * 3 + j * 2) % len(ks)]
                    for j, ks in enumerate(kinds)]
            want = [list(r) for r in zip(*cols)]
            r = take(env, g.azip(*(m() for _, m in pick)), 1, len(want) + 2)
            if [list(x) if x != "END" else x for x in r] != want + ["END"]:
                return f"azip yields {r}"
            r = env.collect(g.acollate(*(m() for _, m in pick)), 1)
            if r != (sum(cols, []), None):
                return f"acollate yields {r}"
            if all(k == "s" for k, _ in pick):
                r = env.collect(g.collate(*(m() for _, m in pick)), 0)
                if r != (sum(cols, []), None):
                    return f"collate yields {r}"
    elif case == "count":
        s = i["start"]
        for a in (0, 1):
            t = "a" * a
            r = take(env, getattr(g, t + "count")(start=s), a, 600)
            if r != list(range(s, s + 600)):
                return f"{t}count from {s}"
            for size in (1, 2, 8, 16):
                for order in ("big", "little"):
                    want = []
                    for k in range(s, s + 5):
                        try:
                            want.append(k.to_bytes(size, order))
                        except OverflowError:
                            break
                    got = []
                    it = env.iterate(getattr(g, t + "bytes_count")(
                        start=s, size=size, byte_order=order), a)
                    for k in range(5):
                        try:
                            got.append(env.step(it, a))
                        except OverflowError:
                            break
                    if got != want:
                        return f"{t}bytes_count from {s}: {got}"
        for a in (0, 1):
            t = "a" * a
            r = take(env, getattr(g, t + "count")(), a, 5)
            if r != list(range(5)):
                return "count without start"
            r = take(env, getattr(g, t + "bytes_count")(), a, 3)
            if r != [k.to_bytes(8, "big") for k in range(3)]:
                return "bytes_count without arguments"
    elif case == "range":
        want = list(range(*i["a"]))
        r = env.collect(g.arange(*i["a"]), 1)
        if r != (want, None):
            return f"arange yields {r}"
        if any(x < 0 for x in want):
            return None
        for a in (0, 1):
            for kw in ({}, dict(size=3), dict(size=9, byte_order="little")):
                w = [x.to_bytes(kw.get("size", 8),
                                kw.get("byte_order", "big")) for x in want]
                r = env.collect(getattr(g, "a" * a + "bytes_range")(
                    *i["a"], **kw), a)
                if r != (w, None):
                    return f"bytes_range yields {r}"
