"""
P09  canonical packing

encode     the generator emits counter width, count, then for EVERY item
           (any number of items) its length and content
decode     from ANY position, for any remaining count, one round reads back
           exactly one such record and moves past it
pack/unpack framing with the generators replaced by these two contracts
roundtrip  the whole real code, 0..3 items of every length
inject     two sequences with equal packing are equal, with equal settings
refusal    arbitrary bytes: a result, or the documented error
"""
import itertools

from vf import core, models
from vf.runner import Proof
from vf.streams import Step
from vf.unstar import SymSeq, unstar
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
ASSUMPTIONS = ["counter widths 1, 2, 4, 8 and 16 are proved one by one; "
               "items and block sizes within the counter's range"]
WIDTHS = (1, 2, 4, 8, 16)
M = "aiootp.generics.canon"


def encode(pkg, a, w):
    canon = pkg.generics.canon

    def fn(c):
        f, name = unstar(canon.aencode_items if a else canon.encode_items)
        n = c.int("count", 0, (1 << 8 * w) - 1)
        cap = min((1 << 8 * w) - 1, 1 << 48)
        item = c.bytes("item", hi=cap)
        before = c.bytes("before", hi=cap)
        some = c.bool("some item")
        if some:
            c.assume(n.e >= 2)
        g = Step(f(**{name: SymSeq(n, [before, item] if some else []),
                      "int_bytes": w}), a)
        out = []
        for _ in range(5):
            ok, v = g.next()
            if not ok:
                break
            out.append(v)
        c.prove(not ok and v is None, "ends normally", info=repr(v))
        want = [bytes([w]), core.int_to_bytes(n, w, "big")]
        for x in (before, item) if some else ():
            want.append(concat([core.int_to_bytes(L(x), w, "big"), x]))
        c.prove_bytes_eq(concat(out), concat(want),
                         "width, count, then length ++ content per item")
    return fn


def decode(pkg, a, w):
    canon = pkg.generics.canon

    def fn(c):
        cap = min((1 << 8 * w) - 1, 1 << 48)
        item = c.bytes("item", hi=cap)
        item2 = c.bytes("item2", hi=cap)
        pre = c.bytes("pre")
        rest = c.bytes("rest")
        data = concat([pre, core.int_to_bytes(L(item), w, "big"), item,
                       core.int_to_bytes(L(item2), w, "big"), item2, rest])
        bio = models.SymBytesIO(data)
        bio.seek(L(pre)) if hasattr(bio, "seek") else None
        bio._p = core.rope(pre).n
        n = c.int("left", 0)
        c.state["range_unroll"] = 3
        g = Step((canon.adecode_items if a else canon.decode_items)(
            bio.read, n, w), a)
        ok, v = g.next()
        if not ok:
            c.prove(v is None, "ends normally", info=repr(v))
            c.prove(n == 0, "ends only when the count is used up")
            c.prove(core.mkint(bio._p) == L(pre), "nothing consumed")
            return
        c.prove(n >= 1, "no more records than counted")
        c.prove_bytes_eq(v, item, "reads the item")
        end = L(pre) + w + L(item)
        c.prove(core.mkint(bio._p) == end, "moves past the record")
        ok, v = g.next()
        if ok:
            c.prove(n >= 2, "no more records than counted")
            c.prove_bytes_eq(v, item2, "reads the next item")
            c.prove(core.mkint(bio._p) == end + w + L(item2),
                    "moves past the next record")
            c.cover("two")
        else:
            c.prove(v is None, "ends normally", info=repr(v))
            c.prove(n == 1, "ends only when the count is used up")
    return fn


def short(pkg, a, w):
    """a record that runs past the end is refused"""
    canon = pkg.generics.canon

    def fn(c):
        data = c.bytes("data")
        size = c.int("declared", 0, (1 << 8 * w) - 1)
        head = core.int_to_bytes(size, w, "big")
        bio = models.SymBytesIO(concat([head, data]))
        g = Step((canon.adecode_items if a else canon.decode_items)(
            bio.read, 1, w), a)
        ok, v = g.next()
        if ok:
            c.prove(size <= L(data), "complete")
            c.prove_bytes_eq(v, data[:size], "exactly the declared bytes")
        else:
            c.prove(isinstance(v, error(pkg)), "documented error",
                    info=repr(v))
            c.prove(size > L(data), "refused only when truncated")
        c.cover("ok" if ok else "refused")
    return fn


def error(pkg):
    return pkg._exceptions.CanonicalEncodingError


def do(pkg, a, *items, **k):
    canon = pkg.generics.canon
    return attempt(canon.acanonical_pack if a else canon.canonical_pack,
                   *items, **k)


def undo(pkg, a, data):
    canon = pkg.generics.canon
    return attempt(canon.acanonical_unpack if a else canon.canonical_unpack,
                   data)


def roundtrip(pkg, a, b, w, n, bs):
    def fn(c):
        cap = min((1 << 8 * w) - 1, 1 << 40)
        items = [c.bytes(f"item{k}", hi=cap) for k in range(n)]
        pad = c.bytes("pad", 1)
        r = do(pkg, a, *items, blocksize=bs, pad=pad, int_bytes=w)
        if not r.ok:
            c.fail("packing succeeds", info=repr(r.exc))
            return
        x = r.value
        body = 1 + w + (n + 2) * w + w + 1
        for y in items:
            body = body + L(y)
        c.prove(L(x) >= body, "everything is included")
        c.prove(L(x) < body + bs, "no more padding than needed")
        c.prove(L(x) % bs == 0, "length is a multiple of the block size")
        u = undo(pkg, b, x)
        if not u.ok:
            c.fail("unpacking succeeds", info=repr(u.exc))
            return
        c.prove(len(u.value) == n, "number of items")
        for k, (y, z) in enumerate(zip(items, u.value)):
            c.prove_bytes_eq(z, y, f"item {k}")
        c.cover("end")
    return fn


def inject(pkg, w, n, m):
    def fn(c):
        cap = min((1 << 8 * w) - 1, 1 << 48)
        xs = [c.bytes(f"x{k}", hi=cap) for k in range(n)]
        ys = [c.bytes(f"y{k}", hi=cap) for k in range(m)]
        px, py = c.bytes("padx", 1), c.bytes("pady", 1)
        bx, by = c.int("bx", 1, cap), c.int("by", 1, cap)

        names = itertools.count()

        def padded(c, f, data, blocksize, *, pad=b"\x00"):
            # weaker than what ljust[..] proves: any amount of padding
            return concat([data, c.bytes(f"padding{next(names)}")])
        c.contracts[(M, "fullblock_ljust")] = padded
        x = do(pkg, 0, *xs, blocksize=bx, pad=px, int_bytes=w).get()
        y = do(pkg, 0, *ys, blocksize=by, pad=py, int_bytes=w).get()
        if core.bytes_eq(x, y):
            c.prove(n == m, "equal packing => same number of items")
            c.prove(bx == by, "equal packing => same block size")
            c.prove_bytes_eq(px, py, "equal packing => same pad")
            for k in range(min(n, m)):
                c.prove_bytes_eq(xs[k], ys[k],
                                 f"equal packing => same item {k}")
            c.cover("equal")
        else:
            c.prove(True, "different")
    return fn


def widths(pkg):
    def fn(c):
        for v, w in itertools.combinations(WIDTHS + (3, 32, 255), 2):
            x = do(pkg, 0, c.bytes("x", 3), int_bytes=v).get()
            y = do(pkg, 0, c.bytes("y", 3), int_bytes=w).get()
            c.prove(core.bnot(core.bytes_eq(x[:1], y[:1])),
                    "different widths => different packing")
    return fn


def refusal(pkg, a, w, n):
    """arbitrary content after a width of w and a count of n"""
    def fn(c):
        data = c.bytes("data")
        blob = concat([bytes([w]), n.to_bytes(w, "big"), data])
        r = undo(pkg, a, blob)
        if not r.ok:
            c.prove(isinstance(r.exc, error(pkg)), "documented error",
                    info=repr(r.exc))
            c.cover("refused")
            return
        c.prove(len(r.value) == max(n - 2, 0), "declared number of items")
        c.cover("accepted")
        # the accepted items are the records of the data, in order
        p = 0
        got = []
        for k in range(n):
            size = core.int_from_bytes(data[p:p + w], "big")
            got.append(data[p + w:p + w + size])
            p = p + w + size
        for k, (y, z) in enumerate(zip(got[2:], r.value)):
            c.prove_bytes_eq(z, y, f"record {k}")
        c.prove(p <= L(data), "accepted => every record is complete")
        bs = core.int_from_bytes(got[0], "big")
        c.prove(L(blob) % bs == 0, "accepted => multiple of the block size")
        c.prove(L(got[1]) == 1, "accepted => one pad byte")
        at = c.int("at", 0)
        if at >= p and at < L(data):
            x = data[at:at + 1]
            models.subset_facts(c, x)
            c.prove_bytes_eq(x, got[1][:1], "accepted => only padding follows")
    return fn


def ljust(pkg, a, bs):
    canon = pkg.generics.canon

    def fn(c):
        x = c.bytes("x", hi=1 << 40)
        pad = c.bytes("pad", 1)
        r = attempt(canon.afullblock_ljust if a else canon.fullblock_ljust,
                    x, bs, pad=pad)
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        y = r.value
        c.prove(L(y) % bs == 0, "whole blocks")
        c.prove(L(y) < L(x) + bs, "smallest")
        c.prove_bytes_eq(y[:L(x)], x, "starts with the data")
    return fn


def proofs(pkg):
    F = ["generics/canon.py"]
    for a in (0, 1):
        t = "a" * a
        for bs in (1, 2, 3, 32, 72, 104, 136, 144, 168, 255, 256, 4096):
            yield Proof(f"{t}ljust[{bs}]", ljust(pkg, a, bs), functions=F,
                        min_obligations=3)
        for w in WIDTHS:
            yield Proof(f"{t}encode[{w}]", encode(pkg, a, w), functions=F,
                        min_obligations=2)
            yield Proof(f"{t}decode[{w}]", decode(pkg, a, w), functions=F,
                        min_obligations=4)
            yield Proof(f"{t}short[{w}]", short(pkg, a, w), functions=F,
                        min_obligations=2)
            for n, bs in ((0, 1), (0, 168), (1, 1), (1, 32), (1, 72),
                          (1, 136), (1, 255), (2, 1), (2, 136), (3, 168)):
                yield Proof(f"{t}roundtrip[{w},{n},{bs}]",
                            roundtrip(pkg, a, (a + n) % 2, w, n, bs),
                            functions=F, min_obligations=4)
        for w, n in ((1, 0), (1, 1), (1, 2), (1, 3), (4, 2), (8, 3)):
            yield Proof(f"{t}refusal[{w},{n}]", refusal(pkg, a, w, n),
                        functions=F, min_obligations=1)
    for w in (1, 4, 8):
        for n, m in ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (2, 3)):
            yield Proof(f"inject[{w},{n},{m}]", inject(pkg, w, n, m),
                        functions=F, min_obligations=1)
    yield Proof("widths", widths(pkg), functions=F, min_obligations=5)
