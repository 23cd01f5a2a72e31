"""
Self-test of the verification-condition generator (run by setup.sh).

1. must-hold / must-fail bodies: for each small function there is a right and
   at least one wrong body; the generator has to discharge the first and has
   to refute the second.  Each wrong body is wrong for one input class only.
2. CPython cross-check: random programs over the rope operations are executed
   on symbolic strings that are pinned to concrete contents and compared with
   the interpreter's own results.
"""
import ast
import random
import sys

import z3

from . import core, loader, models
from .core import concat, rope, rope_slice, int_from_bytes, int_to_bytes
from .util import *  # noqa

SRC = '''
def pad(x, n):
    return x + b"\\x00" * (-len(x) % n)
def pad_bad(x, n):
    return x + b"\\x00" * (n - len(x) % n)
def pack(a, b):
    return len(a).to_bytes(8, "big") + a + b
def unpack(x):
    n = int.from_bytes(x[:8], "big")
    return x[8:8 + n], x[8 + n:]
def unpack_bad(x):
    n = int.from_bytes(x[:8], "big")
    return x[8:8 + n], x[9 + n:]
def unpack_bad2(x):
    n = int.from_bytes(x[:8], "big") & 0xffff
    return x[8:8 + n], x[8 + n:]
def sign(v):
    if v > 5:
        return 1
    if v < 5:
        return -1
    return 0
def sign_bad(v):
    if v > 5:
        return 1
    if v < 4:
        return -1
    return 0
def xor(a, b):
    n = len(a)
    return (int.from_bytes(a, "big") ^ int.from_bytes(b, "big")).to_bytes(n, "big")
def tag(h, k, m):
    x = h(len(k).to_bytes(8, "big") + k)
    x.update(m)
    return x.digest(32)
def tag_bad(h, k, m):
    x = h(k)
    x.update(m)
    return x.digest(32)
def total(n):
    i = 0
    s = 0
    while i < n:
        s += 2
        i += 1
    return s
def total_bad(n):
    i = 0
    s = 0
    while i < n:
        s += 2 if i != 7 else 3
        i += 1
    return s
'''


class Inv:
    def head(self, c, v):
        i, s = v
        c.prove(s == 2 * i, "entry")
        i2 = c.int(c._fresh("i"), 0)
        c.assume(i2.e <= c.inputs["n"].e)
        return i2, i2 * 2

    def back(self, c, v):
        i, s = v
        c.prove(s == 2 * i, "kept")
        raise core.ProofStop


def compiled():
    tree = ast.parse(SRC)
    loader.LOOP_SPECS.add(("selftest", "total"))
    loader.LOOP_SPECS.add(("selftest", "total_bad"))
    tree = loader.Rewrite("selftest").visit(tree)
    ast.fix_missing_locations(tree)
    g = dict(__vf_call__=models.call, __vf_getitem__=models.getitem, __vf_in__=models.contains,
             __vf_slice__=slice, __vf_loop_head__=loader.loop_head,
             __vf_loop_back__=loader.loop_back, __vf_pack__=loader.pack)
    exec(compile(tree, "selftest", "exec"), g)
    return g


def bodies(g):
    def pad(f):
        def p(c):
            x = c.bytes("x")
            r = g[f](x, 16)
            c.prove(L(r) % 16 == 0, "multiple")
            c.prove(L(r) < L(x) + 16, "smallest")
            c.prove_bytes_eq(r[:L(x)], x, "prefix")
        return p

    def pk(f):
        def p(c):
            a, b = c.bytes("a"), c.bytes("b")
            x, y = g[f](g["pack"](a, b))
            c.prove_bytes_eq(x, a, "first")
            c.prove_bytes_eq(y, b, "second")
        return p

    def sg(f):
        def p(c):
            v = c.int("v")
            r = g[f](v)
            c.prove(implies(v == 4, r == -1) if False else core.mkbool(
                z3.And(z3.Implies(v.e < 5, bexpr(r == -1)),
                       z3.Implies(v.e == 5, bexpr(r == 0)))), "sign")
        return p

    def xr(c):
        a, b = c.bytes("a", 16), c.bytes("b", 16)
        c.prove_bytes_eq(g["xor"](g["xor"](a, b), b), a, "involution")

    def xr_bad(c):
        a, b, d = c.bytes("a", 16), c.bytes("b", 16), c.bytes("d", 16)
        c.prove_bytes_eq(g["xor"](g["xor"](a, b), d), a, "involution")

    def tg(f):
        def p(c):
            import hashlib
            h = models.MODELS[hashlib.shake_256]
            k, m, k2, m2 = (c.bytes(x, hi=1 << 20) for x in
                            ("k", "m", "k2", "m2"))
            if g[f](h, k, m) == g[f](h, k2, m2):
                c.prove_bytes_eq(k, k2, "key bound")
                c.prove_bytes_eq(m, m2, "message bound")
        return p

    def tot(f):
        def p(c):
            c.cuts[repr(("selftest", f, 0))] = Inv()
            n = c.int("n", 0)
            c.prove(g[f](n) == 2 * n, "sum")
        return p

    yield "pad", pad("pad"), True
    yield "pad_bad", pad("pad_bad"), False
    yield "unpack", pk("unpack"), True
    yield "unpack_bad", pk("unpack_bad"), False
    yield "unpack_bad2", pk("unpack_bad2"), False
    yield "sign", sg("sign"), True
    yield "sign_bad", sg("sign_bad"), False
    yield "xor", xr, True
    yield "xor_bad", xr_bad, False
    yield "tag", tg("tag"), True
    yield "tag_bad", tg("tag_bad"), False
    yield "total", tot("total"), True
    yield "total_bad", tot("total_bad"), False


def crosscheck(seed, rounds=150):
    rnd = random.Random(seed)
    bad = []

    def one(c):
        n = rnd.randrange(0, 12)
        raw = rnd.randbytes(n)
        fixed = rnd.random() < .5
        s = rope(c.bytes("s", n)) if fixed else c.bytes("s", lo=0, hi=64)
        if not fixed:
            c.assume(s.n == n)
        if n:
            c.assume(core.pieceval(s.segs[0][0], 0, n)
                     == int.from_bytes(raw, "big"))
        cur, ref = s, raw
        for _ in range(rnd.randrange(1, 6)):
            op = rnd.randrange(6)
            if op == 0:
                lo, hi = rnd.randrange(-8, 14), rnd.randrange(-8, 14)
                lo, hi = rnd.choice([lo, None]), rnd.choice([hi, None])
                cur = rope_slice(rope(cur), slice(lo, hi))
                ref = ref[lo:hi]
            elif op == 1:
                x = rnd.randbytes(rnd.randrange(4))
                cur, ref = concat([cur, x]), ref + x
            elif op == 2:
                x = rnd.randbytes(rnd.randrange(4))
                cur, ref = concat([x, cur]), x + ref
            elif op == 3:
                k = rnd.randrange(3)
                cur, ref = rope(cur) * k, ref * k
            elif op == 4:
                cur, ref = (rope(cur).ljust(10, b"z"), ref.ljust(10, b"z"))
            elif op == 5 and len(ref) and fixed:
                m = rnd.getrandbits(8 * len(ref))
                v = int_from_bytes(cur, "big") ^ m
                cur = int_to_bytes(v, len(ref), "big")
                ref = (int.from_bytes(ref, "big") ^ m).to_bytes(
                    len(ref), "big")
        c.prove(L(cur) == len(ref), "true: len")
        c.prove_bytes_eq(cur, ref, "true: eq")
        if c._check()[0] != z3.sat:
            raise core.Infeasible
        c.prove(core.bnot(core.bytes_eq(cur, ref)), "false: neq")
        c.prove(L(cur) == len(ref) + 1, "false: len")
        if len(ref):
            i = rnd.randrange(len(ref))
            wrong = ref[:i] + bytes([ref[i] ^ 1]) + ref[i + 1:]
            f = core.bytes_eq(cur, wrong)
            c.prove(f, "false: eq")

    done = 0
    for r in range(rounds):
        st = rnd.getstate()

        def fn(c, st=st):
            rnd.setstate(st)
            one(c)
        obs, meta = core.explore(fn, name=f"x{r}", max_paths=40)
        if meta["paths"] == meta["infeasible"]:
            bad.append((r, "no feasible path"))
        for o in obs:
            t = o["name"].startswith("true")
            if not t and o["status"] == "discharged" and (
                meta["paths"] - meta["infeasible"] == 1
            ):
                bad.append((r, o["name"]))
            if t and "len" in o["name"] and o["status"] == "refuted":
                bad.append((r, o["name"]))
            done += t and o["status"] == "discharged"
    return done, bad


def main():
    g = compiled()
    rc = 0
    for name, fn, good in bodies(g):
        obs, meta = core.explore(fn, name=name)
        st = {o["status"] for o in obs}
        if meta["unsupported"] or not obs:
            ok = False
        elif good:
            ok = st == {"discharged"}
        else:
            ok = "refuted" in st
        print(f"selftest {name}: {'ok' if ok else 'WRONG'} "
              f"({len(obs)} obligations, {sorted(st)})")
        if not ok:
            print(meta["unsupported"][:2])
            rc = 2
    done, bad = crosscheck(7)
    print(f"selftest rope algebra against CPython: {done} true facts proved, "
          f"{len(bad)} unsound {bad[:5]}")
    if bad or done < 200:
        rc = 2
    import cvc5
    print("z3", z3.get_version_string(), "cvc5", cvc5.__version__)
    return rc


if __name__ == "__main__":
    sys.exit(main())
