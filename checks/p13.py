"""
P13  permutations

walk     from ANY iterate the loop computes the next one by one and the same
         map, goes on exactly outside the domain and is left at the first
         iterate inside it
undo     one step of the other direction undoes one step, from ANY point; so
         along a walk the other direction visits its points in reverse order
         and stops at the value the walk started from
chain    the XOR chains over the contract of the affine permutation, from any
         step counter and increment
"""
import z3

from vf import core, models, perm
from vf.runner import Proof
from vf.util import *  # noqa

LEVEL = "proof"
WORKERS = 4
BUDGET = 60
M = "aiootp._permutations.affine_permutation"
LOOPS = [(M, "AffinePermutation.permute"), (M, "AffinePermutation.invert")]
SIZES = [*range(1, 33), 48, 64, 128, 192, 256]
ASSUMPTIONS = [
    "termination of the cycle walk: the walked map is a bijection of the "
    "integers modulo the prime (proved), so a walk that starts at or below "
    "MAX returns there; the pigeonhole step itself is not machine-checked",
]


def need(cond, what):
    if not cond:
        raise core.Unsupported(f"loop invariant lost: {what}")


def cls(pkg, name):
    import sys
    for m in ("affine_permutation", "affine_xor_chain",
              "fast_affine_xor_chain"):
        t = getattr(sys.modules.get(f"aiootp._permutations.{m}"), name, None)
        if t is not None:
            return t
    raise core.Unsupported(f"no {name}")


def same(x, y):
    """syntactically the same number"""
    return z3.simplify(num(x)).eq(z3.simplify(num(y)))


class Walk:
    """
    The loop from ANY iterate x.  Its test stands before the step (the value
    at its head is the first iterate) or after it (the value at its head is
    the argument itself).
    """

    def __init__(self, start, x, MAX, P):
        self.start, self.x, self.MAX, self.P = start, x, MAX, P
        self.entry = self.late = None

    def head(self, c, vals):
        need(len(vals) == 1, "one loop variable")
        self.entry = vals[0]
        self.late = same(self.entry, self.start)
        return (self.x,)

    def back(self, c, vals):
        y = vals[0]
        c.prove(core.band(y >= 0, y < self.P), "stays below the prime")
        c.prove((y if self.late else self.x) > self.MAX,
                "goes on only outside the domain")
        if not self.late:
            # from the argument (any value) and from an equal iterate
            c.assume(num(self.x) == num(self.start))
            c.prove(y == self.entry, "every step applies the same map")
        c.cover("step")
        raise core.ProofStop


def affine(pkg, size, direction):
    A = cls(pkg, "AffinePermutation")

    def fn(c):
        p = A(key=c.bytes("key", 2 * size), config_id=size)
        MAX, P = p.config.MAX, p.config.PRIME
        c.prove(MAX == 256 ** size - 1, "domain of the declared size")
        c.prove(P > MAX, "prime above the domain")
        v = c.int("v", 0, P - 1)
        w = Walk(v, c.int("x", 0, P - 1), MAX, P)
        c.cuts[repr((M, f"AffinePermutation.{direction}", 0))] = w
        r = attempt(getattr(p, direction), v)
        if not r.ok:
            c.fail("returns", info=repr(r.exc))
            return
        need(w.entry is not None, "loop reached")
        c.prove(core.band(w.entry >= 0, w.entry < P), "stays below the prime")
        if not w.late:
            c.prove(r.value == w.x, "result is the last iterate")
        c.prove(core.band(r.value >= 0, r.value <= MAX),
                "stops inside the domain")
        c.cover("exit")
    return fn


def one_step(c, p, name, x):
    """the first iterate `name` computes from x"""
    got = []

    class First:
        def head(self, c, vals):
            need(len(vals) == 1, "one loop variable")
            if same(vals[0], x):
                return vals
            got.append(vals[0])
            raise core.ProofStop

        def back(self, c, vals):
            got.append(vals[0])
            raise core.ProofStop
    c.cuts[repr((M, f"AffinePermutation.{name}", 0))] = first = First()
    try:
        r = getattr(p, name)(x)
    except core.ProofStop:
        need(got, "loop reached")
        r = got[0]
    c.cuts.clear()
    return r


def undo_any(pkg, size, direction):
    """one step of the other direction undoes one step, from any point"""
    A = cls(pkg, "AffinePermutation")
    other = "invert" if direction == "permute" else "permute"

    def fn(c):
        p = A(key=c.bytes("key", 2 * size), config_id=size)
        s = c.int("s", 0, p.config.PRIME - 1)
        t = one_step(c, p, direction, s)
        c.prove(one_step(c, p, other, t) == s,
                "one step of the other direction undoes one step")
    return fn


def keys(pkg, name, size):
    T = cls(pkg, name)

    def fn(c):
        key = c.bytes("key", hi=1 << 20)
        r = attempt(T, key=key, config_id=size)
        n = T.key_size(size)
        if r.ok:
            c.prove(L(key) == n, "accepted => right size")
            c.cover("accepted")
        else:
            c.prove(isinstance(r.exc, ValueError), "value error",
                    info=repr(r.exc))
            c.prove(core.bnot(L(key) == n), "refused => wrong size")
            c.cover("refused")
    return fn


def chain(pkg, name, size, capped, a):
    T = cls(pkg, name)
    pre = "" if capped else "uncapped_"

    def fn(c):
        perm.install(c)
        p = T(key=c.bytes("key", T.key_size(size)), config_id=size)
        D = 256 ** size
        c.prove(p.config.DOMAIN == D, "domain of the declared size")
        for n in ("_in_key", "_in_mid_key", "_out_mid_key", "_out_key"):
            x = getattr(p, n)
            c.prove(core.band(x >= 0, x < D), f"{n} in the domain")
        for n in ("_in_key", "_increment"):
            object.__setattr__(p, n, c.int(n, 0, D - 1, bits=8 * size))
        v = c.int("v", 0, D - 1, bits=8 * size)
        f, g = (getattr(p, "a" * a + pre + n) for n in ("permute", "invert"))
        sf = getattr(p, pre + "permute")
        for x, y in ((f, g), (g, f)):
            r = attempt(x, v)
            if not r.ok:
                c.fail("returns", info=repr(r.exc))
                return
            w = r.value
            c.prove(core.band(w >= 0, w < D), "stays in the domain")
            q = attempt(y, w)
            if not q.ok:
                c.fail("inverse returns", info=repr(q.exc))
                return
            c.prove(q.value == v, "inverse returns the value")
        c.prove(attempt(sf, v).get() == attempt(f, v).get(),
                "async equals sync")
        c.prove(not c.events, "permutations called inside their domain",
                info=repr(c.events))
    return fn


def stepping(pkg, name, size, a):
    T = cls(pkg, name)

    def fn(c):
        perm.install(c)
        p = T(key=c.bytes("key", T.key_size(size)), config_id=size)
        D = 256 ** size
        need(0 <= p._increment < D, "increments in the domain")
        i, k = (c.int(n, 0, D - 1, bits=8 * size) for n in ("in_key", "inc"))
        object.__setattr__(p, "_in_key", i)
        object.__setattr__(p, "_increment", k)
        attempt(p.astep if a else p.step).get()
        x = p._in_key
        c.prove(core.band(x >= 0, x < D), "step stays in the domain")
        # any argument, accepted or refused, leaves the position in the domain
        if c.bool("proper"):
            u = c.int("u", 0, D - 1, bits=8 * size)
        else:
            u = c.int("u")
            c.assume(bexpr(core.bor(u < 0, u >= D)))
        attempt(p.aupdate_increment if a else p.update_increment, u)
        x, k = p._in_key, p._increment
        c.prove(core.band(x >= 0, x < D), "position still in the domain")
        need(c.entails(core.band(k >= 0, k < D)), "increments in the domain")
        attempt(p.astep if a else p.step).get()
        x = p._in_key
        c.prove(core.band(x >= 0, x < D), "next step stays in the domain")
    return fn


def proofs(pkg):
    F = ["_permutations/affine_permutation.py"]
    G = ["_permutations/affine_xor_chain.py",
         "_permutations/fast_affine_xor_chain.py"]
    for size in SIZES:
        for d in ("permute", "invert"):
            yield Proof(f"{d}[{size}]", affine(pkg, size, d), functions=F,
                        min_obligations=5)
            yield Proof(f"undo.{d}[{size}]", undo_any(pkg, size, d),
                        functions=F, min_obligations=1)
        yield Proof(f"key[{size}]", keys(pkg, "AffinePermutation", size),
                    functions=F, min_obligations=2)
    for name in ("AffineXORChain", "FastAffineXORChain"):
        for size in SIZES:
            for a in (0, 1):
                for capped in (0, 1):
                    yield Proof(f"{name}[{size},{capped},{a}]",
                                chain(pkg, name, size, capped, a),
                                functions=G, min_obligations=9)
                yield Proof(f"{name}.step[{size},{a}]",
                            stepping(pkg, name, size, a), functions=G,
                            min_obligations=3)
            yield Proof(f"{name}.key[{size}]", keys(pkg, name, size),
                        functions=G, min_obligations=2)
