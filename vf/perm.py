"""
Contract of the keyed affine permutation, used by every caller instead of its
body.  The body is proved against the same contract in checks/p13.py.

  permute(v):  requires 0 <= v <= MAX,  ensures 0 <= r <= MAX, r = PERM(k, v)
  invert(v):   requires 0 <= v <= MAX,  ensures 0 <= r <= MAX, r = INV(k, v)
  lemma        INV(k, PERM(k, v)) = v   and   PERM(k, INV(k, v)) = v
"""
import z3

from . import core
from .core import SymInt, isz, num

MODULE = "aiootp._permutations.affine_permutation"


def _apply(c, self, v, name, other):
    size = self.config.SIZE
    key = self._additive_key
    if not core.is_sym(v) and not core.is_sym(key):
        return None
    ev, ek = num(v), num(key)
    zv = ev if isz(ev) else z3.IntVal(ev)
    zk = ek if isz(ek) else z3.IntVal(ek)
    bits = 8 * size
    if not (isinstance(v, SymInt) or True):
        pass
    vb = v.bits if type(v) is SymInt else (
        v.bit_length() if v >= 0 else None)
    if vb is None or vb > bits:
        if not c.entails(z3.And(zv >= 0, zv < (1 << bits))):
            # precondition of the contract not established by the caller:
            # the result is only known to be in range
            c.events.append(("perm-pre", name))
            r = c.fresh_int(name + ".any")
            c.assume(r >= 0)
            c.assume(r < (1 << bits))
            return SymInt(r, bits)
    table = c.state.setdefault("perm", {})
    hit = table.get((name, size, zv.get_id()))
    if hit is not None:
        for k2, res in hit:
            if k2.get_id() == zk.get_id() or c.entails(k2 == zk):
                return res
    # inverse rewriting: INV(k, PERM(k, v)) -> v
    back = table.get(("of", size, other, zv.get_id()))
    if back is not None:
        for k2, arg in back:
            if k2.get_id() == zk.get_id() or c.entails(k2 == zk):
                return arg
    r = c.fresh_int(name)
    c.keep.extend([zv, zk, r])
    c.assume(r >= 0)
    c.assume(r < (1 << bits))
    res = SymInt(r, bits)
    table.setdefault((name, size, zv.get_id()), []).append((zk, res))
    table.setdefault(("of", size, name, r.get_id()), []).append((zk, v))
    # functional + injective against earlier applications under this key
    for (k2, v2, r2) in c.state.setdefault(("apps", name, size), []):
        if k2.get_id() == zk.get_id():
            c.assume((v2 == zv) == (r2 == r))
    c.state[("apps", name, size)].append((zk, zv, r))
    return res


def permute(c, f, self, value):
    r = _apply(c, self, value, "PERM", "INV")
    return f(value) if r is None else r


def invert(c, f, self, value):
    r = _apply(c, self, value, "INV", "PERM")
    return f(value) if r is None else r


async def apermute(c, f, self, value):
    return permute(c, getattr(self, "permute"), self, value)


async def ainvert(c, f, self, value):
    return invert(c, getattr(self, "invert"), self, value)


def install(c):
    q = "AffinePermutation."
    c.contracts[(MODULE, q + "permute")] = permute
    c.contracts[(MODULE, q + "invert")] = invert
    c.contracts[(MODULE, q + "apermute")] = (
        lambda c, f, self, v: apermute(c, f, self, v))
    c.contracts[(MODULE, q + "ainvert")] = (
        lambda c, f, self, v: ainvert(c, f, self, v))
