"""Term mode: whatever the algebraic normal forms do not keep becomes a hash-consed term
(operation applied to the normal forms of its operands), so that equal computations on equal
values stay equal.  Cheaper and coarser than the exact mode."""
import dom
from dom import A, Dom, V, Sym, Lost, IT, it, BOOL, F0, F1, patom, canon, cut, rng


class TDom(Dom):
    def __init__(self, maxterms=40, bitcap=24):
        super().__init__(True, True, maxterms)
        self.bitcap = bitcap

    def k(self, v):
        if v.__class__ is int:
            return v
        if v.s is None:
            v.s = Sym('P', patom(A.fresh(v.lo, v.hi, 'any')))
        return canon(v)

    def name(self, r, op, ty, ty2, *args):
        if r.__class__ is int or r.s is not None:
            return r
        if ty.w == 1:
            i = A.get(('op', op, 1, False, ty2.w, ty2.sg, tuple(self.k(a) for a in args)), 0, 1)
            return V(0, 1, r.t, Sym('B', None, 0, (dom.anf_atom(i),)), r.d)
        i = A.get(('op', op, ty.w, ty.sg, ty2.w, ty2.sg, tuple(self.k(a) for a in args)), r.lo, r.hi)
        return V(r.lo, r.hi, r.t, Sym('P', patom(i)), r.d)

    def mkB(self, ty, bits, t):
        c = self.bitcap
        if any(len(b) > c for b in bits):
            bits = tuple(cut(b) if len(b) > c else b for b in bits)
        return super().mkB(ty, bits, t)

    def arith(self, op, a, b, ty):
        r, x, y = super().arith(op, a, b, ty)
        return self.name(r, op, ty, ty, a, b), x, y

    def clip(self, op, a, b, ty):
        return self.name(super().clip(op, a, b, ty), op, ty, ty, a, b)

    def bitop(self, op, a, b, ty):
        return self.name(super().bitop(op, a, b, ty), op, ty, ty, a, b)

    def inv(self, a, ty):
        return self.name(super().inv(a, ty), 'inv', ty, ty, a)

    def shl(self, a, k, ty):
        return self.name(super().shl(a, k, ty), 'shl', ty, ty, a, k)

    def shr(self, a, k, ty):
        return self.name(super().shr(a, k, ty), 'shr', ty, ty, a, k)

    def rotl(self, a, k, ty):
        return self.name(super().rotl(a, k, ty), 'rotl', ty, ty, a, k)

    def divrem(self, op, a, b, ty):
        return self.name(super().divrem(op, a, b, ty), op.lower(), ty, ty, a, b)

    def cmp(self, op, a, b, ty):
        r = super().cmp(op, a, b, ty)
        if r.__class__ is V and r.s is None and op in ('Eq', 'Lt'):
            return self.name(r, 'c' + op, BOOL, ty, a, b)
        return r

    def cast(self, v, src, dst):
        return self.name(super().cast(v, src, dst), 'cast', dst, src, v)

    def join(self, a, b, ty=None, sel=None):
        r = super().join(a, b, ty, sel)
        if sel is None or r.__class__ is int or r.s is not None:
            return r
        w = max(r.hi.bit_length(), (-r.lo).bit_length()) + 1
        s = V(0, 1, 0, Sym('B', None, 0, (sel,)))
        return self.name(r, 'mux', it(w, True), it(w, True), s, a, b)
