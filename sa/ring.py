"""Residue ring layer: redundant-limb integers are named by the ring value they represent.

A limb array (a type in LIMBS) that a crate function has written is summarised when the function
returns: E = sum(weight_i * cell_i) modulo the ring's prime, with every floor atom cancelling and every
limb of an operand eliminated through the definition of the operand's value.  What is left is a
polynomial over ring generators; the cells become fresh limb atoms whose weighted sum is that value.
"""
import random
import dom
from dom import *

P25519 = 2 ** 255 - 19
P1305 = 2 ** 130 - 5
L25519 = 2 ** 252 + 27742317777372353535851937790883648493
LIM = 12
DEG = 4


class Fail(Exception):
    pass


class Ring:
    def __init__(self, name, p, w, eager):
        self.name = name
        self.p = p
        self.w = w
        self.eager = eager
        self.n = len(w)


R25519 = Ring('GF(2^255-19)', P25519, [1 << ((51 * i + 1) // 2) for i in range(10)], True)
R1305 = Ring('GF(2^130-5)', P1305, [1 << (8 * i) for i in range(17)], False)


# ---------------------------------------------------------------- ring polynomials
class G:
    """generators; reset with the atom table"""
    key = []
    ids = {}
    is01 = []
    rps = {}
    rpl = []
    limb = {}      # atom id -> (rid, index)
    rid = []       # (ring, RP, cell polys)
    polyrp = {}

    @classmethod
    def reset(c):
        c.key, c.ids, c.is01, c.rps, c.rpl, c.limb, c.rid, c.polyrp = [], {}, [], {}, [], {}, [], {}


def gen(key, is01=False):
    i = G.ids.get(key)
    if i is None:
        i = G.ids[key] = len(G.key)
        G.key.append(key)
        G.is01.append(is01)
    return i


class RP:
    __slots__ = ('d', 'id', 'r', 'b')

    def __repr__(self):
        return 'RP(%d terms)' % len(self.d)


def mk(r, d):
    k = (r.p, frozenset(d.items()))
    x = G.rps.get(k)
    if x is None:
        x = RP()
        x.d = d
        x.r = r
        x.id = len(G.rpl)
        x.b = any(G.is01[g] for m in d for g, _ in m)
        G.rpl.append(x)
        G.rps[k] = x
    return x


def const(r, c):
    c %= r.p
    return mk(r, {(): c} if c else {})


def rgen(r, key, is01=False):
    return mk(r, {((gen(key, is01), 1),): 1})


def mm(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        if G.is01[g]:
            d[g] = 1
        else:
            d[g] = d.get(g, 0) + e
    return tuple(sorted(d.items()))


def radd(a, b, k=1):
    p = a.r.p
    d = dict(a.d)
    for m, c in b.d.items():
        n = (d.get(m, 0) + k * c) % p
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return mk(a.r, d)


def rmul(a, b):
    p = a.r.p
    if len(a.d) * len(b.d) > 200000:
        raise Fail('ring polynomial too large')
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mm(m1, m2)
            n = (d.get(m, 0) + c1 * c2) % p
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    return mk(a.r, d)


def cutgen(a):
    """c * (generator that stands for the monic multiple of a)"""
    m = min(a.d)
    c = a.d[m]
    if len(a.d) == 1 and (not m or (len(m) == 1 and m[0][1] == 1 and not G.is01[m[0][0]])):
        return a
    if c != 1:
        i = pow(c, -1, a.r.p)
        a = mk(a.r, {k: v * i % a.r.p for k, v in a.d.items()})
    return mk(a.r, {((gen(('cut', a.id)), 1),): c})


def N(a):
    """a value that is a selection or has many terms is named; depends on the polynomial only"""
    if a.b or len(a.d) > LIM:
        return cutgen(a)
    return a


def deg(a):
    return max((sum(e for g, e in m if not G.is01[g]) for m in a.d), default=0)


def rmulc(a, b):
    """product; sums of a high degree are named first"""
    if not a.b and not b.b:
        if (len(a.d) > 1 or len(b.d) > 1) and a.d and b.d:
            da, db = deg(a), deg(b)
            if da and db and da + db > DEG:
                if len(a.d) > 1:
                    a = cutgen(a)
                if len(b.d) > 1:
                    b = cutgen(b)
    return rmul(a, b)


def rpow(a, e):
    if len(a.d) > 1:
        a = cutgen(a)
    if a.b:
        raise Fail('power of a bit')
    if not a.d:
        return a
    (m, c), = a.d.items()
    return mk(a.r, {tuple((g, x * e) for g, x in m): pow(c, e, a.r.p)})


def bitgen(r, b):
    """ring value of a bit given by its exclusive-or normal form; short ones in terms of their atoms"""
    if not b:
        return const(r, 0)
    if b == F1:
        return const(r, 1)
    if len(b) <= 4:
        x = None
        for mo in sorted(b):
            y = const(r, 1)
            for a in A.mono[mo]:
                k = A.key[a]
                z = bitgen(r, k[1]) if k[0] == 'e' else mk(r, {((gen(('b', a), True), 1),): 1})
                y = rmul(y, z)
            x = y if x is None else radd(radd(x, y), rmul(x, y), -2)
        return x
    return rgen(r, ('bit', b), True)


def addbit(r, d, b, i):
    for m, c in bitgen(r, b).d.items():
        d[m] = (d.get(m, 0) + (c << i)) % r.p


def atom_rp(r, a):
    """ring value of a non-limb atom"""
    k = A.key[a]
    if k[0] == 'I':
        d = {}
        for i, b in enumerate(k[1]):
            if not b:
                continue
            addbit(r, d, b, i)
        return mk(r, {m: c for m, c in d.items() if c})
    if A.is01(a):
        if k[0] == 'e':
            return bitgen(r, k[1])
        return bitgen(r, anf_atom(a))
    if k[0] in ('in', 'rt', 'W'):
        return rgen(r, ('atom', a))
    raise Fail('%s atom in a ring value' % k[0])


def value(r, E):
    """ring value of an integer polynomial"""
    k = (r.p, E.pid)
    x = G.polyrp.get(k)
    if x is None:
        x = G.polyrp[k] = _value(r, E)
    return x


def _value(r, E):
    p = r.p
    for flatten in (0, 1):
        if flatten:
            E = flat(E)
        terms = {m: c % p for m, c in E.d.items() if c % p}
        if not any(A.key[a][0] == 'F' and not A.is01(a) for m in terms for a in m):
            break
    one = const(r, 1)
    lim = G.limb
    mixed = {}           # tuple of limb atoms -> RP
    atr = {}
    for m, c in terms.items():
        la = []
        v = None
        for a in m:
            if a in lim:
                if G.rid[lim[a][0]][0] is not r:
                    raise Fail('limb of another ring')
                la.append(a)
            else:
                x = atr.get(a)
                if x is None:
                    x = atr[a] = atom_rp(r, a)
                v = x if v is None else rmul(v, x)
        v = const(r, c) if v is None else rmul(v, const(r, c))
        la = tuple(la)
        o = mixed.get(la)
        mixed[la] = v if o is None else radd(o, v)
    rids = sorted({lim[a][0] for m in mixed for a in m}, reverse=True)
    for rid in rids:
        ring, X, atoms, _ = G.rid[rid]
        piv = next(j for j, a in enumerate(atoms) if a.__class__ is int)
        a0 = atoms[piv]
        wi = pow(r.w[piv], -1, p)
        while True:
            hit = [m for m in mixed if a0 in m]
            if not hit:
                break
            for m in hit:
                v = mixed.pop(m)
                if not v.d:
                    continue
                l = list(m)
                l.remove(a0)
                rest = tuple(l)
                v = rmul(v, const(r, wi))
                mix(mixed, rest, rmulc(v, X))
                for j, a in enumerate(atoms):
                    if j == piv:
                        continue
                    if a.__class__ is int:
                        mix(mixed, tuple(sorted(rest + (a,))), rmul(v, const(r, -r.w[j])))
                    elif a[1]:
                        mix(mixed, rest, rmul(v, const(r, -r.w[j] * a[1])))
        for m, v in mixed.items():
            if v.d and any(lim[a][0] == rid for a in m):
                raise Fail('not a function of the ring value')
    out = mixed.get((), const(r, 0))
    return out


def mix(d, k, v):
    o = d.get(k)
    d[k] = v if o is None else radd(o, v)


# ---------------------------------------------------------------- floors
_flat = {}


def flat(p):
    """nested floors composed: floor((A + floor(B/m))/n) = floor((A*m + B)/(m*n))"""
    x = A.pbits.get(('flat', p.pid))
    if x is None:
        x = _fl(p)
        A.pbits[('flat', p.pid)] = x
    return x


def _fl(p):
    out = {}
    ch = None
    for m, c in p.d.items():
        if len(m) == 1:
            x = flat_atom(m[0])
            if x is not None:
                ch = padd(ch if ch is not None else pconst(0), x, c)
                continue
        out[m] = out.get(m, 0) + c
    r = mkpoly({m: c for m, c in out.items() if c})
    return r if ch is None else padd(r, ch)


def flat_atom(a):
    k = A.key[a]
    if k[0] == 'F':
        return ffloor(k[1], k[2])
    if k[0] == 'b':
        x = ffloor(k[1], k[2])
        return padd(x, ffloor(k[1], k[2] + 1), -2)
    if k[0] == 'I':
        runs = []
        for i, b in enumerate(k[1]):
            if not b:
                continue
            if len(b) != 1:
                return None
            t = A.mono[next(iter(b))]
            q = A.key[t[0]] if len(t) == 1 else (None,)
            if q[0] != 'b':
                return None
            if runs and runs[-1][1] is q[1] and runs[-1][2] + i - runs[-1][0] == q[2] and runs[-1][3] == i:
                runs[-1][3] = i + 1
            else:
                runs.append([i, q[1], q[2], i + 1])
        x = pconst(0)
        for i, p, j, e in runs:
            x = padd(x, ffloor(p, j), 1 << i)
            x = padd(x, ffloor(p, j + e - i), -(1 << e))
        return x
    return None


def ffloor(p, k):
    q = flat(p)
    whole = {}
    while True:
        M = 1 << k
        rest = {}
        for m, c in q.d.items():
            a, b = divmod(c, M)
            if b > M // 2 and m != ():
                a, b = a + 1, b - M
            if len(m) == 1 and A.key[m[0]][0] == 'F' and b not in (0, 1):
                # keep multiples of unit floors together
                pass
            if a:
                whole[m] = whole.get(m, 0) + a
            if b:
                rest[m] = b
        if not rest or k == 0:
            return mkpoly({m: c for m, c in whole.items() if c})
        js = min((c & -c).bit_length() - 1 for c in rest.values())
        if js:
            js = min(js, k)
            q = mkpoly({m: c >> js for m, c in rest.items()})
            k -= js
            w2 = {}
            continue
        fa = [m for m, c in rest.items() if c == 1 and len(m) == 1 and A.key[m[0]][0] == 'F']
        if not fa:
            q = mkpoly(rest)
            i = A.get(('F', q, k), *frange(q, k))
            return padd(mkpoly({m: c for m, c in whole.items() if c}), patom(i))
        m = max(fa)
        f = A.key[m[0]]
        del rest[m]
        q = padd(pscale(mkpoly(rest), 1 << f[2]), f[1])
        k += f[2]


def frange(p, k):
    lo, hi = prange(p)
    return lo >> k, hi >> k


# ---------------------------------------------------------------- bounds of rational combinations
from fractions import Fraction as Q


def iv(d):
    lo = hi = Q(0)
    for m, c in d.items():
        l, h = prange(mkpoly({m: 1}))
        if c < 0:
            l, h = h, l
        lo += c * l
        hi += c * h
    return lo, hi


def bound(d, depth=40):
    """interval of a rational combination of monomials; a floor F(N, k) may be replaced by N/2^k - theta,
    0 <= theta < 1 (atoms tt), when that makes the interval narrower"""
    lo, hi = iv(d)
    slack_lo = slack_hi = Q(0)
    d = dict(d)
    tried = set()
    for _ in range(depth):
        c = [(abs(x) * (A.hi[m[0]] - A.lo[m[0]]), m) for m, x in d.items() if len(m) == 1 and m not in tried and A.key[m[0]][0] == 'F']
        if not c:
            break
        _, m = max(c)
        tried.add(m)
        k = A.key[m[0]]
        x = d[m]
        e = dict(d)
        del e[m]
        for mo, v in k[1].d.items():
            n = e.get(mo, 0) + x * v / Q(1 << k[2])
            if n:
                e[mo] = n
            else:
                e.pop(mo, None)
        sl, sh = slack_lo, slack_hi
        t = -x * (1 - Q(1, 1 << k[2]))
        if t < 0:
            sl += t
        else:
            sh += t
        l, h = iv(e)
        if h + sh - l - sl < hi - lo:
            d, lo, hi, slack_lo, slack_hi = e, l + sl, h + sh, sl, sh
            tried = set()
    return lo, hi


def lin(*parts):
    """rational combination sum(c * poly)"""
    d = {}
    for p, c in parts:
        c = Q(c)
        for m, v in p.d.items():
            n = d.get(m, 0) + c * v
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    return d


def fatoms(p):
    return [(m[0], c) for m, c in p.d.items() if len(m) == 1 and A.key[m[0]][0] == 'F']


def drop_top(Z, w):
    """Z = Z' - 2^w F(Z', w): returns Z' (equal to Z once 0 <= Z' < 2^w is known), or Z"""
    for a, c in fatoms(Z):
        if c == -(1 << w) and A.key[a][2] == w:
            Zp = padd(Z, patom(a), 1 << w)
            if A.key[a][1] is Zp:
                return Zp
    return Z


def residue(Z, n, w):
    """Z (w-bit unsigned, integer identity) is the canonical residue of X modulo n, where X is Z with its
    multiple of n removed.  Returns X, or raises Fail."""
    Zp = drop_top(Z, w)
    why = 'no quotient'
    # Z = Y mod 2^s with Y = X + (2^s - n)*q: equal to X - n*q once q = floor(X/n) is known
    for a, c in fatoms(Zp):
        k = A.key[a]
        if c == -(1 << k[2]) and 0 < (1 << k[2]) - n < n and k[1] is padd(Zp, patom(a), -c):
            for b, v in fatoms(k[1]):
                if v == (1 << k[2]) - n:
                    Zp = padd(k[1], patom(b), -(1 << k[2]))
                    break
            break
    qs = [(a, c // n) for a, c in fatoms(Zp) if c % n == 0 and c]
    if not qs:
        lo, hi = bound(lin((Zp, 1)))
        if lo >= 0 and hi < n:
            return Zp
        raise Fail('the value is not reduced')
    qs.sort()
    a, c = qs[-1]
    if c != -1:
        raise Fail('quotient coefficient')
    k = A.key[a]
    M, s = k[1], k[2]
    X = padd(Zp, patom(a), n)
    # quotient estimate: M/2^s versus X/n
    lo, hi = bound(lin((M, 1), (X, -Q(1 << s, n))))
    if lo >= 0 and hi < Q(1 << s, n):
        return canonical_numerator(X, n)
    # second form: X = Y + n*q1, M = Y + (whole part), quotient d = floor(Y / 2^s) in {-1, 0}
    D = padd(M, X, -1)
    f = [(b, v) for b, v in fatoms(D)]
    if len(D.d) == len(f) == 1:
        b, v = f[0]
        delta = n - (1 << s)
        if v == -delta and delta > 0:
            Y = padd(X, patom(b), -n)
            lo, hi = bound(lin((Y, 1)))
            # d = -1: Y + n in [lo + n, n); d = 0: Y in [0, 2^s)
            if lo >= -(1 << s) and lo >= -n and hi < (1 << s):
                return canonical_numerator(Y, n)
            why = 'partial remainder in [%.3f, %.3f) * 2^%d' % (lo / (1 << s), hi / (1 << s), s)
    else:
        why = 'quotient error in [%.3g, %.3g]' % (lo * n / (1 << s), hi * n / (1 << s))
    raise Fail('quotient estimate not exact: ' + why)


def canonical_numerator(X, n):
    """drop every floor whose coefficient is a multiple of n; the rest must be free of floors"""
    d = {}
    for m, c in X.d.items():
        if any(A.key[a][0] == 'F' and not A.is01(a) for a in m):
            if c % n:
                raise Fail('floor left in the residue')
            continue
        d[m] = c
    return mkpoly(d)


def has_limb(p, memo=None, depth=0):
    memo = {} if memo is None else memo
    if p.pid in memo:
        return memo[p.pid]
    memo[p.pid] = False
    r = False
    for m in p.d:
        for a in m:
            k = A.key[a]
            if a in G.limb or k[0] in ('F', 'b') and has_limb(k[1], memo) or k[0] == 'mb' and has_limb(k[2], memo):
                r = True
    memo[p.pid] = r
    return r


def threshold(a):
    """(Q, k, s) with atom a equal to floor(Q / 2^k) in {0, 1} (s = 1) or to one minus it (s = -1)"""
    x = flat_atom(a)
    if x is None:
        return None
    fs = fatoms(x)
    c0 = x.d.get((), 0)
    if len(fs) + (c0 != 0) != len(x.d):
        return None
    if len(fs) == 1 and fs[0][1] in (1, -1):
        k = A.key[fs[0][0]]
        lo, hi = bound(lin((k[1], 1)))
        M = 1 << k[2]
        s = fs[0][1]
        # value = c0 + s*floor; floor ranges over two adjacent integers with base f0
        f0 = (0 - c0) if s == 1 else (c0 - 1)
        if lo >= f0 * M and hi < (f0 + 2) * M:
            return padd(k[1], pconst(-f0 * M)), k[2], s
        return None
    if len(fs) == 2:
        (a1, c1), (a2, c2) = sorted(fs, key=lambda q: q[1], reverse=True)
        k1, k2 = A.key[a1], A.key[a2]
        if c1 == 1 and c2 == -2 and k2[2] == k1[2] + 1:
            M = 1 << k1[2]
            Q = k2[1]
            off = padd(k1[1], Q, -1)
            e = off.d.get((), 0)
            if len(off.d) > (e != 0) or e != -c0 * M:
                return None
            # bit k of Q, where Q/2^k spans at most two adjacent integers b, b+1
            lo, hi = bound(lin((Q, 1)))
            b = int(lo // M)
            if hi < (b + 2) * M:
                return padd(Q, pconst(-b * M)), k1[2], -1 if b & 1 else 1
    return None


def tag1305(z):
    """z = (canonical residue of X mod 2^130-5, plus S) mod 2^128: returns (X, S)"""
    Y = None
    W = 1 << 128
    for a, c in fatoms(z):
        k = A.key[a]
        if c == -W and k[2] == 128 and padd(z, patom(a), W) is k[1]:
            Y = k[1]
    if Y is None:
        raise Fail('not a value modulo 2^128')
    why = 'no final conditional subtraction'
    groups = {}
    for m, c in Y.d.items():
        t = threshold(m[0]) if len(m) == 1 else None
        if t is not None:
            Q, k, s = t
            # floor(Q / 2^k) is one exactly when H >= 2^130 - 5
            H = padd(Q, pconst(R1305.p - (1 << k)))
            groups.setdefault(H.pid, (H, []))[1].append((m[0], c, s))
    for H, ts in groups.values():
        S = Y
        g = 0
        for a, c, s in ts:
            S = padd(S, patom(a), -c)
            g += c * s
            if s == -1:
                S = padd(S, pconst(c))
        if (g - 5) % W:
            why = 'coefficient %d of the final subtraction' % ((g + W // 2) % W - W // 2)
            continue
        S = padd(S, H, -1)
        S = mkpoly({q: v % W for q, v in S.d.items() if v % W})
        lo, hi = bound(lin((H, 1)))
        if lo < 0 or hi >= 2 * R1305.p:
            why = 'accumulator in [%.3g, %.3g] before the final subtraction' % (lo, hi)
            continue
        if has_limb(S) or fatoms(S):
            why = 'final subtraction compares another value'
            continue
        return value(R1305, H), S
    raise Fail(why)


def tagbytes(D, X, S):
    """bytes of (residue of X + S) mod 2^128"""
    Z = S
    for i, b in enumerate(enc(D, X)):
        Z = padd(Z, D.poly(b), 1 << (8 * i))
    lo, hi = prange(Z)
    out = []

    def fl(j):
        return Z if j == 0 else patom(A.get(('F', Z, j), lo >> j, hi >> j))
    for i in range(16):
        out.append(D.mkP(it(8), padd(fl(8 * i), fl(8 * i + 8), -256), 0, 255, 0))
    return out


# ---------------------------------------------------------------- naming of limb arrays
RL = Ring('Z/L', L25519, [1 << (8 * i) for i in range(32)], False)
LIMBS = {('[i32; 10]',): R25519}


def new_rid(r, X, cells, vals):
    """fresh limb atoms for the cells; vals: the abstract cells (ints stay ints)"""
    rid = len(G.rid)
    atoms = []
    out = []
    for i, v in enumerate(vals):
        if v.__class__ is int:
            atoms.append(('c', v))
            out.append(v)
            continue
        a = A.get(('limb', rid, i), v.lo, v.hi)
        G.limb[a] = (rid, i)
        atoms.append(a)
        out.append(V(v.lo, v.hi, v.t, Sym('P', patom(a))))
    G.rid.append((r, X, atoms, cells))
    return tuple(out)


def named(vals):
    """rid if the cells are the limbs of one named value, in order"""
    rid = None
    k = 0
    for i, v in enumerate(vals):
        if v.__class__ is int:
            continue
        s = v.s
        if s is None or s.k != 'P' or len(s.p.d) != 1:
            return None
        (m, c), = s.p.d.items()
        if c != 1 or len(m) != 1:
            return None
        x = G.limb.get(m[0])
        if x is None or x[1] != i or (rid is not None and x[0] != rid):
            return None
        rid = x[0]
        k += 1
    if rid is None:
        return None
    at = G.rid[rid][2]
    for i, v in enumerate(vals):
        if v.__class__ is int and at[i] != ('c', v):
            return None
    return rid


def ring_of_cells(m, r, vals):
    """ring value of an array of abstract cells"""
    rid = named(vals)
    if rid is not None and G.rid[rid][0] is r:
        return G.rid[rid][1]
    E = pconst(0)
    for w, v in zip(r.w, vals):
        p = m.D.poly(v)
        if p is None:
            raise Fail('cell without a normal form')
        E = padd(E, p, w)
    return value(r, E)


class Hook:
    """generic hook of the interpreter: names limb arrays at function boundaries and canonical
    encodings at the return of encoders"""

    def __init__(self, P):
        self.P = P
        self.sig = {}
        self.fails = []
        self.counts = {}
        self.encs = []
        self.spans = {}
        self.nest = 0
        self.tabs = {}

    # --- types
    def limbs(self, t, path=(), ptr=True, seen=()):
        """paths (through pointers: '*') to limb arrays below type t"""
        T = self.P.types[t]
        r = RINGS.get(T['s'])
        if r is not None:
            return [(path, r)]
        if t in seen:
            return []
        seen = seen + (t,)
        k = T['k']
        out = []
        if k in ('ref', 'ptr') and ptr:
            if not T.get('mut') and k == 'ref' and '*' not in path and False:
                return []
            e = self.P.types[T['elem']]
            if e['k'] in ('slice', 'str', 'dyn'):
                return []
            out += self.limbs(T['elem'], path + ('*',), ptr, seen)
        elif k == 'adt' and T['adt'] == 'struct':
            for i, f in enumerate(T['v'][0]['f']):
                out += self.limbs(f, path + (i,), ptr, seen)
        elif k == 'adt' and T['adt'] == 'enum':
            for vi, v in enumerate(T['v']):
                for i, f in enumerate(v['f']):
                    out += self.limbs(f, path + (('e', vi), i), ptr, seen)
        elif k == 'tuple':
            for i, f in enumerate(T.get('f', [])):
                out += self.limbs(f, path + (i,), ptr, seen)
        elif k == 'array' and T['len'] <= 64:
            for i in range(T['len']):
                out += self.limbs(T['elem'], path + (i,), ptr, seen)
        return out

    def bytes_out(self, t):
        """type is &mut [u8] or &mut [u8; N]"""
        T = self.P.types[t]
        if T['k'] == 'ref' and T.get('mut'):
            e = self.P.types[T['elem']]
            if e['k'] in ('slice', 'array') and self.P.types[e['elem']]['s'] == 'u8':
                return e.get('len', -1)
        return None

    def signature(self, f):
        s = self.sig.get(f.id)
        if s is None:
            s = False
            if f.crate == 'crypto_pure' and f.blocks is not None and '{closure' not in f.name:
                ar = []
                bo = []
                for i in range(f.argc):
                    t = f.locals[1 + i]
                    l = self.limbs(t)
                    if l:
                        ar.append((i, l))
                    b = self.bytes_out(t)
                    if b is not None:
                        bo.append(i)
                rl = self.limbs(f.locals[0], ptr=False)
                T = self.P.types[f.locals[0]]
                rb = T['k'] == 'array' and self.P.types[T['elem']]['s'] == 'u8' and T['len'] >= 16
                if ar or bo or rl or rb:
                    s = (ar, bo, rl, rb)
            self.sig[f.id] = s
        return s

    # --- paths
    def get(self, m, v, path):
        """(setter, cells) of the limb array under v"""
        o = None
        pre = ()
        cur = v
        for c in path:
            if c == '*':
                if cur.__class__.__name__ != 'Ptr' or cur.o.__class__ is not int:
                    return None
                o, pre = cur.o, tuple(cur.p)
                if any(x.__class__ is not int for x in pre):
                    return None
                cur = m.load(o, pre)
            elif c.__class__ is tuple:
                if cur.__class__.__name__ != 'En':
                    return None
                cur = cur.alts.get(c[1])
                if cur is None:
                    return None
                pre = None if o is None else pre + (c,)
            else:
                if cur.__class__ is not tuple:
                    return None
                cur = cur[c]
                pre = pre if o is None else pre + (c,)
        return o, pre, cur

    def name_args(self, m, f, args, ar):
        for i, ls in ar:
            for path, r in ls:
                g = self.get(m, args[i], path)
                if g is None or g[0] is None or any(c.__class__ is tuple for c in g[1]):
                    continue
                n = self.name_cells(m, f, r, g[2])
                if n is not None:
                    m.store(g[0], g[1], n)

    def name_cells(self, m, f, r, cells):
        if cells.__class__ is not tuple or len(cells) != r.n:
            return None
        sym = False
        for v in cells:
            if v.__class__ is int:
                continue
            if v.__class__ is not V:
                return None
            sym = True
        if not sym or named(cells) is not None:
            return None
        D = m.D
        polys = [D.poly(v) for v in cells]
        if any(p is None for p in polys):
            return None
        if not r.eager and not any(complex_(p) for p in polys):
            return None
        E = pconst(0)
        for w, p in zip(r.w, polys):
            E = padd(E, p, w)
        try:
            X = N(value(r, E))
        except Fail as e:
            self.fails.append((f.name, f.span, str(e)))
            X = rgen(r, ('opaque', E.pid))
            self.spans[E.pid] = f.name
        self.counts[f.name] = self.counts.get(f.name, 0) + 1
        nc = []
        for v, p in zip(cells, polys):
            if v.__class__ is V and any(len(mo) > 1 for mo in p.d):
                lo, hi = mux_range(p)
                if lo > v.lo or hi < v.hi:
                    v = V(max(lo, v.lo), min(hi, v.hi), v.t, v.s)
                    if v.lo == v.hi:
                        v = v.lo
            nc.append(v)
        return new_rid(r, X, polys, nc)

    def name_val(self, m, f, v, ls):
        """returned value with limb arrays inside"""
        for path, r in ls:
            v = self.rebuild(m, f, v, path, r)
        return v

    def rebuild(self, m, f, v, path, r):
        if not path:
            n = self.name_cells(m, f, r, v)
            return v if n is None else n
        c = path[0]
        if c.__class__ is tuple:
            if v.__class__.__name__ != 'En' or c[1] not in v.alts or v.alts[c[1]] is None:
                return v
            alts = dict(v.alts)
            alts[c[1]] = self.rebuild(m, f, alts[c[1]], path[1:], r)
            return v.__class__(v.tag, alts)
        if v.__class__ is not tuple or c >= len(v):
            return v
        return v[:c] + (self.rebuild(m, f, v[c], path[1:], r),) + v[c + 1:]

    # --- finite-domain summaries
    def table(self, m, f, args, ar, rl):
        """one scalar argument with at most 33 values, everything else constant: summarise the limb
        arrays written, by constant propagation at every value"""
        if rl or self.nest:
            return False
        ks = [i for i, a in enumerate(args) if a.__class__ is V]
        if len(ks) != 1 or args[ks[0]].hi - args[ks[0]].lo > 32:
            return False
        T = self.P.types[f.locals[0]]
        if T['k'] != 'tuple' or T.get('f'):
            return False
        x = args[ks[0]]
        outs = []
        aix = {i for i, _ in ar}
        key = [f.id]
        for i, a in enumerate(args):
            if i in aix:
                for path, r in dict(ar)[i]:
                    g = self.get(m, a, path)
                    if g is None or g[0] is None or any(c.__class__ is tuple for c in g[1]):
                        return False
                    outs.append((g[0], g[1], r))
                key.append(None)
            elif a.__class__ is int:
                key.append(a)
            elif i != ks[0]:
                return False
        if not outs:
            return False
        key += [x.lo, x.hi, len(outs)]
        key = tuple(key)
        tab = self.tabs.get(key)
        if tab is None:
            tab = self.tabs[key] = self.tabulate(m, f, args, ks[0], x, outs) or False
        if tab is False:
            return False
        m.calls[f.name] = m.calls.get(f.name, 0) + 1
        px = m.D.poly(x)
        if px is None:
            return False
        for j, (o, pre, r) in enumerate(outs):
            rows = [t[j] for t in tab]
            vals = tuple(sum(c * w for c, w in zip(row, r.w)) % r.p for row in rows)
            X = tabgen(r, px, x.lo, vals)
            cells, polys = [], []
            for c in range(r.n):
                col = tuple(row[c] for row in rows)
                lo, hi = min(col), max(col)
                cells.append(lo if lo == hi else V(lo, hi, x.t, None))
                polys.append(patom(A.get(('tabv', px.pid, x.lo, col), lo, hi)))
            m.store(o, pre, new_rid(r, X, polys, cells))
        self.counts[f.name] = self.counts.get(f.name, 0) + 1
        return True

    def tabulate(self, m, f, args, k, x, outs):
        from mir import Unsupported
        rows = []
        save = dict(m.mem), m.path
        self.nest += 1
        try:
            for d in range(x.lo, x.hi + 1):
                m.mem, m.path = dict(save[0]), save[1]
                for o, pre, r in outs:
                    m.store(o, pre, (None,) * r.n)
                a = list(args)
                a[k] = d
                try:
                    q = m.run(f, a)
                except (Unsupported, Lost, TypeError, AttributeError):
                    return None
                if q is DIV():
                    return None
                row = []
                for o, pre, r in outs:
                    c = m.load(o, pre)
                    if any(v.__class__ is not int for v in c):
                        return None
                    row.append(tuple(c))
                rows.append(row)
        finally:
            self.nest -= 1
            m.mem, m.path = save
        return rows

    # --- encoders
    def encode(self, m, f, cells):
        """canonical residue written as bytes: returns the named bytes or None"""
        n = len(cells)
        if n < 16:
            return None
        if not any(v.__class__ is V and v.s is not None and v.s.k == 'P' and
                   any(A.key[a][0] == 'F' for mo in v.s.p.d for a in mo) for v in cells[:32]):
            return None
        D = m.D
        k = min(n, 32)
        if any(v is None or v.__class__ not in (int, V) for v in cells[:k]):
            return None
        Z = pconst(0)
        for i in range(k):
            p = D.poly(cells[i])
            if p is None:
                return None
            Z = padd(Z, p, 1 << (8 * i))
        z = flat(Z)
        rings = {G.rid[G.limb[a][0]][0] for mo in z.d for a in mo if a in G.limb}
        if len(rings) > 1:
            return None
        try:
            if not rings:
                if n == 16:
                    try:
                        X, S = tag1305(z)
                    except Fail:
                        return None
                    return tuple(tagbytes(D, X, S))
                if k < 32:
                    return None
                r = RL
            else:
                r = rings.pop()
                if r is R1305:
                    if n != 16:
                        return None
                    X, S = tag1305(z)
                    self.encs.append((f.name, r.name))
                    return tuple(tagbytes(D, X, S))
            X = value(r, residue(z, r.p, 256))
        except Fail as e:
            self.fails.append((f.name, f.span, 'encoding: %s' % e))
            return None
        self.encs.append((f.name, r.name))
        b = enc(D, X)
        return tuple(b) + tuple(cells[32:])

    def __call__(self, m, f, args):
        s = False if self.nest else self.signature(f)
        if not s:
            return NotImplemented
        ar, bo, rl, rb = s
        if ar and self.table(m, f, args, ar, rl):
            return ()
        if ar:
            self.name_args(m, f, args, ar)
        r = m.run(f, args)
        if r is DIV():
            return r
        if ar:
            self.name_args(m, f, args, ar)
        if rl:
            r = self.name_val(m, f, r, rl)
        for i in bo:
            p = args[i]
            if p.__class__.__name__ != 'Ptr' or p.o.__class__ is not int:
                continue
            pre = tuple(p.p)
            if any(x.__class__ is not int for x in pre):
                continue
            if p.m is None:
                c = m.load(p.o, pre)
                if c.__class__ is tuple:
                    e = self.encode(m, f, c)
                    if e is not None:
                        m.store(p.o, pre, e)
            elif p.m.__class__ is int and pre:
                base, off = pre[:-1], pre[-1]
                c = m.load(p.o, base)
                if c.__class__ is tuple and p.m >= 16:
                    e = self.encode(m, f, c[off:off + p.m])
                    if e is not None:
                        m.store(p.o, base, c[:off] + e + c[off + p.m:])
        if rb and r.__class__ is tuple:
            e = self.encode(m, f, r)
            if e is not None:
                r = e
        return r


def tabgen(r, px, lo, vals):
    """ring value selected by a small integer px in lo.. ; constant when all entries agree"""
    if len(set(vals)) == 1:
        return const(r, vals[0])
    return rgen(r, ('tab', px.pid, lo, vals))


def _ev_tabv(va, k):
    return k[3][va.poly(POLY(k[1])) - k[2]]


RINGS = {'[i32; 10]': R25519, '[u32; 17]': R1305}
_div = []


def DIV():
    if not _div:
        import interp
        _div.append(interp.DIV)
    return _div[0]


def mux_range(p, depth=4):
    """interval of a polynomial, by cases on the 0/1 atoms that multiply other atoms"""
    lo, hi = prange(p)
    if depth:
        sel = {a for m in p.d if len(m) > 1 for a in m if A.is01(a)}
        for s in sorted(sel):
            d0, d1 = {}, {}
            for m, c in p.d.items():
                if s in m:
                    n = tuple(a for a in m if a != s)
                    d1[n] = d1.get(n, 0) + c
                else:
                    d0[m] = d0.get(m, 0) + c
                    d1[m] = d1.get(m, 0) + c
            a = mux_range(mkpoly({m: c for m, c in d0.items() if c}), depth - 1)
            b = mux_range(mkpoly({m: c for m, c in d1.items() if c}), depth - 1)
            lo, hi = max(lo, min(a[0], b[0])), min(hi, max(a[1], b[1]))
            break
    return lo, hi


def complex_(p, depth=4):
    """a product of two non-bit atoms occurs in p or in one of its floors"""
    for m in p.d:
        if len([a for a in m if not A.is01(a)]) > 1:
            return True
        for a in m:
            if A.key[a][0] == 'F' and depth and complex_(A.key[a][1], depth - 1):
                return True
    return False


def enc(D, X):
    """bytes of the canonical residue of a ring value"""
    r = X.r
    nb = r.p.bit_length()
    if not X.d or (len(X.d) == 1 and () in X.d):
        c = X.d.get((), 0)
        return [(c >> (8 * i)) & 255 for i in range(32)]
    out = []
    for i in range(32):
        bs = tuple(anf_atom(A.get(('enc', X.id, 8 * i + j), 0, 1)) if 8 * i + j < nb else F0 for j in range(8))
        out.append(D.mkB(it(8), bs, 0))
    return out


# ---------------------------------------------------------------- evaluation (witnesses)
def ev_rp(va, X):
    k = ('rp', X.id)
    r = va.memo.get(k)
    if r is None:
        p = X.r.p
        r = 0
        for m, c in X.d.items():
            for g, e in m:
                x = ev_gen(va, g, X.r)
                c = c * (x if e == 1 else pow(x, e, p)) % p
            r += c
        r %= p
        va.memo[k] = r
    return r


def ev_gen(va, g, r):
    k = ('gen', g, r.p)
    x = va.memo.get(k)
    if x is None:
        q = G.key[g]
        if q[0] == 'cut':
            x = ev_rp(va, G.rpl[q[1]])
        elif q[0] == 'b':
            x = va.atom(q[1])
        elif q[0] == 'bit':
            x = va.bit(q[1])
        elif q[0] == 'atom':
            x = va.atom(q[1])
        elif q[0] == 'opaque':
            x = va.poly(POLY(q[1])) % r.p
        elif q[0] == 'tab':
            x = q[3][va.poly(POLY(q[1])) - q[2]] % r.p
        elif q[0] == 'uf':
            x = random.Random('%s %s' % (va.seed, q)).randrange(r.p)
        else:
            raise Lost('generator ' + q[0])
        va.memo[k] = x
    return x


def _ev_limb(va, k):
    p = G.rid[k[1]][3][k[2]]
    if p is None:
        raise Lost('limb')
    return va.poly(p)


def _ev_enc(va, k):
    return (ev_rp(va, G.rpl[k[1]]) >> k[2]) & 1


dom.EXT.update({'tabv': _ev_tabv, 'limb': _ev_limb, 'enc': _ev_enc})
