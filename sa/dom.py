"""Abstract values for the MIR dataflow engine.

A scalar is either a Python int (a known constant) or a V: an interval [lo, hi], a taint
mask, and optionally a *value number* (sym) in one of three normal forms

  P  exact integer value, an interned integer polynomial over value atoms
  M  unsigned value congruent to a polynomial modulo 2**w  (wrapping sums)
  B  two's-complement bits, each an XOR of products of 0/1 atoms (GF(2) normal form)

Two values with the same normal form are equal on every input.  Nothing here is a
concrete run, and no path condition is ever handed to a solver: this is value numbering
with algebraic normal forms, i.e. a dataflow lattice {constant < normal form < interval}.
"""
import random


class Lost(Exception):
    """Raised when a construct is outside the domain and the caller asked to know."""


# ---------------------------------------------------------------- atoms
class Atoms:
    def __init__(self):
        self.reset()

    def reset(self):
        self.key = []
        self.lo = []
        self.hi = []
        self.ids = {}
        # monomials of GF(2) normal forms
        self.mono = [()]
        self.mono_id = {(): 0}
        self.mono_mul = {}
        # polynomials
        self.polys = {}
        self.plist = []
        self.fresh_n = 0
        self.bits_rev = {}   # bits tuple -> Sym that has exactly these bits
        self.pbits = {}      # poly pid -> list of bit ANFs computed lazily

    def get(self, key, lo, hi):
        i = self.ids.get(key)
        if i is None:
            i = len(self.key)
            self.ids[key] = i
            self.key.append(key)
            self.lo.append(lo)
            self.hi.append(hi)
        return i

    def is01(self, i):
        return self.lo[i] == 0 and self.hi[i] == 1

    def fresh(self, lo, hi, tag='x'):
        self.fresh_n += 1
        return self.get(('in', '%s#%d' % (tag, self.fresh_n)), lo, hi)

    def minterm(self, ids):
        t = tuple(ids)
        i = self.mono_id.get(t)
        if i is None:
            i = len(self.mono)
            self.mono_id[t] = i
            self.mono.append(t)
        return i


A = Atoms()

F0 = frozenset()
F1 = frozenset([0])
MAXANF = 200000


def anf_atom(i):
    return frozenset((A.minterm((i,)),))


def mono_mul(a, b):
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    k = (a, b) if a < b else (b, a)
    r = A.mono_mul.get(k)
    if r is None:
        r = A.minterm(sorted(set(A.mono[a]) | set(A.mono[b])))
        A.mono_mul[k] = r
    return r


CUT = 0            # forms longer than this are named before they are multiplied (0: never)


def cut(x):
    """a 0/1 atom standing for the form x"""
    return anf_atom(A.get(('cut', x), 0, 1))


def band(x, y):
    if not x or not y:
        return F0
    if x == F1:
        return y
    if y == F1 or x == y:
        return x
    if CUT:
        if len(x) > CUT:
            x = cut(x)
        if len(y) > CUT:
            y = cut(y)
    if len(x) * len(y) > MAXANF:
        raise Lost('GF(2) form too large')
    r = set()
    for a in x:
        for b in y:
            m = mono_mul(a, b)
            if m in r:
                r.remove(m)
            else:
                r.add(m)
    return frozenset(r)


def bor(x, y):
    if not x:
        return y
    if not y:
        return x
    if x == F1 or y == F1:
        return F1
    if len(x) > 1 and len(y) > 1 or opaque(x) or opaque(y):
        # keep disjunctions of compound forms as an order-independent set
        return F1 ^ anf_atom(A.get(('eqz', frozenset(orset(x) | orset(y))), 0, 1))
    return x ^ y ^ band(x, y)


def opaque(x):
    t = A.mono[max(x)]
    return len(t) == 1 and (len(x) == 1 and A.key[t[0]][0] == 'cut' or len(x) == 2 and 0 in x and A.key[t[0]][0] == 'eqz')


def orset(x):
    """the set of forms whose disjunction x is"""
    if len(x) == 2 and 0 in x:
        (m,) = [i for i in x if i]
        t = A.mono[m]
        if len(t) == 1 and A.key[t[0]][0] == 'eqz':
            return A.key[t[0]][1]
    return frozenset((x,))


def anf_vars(x):
    s = set()
    for m in x:
        s.update(A.mono[m])
    return s


def anf_sub(x, a, val):
    """Substitute atom a := val (0/1) in x."""
    r = set()
    for m in x:
        t = A.mono[m]
        if a in t:
            if not val:
                continue
            m = A.minterm(tuple(i for i in t if i != a))
        if m in r:
            r.remove(m)
        else:
            r.add(m)
    return frozenset(r)


# ---------------------------------------------------------------- polynomials
class Poly:
    """Interned integer polynomial: dict {monomial (sorted atom-id tuple): coef}."""
    __slots__ = ('d', 'pid')

    def __repr__(self):
        return poly_str(self)


def mkpoly(d):
    k = frozenset(d.items())
    p = A.polys.get(k)
    if p is None:
        p = Poly()
        p.d = d
        p.pid = len(A.plist)
        A.plist.append(p)
        A.polys[k] = p
    return p


def pconst(c):
    return mkpoly({(): c} if c else {})


def patom(i):
    return mkpoly({(i,): 1})


def padd(a, b, k=1):
    """a + k*b"""
    if not b.d or k == 0:
        return a
    d = dict(a.d)
    for m, c in b.d.items():
        n = d.get(m, 0) + k * c
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return mkpoly(d)


def pscale(a, k):
    if k == 0:
        return pconst(0)
    if k == 1:
        return a
    return mkpoly({m: c * k for m, c in a.d.items()})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    t = sorted(m1 + m2)
    # collapse powers of 0/1 atoms
    out = []
    for x in t:
        if out and out[-1] == x and A.is01(x):
            continue
        out.append(x)
    return tuple(out)


MAXPOLY = 60000


def pmul(a, b):
    if len(a.d) * len(b.d) > MAXPOLY * 10:
        raise Lost('polynomial too large')
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m = mmul(m1, m2)
            n = d.get(m, 0) + c1 * c2
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    return mkpoly(d)


def pmod(a, mod):
    d = {}
    for m, c in a.d.items():
        c %= mod
        if c:
            d[m] = c
    return mkpoly(d)


def prange(p):
    lo = hi = 0
    for m, c in p.d.items():
        l, h = 1, 1
        if len(m) == 2 and m[0] == m[1]:
            a, b = A.lo[m[0]], A.hi[m[0]]
            h = max(a * a, b * b)
            l = 0 if a <= 0 <= b else min(a * a, b * b)
        else:
            for x in m:
                xs = (l * A.lo[x], l * A.hi[x], h * A.lo[x], h * A.hi[x])
                l, h = min(xs), max(xs)
        if c >= 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def poly_str(p, n=6):
    out = []
    for m, c in list(p.d.items())[:n]:
        out.append(('%d' % c if c != 1 or not m else '') + ('*' if c != 1 and m else '') +
                   '*'.join(atom_str(i) for i in m))
    return ' + '.join(out) + (' + ...(%d terms)' % len(p.d) if len(p.d) > n else '') or '0'


def atom_str(i, depth=2):
    k = A.key[i]
    if k[0] == 'in':
        return str(k[1])
    return '%s@%d' % (k[0], i)


def single01(p):
    """poly is c*b + d with b one 0/1 atom -> (b, value at 0, value at 1)"""
    if len(p.d) > 2:
        return None
    b = None
    c0 = 0
    c1 = 0
    for m, c in p.d.items():
        if m == ():
            c0 = c
        elif len(m) == 1 and A.is01(m[0]):
            if b is not None:
                return None
            b = m[0]
            c1 = c
        else:
            return None
    if b is None:
        return None
    return b, c0, c0 + c1


def mux01(b, v0, v1):
    return mkpoly({k: v for k, v in (((), v0), ((b,), v1 - v0)) if v})


def pfloor(p, k, rng=None):
    """Normal form of floor(p / 2**k), as a polynomial (with floor atoms)."""
    if k == 0:
        return p
    if not p.d:
        return p
    s = single01(p)
    if s:
        return mux01(s[0], s[1] >> k, s[2] >> k)
    M = 1 << k
    whole = {}
    rest = {}
    for m, c in p.d.items():
        if c % M == 0:
            whole[m] = c // M
        else:
            rest[m] = c
    if not rest:
        return mkpoly(whole)
    # common power of two in the non-constant part, remainder bounded: F(2^j A + r, k)
    if rng is None or whole:
        rng = prange(mkpoly(rest))
    lo, hi = rng
    if lo >> k == hi >> k:
        q = lo >> k
        if q:
            whole[()] = whole.get((), 0) + q
            if not whole[()]:
                del whole[()]
        return mkpoly(whole)
    # try splitting off a low part with a known small range
    if len(rest) > 1:
        js = sorted({(c & -c).bit_length() - 1 for c in rest.values()})
        for j in js[1:]:
            if j >= k:
                break
            low = {m: c for m, c in rest.items() if c % (1 << j)}
            l, h = prange(mkpoly(low))
            if l >= 0 and h < (1 << j):
                high = {m: c >> j for m, c in rest.items() if c % (1 << j) == 0}
                r = pfloor(mkpoly(high), k - j)
                return padd(mkpoly(whole), r)
    js = min((c & -c).bit_length() - 1 for c in rest.values())
    if js:
        r = pfloor(mkpoly({m: c >> js for m, c in rest.items()}), k - js)
        return padd(mkpoly(whole), r)
    if len(rest) == 1:
        (m, c), = rest.items()
        if c == 1 and len(m) == 1:
            key = A.key[m[0]]
            if key[0] == 'F':
                a = floor_atom(key[1], key[2] + k)
                return padd(mkpoly(whole), a)
            if key[0] == 'I':
                bits = key[1][k:]
                return padd(mkpoly(whole), bits_poly(bits))
    a = floor_atom(mkpoly(rest), k, rng)
    return padd(mkpoly(whole), a)


def floor_atom(p, k, rng=None):
    if rng is None:
        rng = prange(p)
    lo, hi = rng[0] >> k, rng[1] >> k
    if lo == hi:
        return pconst(lo)
    i = A.get(('F', p, k), lo, hi)
    # intervals may be refined by better knowledge at another creation site
    if lo > A.lo[i]:
        A.lo[i] = lo
    if hi < A.hi[i]:
        A.hi[i] = hi
    return patom(i)


def bits_poly(bits):
    """Unsigned integer value of a little-endian bit vector, as a polynomial."""
    bits = tuple(bits)
    while bits and not bits[-1]:
        bits = bits[:-1]
    if not bits:
        return pconst(0)
    n = 0
    const = 0
    nz = []
    for i, b in enumerate(bits):
        if b == F1:
            const |= 1 << i
        elif b:
            nz.append(i)
    if not nz:
        return pconst(const)
    s = A.bits_rev.get(bits)
    if s is not None:
        return s
    if len(nz) <= 2:
        d = {}
        if const:
            d[()] = const
        for i in nz:
            m = (bit_atom(bits[i]),)
            d[m] = d.get(m, 0) + (1 << i)
        return mkpoly(d)
    # a vector that is exactly the bits of a known value, or a mux of two such
    p = unmux(bits)
    if p is not None:
        return p
    # strip low zero bits so that shifts of the same field stay related
    z = nz[0] if not const else min(nz[0], (const & -const).bit_length() - 1)
    if z:
        return pscale(bits_poly(bits[z:]), 1 << z)
    if const:
        cl = tuple(F0 if b == F1 else b for b in bits)
        return padd(bits_poly(cl), pconst(const))
    i = A.get(('I', bits), 0, (1 << len(bits)) - 1)
    return patom(i)


def disjoint_bits(p, w):
    """bits of a sum of disjoint power-of-two multiples of bit fields, or None"""
    c0 = p.d.get((), 0)
    if c0 < 0 or c0 >> w or len(p.d) > 80:
        return None
    used = c0
    parts = []
    for m, c in p.d.items():
        if m == ():
            continue
        if len(m) != 1 or c <= 0 or c & (c - 1):
            return None
        i = m[0]
        k = A.key[i]
        if k[0] == 'I':
            b = k[1]
        elif A.lo[i] == 0 and A.hi[i] == 1:
            b = (k[1],) if k[0] == 'e' else (anf_atom(i),)
        else:
            return None
        j = c.bit_length() - 1
        if j + len(b) > w:
            return None
        mask = 0
        for q, x in enumerate(b):
            if x:
                mask |= 1 << (j + q)
        if used & mask:
            return None
        used |= mask
        parts.append((j, b))
    if not parts:
        return None
    out = [F1 if (c0 >> i) & 1 else F0 for i in range(w)]
    for j, b in parts:
        for q, x in enumerate(b):
            if x:
                out[j + q] = x
    return out


def bit_atom(b):
    """0/1 integer atom equal to the GF(2) form b."""
    if len(b) == 1:
        m = A.mono[next(iter(b))]
        if len(m) == 1:
            return m[0]
    return A.get(('e', b), 0, 1)


def unmux(bits):
    """bits == s ? X : Y for known values X, Y and a selector atom s."""
    cnt = {}
    nb = 0
    for b in bits:
        if len(b) > 12:
            return None
        vs = set()
        for m in b:
            t = A.mono[m]
            if len(t) >= 2:
                vs.update(t)
        if vs:
            nb += 1
            for v in vs:
                cnt[v] = cnt.get(v, 0) + 1
    if nb < 3:
        return None
    for v, c in sorted(cnt.items(), key=lambda x: -x[1]):
        if c < nb:
            break
        b0 = tuple(anf_sub(b, v, 0) for b in bits)
        b1 = tuple(anf_sub(b, v, 1) for b in bits)
        p0 = known_bits(b0)
        if p0 is None:
            continue
        p1 = known_bits(b1)
        if p1 is None:
            continue
        return padd(p0, pmul(patom(v), padd(p1, p0, -1)))
    return None


def known_bits(bits):
    bits = tuple(bits)
    while bits and not bits[-1]:
        bits = bits[:-1]
    if not bits or all(b == F1 or not b for b in bits):
        return bits_poly(bits)
    s = A.bits_rev.get(bits)
    if s is not None:
        return s
    return unmux(bits)


def poly_bits(p, w, rng):
    """w two's-complement bits of the exact integer polynomial p with range rng."""
    if not p.d:
        return (F0,) * w
    if len(p.d) == 1 and () in p.d:
        c = p.d[()]
        return tuple(F1 if (c >> i) & 1 else F0 for i in range(w))
    s = single01(p)
    if s:
        b, v0, v1 = s
        out = []
        x = anf_atom(b)
        if A.key[b][0] == 'e':
            x = A.key[b][1]
        for i in range(w):
            a0, a1 = (v0 >> i) & 1, (v1 >> i) & 1
            out.append((F1 if a0 else F0) ^ (x if a0 != a1 else F0))
        return tuple(out)
    lo, hi = rng
    pr = prange(p)
    lo, hi = max(lo, pr[0]), min(hi, pr[1])
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and A.key[m[0]][0] == 'I':
            b = A.key[m[0]][1]
            return (b + (F0,) * w)[:w]
        if c > 1 and c & (c - 1) == 0:
            j = c.bit_length() - 1
            return (((F0,) * j) + poly_bits(mkpoly({m: 1}), max(w - j, 1), (lo >> j, hi >> j)))[:w]
    # disjoint split 2^j*A + r
    js = sorted({(c & -c).bit_length() - 1 for c in p.d.values()})
    if js[0] > 0:
        j = js[0]
        return (((F0,) * j) + poly_bits(mkpoly({m: c >> j for m, c in p.d.items()}), max(w - j, 1), (lo >> j, hi >> j)))[:w]
    for j in js[1:]:
        if j >= w:
            break
        low = mkpoly({m: c for m, c in p.d.items() if c % (1 << j)})
        l, h = prange(low)
        if l >= 0 and h < (1 << j):
            high = mkpoly({m: c >> j for m, c in p.d.items() if c % (1 << j) == 0})
            return (poly_bits(low, j, (l, h)) + poly_bits(high, w - j, (lo >> j, hi >> j)))[:w]
    if lo >= 0:
        n = max(hi.bit_length(), 1)
        sign = None
    else:
        n = max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0)
        sign = n
    # nonneg multi-01 sums stay opaque: bit i of the value
    out = []
    for i in range(min(n, w)):
        out.append(anf_atom(A.get(('b', p, i), 0, 1)))
    if sign is not None and n < w:
        sb = anf_atom(A.get(('b', p, n), 0, 1))
        out += [sb] * (w - n)
    else:
        out += [F0] * (w - len(out))
        t = tuple(out)
        while t and not t[-1]:
            t = t[:-1]
        if t and t not in A.bits_rev and n <= w:
            A.bits_rev[t] = p
    if sign is not None and n < w:
        # the signed vector: remember the exact value for the full width
        A.bits_rev.setdefault(('s', tuple(out)), p)
    return tuple(out)


# ---------------------------------------------------------------- syms
class Sym:
    __slots__ = ('k', 'p', 'w', 'b', '_h')

    def __init__(self, k, p=None, w=0, b=None):
        self.k = k
        self.p = p
        self.w = w
        self.b = b
        self._h = None

    def key(self):
        h = self._h
        if h is None:
            if self.k == 'B':
                h = ('B', self.b)
            elif self.k == 'O':
                h = ('O', self.p)
            else:
                h = (self.k, self.w if self.k == 'M' else 0, self.p.pid)
            self._h = h
        return h

    def __eq__(self, o):
        return self is o or (isinstance(o, Sym) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.k == 'B':
            return 'B(%d bits)' % len(self.b)
        if self.k == 'O':
            return 'O%r' % (self.p,)
        return '%s(%s)' % (self.k, poly_str(self.p))


class V:
    """Abstract scalar."""
    __slots__ = ('lo', 'hi', 't', 's', 'd')

    def __init__(self, lo, hi, t=0, s=None, d=None):
        self.lo = lo
        self.hi = hi
        self.t = t
        self.s = s
        self.d = d

    def __repr__(self):
        return 'V[%s,%s%s%s]' % (self.lo, self.hi, ' T%d' % self.t if self.t else '', ' ' + repr(self.s) if self.s else '')


def rng(v):
    if v.__class__ is int:
        return v, v
    return v.lo, v.hi


def taint(v):
    return 0 if v.__class__ is int else v.t


class IT:
    """integer type descriptor"""
    __slots__ = ('w', 'sg', 'lo', 'hi')

    def __init__(self, w, sg):
        self.w = w
        self.sg = sg
        self.lo = -(1 << (w - 1)) if sg else 0
        self.hi = (1 << (w - 1)) - 1 if sg else (1 << w) - 1

    def wrap(self, x):
        x &= (1 << self.w) - 1
        if self.sg and x >> (self.w - 1):
            x -= 1 << self.w
        return x


_it = {}


def it(w, sg=False):
    r = _it.get((w, sg))
    if r is None:
        r = _it[(w, sg)] = IT(w, sg)
    return r


BOOL = it(1)


class Dom:
    """Transfer functions.  exact=True keeps value numbers; exact=False keeps intervals,
    taint and only the small polynomials needed for the carry (remainder) rule."""

    def __init__(self, exact=True, bits=True, maxterms=4000):
        self.exact = exact
        self.bits = bits
        self.maxterms = maxterms
        self.facts = {}
        self.sides = None     # path factors of the two states being joined

    # ---- conversions
    def poly(self, v):
        """exact polynomial of v, or None"""
        if v.__class__ is int:
            return pconst(v)
        s = v.s
        if s is None:
            if self.exact:
                return None
            p = patom(A.fresh(v.lo, v.hi))
            v.s = Sym('P', p)
            return p
        if s.k == 'P':
            return s.p
        if s.k == 'B':
            if v.lo >= 0:
                return bits_poly(s.b)
            r = A.bits_rev.get(('s', s.b))
            if r is not None:
                return r
            p = self.unmux_signed(s.b)
            if p is not None:
                return p
            w = len(s.b)
            return padd(bits_poly(s.b[:-1]), pscale(bits_poly((s.b[-1],)), 1 << (w - 1)), -1)
        if s.k == 'M':
            return patom(A.get(('W', s.w, s.p), v.lo, v.hi))
        return None

    def unmux_signed(self, bits):
        cnt = {}
        nb = 0
        for b in bits:
            if len(b) > 12:
                return None
            vs = set()
            for m in b:
                t = A.mono[m]
                if len(t) >= 2:
                    vs.update(t)
            if vs:
                nb += 1
                for v in vs:
                    cnt[v] = cnt.get(v, 0) + 1
        if nb < 3:
            return None

        def kn(bs):
            if all(b == F1 or not b for b in bs):
                x = sum(1 << i for i, b in enumerate(bs) if b)
                if bs[-1]:
                    x -= 1 << len(bs)
                return pconst(x)
            r = A.bits_rev.get(('s', bs))
            if r is not None:
                return r
            if not bs[-1]:
                r = known_bits(bs)
                if r is not None:
                    return r
            return self.unmux_signed(bs)
        for v, c in sorted(cnt.items(), key=lambda x: -x[1]):
            if c < nb:
                break
            p0 = kn(tuple(anf_sub(b, v, 0) for b in bits))
            if p0 is None:
                continue
            p1 = kn(tuple(anf_sub(b, v, 1) for b in bits))
            if p1 is None:
                continue
            return padd(p0, pmul(patom(v), padd(p1, p0, -1)))
        return None

    def vbits(self, v, ty):
        """bits of v at type ty, or None"""
        if v.__class__ is int:
            return tuple(F1 if (v >> i) & 1 else F0 for i in range(ty.w))
        s = v.s
        if s is None or not self.bits:
            return None
        if s.k == 'B':
            b = s.b
            if len(b) < ty.w:
                ext = b[-1] if v.lo < 0 else F0
                b = b + (ext,) * (ty.w - len(b))
            return b[:ty.w]
        if s.k == 'P':
            return poly_bits(s.p, ty.w, (v.lo, v.hi))
        if s.k == 'M':
            key = ('Mb', s.w, s.p)
            out = tuple(anf_atom(A.get(('mb', s.w, s.p, i), 0, 1)) for i in range(s.w))
            if out not in A.bits_rev:
                A.bits_rev[out] = patom(A.get(('W', s.w, s.p), 0, (1 << s.w) - 1))
            return (out + (F0,) * ty.w)[:ty.w]
        return None

    # ---- constructors
    def mk(self, ty, lo, hi, t, s=None):
        if lo < ty.lo:
            lo = ty.lo
        if hi > ty.hi:
            hi = ty.hi
        if lo > hi:
            lo, hi = ty.lo, ty.hi
        if lo == hi:
            return lo
        return V(lo, hi, t, s)

    def mkP(self, ty, p, lo, hi, t):
        """exact polynomial value known to fit ty"""
        if not p.d:
            return 0
        if len(p.d) == 1 and () in p.d:
            return p.d[()]
        if len(p.d) > self.maxterms:
            return self.mk(ty, lo, hi, t, None)
        if self.facts:
            f = self.facts.get(p.pid)
            if f:
                lo, hi = max(lo, f[0]), min(hi, f[1])
        if len(p.d) <= 4 and self.exact:
            a, b = prange(p)
            lo, hi = max(lo, a), min(hi, b)
        if lo == hi:
            return lo
        if self.exact and self.bits:
            b = disjoint_bits(p, ty.w - 1 if ty.sg else ty.w)
            if b is not None:
                return self.mkB(ty, b + [F0] if ty.sg else b, t)
        if self.exact and len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1:
                k = A.key[m[0]]
                if k[0] == 'W' and k[1] == ty.w and not ty.sg:
                    return V(lo, hi, t, Sym('M', k[2], k[1]))
        return V(max(lo, ty.lo), min(hi, ty.hi), t, Sym('P', p))

    def mkM(self, ty, p, t):
        """value of unsigned type ty congruent to p mod 2^w"""
        if not self.exact:
            return V(ty.lo, ty.hi, t)
        p = pmod(p, 1 << ty.w)
        if not p.d:
            return 0
        if len(p.d) == 1 and () in p.d:
            return p.d[()]
        s = single01(p)
        if s:
            return self.mkB(ty, poly_bits(p, ty.w, (0, ty.hi)), t)
        if len(p.d) > self.maxterms:
            return V(ty.lo, ty.hi, t)
        # substitute W atoms of the same width: they are themselves sums mod 2^w
        d = None
        for m, c in p.d.items():
            if len(m) == 1:
                k = A.key[m[0]]
                if k[0] == 'W' and k[1] == ty.w:
                    if d is None:
                        d = p
                    d = padd(padd(d, patom(m[0]), -c), k[2], c)
        if d is not None:
            return self.mkM(ty, d, t)
        a, b = prange(p)
        if b <= ty.hi and a >= 0:
            return self.mkP(ty, p, a, b, t)
        return V(ty.lo, ty.hi, t, Sym('M', p, ty.w))

    def mkB(self, ty, bits, t):
        bits = tuple(bits[:ty.w])
        if all(b == F1 or not b for b in bits):
            x = sum(1 << i for i, b in enumerate(bits) if b)
            return ty.wrap(x)
        n = ty.w
        while n and not bits[n - 1]:
            n -= 1
        if ty.sg and bits[-1]:
            lo, hi = ty.lo, ty.hi
            top = bits[-1]
            j = ty.w - 1
            while j > 0 and bits[j - 1] == top:
                j -= 1
            lo, hi = -(1 << j), (1 << j) - 1
            if top == F1:
                hi = -1
            s = A.bits_rev.get(('s', bits))
            if s is not None:
                return V(lo, hi, t, Sym('P', s))
        else:
            hi = (1 << n) - 1
            lo = 0
            for i in range(n):
                if bits[i] == F1:
                    lo |= 1 << i
            s = A.bits_rev.get(bits[:n])
            if s is not None and len(s.d) > 1:
                a, b = prange(s)
                return self.mkP(ty, s, max(lo, a), min(hi, b), t)
            if s is not None:
                (m, c), = s.d.items()
                k = A.key[m[0]] if len(m) == 1 else (None,)
                if c == 1 and k[0] == 'W' and k[1] == ty.w:
                    return V(lo, hi, t, Sym('M', k[2], k[1]))
                if c == 1:
                    return self.mkP(ty, s, lo, hi, t)
        return V(lo, hi, t, Sym('B', None, 0, bits))

    def fresh(self, ty, name=None, t=0, lo=None, hi=None, bits=False):
        """unknown input of type ty"""
        lo = ty.lo if lo is None else lo
        hi = ty.hi if hi is None else hi
        if not self.exact:
            return V(lo, hi, t)
        if bits:
            b = tuple(anf_atom(A.get(('in', '%s.%d' % (name, i)), 0, 1)) for i in range(ty.w))
            return self.mkB(ty, b, t)
        return V(lo, hi, t, Sym('P', patom(A.get(('in', name), lo, hi))))

    def top(self, ty, t):
        return V(ty.lo, ty.hi, t)

    # ---- arithmetic: returns (exact lo, hi, poly or None)
    def _arith(self, op, a, b):
        al, ah = rng(a)
        bl, bh = rng(b)
        if op == 'Add':
            lo, hi = al + bl, ah + bh
        elif op == 'Sub':
            lo, hi = al - bh, ah - bl
        else:
            xs = (al * bl, al * bh, ah * bl, ah * bh)
            lo, hi = min(xs), max(xs)
            if a is b and a.__class__ is not int:
                lo = max(lo, 0)
        p = None
        if self.exact or op != 'Mul':
            pa = self.poly(a)
            pb = self.poly(b)
            if pa is not None and pb is not None:
                try:
                    p = padd(pa, pb) if op == 'Add' else padd(pa, pb, -1) if op == 'Sub' else pmul(pa, pb)
                except Lost:
                    p = None
                if p is not None and op == 'Sub' and len(pb.d) <= 4:
                    r = self._rem_rule(p)
                    if r:
                        lo, hi = max(lo, r[0]), min(hi, r[1])
                elif p is not None and op == 'Add':
                    if self.exact and len(p.d) <= 4:
                        l, h = prange(p)
                        lo, hi = max(lo, l), min(hi, h)
                if p is not None and not self.exact and len(p.d) - (() in p.d) > 19:
                    # re-atomise, keeping the constant apart so that x and x + c stay related
                    c = p.d.get((), 0)
                    q = padd(p, pconst(-c)) if c else p
                    l, h = prange(q)
                    i = A.get(('R', q, lo - c, hi - c), max(l, lo - c), min(h, hi - c))
                    p = padd(patom(i), pconst(c))
        else:
            # light multiplication by a constant keeps the polynomial (for shl via *)
            if a.__class__ is int or b.__class__ is int:
                c, x = (a, b) if a.__class__ is int else (b, a)
                if x.__class__ is not int and x.s is not None and x.s.k == 'P':
                    p = pscale(x.s.p, c)
        return lo, hi, p

    def _rem_rule(self, p):
        """p = 2^j (q - 2^k floor(q/2^k)) + rest  lies in  [0, 2^(j+k) - 2^j] + range(rest)"""
        best = None
        for m, c in p.d.items():
            if c >= 0 or len(m) != 1:
                continue
            c = -c
            if c & (c - 1):
                continue
            key = A.key[m[0]]
            if key[0] != 'F' or (1 << key[2]) > c:
                continue
            q, k = key[1], key[2]
            j = c.bit_length() - 1 - k
            rest = padd(padd(p, patom(m[0]), c), q, -(1 << j))
            if len(rest.d) > 8 or any(len(x) > 1 for x in rest.d):
                continue
            l, h = prange(rest)
            l, h = l, h + c - (1 << j)
            if best is None or h - l < best[1] - best[0]:
                best = (l, h)
        return best

    def arith(self, op, a, b, ty):
        """wrapping add/sub/mul at type ty; returns (value, may_overflow, must_overflow)"""
        if a.__class__ is int and b.__class__ is int:
            x = a + b if op == 'Add' else a - b if op == 'Sub' else a * b
            w = ty.wrap(x)
            o = w != x
            return w, o, o
        t = taint(a) | taint(b)
        if op == 'Mul' and (a == 0 and a.__class__ is int or b == 0 and b.__class__ is int):
            return 0, False, False
        lo, hi, p = self._arith(op, a, b)
        if lo >= ty.lo and hi <= ty.hi:
            if p is not None:
                return self.mkP(ty, p, lo, hi, t), False, False
            return self.mk(ty, lo, hi, t), False, False
        must = lo > ty.hi or hi < ty.lo
        if p is not None and not self.exact and op != 'Mul' and len(p.d) > 1 and not single01(p):
            for x, y in ((a, b), (b, a)):
                if x.__class__ is int and y.lo == 0 and y.hi == 1:
                    q = patom(A.get(('p01', self.poly(y)), 0, 1))
                    p = padd(pconst(x), q, -1 if op == 'Sub' and y is b else 1)
        if p is not None and self.exact and self.bits and op != 'Mul' and len(p.d) > 1 and not single01(p):
            for x, y in ((a, b), (b, a)):
                if x.__class__ is int and y.__class__ is V and y.lo == 0 and y.hi == 1:
                    bs = self.vbits(y, ty)
                    if bs is not None and len(bs[0]) == 1:
                        mo = A.mono[next(iter(bs[0]))]
                        if len(mo) == 1:
                            p = padd(pconst(x), patom(mo[0]), -1 if op == 'Sub' and y is b else 1)
        if p is not None:
            s = single01(p)
            if s:
                return self.mkP(ty, mux01(s[0], ty.wrap(s[1]), ty.wrap(s[2])), min(ty.wrap(s[1]), ty.wrap(s[2])),
                                max(ty.wrap(s[1]), ty.wrap(s[2])), t), True, must
        if p is not None and not ty.sg:
            if self.exact:
                return self.mkM(ty, self._mod_poly(op, a, b, p, ty), t), True, must
        return V(ty.lo, ty.hi, t), True, must

    def _mod_poly(self, op, a, b, p, ty):
        # use the congruence form of M operands rather than their opaque value atom
        def mp(v):
            if v.__class__ is not int and v.s is not None and v.s.k == 'M' and v.s.w == ty.w:
                return v.s.p
            return self.poly(v)
        pa, pb = mp(a), mp(b)
        if op == 'Add':
            return padd(pa, pb)
        if op == 'Sub':
            return padd(pa, pb, -1)
        return pmul(pa, pb)

    def clip(self, op, a, b, ty):
        """value of a op b given that it did not overflow ty"""
        lo, hi, p = self._arith(op, a, b)
        lo, hi = max(lo, ty.lo), min(hi, ty.hi)
        t = taint(a) | taint(b)
        if p is not None:
            return self.mkP(ty, p, lo, hi, t)
        return self.mk(ty, lo, hi, t)

    # ---- bitwise
    def bitop(self, op, a, b, ty):
        if a.__class__ is int and b.__class__ is int:
            return a & b if op == 'BitAnd' else a | b if op == 'BitOr' else a ^ b
        if not self.exact:
            r = self._light_select(op, a, b, ty)
            if r is not None:
                return r
        t = taint(a) | taint(b)
        if b.__class__ is not int and a.__class__ is int:
            a, b = b, a
        if b.__class__ is int:
            if op == 'BitAnd':
                if b == 0:
                    return 0
                if b == -1 or b == (1 << ty.w) - 1 and not ty.sg:
                    return a
                if b > 0 and b & (b + 1) == 0:
                    k = b.bit_length()
                    if a.lo >= 0 and a.hi <= b:
                        return a
                    if b == 1 and not self.exact:
                        return V(0, 1, t)
                    if a.s is None or a.s.k == 'P' or not self.exact:
                        p = self.poly(a)
                        if p is not None:
                            f = pfloor(p, k, (a.lo, a.hi))
                            return self.mkP(ty, padd(p, f, -(1 << k)), 0, b, t)
            elif b == 0:
                return a
        elif a is b or (a.s is not None and a.s == b.s and self.exact):
            return 0 if op == 'BitXor' else a
        if self.exact and self.bits:
            x = self.vbits(a, ty)
            y = self.vbits(b, ty)
            if x is not None and y is not None:
                try:
                    if op == 'BitAnd':
                        r = [band(i, j) for i, j in zip(x, y)]
                    elif op == 'BitXor':
                        r = [i ^ j for i, j in zip(x, y)]
                    else:
                        if all(not i or not j for i, j in zip(x, y)) and (a.s.k == 'P' or b.__class__ is int or b.s.k == 'P') :
                            # disjoint: or is addition
                            v, o, _ = self.arith('Add', a, b, ty)
                            if not o:
                                return v
                        r = [bor(i, j) for i, j in zip(x, y)]
                    return self.mkB(ty, r, t)
                except Lost:
                    pass
        return self._bitrange(op, a, b, ty, t)

    def _mask01(self, v, ty):
        """v is 0 or all-ones depending on one 0/1 atom"""
        if v.__class__ is int or v.s is None or v.s.k != 'P':
            return False
        s = single01(v.s.p)
        return bool(s) and {ty.wrap(s[1]), ty.wrap(s[2])} == {0, ty.wrap(-1)}

    def _light_select(self, op, a, b, ty):
        """the masked-select idiom: f ^ (mask & (f ^ g)) is one of f, g"""
        t = taint(a) | taint(b)
        if op == 'BitXor':
            for x, y in ((a, b), (b, a)):
                d = y.d if y.__class__ is V else None
                if d is not None and d[0] == 'mxor' and (x is d[1] or x is d[2] or (x.__class__ is int and x in d[1:] and True)):
                    l1, h1 = rng(d[1])
                    l2, h2 = rng(d[2])
                    lo, hi = min(l1, l2), max(h1, h2)
                    return lo if lo == hi else V(lo, hi, t)
            r = self._bitrange(op, a, b, ty, t) if a is not b else 0
            if r.__class__ is V and (a.__class__ is int or b.__class__ is int) and r.lo >= 0 and r.hi <= 1:
                return None
            if r.__class__ is V:
                return V(r.lo, r.hi, r.t, r.s, ('xor', a, b))
            return None
        if op == 'BitAnd':
            for x, m in ((a, b), (b, a)):
                if self._mask01(m, ty):
                    l, h = rng(x)
                    d = x.d if x.__class__ is V else None
                    lo, hi = min(l, 0), max(h, 0)
                    if lo == hi:
                        return lo
                    return V(lo, hi, t, None, ('mxor', d[1], d[2]) if d is not None and d[0] == 'xor' else None)
        return None

    def _bitrange(self, op, a, b, ty, t):
        al, ah = rng(a)
        bl, bh = rng(b)
        if al >= 0 and bl >= 0:
            if op == 'BitAnd':
                return self.mk(ty, 0, min(ah, bh), t)
            n = max(ah.bit_length(), bh.bit_length())
            lo = max(al, bl) if op == 'BitOr' else 0
            # disjoint or in the light domain keeps sums exact
            if op == 'BitOr' and not self.exact:
                pa, pb = self.poly(a), self.poly(b)
                if pa is not None and pb is not None:
                    for (x, xh, y) in ((pa, ah, pb), (pb, bh, pa)):
                        z = xh.bit_length()
                        if all(c % (1 << z) == 0 for c in y.d.values()):
                            return self.mkP(ty, padd(pa, pb), max(al, bl), min(ah + bh, (1 << n) - 1), t)
            return self.mk(ty, lo, (1 << n) - 1, t)
        if op == 'BitAnd' and (al >= 0 or bl >= 0):
            return self.mk(ty, 0, ah if al >= 0 else bh, t)
        # signed, both possibly negative: bounded by the wider operand
        n = max((-al - 1).bit_length() if al < 0 else 0, ah.bit_length() if ah > 0 else 0,
                (-bl - 1).bit_length() if bl < 0 else 0, bh.bit_length() if bh > 0 else 0)
        return self.mk(ty, -(1 << n), (1 << n) - 1, t)

    def inv(self, a, ty):
        if a.__class__ is int:
            return ty.wrap(~a)
        if self.exact and self.bits:
            x = self.vbits(a, ty)
            if x is not None:
                return self.mkB(ty, [i ^ F1 for i in x], a.t)
        if ty.sg:
            return self.mk(ty, ~a.hi, ~a.lo, a.t)
        return self.mk(ty, ty.hi - a.hi, ty.hi - a.lo, a.t)

    def neg(self, a, ty):
        """returns (value, may, must)"""
        return self.arith('Sub', 0, a, ty)

    # ---- shifts (amount already checked < w)
    def shl(self, a, k, ty):
        if k.__class__ is not int:
            return self.top(ty, taint(a) | k.t)
        if a.__class__ is int:
            return ty.wrap(a << k)
        if k == 0:
            return a
        lo, hi = a.lo << k, a.hi << k
        if lo >= ty.lo and hi <= ty.hi and (not self.exact or a.s is None or a.s.k != 'B'):
            p = self.poly(a)
            if p is not None:
                return self.mkP(ty, pscale(p, 1 << k), lo, hi, a.t)
            return self.mk(ty, lo, hi, a.t)
        if self.exact and self.bits:
            x = self.vbits(a, ty)
            if x is not None:
                return self.mkB(ty, (F0,) * k + x, a.t)
        if lo >= ty.lo and hi <= ty.hi:
            return self.mk(ty, lo, hi, a.t)
        return self.top(ty, a.t)

    def shr(self, a, k, ty):
        if k.__class__ is not int:
            lo, hi = rng(a)
            return self.mk(ty, min(lo, 0), max(hi, 0) if lo < 0 or True else hi, taint(a) | k.t)
        if a.__class__ is int:
            return a >> k
        if k == 0:
            return a
        lo, hi = a.lo >> k, a.hi >> k
        if lo == hi:
            return lo
        if a.s is None or a.s.k == 'P':
            p = self.poly(a)
            if p is not None:
                if a.lo == -1 and hi == 0 and a.s is not None and self.exact and self.bits:
                    # the sign of x - 1 for a non-negative x: minus the predicate x = 0
                    z = self.cmp('Eq', self.mkP(ty, padd(p, pconst(1)), 0, a.hi + 1, a.t), 0, ty)
                    if z.__class__ is int:
                        return -z
                    if z.s is not None:
                        return self.mkP(ty, pscale(self.poly(z), -1), -1, 0, a.t)
                return self.mkP(ty, pfloor(p, k, (a.lo, a.hi)), lo, hi, a.t)
        if self.exact and self.bits:
            x = self.vbits(a, ty)
            if x is not None:
                ext = x[-1] if ty.sg else F0
                return self.mkB(ty, x[k:] + (ext,) * k, a.t)
        return self.mk(ty, lo, hi, a.t)

    def rotl(self, a, k, ty):
        if k.__class__ is not int:
            return self.top(ty, taint(a) | k.t)
        k %= ty.w
        if a.__class__ is int:
            m = (1 << ty.w) - 1
            a &= m
            return ty.wrap(((a << k) | (a >> (ty.w - k))) & m)
        if k == 0:
            return a
        if self.exact and self.bits:
            x = self.vbits(a, ty)
            if x is not None:
                return self.mkB(ty, x[ty.w - k:] + x[:ty.w - k], a.t)
        return self.top(ty, a.t)

    def divrem(self, op, a, b, ty):
        if a.__class__ is int and b.__class__ is int:
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q if op == 'Div' else a - q * b
        t = taint(a) | taint(b)
        al, ah = rng(a)
        if b.__class__ is int and b > 0 and al >= 0:
            if b & (b - 1) == 0:
                k = b.bit_length() - 1
                return self.shr(a, k, ty) if op == 'Div' else self.bitop('BitAnd', a, b - 1, ty)
            if op == 'Div':
                return self.mk(ty, al // b, ah // b, t)
            return self.mk(ty, 0, min(ah, b - 1), t)
        if op == 'Div':
            m = max(abs(al), abs(ah))
            return self.mk(ty, -m, m, t)
        return self.top(ty, t)

    # ---- comparisons -> bool (0/1)
    def cmp(self, op, a, b, ty):
        if a.__class__ is int and b.__class__ is int:
            return int({'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op])
        if op == 'Ne':
            return self.bnot(self.cmp('Eq', a, b, ty))
        if op == 'Gt':
            return self.cmp('Lt', b, a, ty)
        if op == 'Le':
            return self.bnot(self.cmp('Lt', b, a, ty))
        if op == 'Ge':
            return self.bnot(self.cmp('Lt', a, b, ty))
        al, ah = rng(a)
        bl, bh = rng(b)
        t = taint(a) | taint(b)
        if op == 'Eq':
            if a is b:
                return 1
            if ah < bl or bh < al:
                return 0
        else:
            if a is b:
                return 0
            if ah < bl:
                return 1
            if al >= bh:
                return 0
        if not self.exact:
            return V(0, 1, t, None, (op, a, b))
        r = self._cmp_exact(op, a, b, ty, t)
        if r.__class__ is not int:
            r.d = (op, a, b)
        return r

    def _cmp_exact(self, op, a, b, ty, t):
        pa, pb = self.poly(a), self.poly(b)
        if pa is None or pb is None:
            return V(0, 1, t)
        d = padd(pa, pb, -1)
        if not d.d:
            return 1 if op == 'Eq' else 0
        if len(d.d) <= 64:
            lo, hi = prange(d)
            if op == 'Eq' and (lo > 0 or hi < 0):
                return 0
            if op == 'Lt' and hi < 0:
                return 1
            if op == 'Lt' and lo >= 0:
                return 0
        s = single01(d)
        if s:
            f = (lambda x: x == 0) if op == 'Eq' else (lambda x: x < 0)
            return self.mkB(BOOL, poly_bits(mux01(s[0], int(f(s[1])), int(f(s[2]))), 1, (0, 1)), t)
        if op == 'Eq':
            # bit vectors: conjunction when small, else an order-independent atom
            if self.bits:
                x, y = self.vbits(a, ty), self.vbits(b, ty)
                if x is not None and y is not None:
                    z = [i ^ j for i, j in zip(x, y)]
                    if any(i == F1 for i in z):
                        return 0
                    z = [i for i in z if i]
                    if not z:
                        return 1
                    z = sorted(frozenset().union(*[orset(i) for i in z]), key=sorted)
                    if len(z) <= 2 and sum(len(i) for i in z) < 64:
                        r = F1
                        for i in z:
                            r = band(r, i ^ F1)
                        return self.mkB(BOOL, (r,), t)
                    return self.mkB(BOOL, (anf_atom(A.get(('eqz', frozenset(z)), 0, 1)),), t)
            k = min(d.d.items())
            if k[1] < 0:
                d = pscale(d, -1)
            return self.mkB(BOOL, (anf_atom(A.get(('eqp', d), 0, 1)),), t)
        # a < b  <=>  floor-sign of a - b: canonical on the integer polynomial
        return self.mkB(BOOL, (anf_atom(A.get(('lt', d), 0, 1)),), t)

    def bnot(self, v):
        if v.__class__ is int:
            return 1 - v
        d = v.d
        if d is not None:
            if d[0] == 'not':
                nd = d[1].d
                r = V(0, 1, v.t, None, nd)
            else:
                r = V(0, 1, v.t, None, ('not', v))
        else:
            r = V(0, 1, v.t, None, ('not', v))
        if self.exact and v.s is not None:
            x = self.vbits(v, BOOL)
            if x is not None:
                q = self.mkB(BOOL, (x[0] ^ F1,), v.t)
                if q.__class__ is int:
                    return q
                r.s = q.s
        return r

    # ---- casts
    def cast(self, v, src, dst):
        if v.__class__ is int:
            return dst.wrap(v)
        if v.lo >= dst.lo and v.hi <= dst.hi:
            if v.s is not None and v.s.k == 'B' and len(v.s.b) != dst.w:
                b = v.s.b
                if len(b) < dst.w:
                    b = b + ((b[-1] if v.lo < 0 else F0),) * (dst.w - len(b))
                return V(v.lo, v.hi, v.t, Sym('B', None, 0, b[:dst.w]))
            if v.s is not None and v.s.k == 'M' and dst.w != v.s.w:
                p = self.poly(v)
                return V(v.lo, v.hi, v.t, Sym('P', p))
            return v
        s = v.s
        if s is not None and s.k == 'M' and not dst.sg and dst.w <= s.w:
            if dst.w == s.w:
                return v
            b = self.vbits(v, dst)
            return self.mkB(dst, b, v.t)
        if s is None or s.k == 'P':
            if not self.exact and dst.w == 8 and not dst.sg:
                return V(0, 255, v.t)
            p = self.poly(v)
            if p is not None:
                if not dst.sg:
                    f = pfloor(p, dst.w, (v.lo, v.hi))
                    return self.mkP(dst, padd(p, f, -(1 << dst.w)), 0, dst.hi, v.t)
                h = 1 << (dst.w - 1)
                f = pfloor(padd(p, pconst(h)), dst.w, (v.lo + h, v.hi + h))
                return self.mkP(dst, padd(p, f, -(1 << dst.w)), dst.lo, dst.hi, v.t)
        if self.exact and self.bits:
            b = self.vbits(v, src if src.w >= dst.w else dst)
            if b is not None:
                return self.mkB(dst, b[:dst.w], v.t)
        return self.top(dst, v.t)

    # ---- joins
    def means_eq(self, e, v, c):
        """condition e (an eqz atom) implies v == c"""
        if len(e) != 1 or v.s.k != 'B' or not 0 <= c < 1 << len(v.s.b):
            return False
        (mo,) = e
        t = A.mono[mo]
        if len(t) != 1 or A.key[t[0]][0] != 'eqz':
            return False
        z = A.key[t[0]][1]
        for i, x in enumerate(v.s.b):
            if (c >> i) & 1:
                x = x ^ F1
            if x and x not in z:
                return False
        return True

    def side_eq(self, i, v, c):
        if self.sides is None:
            return False
        return any(self.means_eq(e, v, c) for e in self.sides[i] or ())

    def join(self, a, b, ty=None, sel=None):
        """least upper bound; with sel (GF(2) form: 1 -> a) keep an exact mux"""
        if a is b:
            return a
        if a.__class__ is int and b.__class__ is int:
            if a == b:
                return a
        al, ah = rng(a)
        bl, bh = rng(b)
        t = taint(a) | taint(b)
        lo, hi = min(al, bl), max(ah, bh)
        if not self.exact:
            return V(lo, hi, t)
        sa = a.s if a.__class__ is not int else None
        sb = b.s if b.__class__ is not int else None
        if sa is not None and sa == sb:
            return V(lo, hi, t, sa)
        # one side was refined to a constant by a test on its path: the other side has the value itself
        if a.__class__ is int and sb is not None and self.side_eq(0, b, a):
            return b
        if b.__class__ is int and sa is not None and self.side_eq(1, a, b):
            return a
        if sel is None:
            return V(lo, hi, t)
        if (a.__class__ is not int and sa is None) or (b.__class__ is not int and sb is None):
            return V(lo, hi, t)
        if (a.__class__ is int or sa.k == 'P') and (b.__class__ is int or sb.k == 'P'):
            m = patom(bit_atom(sel))
            pa, pb = self.poly(a), self.poly(b)
            p = padd(pb, pmul(m, padd(pa, pb, -1)))
            return V(lo, hi, t, Sym('P', p))
        if sa is not None and sa.k == 'O' or sb is not None and sb.k == 'O':
            return V(lo, hi, t)
        w = max(len(x.s.b) if x.__class__ is not int and x.s.k == 'B' else x.s.w if x.__class__ is not int and x.s.k == 'M' else 0 for x in (a, b))
        w = max(w, max(abs(lo), abs(hi)).bit_length() + (1 if lo < 0 else 0), 1)
        ty = it(w, lo < 0)
        x, y = self.vbits(a, ty), self.vbits(b, ty)
        try:
            r = tuple(j ^ band(sel, i ^ j) for i, j in zip(x, y))
        except Lost:
            return V(lo, hi, t)
        v = self.mkB(ty, r, t)
        return v

    def uf(self, name, args, ty, t=0, idx=0):
        """uninterpreted function of canonical keys"""
        b = tuple(anf_atom(A.get(('uf', name, args, idx, i), 0, 1)) for i in range(ty.w))
        return self.mkB(ty, b, t)


def vkey(v):
    """canonical, hashable identity of a scalar for uninterpreted functions / comparison"""
    if v.__class__ is int:
        return v
    if v.s is None:
        raise Lost('value without normal form')
    return canon(v)


def canon(v):
    s = v.s
    if s.k == 'B':
        b = s.b
        if v.lo >= 0:
            while b and not b[-1]:
                b = b[:-1]
        return ('B', b)
    if s.k == 'P' and v.lo >= 0 and v.hi <= 1:
        return ('B', poly_bits(s.p, 1, (v.lo, v.hi)))
    return s.key()


# ---------------------------------------------------------------- term valuation
EXT = {}


class Valuation:
    """Evaluates normal forms at a pseudo-random assignment of the input atoms; used only
    to print a witness for two normal forms that differ."""

    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.memo = {}
        self.seed = seed

    def atom(self, i):
        m = self.memo
        if i in m:
            return m[i]
        k = A.key[i]
        kind = k[0]
        if kind == 'in':
            lo, hi = A.lo[i], A.hi[i]
            c = self.rnd.randrange(8)
            r = lo if c == 0 else hi if c == 1 else self.rnd.randint(lo, hi)
        elif kind == 'I':
            r = sum(self.bit(b) << j for j, b in enumerate(k[1]))
        elif kind == 'W':
            r = self.poly(k[2]) % (1 << k[1])
        elif kind == 'F':
            r = self.poly(k[1]) >> k[2]
        elif kind == 'b':
            r = (self.poly(k[1]) >> k[2]) & 1
        elif kind == 'mb':
            r = (self.poly(k[2]) >> k[3]) & 1
        elif kind == 'e':
            r = self.bit(k[1])
        elif kind == 'cut':
            r = self.bit(k[1])
        elif kind == 'op':
            r = self.op(k)
        elif kind == 'T':
            x = sum(self.bit(b) << j for j, b in enumerate(k[2]))
            r = (k[1][x] >> k[3]) & 1
        elif kind == 'eqz':
            r = int(not any(self.bit(b) for b in k[1]))
        elif kind == 'eqp':
            r = int(self.poly(k[1]) == 0)
        elif kind == 'lt':
            r = int(self.poly(k[1]) < 0)
        elif kind == 'uf':
            h = hash((self.seed, k[1], self.key(k[2]), k[3], k[4]))
            r = random.Random(h).randint(A.lo[i], A.hi[i])
        elif kind in EXT:
            r = EXT[kind](self, k)
        else:
            raise Lost('cannot evaluate ' + kind)
        m[i] = r
        return r

    def op(self, k):
        _, op, w, sg, w2, sg2, args = k
        ty = IT(w, sg)
        xs = [self.key(x) for x in args]
        if op in ('cast', 'shl', 'shr', 'rotl', 'inv', 'div', 'rem') or op[0] == 'B':
            xs[0] = IT(w2, sg2).wrap(xs[0])
            if op[0] == 'B' or op in ('div', 'rem'):
                xs[1] = IT(w2, sg2).wrap(xs[1])
        m = (1 << w) - 1
        if op == 'Add':
            r = xs[0] + xs[1]
        elif op == 'Sub':
            r = xs[0] - xs[1]
        elif op == 'Mul':
            r = xs[0] * xs[1]
        elif op == 'BitAnd':
            r = xs[0] & xs[1]
        elif op == 'BitOr':
            r = xs[0] | xs[1]
        elif op == 'BitXor':
            r = xs[0] ^ xs[1]
        elif op == 'inv':
            r = ~xs[0]
        elif op == 'cast':
            r = xs[0]
        elif op == 'shl':
            r = xs[0] << xs[1]
        elif op == 'shr':
            r = xs[0] >> xs[1]
        elif op == 'rotl':
            x = xs[0] & m
            r = (x << xs[1]) | (x >> (w - xs[1]))
        elif op == 'mux':
            r = xs[1] if xs[0] & 1 else xs[2]
        else:
            raise Lost('cannot evaluate ' + op)
        return ty.wrap(r)

    def key(self, k):
        if isinstance(k, int):
            return k
        if isinstance(k, tuple):
            if len(k) == 2 and k[0] == 'B':
                return sum(self.bit(b) << j for j, b in enumerate(k[1]))
            if len(k) == 2 and k[0] == '@':
                return self.atom_args(k[1])
            if len(k) == 3 and k[0] in ('P', 'M'):
                p = POLY(k[2])
                x = self.poly(p)
                return x % (1 << k[1]) if k[0] == 'M' else x
            return tuple(self.key(x) for x in k)
        return k

    def atom_args(self, i):
        r = self.memo.get(('@', i))
        if r is None:
            r = self.memo[('@', i)] = self.key(A.key[i][1])
        return r

    def bit(self, b):
        r = 0
        for m in b:
            v = 1
            for i in A.mono[m]:
                if not self.atom(i):
                    v = 0
                    break
            r ^= v
        return r

    def poly(self, p):
        r = 0
        for m, c in p.d.items():
            for i in m:
                c *= self.atom(i)
            r += c
        return r

    def val(self, v, ty):
        if v.__class__ is int:
            return v
        s = v.s
        if s.k == 'P':
            return self.poly(s.p)
        if s.k == 'M':
            return self.poly(s.p) % (1 << s.w)
        x = sum(self.bit(b) << j for j, b in enumerate(s.b))
        return ty.wrap(x)


def POLY(pid):
    return A.plist[pid]
