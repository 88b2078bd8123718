"""Curve25519, Ed25519 and the field below them (C10, C11, F01, F02, F03)."""
import random
from common import *
from dom import F0, F1, anf_atom, patom, pconst, padd, Sym, it
from ring import (R25519 as R, RL, N, radd, rmul, rmulc, rpow, const, mk, gen, bitgen, enc, P25519, L25519)
import ring
import spec


# ---------------------------------------------------------------- reference, on ring values
def mul(a, b):
    return N(rmulc(a, b))


def sq(a):
    return N(rmulc(a, a))


def add(a, b):
    return N(radd(a, b))


def sub(a, b):
    return N(radd(a, b, -1))


def num(c):
    return const(R, c)


def from_bits(r, bits, n):
    d = {}
    for i, b in enumerate(bits[:n]):
        if b:
            ring.addbit(r, d, b, i)
    return mk(r, {m: c for m, c in d.items() if c})


def bits_of(D, bs):
    return [b for x in bs for b in D.vbits(x, it(8))]


def swap(s, a, b):
    """(a, b) exchanged when the bit s is one"""
    if not s:
        return a, b
    if s == F1:
        return b, a
    t = rmul(bitgen(R, s), radd(b, a, -1))
    return N(radd(a, t)), N(radd(b, t, -1))


def x25519(kbits, x1):
    """RFC 7748 section 5; kbits are the 255 bits of the clamped scalar"""
    x2, z2, x3, z3 = num(1), num(0), x1, num(1)
    s = F0
    for t in range(254, -1, -1):
        kt = kbits[t]
        s = s ^ kt
        x2, x3 = swap(s, x2, x3)
        z2, z3 = swap(s, z2, z3)
        s = kt
        a, b = add(x2, z2), sub(x2, z2)
        aa, bb = sq(a), sq(b)
        e = sub(aa, bb)
        c, d = add(x3, z3), sub(x3, z3)
        da, cb = mul(d, a), mul(c, b)
        x3 = sq(add(da, cb))
        z3 = mul(x1, sq(sub(da, cb)))
        x2 = mul(aa, bb)
        z2 = mul(e, add(bb, mul(num(121666), e)))
    x2, x3 = swap(s, x2, x3)
    z2, z3 = swap(s, z2, z3)
    return mul(x2, rpow(z2, P25519 - 2))


def clamp(D, k):
    b = bits_of(D, k)
    b[0] = b[1] = b[2] = F0
    b[255] = F0
    b[254] = F1
    return b


# ---------------------------------------------------------------- Ed25519 reference
Dc = -121665 * pow(121666, -1, P25519) % P25519
SM1 = pow(2, (P25519 - 1) // 4, P25519)


def _basepoint():
    y = 4 * pow(5, -1, P25519) % P25519
    u, v = (y * y - 1) % P25519, (Dc * y * y + 1) % P25519
    x = u * pow(v, -1, P25519) % P25519
    x = pow(x, (P25519 + 3) // 8, P25519)
    if (x * x * v - u) % P25519:
        x = x * SM1 % P25519
    if x & 1:
        x = P25519 - x
    return x, y


BP = _basepoint()


def ed_add(p, q):
    """affine addition on the twisted Edwards curve -x^2 + y^2 = 1 + d x^2 y^2"""
    (x1, y1), (x2, y2) = p, q
    t = Dc * x1 * x2 * y1 * y2 % P25519
    return ((x1 * y2 + x2 * y1) * pow(1 + t, -1, P25519) % P25519,
            (y1 * y2 + x1 * x2) * pow(1 - t, -1, P25519) % P25519)


_BT = {}


def base_table(pos):
    """affine multiples j * 256^pos * B, j = 0..8"""
    if not _BT:
        g = BP
        for i in range(32):
            row = [(0, 1)]
            for j in range(8):
                row.append(ed_add(row[-1], g))
            _BT[i] = row
            for _ in range(8):
                g = ed_add(g, g)
    return _BT[pos]


def niels(pt):
    x, y = pt
    return ((y + x) % P25519, (y - x) % P25519, 2 * Dc * x * y % P25519)


def neg(pt):
    return (-pt[0] % P25519, pt[1])


def madd(p, q):
    X, Y, Z, T = p
    a, b, c = q
    A_ = mul(add(Y, X), a)
    B_ = mul(sub(Y, X), b)
    C_ = mul(c, T)
    Dd = add(Z, Z)
    return sub(A_, B_), add(A_, B_), add(Dd, C_), sub(Dd, C_)


def dbl(p):
    X, Y, Z = p[:3]
    a, b = sq(X), sq(Y)
    c = N(rmul(const(R, 2), sq(Z)))
    d = sq(add(X, Y))
    y, z = add(b, a), sub(b, a)
    return sub(d, y), y, z, sub(c, z)


def to_p3(p):
    x, y, z, t = p
    return mul(x, t), mul(y, z), mul(z, t), mul(x, y)


def to_p2(p):
    x, y, z, t = p
    return mul(x, t), mul(y, z), mul(z, t)


def digits(D, a):
    """64 signed radix-16 digits of the 32-byte integer a"""
    i8 = it(8, True)
    e = []
    for x in a[:32]:
        b = D.vbits(x, it(8))
        for n in (b[:4], b[4:]):
            e.append(D.mkB(i8, tuple(n) + (F0,) * 4, 0))
    carry = 0
    for i in range(63):
        v = D.arith('Add', e[i], carry, i8)[0]
        carry = D.shr(D.arith('Add', v, 8, i8)[0], 4, i8)
        e[i] = D.arith('Sub', v, D.shl(carry, 4, i8), i8)[0]
    e[63] = D.arith('Add', e[63], carry, i8)[0]
    return e


def pick(D, pos, d):
    row = base_table(pos)

    def pt(j):
        return niels(row[j] if j >= 0 else neg(row[-j]))
    if d.__class__ is int:
        return tuple(num(c) for c in pt(d))
    px = D.poly(d)
    rows = [pt(j) for j in range(d.lo, d.hi + 1)]
    return tuple(ring.tabgen(R, px, d.lo, tuple(r[i] for r in rows)) for i in range(3))


def base_mul(D, a):
    e = digits(D, a)
    h = (num(0), num(1), num(1), num(0))
    for i in range(1, 64, 2):
        h = to_p3(madd(h, pick(D, i // 2, e[i])))
    s = to_p2(dbl(h))
    s = to_p2(dbl(s))
    s = to_p2(dbl(s))
    h = to_p3(dbl(s))
    for i in range(0, 64, 2):
        h = to_p3(madd(h, pick(D, i // 2, e[i])))
    return h


def compress(D, p):
    X, Y, Z = p[:3]
    zi = rpow(Z, P25519 - 2)
    y = list(enc(D, mul(Y, zi)))
    x = enc(D, mul(X, zi))
    b = D.vbits(y[31], it(8))
    s = D.vbits(x[0], it(8))[0]
    y[31] = D.mkB(it(8), b[:7] + (b[7] ^ s,), 0)
    return y


def ed_clamp(D, h):
    """the 64-byte hash with its low half clamped"""
    b0 = D.vbits(h[0], it(8))
    b31 = D.vbits(h[31], it(8))
    return ([D.mkB(it(8), (F0,) * 3 + b0[3:], 0)] + list(h[1:31]) + [D.mkB(it(8), b31[:6] + (F1, F0), 0)] + list(h[32:]))


def scalar(D, bs):
    return from_bits(RL, bits_of(D, bs), 8 * len(bs))


# ---------------------------------------------------------------- machine
def rmachine():
    sys.setrecursionlimit(200000)
    m = machine()
    h = ring.Hook(common_prog())
    m.generic_hooks.append(h)
    m.rh = h
    return m


def common_prog():
    import common
    return common.PROG


def note(m, ob):
    h = m.rh
    ob.stats['n_ring_values_named'] = len(ring.G.rid)
    ob.stats['n_canonical_encodings'] = len(h.encs)
    if h.fails and ob.status != OK:
        ob.detail += '; not a ring operation: ' + ', '.join('%s (%s: %s)' % (a, rel(b), c) for a, b, c in h.fails[:3])
    return ob


def t_x25519(which):
    m = rmachine()
    k = inp(m, 'secret_key', 32)
    ins = {'secret_key': k}
    if which == 'gen_pk':
        r = m.call(root('x_pk'), [sl(m, k)])
        x1 = num(9)
    else:
        p = inp(m, 'public_key', 32)
        ins['public_key'] = p
        r = m.call(root('x_dh'), [sl(m, p), sl(m, k)])
        x1 = N(from_bits(R, bits_of(m.D, p), 255))
    fn = 'curve25519::' + which
    if r is DIV:
        return compare('x25519/' + which, DIV, (), m, 'RFC 7748', fn)
    want = tuple(enc(m.D, x25519(clamp(m.D, k), x1)))
    return note(m, compare('x25519/' + which, r, want, m, 'RFC 7748 X25519', fn, ins))


def c11(tier):
    return [('x25519/' + w, t_x25519, (w,), 800) for w in ('gen_pk', 'dh')]


# ---------------------------------------------------------------- C10
def sha512(D, msg):
    return spec.sha2(D, 'sha512', list(msg))


def t_edpk():
    m = rmachine()
    k = inp(m, 'secret_key', 32)
    r = m.call(root('e_pk'), [sl(m, k)])
    if r is DIV:
        return compare('ed25519/gen_pk', DIV, (), m, 'RFC 8032', 'ed25519::gen_pk')
    az = ed_clamp(m.D, sha512(m.D, k))
    want = compress(m.D, base_mul(m.D, az))
    return note(m, compare('ed25519/gen_pk', r, tuple(want), m, 'RFC 8032 public key', 'ed25519::gen_pk', {'secret_key': k}))


def t_edsign(n):
    m = rmachine()
    k, msg = inp(m, 'secret_key', 32), inp(m, 'message', n)
    name = 'ed25519/sign %d' % n
    r = m.call(root('e_sign'), [sl(m, msg), sl(m, k)])
    if r is DIV:
        return compare(name, DIV, (), m, 'RFC 8032', 'ed25519::sign')
    D = m.D
    az = ed_clamp(D, sha512(D, k))
    A_ = compress(D, base_mul(D, az))
    rr = enc(D, scalar(D, sha512(D, tuple(az[32:]) + msg)))
    R_ = compress(D, base_mul(D, rr))
    h = enc(D, scalar(D, sha512(D, tuple(R_) + tuple(A_) + msg)))
    S = enc(D, radd(rmul(scalar(D, h), scalar(D, az[:32])), scalar(D, rr)))
    return note(m, compare(name, r, tuple(R_) + tuple(S), m, 'RFC 8032 signature', 'ed25519::sign', {'secret_key': k, 'message': msg}))


def c10(tier):
    ls = (0, 1, 32, 47, 48, 64, 79, 80, 128) if tier == 'thorough' else (0, 3, 64, 80)
    return [('ed25519/sign %d' % n, t_edsign, (n,), 800) for n in reversed(ls)] + [('ed25519/gen_pk', t_edpk, (), 800)]


# ---------------------------------------------------------------- C12 verification
DSM = 'double_scalarmult'
L_LE = L25519.to_bytes(32, 'little')


def tring():
    """term mode with the ring layer"""
    from p_aead import tmachine
    m = tmachine()
    sys.setrecursionlimit(200000)
    m.rh = ring.Hook(common_prog())
    m.generic_hooks.append(m.rh)
    return m


def bit_select(s, a, b):
    """a when the bit s is one, else b"""
    if s == F1:
        return a
    if not s:
        return b
    return N(radd(rmul(bitgen(R, s), radd(a, b, -1)), b))


def is_zero(D, X):
    """predicate: the ring value is zero"""
    r = F1
    acc = 0
    for b in enc(D, X):
        acc = D.bitop('BitOr', acc, b, it(8))
    return D.vbits(D.cmp('Eq', acc, 0, it(8)), it(1))[0] if acc.__class__ is not int else (F1 if acc == 0 else F0)


def decompress_neg(D, pk):
    """(ok, x, y): RFC 8032 5.1.3 with y taken modulo p; x negated"""
    y = N(from_bits(R, bits_of(D, pk), 255))
    y2 = sq(y)
    u = sub(y2, num(1))
    v = add(mul(y2, num(Dc)), num(1))
    v3 = mul(sq(v), v)
    x = mul(mul(sq(v3), v), u)
    x = mul(mul(rpow(x, (P25519 - 5) // 8), v3), u)
    vxx = mul(sq(x), v)
    c1, c2 = is_zero(D, sub(vxx, u)), is_zero(D, add(vxx, u))
    x = bit_select(c1, x, mul(x, num(SM1)))
    par = D.vbits(enc(D, x)[0], it(8))[0]
    sign = D.vbits(pk[31], it(8))[7]
    x = bit_select(par ^ sign, x, N(rmul(num(-1), x)))
    ok = c1 ^ c2 ^ dom.band(c1, c2)
    return ok, x, y


def np_decode(b):
    """numeric: the negative of the point, or None"""
    n = int.from_bytes(bytes(b), 'little')
    y = (n & ((1 << 255) - 1)) % P25519
    u, v = (y * y - 1) % P25519, (Dc * y * y + 1) % P25519
    x = u * pow(v, 3, P25519) * pow(u * pow(v, 7, P25519), (P25519 - 5) // 8, P25519) % P25519
    if (v * x * x - u) % P25519:
        if (v * x * x + u) % P25519:
            return None
        x = x * SM1 % P25519
    if (x & 1) == n >> 255:
        x = -x % P25519
    return x, y


def key_samples():
    """strings to decode: random ones, small and special y, points of the group, each byte set to small values"""
    r = random.Random(9)
    out = [bytes(r.randrange(256) for _ in range(32)) for _ in range(8)]
    for y in (0, 1, 2, 3, P25519 - 1, P25519, P25519 + 1, P25519 + 3, (1 << 255) - 1):
        out += [y.to_bytes(32, 'little'), (y | 1 << 255).to_bytes(32, 'little')]
    for k in (1, 2, 7, 1000003):
        x, y = np_mul(k, BP)
        out += [(y | b << 255).to_bytes(32, 'little') for b in (0, 1)]
    for i in range(32):
        for c in (0, 1, 0x7f, 0x80, 0xff):
            for _ in range(3):
                b = bytearray(r.randrange(256) for _ in range(32))
                b[i] = c
                out.append(bytes(b))
    return [(i + 1, list(b)) for i, b in enumerate(out)]


def t_edverify(n, cls):
    m = tring()
    D = m.D
    pk, msg, rr = inp(m, 'public_key', 32), inp(m, 'message', n), inp(m, 'R', 32)
    s = list(inp(m, 'S', 32))
    if cls is None:
        s[31] = D.mkB(it(8), D.vbits(s[31], it(8))[:4] + (F0,) * 4, 0)
        what = 'S < 2^252'
    else:
        for i in range(31, cls, -1):
            s[i] = L_LE[i]
        s[cls] = D.fresh(it(8), lo=0, hi=L_LE[cls] - 1) if L_LE[cls] > 1 else 0
        what = 'S >= 2^252, below the order at byte %d' % cls
    s = tuple(s)
    name = 'verify/message of %d bytes, %s' % (n, what)
    fn = 'ed25519::verify'
    cap = []

    def uf(mm, f, args):
        if DSM not in f.name or f.crate != 'crypto_pure':
            return NotImplemented
        try:
            pt = mm.load(args[1].o, tuple(args[1].p))
            h = mm.load(args[0].o, tuple(args[0].p))
            q = args[2]
            sc = mm.load(q.o, tuple(q.p[:-1]))[q.p[-1]:q.p[-1] + q.m] if q.m is not None else mm.load(q.o, tuple(q.p))
            P_ = [ring.ring_of_cells(mm, R, c[0] if len(c) == 1 else c) for c in pt]
        except Exception as e:                                       # noqa: BLE001
            raise Unsupported('arguments of the double scalar multiplication: %r' % e)
        cap.append((h, P_, sc, mm.path))
        out = []
        for nm in 'XYZ':
            X = ring.rgen(R, ('uf', nm))
            out.append((ring.new_rid(R, X, None, [V(-(1 << 25), 1 << 25, 0, None)] * 10),))
        return tuple(out)
    m.generic_hooks.insert(0, uf)
    r = m.call(root('e_verify'), [sl(m, msg), sl(m, rr + s), sl(m, pk)])
    if r is DIV:
        return compare(name, DIV, (), m, 'RFC 8032', fn)
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    ins = {'public_key': pk, 'message': msg, 'R': rr, 'S': s}
    if len(cap) != 1:
        return Ob(name, UNK, 'the double scalar multiplication was not identified (%d calls)' % len(cap), fn, stats=st)
    h, pt, sc, path = cap[0]
    # 1. the scalars
    o = compare(name, tuple(h[:32]) + tuple(sc), tuple(enc(D, scalar(D, sha512(D, rr + pk + msg)))) + s, m,
                'scalars of the double multiplication: SHA-512(R, A, M) mod L (cells 0..31) and S', fn, ins)
    o.stats.update(st)
    if o.status != OK:
        return note(m, o)
    # 2. the decoded key
    ok, x, y = decompress_neg(D, pk)
    want = [x, y, num(1), mul(x, y)]
    same = len(pt) == 4 and all(a.id == b.id for a, b in zip(pt, want))
    if not same:
        import p_sym
        for q, b in key_samples():
            va = Valuation(q)
            p_sym.force(va, pk, b)
            e = np_decode(b)
            if e is None:
                continue
            X, Y, Z, T = [ring.ev_rp(va, a) for a in pt]
            if (X - e[0] * Z) % P25519 or (Y - e[1] * Z) % P25519 or (T * Z - X * Y) % P25519 or Z == 0:
                return Ob(name, BAD, 'the public key is not decoded as in RFC 8032: public_key=%s gives %s' % (bytes(b).hex(),
                          'another point'), 'ed25519: decoding of public keys', key=name + '|decode', stats=st)
        return Ob(name, UNK, 'decoding of the public key not recognised', fn, stats=st)
    # 3. the verdict
    bytes_ = compress(D, [ring.rgen(R, ('uf', q)) for q in 'XYZ'])
    acc = 0
    for a, b in zip(bytes_, rr):
        acc = D.bitop('BitOr', acc, D.bitop('BitXor', a, b, it(8)), it(8))
    eq = D.vbits(D.cmp('Eq', acc, 0, it(8)), it(1))[0]
    got = D.vbits(r, it(1))[0] if r.__class__ is not int else (F1 if r else F0)
    if got == dom.band(ok, eq):
        return note(m, Ob(name, OK, '', fn, stats=st))
    import p_sym
    for seed, pb in [(q, None) for q in range(1, 9)] + key_samples():
        for dl in [{}] if pb else [{}] + [{q: 1 << c} for q in range(32) for c in ((0, 7) if q in (0, 31) else (seed % 8,))] + [{3: 1, 9: 255}, {0: 128, 1: 128}]:
            va = Valuation(seed)
            try:
                if pb:
                    p_sym.force(va, pk, pb)
                e = [va.val(c, it(8)) & 255 for c in bytes_]
                for q, c in dl.items():
                    e[q] ^= c
                p_sym.force(va, rr, e)
                g = va.bit(got)
                b = [va.val(c, it(8)) & 255 for c in pk]
            except (Lost, AttributeError) as ex:
                return Ob(name, UNK, 'verdict not comparable: %s' % ex, fn, stats=st)
            w = int(np_decode(b) is not None and not dl)
            if g != w:
                return Ob(name, BAD, 'verify returns %s although %s (public_key=%s)' % (bool(g), 'the key decodes and the recomputed R equals the given one' if w else
                          'the public key is not on the curve' if not dl else 'R differs from the recomputed one in %s' % dl, bytes(b).hex()), fn, key=name, stats=st)
    return Ob(name, UNK, 'verdict not recognised', fn, stats=st)


def cached(p):
    X, Y, Z, T = p
    return add(Y, X), sub(Y, X), Z, N(rmul(num(2 * Dc), T))


def gadd(p, q, s):
    """p + s*q for a cached (4 values) or precomputed (3 values) q"""
    X, Y, Z, T = p
    a, b = (q[0], q[1]) if s > 0 else (q[1], q[0])
    A_ = mul(add(Y, X), a)
    B_ = mul(sub(Y, X), b)
    C_ = mul(q[-1], T)
    zz = mul(Z, q[2]) if len(q) == 4 else Z
    Dd = add(zz, zz)
    z, t = add(Dd, C_), sub(Dd, C_)
    return (sub(A_, B_), add(A_, B_)) + ((z, t) if s > 0 else (t, z))


_ODD = []


def odd_base(j):
    """affine (2j+1)B"""
    if not _ODD:
        b2 = ed_add(BP, BP)
        _ODD.append(BP)
        for _ in range(7):
            _ODD.append(ed_add(_ODD[-1], b2))
    return _ODD[j]


def dsm_ref(P_, a, b):
    """sum over i of (a[i] P + b[i] B) 2^i by doubling and adding from the top digit"""
    i = max([k for k in range(256) if a[k] or b[k]], default=-1)
    c = [cached(P_)]
    p2 = to_p3(dbl(P_))
    for _ in range(7):
        c.append(cached(to_p3(gadd(p2, c[-1], 1))))
    r = (num(0), num(1), num(1))
    while i >= 0:
        t = dbl(r)
        if a[i]:
            t = gadd(to_p3(t), c[abs(a[i]) // 2], 1 if a[i] > 0 else -1)
        if b[i]:
            t = gadd(to_p3(t), tuple(num(q) for q in niels(odd_base(abs(b[i]) // 2))), 1 if b[i] > 0 else -1)
        r = to_p2(t)
        i -= 1
    return r


def np_mul(k, p):
    if k < 0:
        return np_mul(-k, neg(p))
    r = (0, 1)
    while k:
        if k & 1:
            r = ed_add(r, p)
        p = ed_add(p, p)
        k >>= 1
    return r


def find_fn(part):
    fs = [f for f in common_prog().fns if f.crate == 'crypto_pure' and f.blocks is not None and part in f.name.rsplit('::', 1)[-1]]
    return fs[0] if len(fs) == 1 else None


def t_dsm(lab, cases):
    """double scalar multiplication for given digit vectors and an arbitrary point"""
    name = 'double multiplication/' + lab
    fn = 'GeP2::from_double_scalarmult_vartime'
    f, g = find_fn(DSM), find_fn('slide')
    if f is None or g is None or g.argc != 2 or f.argc != 3:
        return Ob(name, UNK, 'the double scalar multiplication or its digit recoding was not identified', fn)
    calls, fns = 0, set()
    m = rmachine()
    D = m.D
    P_ = [ring.rgen(R, ('uf', 'P' + c)) for c in 'XYZT']
    h, s = [tuple(D.fresh(it(8)) for _ in range(64)), tuple(D.fresh(it(8)) for _ in range(32))]
    cur = [None]

    def sl_hook(mm, fx, args):
        if fx is not g:
            return NotImplemented
        dst, src = args
        v = mm.load(src.o, tuple(src.p)[:-1] if src.m is not None else tuple(src.p))
        w = 0 if v[0] is h[0] else 1 if v[0] is s[0] else None
        if w is None:
            raise Unsupported('source of the digit recoding')
        mm.store(dst.o, tuple(dst.p), tuple(cur[0][w]))
        return ()
    m.generic_hooks.insert(0, sl_hook)
    for a, b in cases:
        cur[0] = (a, b)
        pt = tuple((ring.new_rid(R, x, None, [V(-(1 << 25), 1 << 25, 0, None)] * 10),) for x in P_)
        hs, ss = m.new(h), m.new(s)
        r = m.call(f, [Ptr(hs, ()), Ptr(m.new(pt), ()), Ptr(ss, (0,), 32)])
        sd = lambda v: ' '.join('%+d*2^%d' % (x, i) for i, x in enumerate(v) if x) if sum(map(bool, v)) < 9 else 'dense'     # noqa: E731
        what = 'digits [%s] of the point and [%s] of B' % (sd(a), sd(b))
        st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls)), 'n_digit_vectors': len(cases)}
        if r is DIV:
            return Ob(name, BAD, '%s: panic: %s' % (what, events(m)), fn, key=name, stats=st)
        try:
            got = [ring.ring_of_cells(m, R, c[0] if len(c) == 1 else c) for c in r]
        except Exception as e:                                       # noqa: BLE001
            return note(m, Ob(name, UNK, '%s: result is not a point: %r' % (what, e), fn, stats=st))
        want = dsm_ref(P_, a, b)
        if [x.id for x in got] == [x.id for x in want]:
            continue
        # a witness: the normal forms at an actual point
        for k in (2, 12345, 987654321):
            Q = np_mul(k, BP)
            va = Valuation(k)
            for c, x in zip('XYZT', (Q[0] * 7, Q[1] * 7, 7, Q[0] * Q[1] * 7)):
                va.memo[('gen', ring.gen(('uf', 'P' + c)), P25519)] = x % P25519
            e = np_mul(sum(x << i for i, x in enumerate(a)), Q)
            e = ed_add(e, np_mul(sum(x << i for i, x in enumerate(b)), BP))
            X, Y, Z = [ring.ev_rp(va, x) for x in got]
            if Z == 0 or (X - e[0] * Z) % P25519 or (Y - e[1] * Z) % P25519:
                return note(m, Ob(name, BAD, '%s: the result is not the sum of the multiples (point %d*B)' % (what, k), fn, key=name, stats=st))
        return note(m, Ob(name, UNK, '%s: result not recognised' % what, fn, stats=st))
    return note(m, Ob(name, OK, '', fn, stats=st))


def vec(**k):
    v = [0] * 256
    for q, x in k.items():
        v[int(q[1:])] = x
    return v


# ------------------------------------------------------------ recoding into signed odd digits
class _Stop(Exception):
    pass


def slide_value(m, g, a):
    """digits of a constant scalar, by constant propagation (None: not constant)"""
    r = m.new((0,) * 256)
    v = m.call(g, [Ptr(r, ()), Ptr(m.new(tuple(a)), (0,), 32)])
    if v is DIV:
        return 'panic'
    d = m.mem[r]
    return d if all(x.__class__ is int for x in d) else None


def t_slide():
    """sum of digit*2^position is kept by every store; digits are zero or odd, within -15..15"""
    name, fn = 'signed digit recoding', 'slide'
    f, g = find_fn(DSM), find_fn('slide')
    if f is None or g is None or g.argc != 2:
        return Ob(name, UNK, 'the digit recoding was not identified', fn)
    st = {}

    def tab(m):
        """first writes of the digit array: every cell once"""
        seen, t = [None], m.store

        def store(o, p, v):
            t(o, p, v)
            if o == r:
                if len(p) == 1 and p[0].__class__ is int:
                    w.add(p[0])
                    if len(w) == 256:
                        raise _Stop()
        w = set()
        r = m.new((0,) * 256)
        m.store = store
        return r
    why = None
    # 1. bits
    m = machine()
    a = inp(m, 'scalar', 32)
    r = tab(m)
    try:
        m.call(g, [Ptr(r, ()), Ptr(m.new(a), (0,), 32)])
        why = 'the digit array is not filled with the bits first'
    except _Stop:
        for i, x in enumerate(m.mem[r]):
            b = m.D.vbits(x, it(8, True)) if x.__class__ is V and x.s is not None and x.s.k != 'O' else None
            w = m.D.vbits(a[i >> 3], it(8))[i & 7]
            if b is None or b[0] != w or any(b[1:]):
                why = 'initial digit %d is not recognised as bit %d of the scalar' % (i, i)
                break
    st['calls'], st['fns'] = sum(m.calls.values()), tuple(sorted(m.calls))
    # 2. every later store
    if why is None:
        m = machine(False)
        D = m.D
        jn = D.join

        def join(x, y, ty=None, sel=None):
            v = jn(x, y, ty, sel)
            if v.__class__ is V:
                D.poly(v)
            return v
        D.join = join
        r, dl, ok = m.new((0,) * 256), m.new(0), m.new((1,) * 256)
        base = m.store
        w, nst = set(), [0]
        M = 1 << 256


        def store(o, p, v):
            if o != r or len(w) < 256:
                base(o, p, v)
                if o == r:
                    w.add(p[0])
                    if len(w) == 256:
                        m.mem[r] = tuple(D.fresh(it(8, True), lo=0, hi=1) for _ in range(256))
                        for x in m.mem[r]:
                            D.poly(x)
                        m.mem[ok] = tuple(V(0, 1) for _ in range(256))
                return
            nst[0] += 1
            k = p[-1]
            old = m.mem[r][k] if k.__class__ is int else None
            if old is None:
                m.mem[dl] = V(0, M)
                base(o, p, v)
                return
            c = isconst(padd(D.poly(v), D.poly(old), -1))
            e = m.mem[dl]
            m.mem[dl] = (e + (c << k)) % M if c is not None and e.__class__ is int else V(0, M)
            kd = m.mem[ok][k]
            if v.__class__ is int:
                kd = 0 if v == 0 else 1 if v & 1 else 2
            elif old.__class__ is int and c is not None:
                kd = 2
            elif c is None or c and (c & 1 or kd != 1):
                kd = 2
            m.mem[ok] = m.mem[ok][:k] + (kd,) + m.mem[ok][k + 1:]
            base(o, p, v)

        def isconst(p):
            d = p.d
            return 0 if not d else d[()] if len(d) == 1 and () in d else None
        m.store = store
        sub0 = m.subst

        def subst(mp):
            sub0(mp)
            c, k = m.mem.get(r), m.mem.get(ok)
            if any(y.__class__ is V and x.__class__ is int for x, y in zip(c, k)):
                m.mem[ok] = tuple([(0 if x == 0 else 1 if x & 1 else 2) if x.__class__ is int else y for x, y in zip(c, k)])
        m.subst = subst
        sy = tuple(D.fresh(it(8)) for _ in range(32))
        res = m.call(g, [Ptr(r, ()), Ptr(m.new(sy), (0,), 32)])
        st['calls'] += sum(m.calls.values())
        st['n_digit_stores'] = nst[0]
        if res is DIV or m.events:
            why = 'panic possible: %s' % events(m)
        elif m.mem[dl] != 0:
            why = 'a store is not known to keep the sum of digit*2^position'
        else:
            for i, (x, k) in enumerate(zip(m.mem[r], m.mem[ok])):
                lo, hi = (x, x) if x.__class__ is int else (x.lo, x.hi)
                # odd or zero: an even bound is not reached
                lo, hi = lo + (lo % 2 == 0 and lo != 0), hi - (hi % 2 == 0 and hi != 0)
                if (k if k.__class__ is int else k.hi) > 1:
                    why = 'digit %d is not known to be zero or odd' % i
                elif lo < -15 or hi > 15:
                    why = 'digit %d is in [%d, %d]' % (i, lo, hi)
                if why:
                    break
    if why is None:
        return Ob(name, OK, '', fn, stats=st)
    # a witness
    rnd = random.Random(3)
    L = (1 << 252) + 27742317777372353535851937790883648493
    m = machine(False)
    for x in [0, 1, 15, 31, 33, (1 << 252) - 1, L - 1, (1 << 250) + 5, int('5' * 63, 16), int('1' * 63, 16)] + [rnd.randrange(L) for _ in range(12)]:
        d = slide_value(m, g, x.to_bytes(32, 'little'))
        if d is None:
            break
        if d == 'panic':
            return Ob(name, BAD, 'scalar %#x: panic: %s' % (x, events(m)), fn, key=name, stats=st)
        if sum(v << i for i, v in enumerate(d)) != x:
            return Ob(name, BAD, 'scalar %#x: the digits add up to another value (%s)' % (x, why), fn, key=name, stats=st)
        if any(v and (v % 2 == 0 or abs(v) > 15) for v in d):
            return Ob(name, BAD, 'scalar %#x: digit %r is outside the table of odd multiples (%s)' % (x, [v for v in d if v and (v % 2 == 0 or abs(v) > 15)][0], why), fn, key=name, stats=st)
    return Ob(name, UNK, why, fn, stats=st)


DG = [0] + [x for d in range(1, 16, 2) for x in (d, -d)]


def dense(k):
    """digit vectors in which the 289 pairs of digits follow one another"""
    rnd = random.Random(11)
    q = [(x, y) for x in DG for y in DG]
    rnd.shuffle(q)
    # positions a scalar below the group order can reach
    q = [q[(253 * k + i) % 289] for i in range(253)] + [(0, 0)] * 3
    return [x for x, _ in q], [y for _, y in q]


def c12(tier):
    th = tier == 'thorough'
    ts = [('verify/slide', t_slide, (), 800)]
    ts += [('double multiplication/all digit pairs %d' % k, t_dsm, ('all digit pairs, every position non-zero, vectors %d' % k, [dense(k)]), 800) for k in range(16 if th else 2)]
    top = [(vec(), vec())] + [(vec(p0=3), vec(p0=5)), (vec(p0=-1), vec()), (vec(), vec(p0=-15)), (vec(p2=1), vec(p1=1)), (vec(p1=-7), vec(p3=9)), (vec(p6=1, p0=1), vec(p6=-1))]
    ts += [('double multiplication/short', t_dsm, ('short vectors', top), 800)]
    ts += [('double multiplication/sparse %d' % k, t_dsm, ('sparse vectors %d' % k, [c]), 800) for k, c in enumerate(
        [(vec(p252=1, p100=-9), vec(p252=-7, p0=15)), (vec(p252=1), vec(p64=1)), (vec(p63=-3), vec(p252=1))])]
    ls = (0, 1, 31, 63, 64, 65, 80, 128, 200) if th else (0, 3, 64, 80)
    ts += [('ed25519/verify %d' % n, t_edverify, (n, c), 800) for n in ls for c in (None, 15)]
    ts += [('ed25519/verify 3 class %d' % c, t_edverify, (3, c), 800) for c in range(15)] if th else []
    return ts
