"""Reference semantics, written from the standards, over the same abstract domain.

Byte strings are Python lists of abstract bytes (ints or V of type u8)."""
from dom import V, it, F0, F1, A, anf_atom, Lost, taint
import dom as D
from interp import table_value

U8, U32, U64, U128 = it(8), it(32), it(64), it(128)


class Ops:
    """word arithmetic at a fixed width on top of a Dom"""

    def __init__(self, d, w):
        self.d, self.t, self.w = d, it(w), w

    def add(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.d.arith('Add', r, x, self.t)[0]
        return r

    def xor(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.d.bitop('BitXor', r, x, self.t)
        return r

    def and_(self, a, b):
        return self.d.bitop('BitAnd', a, b, self.t)

    def rotr(self, a, k):
        return self.d.rotl(a, self.w - k, self.t)

    def rotl(self, a, k):
        return self.d.rotl(a, k, self.t)

    def shr(self, a, k):
        return self.d.shr(a, k, self.t)

    def not_(self, a):
        return self.d.inv(a, self.t)

    def from_le(self, bs):
        n = self.w // 8
        if all(b.__class__ is int for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        r = 0
        for i, b in enumerate(bs):
            x = self.d.cast(b, U8, self.t)
            x = self.d.shl(x, 8 * i, self.t)
            r = self.d.bitop('BitOr', r, x, self.t) if i else x
        return r

    def from_be(self, bs):
        return self.from_le(bs[::-1])

    def to_le(self, v):
        return [self.d.cast(self.d.shr(v, 8 * i, self.t), self.t, U8) for i in range(self.w // 8)]

    def to_be(self, v):
        return self.to_le(v)[::-1]


# ------------------------------------------------------------------ AES (FIPS 197)
def _gf_mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= 0x11b
        b >>= 1
    return r


def _sbox():
    out = []
    for x in range(256):
        y = 0
        if x:
            y = x
            for _ in range(253):
                y = _gf_mul(y, x)      # x^254
        r = 0
        for i in range(8):
            bit = (y >> i) ^ (y >> ((i + 4) % 8)) ^ (y >> ((i + 5) % 8)) ^ (y >> ((i + 6) % 8)) ^ (y >> ((i + 7) % 8)) ^ (0x63 >> i)
            r |= (bit & 1) << i
        out.append(r)
    return tuple(out)


SBOX = _sbox()
assert SBOX[0] == 0x63 and SBOX[1] == 0x7c and SBOX[0x53] == 0xed and len(set(SBOX)) == 256
MUL2 = tuple(_gf_mul(x, 2) for x in range(256))
MUL3 = tuple(_gf_mul(x, 3) for x in range(256))


def tab(d, t, x):
    if x.__class__ is int:
        return t[x]
    return table_value(d, t, d.vbits(x, U8), U8, x.t)


def aes_expand(d, key):
    o = Ops(d, 8)
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = t[1:] + t[:1]
            t = [tab(d, SBOX, x) for x in t]
            t[0] = o.xor(t[0], rc)
            rc = _gf_mul(rc, 2)
        elif nk > 6 and i % nk == 4:
            t = [tab(d, SBOX, x) for x in t]
        w.append([o.xor(a, b) for a, b in zip(w[i - nk], t)])
    return [[x for c in w[4 * r:4 * r + 4] for x in c] for r in range(nr + 1)]


def aes_block(d, rk, block):
    o = Ops(d, 8)
    s = [o.xor(a, b) for a, b in zip(block, rk[0])]
    nr = len(rk) - 1
    for r in range(1, nr + 1):
        s = [tab(d, SBOX, x) for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < nr:
            n = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                for i in range(4):
                    n.append(o.xor(tab(d, MUL2, a[i]), tab(d, MUL3, a[(i + 1) % 4]), a[(i + 2) % 4], a[(i + 3) % 4]))
            s = n
        s = [o.xor(a, b) for a, b in zip(s, rk[r])]
    return s


# ------------------------------------------------------------------ ChaCha20 (RFC 8439)
def chacha_block(d, key, counter, nonce):
    o = Ops(d, 32)
    c = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
    st = c + [o.from_le(key[4 * i:4 * i + 4]) for i in range(8)] + [counter] + [o.from_le(nonce[4 * i:4 * i + 4]) for i in range(3)]
    x = list(st)

    def qr(a, b, c, e):
        x[a] = o.add(x[a], x[b])
        x[e] = o.rotl(o.xor(x[e], x[a]), 16)
        x[c] = o.add(x[c], x[e])
        x[b] = o.rotl(o.xor(x[b], x[c]), 12)
        x[a] = o.add(x[a], x[b])
        x[e] = o.rotl(o.xor(x[e], x[a]), 8)
        x[c] = o.add(x[c], x[e])
        x[b] = o.rotl(o.xor(x[b], x[c]), 7)
    for _ in range(10):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    out = []
    for a, b in zip(x, st):
        out += o.to_le(o.add(a, b))
    return out


# ------------------------------------------------------------------ SHA-2 (FIPS 180-4)
def _primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def _iroot(n, k):
    x = 1 << ((n.bit_length() + k - 1) // k + 1)
    while True:
        y = ((k - 1) * x + n // x ** (k - 1)) // k
        if y >= x:
            return x
        x = y


def _frac(p, k, bits):
    return _iroot(p << (k * bits), k) & ((1 << bits) - 1)


P80 = _primes(80)
K512 = [_frac(p, 3, 64) for p in P80]
K256 = [_frac(p, 3, 32) for p in P80[:64]]
IV = {
    'sha512': [_frac(p, 2, 64) for p in P80[:8]],
    'sha384': [_frac(p, 2, 64) for p in P80[8:16]],
    'sha256': [_frac(p, 2, 32) for p in P80[:8]],
    'sha224': [_frac(p, 2, 64) & 0xffffffff for p in P80[8:16]],
}
assert K256[0] == 0x428a2f98 and K512[79] == 0x6c44198c4a475817 and IV['sha256'][0] == 0x6a09e667
assert IV['sha224'][0] == 0xc1059ed8 and IV['sha384'][0] == 0xcbbb9d5dc1059ed8 and IV['sha512'][7] == 0x5be0cd19137e2179
SHA = {'sha512': (64, 128, 64), 'sha384': (64, 128, 48), 'sha256': (32, 64, 32), 'sha224': (32, 64, 28)}
SIG = {64: ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)), 32: ((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10))}


def sha_compress(d, w, h, block):
    o = Ops(d, w)
    n = w // 8
    K = K512 if w == 64 else K256
    S0, S1, s0, s1 = SIG[w]
    W = [o.from_be(block[n * i:n * i + n]) for i in range(16)]
    for t in range(16, len(K)):
        a, b = W[t - 15], W[t - 2]
        W.append(o.add(o.xor(o.rotr(b, s1[0]), o.rotr(b, s1[1]), o.shr(b, s1[2])), W[t - 7],
                       o.xor(o.rotr(a, s0[0]), o.rotr(a, s0[1]), o.shr(a, s0[2])), W[t - 16]))
    a, b, c, dd, e, f, g, hh = h
    for t in range(len(K)):
        t1 = o.add(hh, o.xor(*[o.rotr(e, k) for k in S1]), o.xor(o.and_(e, f), o.and_(o.not_(e), g)), K[t], W[t])
        t2 = o.add(o.xor(*[o.rotr(a, k) for k in S0]), o.xor(o.and_(a, b), o.and_(a, c), o.and_(b, c)))
        hh, g, f, e, dd, c, b, a = g, f, e, o.add(dd, t1), c, b, a, o.add(t1, t2)
    return [o.add(x, y) for x, y in zip(h, (a, b, c, dd, e, f, g, hh))]


def sha2(d, alg, msg):
    w, bl, dl = SHA[alg]
    o = Ops(d, w)
    lf = bl // 8
    n = len(msg)
    pad = [0x80] + [0] * ((-n - 1 - lf) % bl) + list((8 * n).to_bytes(lf, 'big'))
    m = list(msg) + pad
    h = list(IV[alg])
    for i in range(0, len(m), bl):
        h = sha_compress(d, w, h, m[i:i + bl])
    return [b for x in h for b in o.to_be(x)][:dl]


def hmac(d, alg, key, msg):
    bl = SHA[alg][1]
    o = Ops(d, 8)
    k = list(key) if len(key) <= bl else sha2(d, alg, key)
    k = k + [0] * (bl - len(k))
    inner = sha2(d, alg, [o.xor(x, 0x36) for x in k] + list(msg))
    return sha2(d, alg, [o.xor(x, 0x5c) for x in k] + inner)


def hkdf_extract(d, alg, salt, ikm):
    return hmac(d, alg, salt, ikm)


def hkdf_expand(d, alg, prk, info, n):
    t, out, i = [], [], 1
    while len(out) < n:
        t = hmac(d, alg, prk, t + list(info) + [i])
        out += t
        i += 1
    return out[:n]


# ------------------------------------------------------------------ GCM (SP 800-38D)
def gf128_mul(d, x, y):
    """bit 0 = most significant bit of byte 0; x, y: 128 bit forms"""
    v = list(y)
    z = [frozenset()] * 128
    for i in range(128):
        if x[i]:
            for j in range(128):
                if v[j]:
                    z[j] = z[j] ^ D.band(x[i], v[j])
        top = v[127]
        v = [frozenset()] + v[:127]
        for j in (0, 1, 2, 7):
            v[j] = v[j] ^ top
    return z


def to_bits128(d, block):
    return [d.vbits(block[i // 8], U8)[7 - i % 8] for i in range(128)]


def of_bits128(d, z):
    return [d.mkB(U8, tuple(z[8 * i + 7 - j] for j in range(8)), 0) for i in range(16)]


def ghash(d, h, data):
    """data: whole number of blocks"""
    hb = to_bits128(d, h)
    y = [frozenset()] * 128
    for i in range(0, len(data), 16):
        y = gf128_mul(d, [a ^ b for a, b in zip(y, to_bits128(d, data[i:i + 16]))], hb)
    return of_bits128(d, y)


def gcm(d, enc, nonce, ad, msg):
    """enc: block -> block.  (ciphertext, tag)"""
    o = Ops(d, 8)

    def cb(c):
        return enc(list(nonce) + list(c.to_bytes(4, 'big')))
    ct = []
    for i in range(0, len(msg), 16):
        ct += [o.xor(a, b) for a, b in zip(msg[i:i + 16], cb(2 + i // 16))]
    h = enc([0] * 16)

    def pad(x):
        return list(x) + [0] * (-len(x) % 16)
    s = ghash(d, h, pad(ad) + pad(ct) + list((8 * len(ad)).to_bytes(8, 'big')) + list((8 * len(ct)).to_bytes(8, 'big')))
    return ct, [o.xor(a, b) for a, b in zip(cb(1), s)]
