"""C01-C06: symmetric primitives, by equality of algebraic normal forms with the standards."""
from common import *
import spec

HB = {'512': 128, '384': 128, '256': 64, '224': 64}
HD = {'512': 64, '384': 48, '256': 32, '224': 28}


def seal(m, st):
    pass


# ---------------------------------------------------------------- C01
def t_aes(bits):
    m = machine()
    k = inp(m, 'key', bits // 8)
    b = inp(m, 'block', 16)
    r = m.call(root('aes%d' % bits), [sl(m, k), Ptr(m.new(b), ())])
    s = spec.aes_block(m.D, spec.aes_expand(m.D, k), b)
    return compare('aes%d' % bits, r, s, m, 'AES-%d encryption of an arbitrary block under an arbitrary key' % bits,
                   'Aes%d::new + permute' % bits, {'key': k, 'block': b})


def c01(tier):
    return [('aes%d' % n, t_aes, (n,), 300) for n in (128, 192, 256)]


# ---------------------------------------------------------------- C02
def ks(d, k, n, count, c0=0):
    r = []
    c = c0
    while len(r) < count:
        r += spec.chacha_block(d, k, c, n)
        c += 1
    return r[:count]


def t_stream(a, b, dec):
    """encrypt(a bytes); next; decrypt(b bytes); next  on one stream"""
    m = machine()
    k, n, i, j = inp(m, 'key', 32), inp(m, 'nonce', 12), inp(m, 'in1', a), inp(m, 'in2', b)
    o, p = m.new((0,) * a), m.new((0,) * b)
    r = m.call(root('stream3'), [sl(m, k), sl(m, n), sl(m, i), Ptr(o, (0,), a), sl(m, j), Ptr(p, (0,), b)])
    name = 'stream/%d+1+%d+1' % (a, b)
    fn = 'Stream::{new,encrypt,decrypt,next}'
    if r is DIV:
        return compare(name, DIV, (), m, 'stream', fn)
    O = spec.Ops(m.D, 8)
    s = ks(m.D, k, n, a + b + 2)
    w1 = [O.xor(x, y) for x, y in zip(i, s)]
    w2 = [O.xor(x, y) for x, y in zip(j, s[a + 1:])]
    got = list(m.mem[o]) + list(m.mem[p])
    want = w1 + w2
    for q, x in ((r[0], s[a]), (r[1], s[a + b + 1])):
        if not isinstance(q, En) or q.tag.__class__ is not int:
            return Ob(name, UNK, 'key-stream iterator result not decided', fn)
        if q.tag != 1:
            return Ob(name, BAD, 'the key stream iterator ends after %d bytes' % a, fn, key='stream')
        got.append(q.alts[1][0])
        want.append(x)
    return compare(name, got, want, m, 'ChaCha20 key stream applied to %d + 1 + %d + 1 bytes' % (a, b), fn,
                   {'key': k, 'nonce': n, 'in1': i, 'in2': j})


def leaves(v, path=()):
    """scalar leaves of a value"""
    if v.__class__ is tuple:
        for i, x in enumerate(v):
            yield from leaves(x, path + (i,))
    elif isinstance(v, (int, V)):
        yield path, v


def put(v, path, x):
    if not path:
        return x
    return v[:path[0]] + (put(v[path[0]], path[1:], x),) + v[path[0] + 1:]


def t_stream_jump(c, pos):
    """the stream at an arbitrary far position: the state leaf that counts blocks is located by
    comparing the states after 1 and 2 blocks, and replaced by the constant c"""
    m = machine()
    k, n = inp(m, 'key', 32), inp(m, 'nonce', 12)
    st = m.call(root('stream_new'), [sl(m, k), sl(m, n)])
    name = 'stream-far/block %d offset %d' % (c, pos)
    fn = 'Stream::next'
    o = m.new(st)
    snaps = []
    for blk in range(3):
        for i in range(64):
            m.call(root('stream_next'), [Ptr(o, ())])
        snaps.append(m.mem[o])
    cand = []
    ls = [dict(leaves(s)) for s in snaps]
    for p, x in ls[0].items():
        y, z = ls[1].get(p), ls[2].get(p)
        if x.__class__ is int and y.__class__ is int and z.__class__ is int and (y - x, z - y) == (1, 1):
            cand.append((p, x))
    if len(cand) != 1:
        return Ob(name, UNK, 'block counter not identified in the stream state (%d candidates)' % len(cand), fn)
    p, x = cand[0]
    # after 1 block the counter leaf is x; continuing makes block number 1
    m.mem[o] = put(snaps[0], p, c - 1 + x)
    got, want = [], []
    want = spec.chacha_block(m.D, k, c, n) + (spec.chacha_block(m.D, k, c + 1, n) if c + 1 < 1 << 32 else [])
    want = want[:pos + 1]
    for i in range(pos + 1):
        r = m.call(root('stream_next'), [Ptr(o, ())])
        if r is DIV:
            return compare(name, DIV, (), m, 'stream', fn)
        if r.tag != 1:
            return Ob(name, BAD, 'key stream ends at block %d, byte %d' % (c, i), fn, key='stream-far')
        got.append(r.alts[1][0])
    return compare(name, got, want, m, 'ChaCha20 key stream from block %d' % c, fn, {'key': k, 'nonce': n})


def c02(tier):
    L = [(0, 0), (1, 0), (0, 1), (63, 0), (62, 3), (64, 64), (65, 1), (127, 66), (128, 5), (200, 61), (3, 250), (61, 64)]
    if tier == 'thorough':
        L = sorted(set(L) | {(a, b) for a in range(0, 130, 1) for b in (0, 1, 63, 64, 65)})
    ts = [('stream/%d+1+%d+1' % x, t_stream, x + (False,), 120) for x in L]
    cs = [1, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 2]
    ts += [('stream-far/block %d offset %d' % (c, p), t_stream_jump, (c, p), 120) for c in cs for p in (66,)]
    return ts


# ---------------------------------------------------------------- C03
def t_sha(a, n, one):
    m = machine()
    i = inp(m, 'message', n)
    name = 'sha%s/%d%s' % (a, n, '/oneshot' if one else '')
    if one:
        fn = 'sha2::sha' + a
        got = m.call(root('sha' + a), [sl(m, i)])
    else:
        fn = 'Sha%s::{default,update,write_digest}' % a
        o = m.new((0,) * HD[a])
        got = m.call(root('h' + a), [sl(m, i), Ptr(o, (0,), HD[a])])
        if got is not DIV:
            got = m.mem[o]
    return compare(name, got, spec.sha2(m.D, 'sha' + a, i), m, 'SHA-%s of an arbitrary %d-byte message' % (a, n), fn, {'message': i})


def t_sha_far(a, k, n, extra):
    """length bookkeeping far out: the byte count located in the state is advanced by k blocks"""
    m = machine()
    bl = HB[a]
    name = 'sha%s-far/2^%d blocks + %d' % (a, k.bit_length() - 1, n + extra)
    fn = 'Sha%s::{update,write_digest}' % a
    o = m.new(m.call(root('h%s_n' % a), []))
    i1 = inp(m, 'm1', bl)
    snaps = []
    for q in range(3):
        m.call(root('h%s_u' % a), [Ptr(o, ()), sl(m, i1)])
        snaps.append(m.mem[o])
    ls = [dict(leaves(s)) for s in snaps]
    cand = []
    for p, x in ls[0].items():
        y, z = ls[1].get(p), ls[2].get(p)
        if all(q.__class__ is int for q in (x, y, z)) and y - x == z - y > 0:
            cand.append((p, x, y - x))
    if len(cand) != 1:
        return Ob(name, UNK, 'length counter not identified in the hash state (%d candidates)' % len(cand), fn)
    p, x, step = cand[0]
    m.mem[o] = put(snaps[0], p, x + step * k)
    tail = inp(m, 'tail', n)
    m.call(root('h%s_u' % a), [Ptr(o, ()), sl(m, tail)])
    t2 = inp(m, 'tail2', extra)
    m.call(root('h%s_u' % a), [Ptr(o, ()), sl(m, t2)])
    out = m.new((0,) * HD[a])
    r = m.call(root('h%s_w' % a), [m.mem[o], Ptr(out, (0,), HD[a])])
    if r is DIV:
        return compare(name, DIV, (), m, 'digest after %d blocks' % k, fn)
    # reference: one block compressed, then the tail and padding for the advanced length
    alg = 'sha' + a
    w, bl, dl = spec.SHA[alg]
    O = spec.Ops(m.D, w)
    h = spec.sha_compress(m.D, w, list(spec.IV[alg]), list(i1))
    msg = list(tail) + list(t2)
    tot = (k + 1) * bl + len(msg)
    lf = bl // 8
    rest = msg + [0x80] + [0] * ((-len(msg) - 1 - lf) % bl) + list((8 * tot).to_bytes(lf, 'big'))
    for q in range(0, len(rest), bl):
        h = spec.sha_compress(m.D, w, h, rest[q:q + bl])
    want = [b for y in h for b in O.to_be(y)][:dl]
    return compare(name, m.mem[out], want, m, 'SHA-%s digest of a message of %d bytes' % (a, tot), fn, {'tail': tail})


def c03(tier):
    ts = []
    for a in HB:
        bl = HB[a]
        lf = bl // 8
        base = {0, 1, 2, 3, bl - lf - 2, bl - lf - 1, bl - lf, bl - 2, bl - 1, bl, bl + 1, 2 * bl - lf - 1, 2 * bl - lf,
                2 * bl - 1, 2 * bl, 2 * bl + 1, 3 * bl + 5}
        ns = range(0, 3 * bl + 2) if tier == 'thorough' else sorted(base)
        ts += [('sha%s/%d' % (a, n), t_sha, (a, n, False), 200) for n in ns]
        ts += [('sha%s/%d/oneshot' % (a, n), t_sha, (a, n, True), 200) for n in sorted(base)[::3]]
        lim = 60
        for k in (8, 16, 24, 28, 32, 40, lim - bl.bit_length()):
            ts.append(('sha%s-far/%d' % (a, k), t_sha_far, (a, 1 << k, 3, 0), 200))
        ts.append(('sha%s-far/%d' % (a, 32), t_sha_far, (a, (1 << 26) - 1, bl - 1, 2), 200))
    return ts


# ---------------------------------------------------------------- C04
def t_split(a, x, y, z):
    m = machine()
    n = x + y + z
    i = inp(m, 'message', n)
    o = m.new((0,) * HD[a])
    name = 'sha%s/%d+%d+%d' % (a, x, y, z)
    fn = 'Sha%s::update' % a
    r = m.call(root('h%s_3' % a), [sl(m, i[:x]), sl(m, i[x:x + y]), sl(m, i[x + y:]), Ptr(o, (0,), HD[a])])
    if r is DIV:
        return compare(name, DIV, (), m, 'digest', fn)
    p = m.new((0,) * HD[a])
    r2 = m.call(root('h' + a), [sl(m, i), Ptr(p, (0,), HD[a])])
    if r2 is DIV:
        return compare(name, DIV, (), m, 'digest', fn)
    return compare(name, m.mem[o], m.mem[p], m, 'digest of %d+%d+%d bytes fed in three updates against one update' % (x, y, z), fn, {'message': i})


def c04(tier):
    ts = []
    for a in HB:
        bl = HB[a]
        e = [0, 1, bl - 1, bl, bl + 1]
        ps = {(x, y, z) for x in e for y in e for z in (0, 1, bl)}
        ps |= {(bl // 2, bl // 2, 3), (bl // 2, bl // 2 - 1, 1), (5, 2 * bl - 5, 2), (5, 2 * bl - 6, 7), (bl - 9, 9, 0),
               (bl - 9, 8, 1), (3, 2 * bl + 1, bl - 4), (2 * bl, 2 * bl, 1), (2 * bl - 1, 1, 2 * bl)}
        if tier == 'thorough':
            ps |= {(x, y, 1) for x in range(0, bl + 1, 3) for y in (1, 2, bl - x if bl > x else 1, bl, bl - x + 1, 2 * bl - x)}
        elif a in ('384', '224'):
            ps = {p for p in ps if p[2] == 1}
        ts += [('sha%s/%d+%d+%d' % ((a,) + p), t_split, (a,) + p, 200) for p in sorted(ps)]
    return ts


# ---------------------------------------------------------------- C05
def t_hmac(a, kl, x, y):
    m = machine()
    k, i, j = inp(m, 'key', kl), inp(m, 'msg1', x), inp(m, 'msg2', y)
    o = m.new((0xaa,) * HD[a])
    name = 'hmac-sha%s/key %d msg %d+%d' % (a, kl, x, y)
    fn = 'Hmac<Sha%s>::{new,update,tag}' % a
    r = m.call(root('m' + a), [sl(m, k), sl(m, i), sl(m, j), Ptr(o, (0,), HD[a])])
    if r is DIV:
        return compare(name, DIV, (), m, 'tag', fn)
    if r != HD[a]:
        return Ob(name, BAD, 'tag length is %r, not the digest size' % r, fn, key='hmac-len')
    return compare(name, m.mem[o], spec.hmac(m.D, 'sha' + a, k, i + j), m, 'HMAC-SHA-%s, %d-byte key, %d-byte message' % (a, kl, x + y), fn,
                   {'key': k, 'msg1': i, 'msg2': j})


def t_hmac1(a, kl, n):
    m = machine()
    k, i = inp(m, 'key', kl), inp(m, 'msg', n)
    name = 'hmac_sha%s()/key %d msg %d' % (a, kl, n)
    fn = 'hmac::hmac_sha' + a
    r = m.call(root('hmac_sha' + a), [sl(m, k), sl(m, i)])
    return compare(name, r, spec.hmac(m.D, 'sha' + a, k, i), m, 'HMAC-SHA-%s' % a, fn, {'key': k, 'msg': i})


def force(va, vs, xs):
    """fix the bits of input cells in a valuation"""
    for v, x in zip(vs, xs):
        for j, b in enumerate(v.s.b):
            (mo,) = b
            (at,) = A.mono[mo]
            va.memo[at] = (x >> j) & 1


DELTAS = [{}, {0: 1}, {-1: 1}, {-1: 0x80}, {0: 0x80}, {3: 0x40}, {0: 1, 1: 1}, {2: 0x80, -1: 0x80}, {0: 1, -1: 1}, {0: 0x80, 1: 0x80},
          {0: 1, 1: 0xff}, {7: 2, 8: 2}, {5: 4}, {-2: 8}, {0: 0xff, 1: 0xff}, {1: 0x7f, 2: 0x81}, {-1: 0x10}]


def verdict(name, got, exp, tag, m, what, fn):
    """got must be the predicate  exp == tag"""
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    d = m.D
    fs = set()
    for x, y in zip(exp, tag):
        bx = d.vbits(d.bitop('BitXor', x, y, it(8)), it(8))
        if bx is None:
            return Ob(name, UNK, 'tag without normal form', fn, stats=st)
        fs |= {i for i in bx if i}
    want = d.mkB(it(1), (dom.anf_atom(A.get(('eqz', frozenset(fs)), 0, 1)),), 0)
    try:
        if got is not DIV and vkey(got) == vkey(want):
            return Ob(name, OK, '', fn, stats=st)
    except Lost:
        return Ob(name, UNK, 'verdict has no normal form', fn, stats=st)
    if got is DIV:
        return Ob(name, BAD, '%s: never returns' % what, fn, stats=st)
    for dl in DELTAS + [{b: 1 << c} for b in range(len(tag)) for c in range(8)]:
        va = Valuation(1)
        try:
            e = [va.val(x, it(8)) & 255 for x in exp]
            t = list(e)
            for q, x in dl.items():
                t[q] ^= x
            force(va, tag, t)
            g = va.val(got, it(1)) & 1
        except Lost as ex:
            return Ob(name, UNK, 'verdict not comparable: %s' % ex, fn, stats=st)
        if g != int(not dl):
            return Ob(name, BAD, '%s: verdict %s for a tag that %s the correct one%s' % (
                what, bool(g), 'differs from' if dl else 'equals', ' in byte(s) %s' % sorted(dl) if dl else ''), fn, stats=st)
    return Ob(name, UNK, 'verdict is in another normal form but agrees on the tried tags', fn, stats=st)


def t_hverify(a, kl, n, tl):
    m = machine()
    k, i, t = inp(m, 'key', kl), inp(m, 'msg', n), inp(m, 'tag', tl)
    name = 'verify-sha%s/key %d msg %d tag %d' % (a, kl, n, tl)
    fn = 'hmac::verify<Sha%s>' % a
    r = m.call(root('v' + a), [sl(m, k), sl(m, i), sl(m, t)])
    if tl != HD[a]:
        if r == 0:
            return Ob(name, OK, '', fn)
        if r is DIV:
            return Ob(name, BAD, 'verify with a tag of the wrong length %d does not return: %s' % (tl, events(m)), fn, key='verify-len')
        return Ob(name, BAD if r == 1 else UNK, 'a tag of the wrong length %d is not always rejected' % tl, fn, key='verify-len')
    return verdict(name, r, spec.hmac(m.D, 'sha' + a, k, i), t, m, 'hmac::verify<Sha%s>' % a, fn)


def c05(tier):
    ts = []
    for a in HB:
        bl, dl = HB[a], HD[a]
        kls = [0, 1, dl, bl - 1, bl, bl + 1, 2 * bl + 3]
        mls = [(0, 0), (5, 0), (3, bl - 3), (bl, 1)]
        if tier == 'thorough':
            kls = list(range(0, bl + 4)) + [2 * bl - 1, 2 * bl, 2 * bl + 1]
            mls += [(bl - 1, bl + 1), (0, 7), (bl - 17, 0)]
        ts += [('hmac-sha%s/key %d msg %d+%d' % (a, k, x, y), t_hmac, (a, k, x, y), 250) for k in kls for x, y in mls]
        ts += [('hmac_sha%s()/key %d' % (a, k), t_hmac1, (a, k, 9), 250) for k in (3, bl, bl + 1)]
        ts += [('verify-sha%s/tag %d' % (a, t), t_hverify, (a, 20, 7, t), 250) for t in (0, 1, dl - 1, dl, dl + 1, 2 * dl)]
    return ts


# ---------------------------------------------------------------- C06
def t_extract(a, s, n):
    m = machine()
    k, i = inp(m, 'salt', s), inp(m, 'ikm', n)
    o = m.new((0xaa,) * HD[a])
    name = 'extract-sha%s/salt %d ikm %d' % (a, s, n)
    fn = 'hkdf::extract<Sha%s>' % a
    r = m.call(root('x' + a), [sl(m, k), sl(m, i), Ptr(o, (0,), HD[a])])
    return compare(name, r if r is DIV else m.mem[o], spec.hkdf_extract(m.D, 'sha' + a, k, i), m, 'HKDF-Extract', fn, {'salt': k, 'ikm': i})


def t_expand(a, p, n, L):
    m = machine()
    k, i = inp(m, 'prk', p), inp(m, 'info', n)
    o = m.new((0xaa,) * L)
    name = 'expand-sha%s/prk %d info %d okm %d' % (a, p, n, L)
    fn = 'hkdf::expand<Sha%s>' % a
    r = m.call(root('e' + a), [sl(m, k), sl(m, i), Ptr(o, (0,), L)])
    return compare(name, r if r is DIV else m.mem[o], spec.hkdf_expand(m.D, 'sha' + a, k, i, L), m, 'HKDF-Expand to %d bytes' % L, fn,
                   {'prk': k, 'info': i})


def c06(tier):
    ts = []
    for a in HB:
        bl, dl = HB[a], HD[a]
        ts += [('extract-sha%s/salt %d ikm %d' % (a, s, n), t_extract, (a, s, n), 250) for s, n in ((0, 5), (13, 22), (bl, 0), (bl + 1, 80))]
        Ls = [0, 1, dl - 1, dl, dl + 1, 2 * dl, 2 * dl + 3, 3 * dl]
        ts += [('expand-sha%s/okm %d' % (a, L), t_expand, (a, dl, 10, L), 400) for L in Ls]
        ts += [('expand-sha%s/prk+' % a, t_expand, (a, dl + 7, 0, dl + 1), 400), ('expand-sha%s/prk+' % a, t_expand, (a, bl + 1, 1, 2 * dl), 400)]
        if tier == 'thorough':
            ts += [('expand-sha%s/okm %d' % (a, L), t_expand, (a, dl, 60, L), 800) for L in (4 * dl + 1, 7 * dl, 8 * dl - 1)]
    return ts
