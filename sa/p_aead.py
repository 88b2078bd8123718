"""AEAD modes: conformance (C07), round trip (C09), release of plaintext (A01), tag verification (A02)."""
from common import *
from tdom import TDom
import p_sym
import spec

KL = {'gcm128': 16, 'gcm192': 24, 'gcm256': 32, 'chapoly': 32}
NAME = {'gcm128': 'Gcm<Aes128>', 'gcm192': 'Gcm<Aes192>', 'gcm256': 'Gcm<Aes256>', 'chapoly': 'ChaCha20Poly1305'}


def tmachine(**k):
    """term mode: equal computations on equal values stay equal"""
    dom.MAXANF = 4000
    sys.setrecursionlimit(60000)
    m = Machine(PROG_(), TDom(**k))
    m.span = ''
    return m


def PROG_():
    import common
    return common.PROG


def named(d, bs):
    """every bit replaced by an atom that stands for its form"""
    return tuple(d.mkB(it(8), tuple(dom.cut(b) if b and b != dom.F1 else b for b in d.vbits(x, it(8))), 0) if x.__class__ is not int else x
                 for x in bs)


# ---------------------------------------------------------------- C09
def t_roundtrip(a, n, d):
    m = tmachine()
    k, no, ad, i = inp(m, 'key', KL[a]), inp(m, 'nonce', 12), inp(m, 'ad', d), inp(m, 'msg', n)
    o, p = m.new((0,) * n), m.new((0x5a,) * n)
    name = 'roundtrip/%s msg %d ad %d' % (a, n, d)
    fn = NAME[a] + '::{encrypt,decrypt}'
    r = m.call(root(a + '_r'), [sl(m, k), sl(m, no), sl(m, ad), sl(m, i), Ptr(o, (0,), n), Ptr(p, (0,), n)])
    if r is DIV:
        return compare(name, DIV, (), m, 'seal then open', fn)
    return compare(name, (r,) + tuple(m.mem[p]), (1,) + i, m, 'verdict (cell 0) and message recovered by open(seal(m))', fn,
                   {'key': k, 'nonce': no, 'ad': ad, 'msg': i})


SH = [(0, 0), (0, 5), (1, 0), (15, 3), (16, 16), (17, 1), (20, 20), (33, 17)]
SHC = [(63, 5), (64, 0), (65, 16), (130, 33), (256, 1)]


def c09(tier):
    ts = []
    for a in KL:
        s = SH + (SHC if a == 'chapoly' or tier == 'thorough' else [])
        if a in ('gcm192', 'gcm256') and tier != 'thorough':
            s = [x for x in s if x in ((0, 0), (17, 1), (16, 16), (33, 17))]
        if tier == 'thorough':
            s = s + [(n, d) for n in range(2, 50, 5) for d in (0, 7, 31)]
        ts += [('roundtrip/%s msg %d ad %d' % ((a,) + x), t_roundtrip, (a,) + x, 500) for x in s]
    return sorted(ts, key=lambda t: -t[2][1])


# ---------------------------------------------------------------- A01 / A02
def opened(a, n, d):
    """seal an arbitrary message, then open the ciphertext with an arbitrary tag"""
    m = tmachine()
    k, no, ad, i = inp(m, 'key', KL[a]), inp(m, 'nonce', 12), inp(m, 'ad', d), inp(m, 'msg', n)
    old, t = inp(m, 'old', n), inp(m, 'tag', 16)
    o, p = m.new((0,) * n), m.new(old)
    tag = m.call(root(a + '_s'), [sl(m, k), sl(m, no), sl(m, ad), sl(m, i), Ptr(o, (0,), n)])
    if tag is DIV:
        return m, i, old, t, tag, DIV, None
    r = m.call(root(a + '_o'), [sl(m, k), sl(m, no), sl(m, ad), sl(m, m.mem[o]), Ptr(p, (0,), n), sl(m, t)])
    return m, i, old, t, tag, r, m.mem.get(p)


def t_verdict(a, n, d):
    m, i, old, t, tag, r, out = opened(a, n, d)
    return p_sym.verdict('verdict/%s msg %d ad %d' % (a, n, d), r, tag, t, m, NAME[a] + '::decrypt', NAME[a] + '::decrypt')


def t_release(a, n, d):
    m, i, old, t, tag, r, out = opened(a, n, d)
    name, fn = 'release/%s msg %d ad %d' % (a, n, d), NAME[a] + '::decrypt'
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    if r is DIV:
        return compare(name, DIV, (), m, 'open', fn)
    D = m.D
    try:
        if r.__class__ is int:
            want = i if r else old
        else:
            v = D.vbits(r, it(1))[0]
            want = [D.join(x, y, None, v) for x, y in zip(i, old)]
        if all(vkey(x) == vkey(y) for x, y in zip(out, want)):
            return Ob(name, OK, '', fn, stats=st)
    except Lost:
        pass
    for dl in p_sym.DELTAS + [{b: 1 << c} for b in range(16) for c in range(8)]:
        va = Valuation(1)
        try:
            e = [va.val(x, it(8)) & 255 for x in tag]
            for q, x in dl.items():
                e[q] ^= x
            p_sym.force(va, t, e)
            g = va.val(r, it(1)) & 1
            o = [va.val(x, it(8)) & 255 for x in out]
            w = [va.val(x, it(8)) & 255 for x in (i if g else old)]
        except (Lost, AttributeError) as ex:
            return Ob(name, UNK, 'output not comparable: %s' % ex, fn, stats=st)
        if o != w:
            q = [j for j in range(n) if o[j] != w[j]]
            return Ob(name, BAD, '%s: on verdict %s output byte(s) %s are %s' % (
                fn, bool(g), q[:6], 'not the plaintext' if g else 'changed from what the caller\'s buffer held'), fn, stats=st)
    return Ob(name, UNK, 'output is in another normal form but agrees at the tried tags', fn, stats=st)


def t_taglen(a, tl, what):
    """a tag that is not 16 bytes long is refused (or the call does not return), the output is not written"""
    m = machine(False)
    n = 20
    i = tuple(m.D.fresh(it(8)) for _ in range(n))
    args = [tuple(m.D.fresh(it(8)) for _ in range(q)) for q in (KL[a], 12, 3)]
    old = tuple(m.D.fresh(it(8)) for _ in range(n))
    p = m.new(old)
    t = tuple(m.D.fresh(it(8)) for _ in range(tl))
    wr = []
    r = m.call(root(a + '_o'), [sl(m, x) for x in args] + [sl(m, i), Ptr(p, (0,), n), sl(m, t)])
    name, fn = 'tag-length/%s %d' % (a, tl), NAME[a] + '::decrypt'
    if r is DIV:
        return Ob(name, OK, '', fn)
    if r != 0:
        return Ob(name, BAD if r == 1 else UNK, 'a tag of %d bytes is not always rejected' % tl, fn, key='taglen')
    if what == 'A01' and not all(x is y for x, y in zip(m.mem[p], old)):
        return Ob(name, BAD, 'a tag of %d bytes is rejected but the output buffer is written' % tl, fn, key='taglen-out')
    return Ob(name, OK, '', fn)


def amk(fn, what):
    def f(tier):
        ts = []
        for a in KL:
            s = [x for x in SH if x[0] or what == 'A02']
            if tier == 'thorough':
                s = s + SHC + [(n, d) for n in (2, 7, 31, 32, 47, 48) for d in (0, 7, 31)]
            elif a != 'gcm128' and a != 'chapoly':
                s = [x for x in s if x in ((0, 5), (17, 1), (16, 16), (33, 17))]
            elif a == 'chapoly':
                s = s + [(65, 16)]
            ts += [('%s/%s msg %d ad %d' % ((what, a) + x), fn, (a,) + x, 600) for x in s]
            ts += [('tag-length/%s %d' % (a, tl), t_taglen, (a, tl, what), 120) for tl in (0, 1, 8, 12, 15, 17, 32)]
        return sorted(ts, key=lambda t: -t[2][1] if t[1] is fn else 0)
    return f


a01 = amk(t_release, 'A01')
a02 = amk(t_verdict, 'A02')


# ---------------------------------------------------------------- C07
def name_permute(m, f, args):
    """the block cipher runs as it is; the bits of its result are then named"""
    if not (f.crate == 'crypto_pure' and f.name.endswith('::permute')):
        return NotImplemented
    r = m.run(f, args)
    if r is DIV or r.__class__ is not tuple:
        return r
    m.named += 1
    return named(m.D, r)


def t_gcm(a, n, d):
    dom.CUT = 64
    m = machine()
    m.named = 0
    m.generic_hooks.append(name_permute)
    k, no, ad, i = inp(m, 'key', KL[a]), inp(m, 'nonce', 12), inp(m, 'ad', d), inp(m, 'msg', n)
    o = m.new((0,) * n)
    name, fn = 'seal/%s msg %d ad %d' % (a, n, d), NAME[a] + '::encrypt'
    tag = m.call(root(a + '_s'), [sl(m, k), sl(m, no), sl(m, ad), sl(m, i), Ptr(o, (0,), n)])
    if tag is DIV:
        return compare(name, DIV, (), m, 'seal', fn)
    rk = spec.aes_expand(m.D, k)
    ct, t = spec.gcm(m.D, lambda b: named(m.D, spec.aes_block(m.D, rk, b)) if m.named else spec.aes_block(m.D, rk, b), no, ad, i)
    return compare(name, tuple(m.mem[o]) + tuple(tag), ct + t, m, 'AES-GCM ciphertext (cells 0..%d) and tag' % n, fn,
                   {'key': k, 'nonce': no, 'ad': ad, 'msg': i})


def c07(tier):
    ts = []
    for a in ('gcm128', 'gcm192', 'gcm256'):
        s = [(0, 0), (0, 1), (1, 0), (15, 3), (16, 16), (17, 15), (31, 33), (32, 17), (33, 2), (80, 70)]
        if tier == 'thorough':
            s += [(n, d) for n in range(0, 50) for d in (0, 1, 15, 16, 17)] + [(300, 100), (40, 300)]
        elif a != 'gcm128':
            s = [(0, 0), (17, 15), (33, 2), (80, 70)]
        ts += [('seal/%s msg %d ad %d' % ((a,) + x), t_gcm, (a,) + x, 500) for x in s]
    return sorted(ts, key=lambda t: -t[2][1])


# ---------------------------------------------------------------- C08
def t_chapoly(n, d):
    import p_curve
    import ring
    from ring import R1305, N, radd, rmul, value
    m = p_curve.rmachine()
    D = m.D
    k, no, ad, i = inp(m, 'key', 32), inp(m, 'nonce', 12), inp(m, 'ad', d), inp(m, 'msg', n)
    o = m.new((0,) * n)
    name = 'seal/chapoly msg %d ad %d' % (n, d)
    fn = 'ChaCha20Poly1305::encrypt'
    r = m.call(root('chapoly_s'), [sl(m, k), sl(m, no), sl(m, ad), sl(m, i), Ptr(o, (0,), n)])
    if r is DIV:
        return compare(name, DIV, (), m, 'RFC 8439', fn)
    op = spec.Ops(D, 8)
    ct = []
    for b in range(0, n, 64):
        ct += [op.xor(x, y) for x, y in zip(i[b:b + 64], spec.chacha_block(D, k, 1 + b // 64, no))]
    pk = spec.chacha_block(D, k, 0, no)
    mask = (0x0ffffffc0ffffffc0ffffffc0fffffff).to_bytes(16, 'little')
    rb = [D.bitop('BitAnd', x, y, it(8)) for x, y in zip(pk, mask)]

    def num(bs):
        return value(R1305, P_(D, bs))
    R = num(rb)
    H = ring.const(R1305, 0)
    blocks = [list(s[j:j + 16]) for s in (ad, ct) for j in range(0, len(s), 16)]
    blocks = [b + [0] * (16 - len(b)) for b in blocks] + [list(d.to_bytes(8, 'little') + n.to_bytes(8, 'little'))]
    for b in blocks:
        H = N(rmul(radd(H, num(b + [1])), R))
    want = ring.tagbytes(D, H, P_(D, pk[16:32]))

    def edges():
        """plaintexts that bring the accumulator to the ends of its range, so that the last reduction matters"""
        js = [j for j in range(len(blocks) - 1) if all(x.__class__ is V for x in blocks[j])]
        if not js:
            return
        p = R1305.p
        for seed in range(40):
            va = Valuation(1000 + seed)
            ev = [sum(va.val(x, it(8)) << 8 * q for q, x in enumerate(b)) + (1 << 128) for b in blocks]
            rv = ring.ev_rp(va, R)
            if not rv:
                continue
            j = js[-1]
            ri = pow(rv, -1, p)
            for t in (0, 1, 2, 3, 4, 5, 6, p - 1, p - 2, (1 << 128) - 1, 1 << 128, (1 << 129), (1 << 129) - 1):
                h = t
                for b in ev[:j:-1]:
                    h = (h * ri - b) % p
                c = h * ri % p
                for b in ev[:j]:
                    pass
                h0 = 0
                for b in ev[:j]:
                    h0 = (h0 + b) * rv % p
                c = (c - h0) % p - (1 << 128)
                if 0 <= c < 1 << 128:
                    at = 16 * (j - (d + 15) // 16)
                    if at < 0:                       # the free block is associated data
                        src, at, ks = ad, 16 * j, 0
                    else:
                        src, ks = i, c_ks(va, ct[at:at + 16], i[at:at + 16])
                    yield va, src[at:at + 16], c ^ ks
    return p_curve.note(m, compare(name, tuple(r) + tuple(m.mem[o]), tuple(want) + tuple(ct), m,
                                   'tag (cells 0..15) and ciphertext of RFC 8439 sealing', fn, {'key': k, 'nonce': no, 'ad': ad, 'msg': i}, extra=preset(edges)))


def P_(D, bs):
    p = dom.pconst(0)
    for j, b in enumerate(bs):
        p = dom.padd(p, D.poly(b), 1 << 8 * j)
    return p


def c_ks(va, ct, pt):
    return sum((va.val(x, it(8)) ^ va.val(y, it(8))) << 8 * q for q, (x, y) in enumerate(zip(ct, pt)))


def preset(g):
    """assignments equal to va on every input but the given bytes"""
    def run():
        for va, bs, x in g():
            nv = Valuation(va.seed)
            nv.memo = {q: w for q, w in va.memo.items() if q.__class__ is int and dom.A.key[q][0] == 'in'}
            for j, b in enumerate(bs):
                for q, f in enumerate(D_bits(b)):
                    nv.memo[dom.A.mono[next(iter(f))][0]] = x >> (8 * j + q) & 1
            yield nv
    return run


def D_bits(b):
    return bitsof(b, it(8))


def c08(tier):
    s = [(0, 1), (1, 0), (15, 16), (16, 3), (17, 17), (32, 0), (33, 31), (64, 5), (65, 0), (130, 20), (0, 40)]
    if tier == 'thorough':
        s += [(n, d) for n in range(0, 70, 3) for d in (0, 1, 15, 16, 17, 33)] + [(300, 100), (40, 300), (600, 5)]
    return sorted([('seal/chapoly msg %d ad %d' % x, t_chapoly, x, 700) for x in sorted(set(s))], key=lambda t: -t[2][0] - t[2][1])
