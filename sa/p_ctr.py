"""Uniqueness of key-stream block counters (S05): the recurrence of the counter is checked at far values."""
from common import *
from p_aead import tmachine, KL, NAME, PROG_
import spec

BL = {'gcm128': 16, 'gcm192': 16, 'gcm256': 16, 'chapoly': 64}
FIRST = {'gcm128': 2, 'gcm192': 2, 'gcm256': 2, 'chapoly': 1}


class Done(Exception):
    pass


def framed(m):
    """keep the frames (function, first local) of the running calls"""
    m.frames = []
    run = m.run

    def r(f, args):
        m.frames.append((f, m.nobj))
        try:
            return run(f, args)
        finally:
            m.frames.pop()
    m.run = r
    return m


def ints(P, t, v, path=()):
    """typed integer leaves of a local: (path, bits, value); groups of bytes as (path, -n, bytes)"""
    x = P.types[t]
    k = x['k']
    if k == 'pat':
        yield from ints(P, x['elem'], v, path)
    elif k == 'int':
        if v.__class__ is int:
            yield path, x['bits'], v
    elif k in ('tuple', 'closure') or k == 'adt' and x['adt'] == 'struct':
        fs = P.fields(t)
        if v.__class__ is tuple and len(v) == len(fs):
            for i, f in enumerate(fs):
                yield from ints(P, f, v[i], path + (i,))
    elif k == 'array' and v.__class__ is tuple and len(v) <= 64:
        e = P.types[x['elem']]
        for i in range(len(v)):
            yield from ints(P, x['elem'], v[i], path + (i,))
        if e['k'] == 'int' and e['bits'] == 8:
            for i in range(0, len(v) - 3):
                if all(q.__class__ is int for q in v[i:i + 4]):
                    yield path + (i,), -4, v[i:i + 4]


def snap(m):
    r = {}
    for d, (f, base) in enumerate(m.frames):
        for i, t in enumerate(f.locals):
            v = m.mem.get(base + i)
            if v is None or v.__class__ is str:
                continue
            for p, b, x in ints(PROG_(), t, v):
                r[d, f.id, i, p, b] = x
    return r


def put(v, path, x):
    if not path:
        return x
    return v[:path[0]] + (put(v[path[0]], path[1:], x),) + v[path[0] + 1:]


def inject(m, leaf, val):
    d, fid, i, p, b = leaf
    f, base = m.frames[d]
    o = base + i
    if b > 0:
        m.mem[o] = put(m.mem[o], p, val)
    else:
        for j, x in enumerate(val):
            m.mem[o] = put(m.mem[o], p[:-1] + (p[-1] + j,), x)


def ks_block(m, a, key, nonce, c):
    """key-stream block number c as the reference says"""
    if a == 'chapoly':
        return spec.chacha_block(m.D, key, c, nonce)
    blk = tuple(nonce) + tuple(c.to_bytes(4, 'big'))
    return m.call(root('aes' + a[3:]), [sl(m, key), Ptr(m.new(blk), ())])


def run(a, nb, dec, at, ad=0, nth=None, leaf=None, val=None):
    """seal (or open a sealed) message of nb blocks, the last one partial.
    nth None: count how often the first cell of each block is written, with a snapshot at the last write of the blocks
    at .. at+2; otherwise inject val into a leaf at the nth write of block `at`."""
    m = framed(tmachine())
    dom.MAXANF = 40
    B = BL[a]
    n = nb * B - B + 3
    k, no, i, x = inp(m, 'key', KL[a]), inp(m, 'nonce', 12), inp(m, 'msg', n), inp(m, 'ad', ad)
    old = inp(m, 'old', n)
    o, p = m.new(old), m.new(old)
    out = p if dec else o
    last = [old[j * B] for j in range(nb)] + [old[n - 1]]
    cnt = [0] * (nb + 1)
    sn = {}

    def watch(mm, f, args):
        c = mm.mem.get(out)
        if c is None:
            return NotImplemented
        for j in range(nb + 1):
            q = j * B if j < nb else n - 1
            if c[q] is not last[j]:
                last[j] = c[q]
                cnt[j] += 1
                if nth is None:
                    if at <= j <= at + 2:
                        sn[j] = snap(mm)
                    continue
                if cnt[j] != nth[j]:
                    continue
                if j == at and not sn:
                    sn['in'] = 1
                    try:
                        inject(mm, leaf, val)
                    except (IndexError, TypeError, KeyError):
                        sn['in'] = 0
        if nth is not None and not dec and cnt == nth:
            sn['out'] = c
            raise Done()
        return NotImplemented
    m.generic_hooks.append(watch)
    try:
        if dec:
            r = m.call(root(a + '_r'), [sl(m, k), sl(m, no), sl(m, x), sl(m, i), Ptr(o, (0,), n), Ptr(p, (0,), n)])
        else:
            r = m.call(root(a + '_s'), [sl(m, k), sl(m, no), sl(m, x), sl(m, i), Ptr(o, (0,), n)])
        if r is not DIV:
            r = m.mem[out]
    except Done:
        r = sn['out']
    del m.frames[:], m.stack[:]
    m.generic_hooks.remove(watch)
    return m, k, no, (m.mem.get(o) if dec else i), r, sn, cnt


def counters(a, m, k, no, src, out, cands):
    """per output block the counter whose key stream it carries, or None"""
    D = m.D
    r = []
    B = BL[a]
    kb = {}
    for j in range(0, len(out), B):
        hit = None
        for c in cands(j // B):
            if not 0 <= c < 1 << 32:
                continue
            if c not in kb:
                kb[c] = ks_block(m, a, k, no, c)
            w = [D.bitop('BitXor', x, y, it(8)) for x, y in zip(src[j:j + B], kb[c])]
            if all(vkey(x) == vkey(y) for x, y in zip(out[j:j + B], w)):
                hit = c
                break
        r.append(hit)
    return r


AT, NB = 1, 5


def tup(x):
    return x if x.__class__ is int else int.from_bytes(bytes(x), 'big')


def candidates(sn):
    """leaves that follow the block number: (leaf, byte order or None, value at AT)"""
    r = []
    s = [sn.get(AT + q) for q in range(3)]
    if None in s:
        return r
    for l in s[0]:
        if l not in s[1] or l not in s[2]:
            continue
        x = [q[l] for q in s]
        if l[4] > 0:
            if x[1] - x[0] == 1 and x[2] - x[1] == 1:
                r.append((l, None, x[0]))
        else:
            for bo in ('big', 'little'):
                y = [int.from_bytes(bytes(q), bo) for q in x]
                if y[1] - y[0] == 1 and y[2] - y[1] == 1:
                    r.append((l, bo, y[0]))
    return r


def value(c, x):
    l, bo, _ = c
    if not 0 <= x < 1 << (l[4] if bo is None else 32):
        return None
    return x if bo is None else tuple(x.to_bytes(4, bo))


def perturbed(a, dec, cnt, c, delta):
    """run with the leaf advanced by delta at block AT: (machine, expectation pieces, result)"""
    v = value(c, c[2] + delta)
    if v is None:
        return None
    return run(a, NB, dec, AT, 0, cnt, c[0], v)


def first_shifted(a, res, delta):
    """index of the first block that carries the shifted counter, if all blocks are as expected"""
    m, k, no, src, r, sn, _ = res
    if r is DIV:
        return None
    F0 = FIRST[a]
    h = counters(a, m, k, no, src, r, lambda j: (j + F0, j + F0 + delta))
    for q in range(AT + 1, NB - 1):
        if h == [j + F0 + (delta if j >= q else 0) for j in range(NB)]:
            return q
    return None


def locate(a, dec):
    """the leaves that determine the counters of later blocks, each with the first block it determines"""
    m, k, no, src, r, sn, cnt = run(a, NB, dec, AT)
    if r is DIV:
        return cnt, [], m
    out = []
    for c in candidates(sn):
        q = None
        for dl in (40, 100):
            res = perturbed(a, dec, cnt, c, dl)
            try:
                x = first_shifted(a, res, dl) if res else None
            except Lost:
                x = None
            if x is None or q not in (None, x):
                q = None
                break
            q = x
        if q is not None:
            out.append((c, q))
    return cnt, out, m


def where(c):
    f = PROG_().fns[c[0][1]]
    n = f.names.get(c[0][2]) if f.names else None
    return '%s, %s' % (short(f.name), 'variable `%s`' % n if n else 'local _%d' % c[0][2])


def short(n):
    return n.replace('crypto_pure::', '')


def t_far(a, dec, Fs):
    op = 'decrypt' if dec else 'encrypt'
    fn = NAME[a] + '::' + op
    grp = 'counter/%s %s' % (a, op)
    cnt, ls, m0 = locate(a, dec)
    st = {'calls': sum(m0.calls.values()), 'fns': tuple(sorted(m0.calls))}
    if not ls:
        return Ob(grp, UNK, 'the variable that determines the block counter was not identified', fn, stats=st)
    obs = []
    for F in Fs:
        best = None
        for c, q in ls:
            delta = F - (q + FIRST[a])
            o = far(a, dec, cnt, c, q, F, delta, fn, op)
            if o is None:
                continue
            if best is None or {OK: 0, UNK: 1, BAD: 2}[o.status] > {OK: 0, UNK: 1, BAD: 2}[best.status]:
                best = o
        if best is None:
            best = Ob('%s from %d' % (grp, F), UNK, 'the counter variable cannot hold this value', fn)
        obs.append(best)
    obs[0].stats = st
    return obs


def far(a, dec, cnt, c, q, F, delta, fn, op):
    name = 'counter/%s %s from %d' % (a, op, F)
    res = perturbed(a, dec, cnt, c, delta)
    if res is None:
        if c[1] is None and c[0][4] < 32 and F < 1 << 32:
            return None
        return None
    m, k, no, src, r, sn, _ = res
    if r is DIV:
        e = [e for e in m.events.values() if e.must and 'overflow' in e.msg]
        if e:
            return Ob(name, BAD, 'the block counter overflows at %d: %s at %s (%s)' % (F, e[0].msg, rel(e[0].span), where(c)), fn, key=name)
        return Ob(name, UNK, 'call diverges with the counter set to %d: %s' % (F, events(m)), fn)
    want = [j + FIRST[a] + (delta if j >= q else 0) for j in range(NB)]
    h = counters(a, m, k, no, src, r, lambda j: (want[j], want[j] & 0xff, want[j] & 0xffff, want[j] & 0xffffff, j + FIRST[a]))
    if h == want:
        return Ob(name, OK, '', fn)
    j = [i for i in range(NB) if h[i] != want[i]][0]
    B = BL[a]
    off = B * (want[j] - FIRST[a])
    if h[j] is None:
        ks = ks_block(m, a, k, no, want[j])
        w = [m.D.bitop('BitXor', x, y, it(8)) for x, y in zip(src[j * B:j * B + B], ks)]
        for sd in range(1, 4):
            va = Valuation(sd)
            try:
                g = [va.val(x, it(8)) & 255 for x in r[j * B:j * B + B]]
                e = [va.val(x, it(8)) & 255 for x in w]
            except (Lost, AttributeError, TypeError) as ex:
                return Ob(name, UNK, 'block not comparable: %s' % ex, fn)
            if g != e:
                break
        else:
            return Ob(name, UNK, 'block with counter %d not recognised' % want[j], fn)
        what = 'is not encrypted with key-stream block %d' % want[j]
    else:
        what = 'is encrypted with key-stream block %d instead of %d' % (h[j], want[j])
    return Ob(name, BAD, 'the data at byte offset %d %s (counter kept in %s)' % (off, what, where(c)), fn, key=name)


def t_near(a, dec, nb):
    """blocks from the start: no counter used twice"""
    op = 'decrypt' if dec else 'encrypt'
    name = 'start/%s %s %d blocks' % (a, op, nb)
    fn = NAME[a] + '::' + op
    m, k, no, src, r, sn, cnt = run(a, nb, dec, AT)
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    if r is DIV:
        return Ob(name, UNK, 'call diverges: %s' % events(m), fn, stats=st)
    F0 = FIRST[a]
    h = counters(a, m, k, no, src, r, lambda j: [j + F0] + list(range(nb + 3)))
    if h == [j + F0 for j in range(nb)]:
        return Ob(name, OK, '', fn, stats=st)
    j = [i for i in range(nb) if h[i] != i + F0][0]
    if h[j] is not None:
        return Ob(name, BAD, 'data block %d is encrypted with key-stream block %d instead of %d' % (j, h[j], j + F0), fn, key=name, stats=st)
    return Ob(name, UNK, 'data block %d not recognised' % j, fn, stats=st)


def s05(tier):
    th = tier == 'thorough'
    F = sorted({(1 << k) - 1 for k in range(8, 32)} | {(1 << 32) - 4, 1000, 99999, 0x12345678, 0x80000000, 0xfedcba98})
    if th:
        F = sorted(set(F) | {(1 << k) + x for k in range(8, 32) for x in (-2, 0, 1)} | {3 << k for k in range(8, 30)})
    ts = []
    for a in KL:
        for dec in (0, 1):
            FF = F
            if not th:
                if dec or a in ('gcm192', 'gcm256'):
                    FF = [255, 65535, (1 << 24) - 1, (1 << 31) - 1, (1 << 32) - 4]
            step = 20 if a == 'gcm128' or th else 40
            for j in range(0, len(FF), step):
                ts.append(('counter/%s %s %d..' % (a, 'decrypt' if dec else 'encrypt', FF[j]), t_far, (a, dec, FF[j:j + step]), 600))
            for nb in ((2, 9) if not th else (2, 3, 6, 9, 17, 33)):
                ts.append(('start/%s %s %d blocks' % (a, 'decrypt' if dec else 'encrypt', nb), t_near, (a, dec, nb), 600))
    return sorted(ts, key=lambda t: -len(t[2][2]) if t[1] is t_far else 0)
