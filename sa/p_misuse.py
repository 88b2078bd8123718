"""Documented preconditions (S03) and malformed Ed25519 signatures (A03): interval domain, lengths constant."""
from common import *
import p_light

L_LE = ((1 << 252) + 27742317777372353535851937790883648493).to_bytes(32, 'little')


class Accepted(Exception):
    pass


def light_run(name, shape, limit=None, cells=None):
    """shape: (kind, length) with kind s (input slice), o (output slice), a (reference to array).
    Returns (machine, result, outputs written at some panic)"""
    m = machine(False)
    args, outs = [], []
    for i, (k, n) in enumerate(shape):
        v = (cells or {}).get(i)
        if v is None:
            v = tuple(m.D.fresh(it(8)) for _ in range(min(n, 4096)))
        o = m.new(v)
        if k == 'o':
            outs.append((o, v))
        args.append(Ptr(o, ()) if k == 'a' else Ptr(o, (0,), n))
    wrote = []
    ev = m.event

    def event(kind, span, msg, *a, **kw):
        if kind in ('panic', 'assert') and not wrote:
            for o, v in outs:
                if m.mem.get(o) is not v and tuple(m.mem.get(o) or ()) != tuple(v):
                    wrote.append('%s (%s)' % (msg, rel(span)))
        return ev(kind, span, msg, *a, **kw)
    m.event = event
    count = [0]

    def budget(mm, f, a):
        count[0] += 1
        if count[0] > limit:
            raise Accepted()
        return NotImplemented
    if limit:
        m.generic_hooks.append(budget)
    try:
        r = m.call(root(name), args)
    except Accepted:
        r = Accepted
    return m, r, wrote


def t_reject(group, cases):
    obs = []
    n = 0
    st = {'calls': 0, 'fns': set()}
    for name, shape, why, limit in cases:
        m, r, wrote = light_run(name, shape, limit or 20000)
        st['calls'] += sum(m.calls.values())
        st['fns'] |= set(m.calls)
        lab = '%s(%s)' % (name, ','.join(str(x[1]) for x in shape))
        if r is not DIV:
            obs.append(Ob(lab, BAD, '%s is not refused: %s(%s) %s' % (why, name, ', '.join('%d' % x[1] for x in shape),
                       'starts processing' if r is Accepted else 'returns normally'), name, key='accept|%s|%s' % (name, why)))
        elif wrote:
            obs.append(Ob(lab, BAD, '%s: an output buffer is written before the call is refused at %s' % (why, wrote[0]), name, key='write|%s|%s' % (name, why)))
        else:
            n += 1
    st['fns'] = tuple(sorted(st['fns']))
    st['n_length_combinations'] = len(cases)
    if not obs:
        return Ob(group, OK, '', stats=st)
    obs[0].stats = st
    return obs


def t_accept(name, shape, why):
    lab = 'accepts/%s(%s)' % (name, ','.join(str(x[1]) for x in shape))
    m, r, _ = light_run(name, shape, 20000)
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    if r is DIV:
        return Ob(lab, BAD, '%s is refused: %s' % (why, events(m)), name, key='refuse|%s|%s' % (name, why), stats=st)
    return Ob(lab, OK, '', name, stats=st)


def s03(tier):
    th = tier == 'thorough'
    K = range(0, 70) if th else [0, 1, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 48, 64]
    ts = []
    for b, k in (('aes128', 16), ('aes192', 24), ('aes256', 32)):
        ts.append((b, [(b, (('s', x), ('a', 16)), 'a key of the wrong length', 0) for x in K if x != k]))
    pairs = [(0, 1), (1, 0), (16, 15), (15, 16), (16, 32), (32, 16), (5, 64), (64, 5), (17, 16), (100, 99), (63, 64), (65, 64), (256, 0)]
    for b, k in (('gcm128', 16), ('gcm192', 24), ('gcm256', 32), ('chapoly', 32)):
        cs = []
        for x in K:
            if x != k:
                cs.append((b + '_s', (('s', x), ('s', 12), ('s', 3), ('s', 20), ('o', 20)), 'a key of the wrong length', 0))
                cs.append((b + '_o', (('s', x), ('s', 12), ('s', 3), ('s', 20), ('o', 20), ('s', 16)), 'a key of the wrong length', 0))
        for x in (K if th else [0, 1, 8, 11, 13, 16, 24, 32]):
            if x != 12:
                for n in (20, 0):
                    cs.append((b + '_s', (('s', k), ('s', x), ('s', 3), ('s', n), ('o', n)), 'a nonce of the wrong length', 0))
                    cs.append((b + '_o', (('s', k), ('s', x), ('s', 3), ('s', n), ('o', n), ('s', 16)), 'a nonce of the wrong length', 0))
        for n, o in pairs:
            cs.append((b + '_s', (('s', k), ('s', 12), ('s', 3), ('s', n), ('o', o)), 'an output buffer of another length than the input', 0))
            cs.append((b + '_o', (('s', k), ('s', 12), ('s', 3), ('s', n), ('o', o), ('s', 16)), 'an output buffer of another length than the input', 0))
        lim = (1 << 36) - 33 if b != 'chapoly' else (1 << 38) - 64
        big = [lim + 1, lim + 2, lim + 16, lim + 17, lim + 64, lim + 4096, 1 << 40, 1 << 48, (1 << 63) - 1]
        for n in big:
            cs.append((b + '_s', (('s', k), ('s', 12), ('s', 3), ('s', n), ('o', n)), 'a message longer than the documented limit', 0))
            cs.append((b + '_o', (('s', k), ('s', 12), ('s', 3), ('s', n), ('o', n), ('s', 16)), 'a message longer than the documented limit', 0))
        for n in (lim, lim - 1):
            ts.append((b, ('accept', b + '_s', (('s', k), ('s', 12), ('s', 3), ('s', n), ('o', n)), 'a message of the documented maximum length')))
        if b != 'chapoly':
            for d in (1 << 61, (1 << 61) + 1, (1 << 62), (1 << 63) - 1):
                cs.append((b + '_s', (('s', k), ('s', 12), ('s', d), ('s', 5), ('o', 5)), 'associated data longer than the documented limit', 0))
                cs.append((b + '_o', (('s', k), ('s', 12), ('s', d), ('s', 5), ('o', 5), ('s', 16)), 'associated data longer than the documented limit', 0))
            ts.append((b, ('accept', b + '_s', (('s', k), ('s', 12), ('s', (1 << 61) - 1), ('s', 5), ('o', 5)), 'associated data of the documented maximum length')))
        ts.append((b, cs))
    cs = []
    for x in K:
        if x != 32:
            cs.append(('stream_new', (('s', x), ('s', 12)), 'a key of the wrong length', 0))
        if x != 12:
            cs.append(('stream_new', (('s', 32), ('s', x)), 'a nonce of the wrong length', 0))
    for n, o in pairs:
        cs.append(('stream', (('s', 32), ('s', 12), ('s', n), ('o', o)), 'an output buffer of another length than the input', 0))
        cs.append(('stream3', (('s', 32), ('s', 12), ('s', 7), ('s', 7), ('s', n), ('o', o)), 'an output buffer of another length than the input', 0))
    ts.append(('stream', cs))
    for h, dl in (('512', 64), ('384', 48), ('256', 32), ('224', 28)):
        cs = []
        for x in (range(0, 140) if th else [0, 1, 16, 20, 28, 32, 48, 64, 128, dl - 1, dl + 1]):
            if x != dl:
                cs.append(('h' + h, (('s', 3), ('o', x)), 'a digest buffer of the wrong length', 0))
                cs.append(('x' + h, (('s', 3), ('s', 4), ('o', x)), 'a prk buffer of the wrong length', 0))
            if x < dl:
                cs.append(('e' + h, (('s', x), ('s', 4), ('o', 40)), 'a prk shorter than the digest', 0))
                cs.append(('e' + h, (('s', x), ('s', 4), ('o', 0)), 'a prk shorter than the digest', 0))
        for x in (255 * dl + 1, 255 * dl + 2, 256 * dl - 1, 256 * dl, 256 * dl + 1, 300 * dl, 65536 * dl, 1 << 32, 1 << 40):
            cs.append(('e' + h, (('s', dl), ('s', 4), ('o', x)), 'output key material longer than 255 digests', 0))
        ts.append(('sha' + h, cs))
    cs = []
    for x in K:
        if x != 32:
            cs.append(('x_pk', (('s', x),), 'a secret key of the wrong length', 0))
            cs.append(('x_dh', (('s', 32), ('s', x)), 'a secret key of the wrong length', 0))
            cs.append(('x_dh', (('s', x), ('s', 32)), 'a public key of the wrong length', 0))
            cs.append(('e_pk', (('s', x),), 'a secret key of the wrong length', 0))
            cs.append(('e_sign', (('s', 5), ('s', x)), 'a secret key of the wrong length', 0))
            for sl_ in (64, 63, 0):
                cs.append(('e_verify', (('s', 5), ('s', sl_), ('s', x)), 'a public key of the wrong length', 0))
    ts.append(('curve', cs))
    out = []
    for g, cs in ts:
        if cs[0] == 'accept':
            out.append(('accepts/%s %s' % (cs[1], cs[3]), t_accept, cs[1:], 300))
        else:
            for j in range(0, len(cs), 40):
                nm = 'refuses/%s %d..%d' % (g, j, min(j + 40, len(cs)))
                out.append((nm, t_reject, (nm, cs[j:j + 40]), 500))
    return out


# ---------------------------------------------------------------- A03
def run_verify(n, fix):
    m = machine(False)
    sig = list(m.D.fresh(it(8)) for _ in range(n))
    for i, c in fix.items():
        sig[i] = c if c.__class__ is int else m.D.fresh(it(8), lo=c[0], hi=c[1])
    args = []
    for v in ([m.D.fresh(it(8)) for _ in range(9)], sig, [m.D.fresh(it(8)) for _ in range(32)]):
        args.append(Ptr(m.new(tuple(v)), (0,), len(v)))
    return m, m.call(root('e_verify'), args)


def t_malformed(lab, n, fix, why):
    """verify must return false without a panic; fix: constant or ranged cells of the signature"""
    m, r = run_verify(n, fix)
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    if r == 0 and r.__class__ is int and not [e for e in m.events.values() if e.kind in ('panic', 'assert')]:
        return Ob(lab, OK, '', 'ed25519::verify', stats=st)
    # not settled for the whole class: members of the class, completely constant where the scalar is concerned
    reps = [{}]
    if fix:
        reps = []
        for low in (0, 255, 127):
            f = {32 + i: low for i in range(32)}
            f.update({i: c if c.__class__ is int else c[0] if low == 0 else c[1] if low == 255 else (c[0] + c[1]) // 2 for i, c in fix.items()})
            reps.append(f)
    for f in reps:
        m, r = run_verify(n, f)
        what = why + (' (S = %s)' % ''.join('%02x' % f[32 + i] for i in range(32)) if f else '')
        if r is DIV:
            return Ob(lab, BAD, '%s: verify panics: %s' % (what, events(m)), 'ed25519::verify', key='panic|' + lab, stats=st)
        pe = [e for e in m.events.values() if e.kind == 'panic' or e.kind == 'assert' and e.must]
        if pe and r == 0 and r.__class__ is int:
            e = pe[0]
            return Ob(lab, BAD, '%s: verify can panic: %s in %s at %s' % (what, e.msg, e.fn, rel(e.span)), crate_frame(e)[0], key='panic|' + lab, stats=st)
        if not (r == 0 and r.__class__ is int):
            return Ob(lab, BAD, '%s: verify does not return false but goes on to a computed verdict' % what, 'ed25519::verify', key='accept|' + lab, stats=st)
    return Ob(lab, UNK, '%s: rejection not settled for the whole class, but for its sampled members' % why, 'ed25519::verify', stats=st)


def a03(tier):
    ts = []
    for n in (range(0, 200) if tier == 'thorough' else [0, 1, 31, 32, 33, 62, 63, 65, 66, 96, 127, 128, 129, 200]):
        if n != 64:
            ts.append(('verify/signature of %d bytes' % n, t_malformed, ('verify/signature of %d bytes' % n, n, {}, 'signature of %d bytes' % n), 200))
    for j in range(31, -1, -1):
        fix = {32 + i: L_LE[i] for i in range(31, j, -1)}
        if L_LE[j] < 255:
            f = dict(fix)
            f[32 + j] = (L_LE[j] + 1, 255)
            if L_LE[j] + 1 == 255:
                f[32 + j] = 255
            nm = 'verify/scalar above the order, first at byte %d' % j
            ts.append((nm, t_malformed, (nm, 64, f, 'scalar S larger than the group order (first difference at byte %d)' % j), 200))
    nm = 'verify/scalar equal to the order'
    ts.append((nm, t_malformed, (nm, 64, {32 + i: L_LE[i] for i in range(32)}, 'scalar S equal to the group order'), 200))
    return ts
