"""S01, S02, S06: information flow, panic freedom and machine-integer ranges (interval domain)."""
from common import *

SECRET = 1


def lin(m, n, t):
    return tuple(m.D.fresh(it(8), t=t) for _ in range(n))


def tagbytes(m, n):
    return tuple(m.D.fresh(it(8), t=2 << i) for i in range(n))


def shapes(tier, what):
    """(root, [(kind, length, secret?)]) for every public entry point and a set of lengths"""
    r = []
    th = tier == 'thorough'
    for b, k in (('aes128', 16), ('aes192', 24), ('aes256', 32)):
        r.append((b, [('s', k, 1), ('a', 16, 1)]))
    aead = [(0, 0), (1, 0), (0, 1), (15, 17), (16, 16), (17, 15), (31, 33), (64, 1), (65, 13), (130, 32)]
    if th:
        aead += [(n, d) for n in range(0, 200, 7) for d in (0, 3, 16, 20)]
    for b, k in (('gcm128', 16), ('gcm192', 24), ('gcm256', 32), ('chapoly', 32)):
        for n, d in aead:
            r.append((b + '_s', [('s', k, 1), ('s', 12, 0), ('s', d, 0), ('s', n, 1), ('s', n, 0)]))
            r.append((b + '_o', [('s', k, 1), ('s', 12, 0), ('s', d, 0), ('s', n, 0), ('s', n, 0), ('t', 16, 0)]))
        for tl in (0, 1, 15, 17, 32):
            r.append((b + '_o', [('s', k, 1), ('s', 12, 0), ('s', 3, 0), ('s', 20, 0), ('s', 20, 0), ('t', tl, 0)]))
    for a, c in [(0, 0), (1, 63), (64, 64), (63, 1), (65, 130), (70, 3)]:
        r.append(('stream3', [('s', 32, 1), ('s', 12, 0), ('s', a, 1), ('s', a, 0), ('s', c, 1), ('s', c, 0)]))
    for h, bl, dl in (('512', 128, 64), ('384', 128, 48), ('256', 64, 32), ('224', 64, 28)):
        ls = sorted({0, 1, bl - 1, bl, bl + 1, bl - bl // 8 - 1, bl - bl // 8, 2 * bl, 2 * bl + 1} | (set(range(0, 2 * bl + 2)) if th else set()))
        for n in ls:
            r.append(('h' + h, [('s', n, 1), ('s', dl, 0)]))
            r.append(('m' + h, [('s', n, 1), ('s', 5, 1), ('s', 3, 1), ('s', dl, 0)]))
        for n in (0, 3, bl + 1):
            r.append(('sha' + h, [('s', n, 1)]))
            r.append(('hmac_sha' + h, [('s', n, 1), ('s', 9, 1)]))
        for x, y, z in ((0, 1, bl), (bl - 1, 1, 1), (bl - 1, bl + 1, 0), (5, 2 * bl, 3)):
            r.append(('h%s_3' % h, [('s', x, 1), ('s', y, 1), ('s', z, 1), ('s', dl, 0)]))
        for tl in (0, 1, dl - 1, dl, dl + 1):
            r.append(('v' + h, [('s', 20, 1), ('s', 7, 0), ('t', tl, 0)]))
        for s, n in ((0, 0), (5, 32), (bl + 1, bl)):
            r.append(('x' + h, [('s', s, 1), ('s', n, 1), ('s', dl, 0)]))
        for p, n, L in ((dl, 0, 0), (dl, 10, 1), (dl, 3, dl), (dl + 1, 0, dl + 1), (bl + 1, 7, 3 * dl)):
            r.append(('e' + h, [('s', p, 1), ('s', n, 1), ('s', L, 0)]))
        if what == 'range':
            for L in (254 * dl - 1, 254 * dl, 254 * dl + 1, 255 * dl - 1, 255 * dl):
                r.append(('e' + h, [('s', dl, 1), ('s', 1, 1), ('s', L, 0)]))
    r.append(('u_verify', [('a', 16, 1), ('t', 16, 0)]))
    for n in (0, 1, 15, 17):
        r.append(('u_verify', [('a', 16, 1), ('t', n, 0)]))
    r.append(('x_pk', [('s', 32, 1)]))
    r.append(('x_dh', [('s', 32, 0), ('s', 32, 1)]))
    r.append(('e_pk', [('s', 32, 1)]))
    for n in (0, 40, 64, 130):
        r.append(('e_sign', [('s', n, 0), ('s', 32, 1)]))
    if what != 'ct':
        for n in (0, 63, 65, 128):
            r.append(('e_verify', [('s', 10, 0), ('s', n, 0), ('s', 32, 0)]))
        r.append(('e_verify', [('s', 40, 0), ('s', 64, 0), ('s', 32, 0)]))
    return r


def run_root(name, shape):
    m = machine(False)
    args = []
    for k, n, t in shape:
        v = tagbytes(m, n) if k == 't' else lin(m, n, SECRET if t else 0)
        o = m.new(v)
        args.append(Ptr(o, ()) if k == 'a' else Ptr(o, (0,), n))
    r = m.call(root(name), args)
    return m, r


def t_light(what, name, shape):
    lab = '%s(%s)' % (name, ','.join(str(x[1]) for x in shape))
    m, r = run_root(name, shape)
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    need = 0
    for k, n, t in shape:
        if k == 't':
            need = sum(2 << i for i in range(n))
    bad = []
    for e in m.events.values():
        fn, sp = crate_frame(e)
        if what == 'ct':
            if e.kind in ('secret-branch', 'secret-index', 'secret-div', 'secret-compare') and e.u & SECRET:
                if e.kind == 'secret-branch' and need and e.t & need == need:
                    continue       # the accept/reject decision itself: depends on every byte of the presented tag
                bad.append((e.kind + '|' + fn, '%s in %s at %s (via %s)' % (e.msg, fn, rel(e.span), sp)))
        else:
            ctl = not e.u
            if e.kind == 'panic' or (e.kind == 'assert' and (ctl or not e.msg.startswith('overflow') or e.must)):
                cat = 'range'
            elif e.kind == 'assert':
                cat = 'arith'
            else:
                continue
            if cat == what:
                bad.append((e.kind + '|' + fn + '|' + e.msg, '%s: %s in %s at %s%s' % (
                    e.kind, e.msg, fn, rel(e.span), '' if e.must else ' (operand ranges do not exclude it)')))
    if what == 'range' and r is DIV and not bad:
        bad.append(('noreturn|' + name, 'no path of %s returns' % name))
    if what == 'ct' and r is DIV and not bad:
        return [Ob(lab, UNK, 'the call does not return for these lengths', name, stats=st)]
    if bad:
        return [Ob(lab, BAD, d, name, key=k, stats=st if i == 0 else {}) for i, (k, d) in enumerate(sorted(set(bad)))]
    return [Ob(lab, OK, '', name, stats=st)]


def mk(what):
    def f(tier):
        sh = shapes(tier, what)
        sh.sort(key=lambda s: -(s[0] == 'e_verify') * 100 - (s[0][0] == 'e'))
        return [('%s(%s)' % (n, ','.join(str(x[1]) for x in s)), t_light, (what, n, s), 600) for n, s in sh]
    return f


s01 = mk('ct')
s02 = mk('range')
s06 = mk('arith')
