"""Calls are independent of each other (S04): no global or interior-mutable state; reused objects behave like fresh ones."""
from common import *
from p_aead import tmachine, KL, NAME, PROG_
import p_aead


def allocs_of(x, out):
    """indices of the allocations a piece of MIR refers to"""
    if x.__class__ is dict:
        p = x.get('p')
        if p.__class__ is list and 'b' in x:
            for off, a in p:
                out.add(a)
        for y in x.values():
            allocs_of(y, out)
    elif x.__class__ is list:
        for y in x:
            allocs_of(y, out)


def tls_of(x, out):
    if x.__class__ is list:
        if len(x) == 2 and x[0] == 'tls' and x[1].__class__ is str:
            out.add(x[1])
        for y in x:
            tls_of(y, out)
    elif x.__class__ is dict:
        for y in x.values():
            tls_of(y, out)


def celled(P, t, seen=None, raw=True):
    """name of an interior-mutable (or raw pointer) part stored inside a value of this type"""
    seen = seen if seen is not None else set()
    if t in seen:
        return None
    seen.add(t)
    x = P.types[t]
    k = x['k']
    if k == 'ptr' and raw:
        return x['s']
    if k in ('array', 'slice', 'pat'):
        return celled(P, x['elem'], seen, raw)
    if k in ('tuple', 'closure'):
        fs = x.get('f', [])
    elif k == 'adt':
        if x['name'].endswith('UnsafeCell'):
            return x['s']
        fs = [f for v in x['v'] for f in v['f']]
    else:
        return None
    for f in fs:
        r = celled(P, f, seen, raw)
        if r:
            return x['s'] if x.get('crate') == 'core' or x.get('name', '').startswith(('std::', 'core::')) else r
    return None


ONCE = ('OnceLock', 'LazyLock', 'OnceCell', 'LazyCell', '::once::', 'Once')
STATE = ('std::env', 'std::fs', 'std::time', 'std::thread', 'std::net', 'std::process', 'std::io', 'std::sys')


def t_static():
    P = PROG_()
    fs = [f for f in P.fns if f.crate == 'crypto_pure' and f.blocks is not None]
    obs = []
    for f in fs:
        seen, todo = set(), set()
        allocs_of(f.blocks, todo)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            allocs_of(P.allocs[a], todo)
        tls = set()
        tls_of(f.blocks, tls)
        for t in tls:
            obs.append(Ob('state/' + f.name, BAD, '%s keeps state in the thread-local %s' % (f.name, t), rel(f.span), key='tls|' + t))
        for a in seen:
            x = P.allocs[a]
            if x['k'] != 'static':
                continue
            ty = P.types[x['ty']]['s']
            if not (x.get('data') and x['data'].get('mut')) and not celled(P, x['ty'], None, False):
                continue
            if any(o in ty for o in ONCE):
                obs.append(Ob('state/' + f.name, UNK, '%s uses the once-initialised static %s' % (f.name, x['name']), rel(f.span)))
            else:
                obs.append(Ob('state/' + f.name, BAD, '%s uses the mutable static %s: %s' % (f.name, x['name'], ty), rel(f.span), key='static|' + x['name']))
        for b in f.blocks:
            t = b['t']
            g = callee(P, t)
            if g is not None and g.crate == 'std' and g.name.startswith(STATE):
                obs.append(Ob('state/' + f.name, BAD, '%s calls %s' % (f.name, g.name), rel(f.span), key='env|' + g.name))
    if not obs:
        obs = [Ob('state/statics, thread-locals, environment', OK, '', 'crate', stats={'fns': tuple(sorted(f.name for f in fs)), 'n_functions_scanned': len(fs)})]
    return obs


def callee(P, t):
    if t[0] != 'call':
        return None
    for x in t:
        if x.__class__ is list and x and x[0] == 'fn' and x[1].__class__ is int:
            return P.fns[x[1]]
    return None


def t_types():
    P = PROG_()
    obs, n = [], 0
    for i, x in enumerate(P.types):
        if x['k'] == 'adt' and x.get('crate') == 'crypto_pure':
            n += 1
            c = celled(P, i)
            if c and not any(o in c for o in ONCE):
                obs.append(Ob('state/' + x['s'], BAD, 'type %s holds %s: its state can change behind a shared reference' % (x['s'], c), x['s'], key='cell|' + x['s']))
            elif c:
                obs.append(Ob('state/' + x['s'], UNK, 'type %s holds %s' % (x['s'], c), x['s']))
    return obs or [Ob('state/object types', OK, '', 'crate', stats={'n_types_scanned': n})]


KIND = {'ss': 'encrypt, encrypt', 'os': 'decrypt, encrypt', 'oo': 'decrypt, decrypt'}


def t_reuse(a, kind, n, d, n2, d2):
    """second operation on a used object = the same operation on a fresh one"""
    name = 'reuse/%s %s (%d,%d) then (%d,%d)' % (a, KIND[kind], n, d, n2, d2)
    fn = NAME[a]
    m = tmachine()
    k = inp(m, 'key', KL[a])
    x = [inp(m, 'nonce1', 12), inp(m, 'ad1', d), inp(m, 'in1', n)]
    y = [inp(m, 'nonce2', 12), inp(m, 'ad2', d2), inp(m, 'in2', n2)]
    old, old2, t, u = inp(m, 'old1', n), inp(m, 'old2', n2), inp(m, 'tag1', 16), inp(m, 'tag2', 16)
    o, p, q = m.new(old), m.new(old2), m.new(old2)
    args = [sl(m, k)] + [sl(m, v) for v in x] + [Ptr(o, (0,), n)] + ([sl(m, t)] if kind[0] == 'o' else [])
    args += [sl(m, v) for v in y] + [Ptr(p, (0,), n2)] + ([sl(m, u)] if kind == 'oo' else [])
    m.memo_on = False
    r = m.call(root(a + '_' + kind), args)
    if r is DIV:
        return Ob(name, UNK, 'call diverges: %s' % events(m), fn)
    s = m.call(root(a + ('_o' if kind == 'oo' else '_s')), [sl(m, k)] + [sl(m, v) for v in y] + [Ptr(q, (0,), n2)] + ([sl(m, u)] if kind == 'oo' else []))
    if s is DIV:
        return Ob(name, UNK, 'call on a fresh object diverges: %s' % events(m), fn)
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls))}
    g = (tuple(r) if kind != 'oo' else (r,)) + tuple(m.mem[p])
    w = (tuple(s) if kind != 'oo' else (s,)) + tuple(m.mem[q])
    if all(vkey(e) == vkey(f) for e, f in zip(g, w)):
        return Ob(name, OK, '', fn, stats=st)
    for sd in range(1, 5):
        va = Valuation(sd)
        try:
            gv = [va.val(e, it(8)) & 255 for e in g]
            wv = [va.val(e, it(8)) & 255 for e in w]
        except (Lost, AttributeError, TypeError) as ex:
            return Ob(name, UNK, 'results not comparable: %s' % ex, fn, stats=st)
        if gv != wv:
            c = [i for i in range(len(gv)) if gv[i] != wv[i]][0]
            return Ob(name, BAD, 'the second call on a used object gives another result than on a fresh one (cell %d: %d instead of %d)' % (c, gv[c], wv[c]),
                      fn, key='reuse|%s|%s' % (a, kind), stats=st)
    return Ob(name, UNK, 'equality with a fresh object not settled', fn, stats=st)


def s04(tier):
    ts = [('state/statics, thread-locals, environment', t_static, (), 100), ('state/object types', t_types, (), 100)]
    sh = [(17, 3, 20, 5), (0, 0, 16, 0), (33, 0, 1, 17)] if tier != 'thorough' else [(17, 3, 20, 5), (0, 0, 16, 0), (33, 0, 1, 17), (64, 16, 65, 0), (5, 40, 130, 1), (1, 1, 1, 1), (16, 16, 48, 32)]
    for a in KL:
        for kind in ('ss', 'os', 'oo'):
            for s in sh[:1] if a in ('gcm192', 'gcm256') and tier != 'thorough' else sh:
                ts.append(('reuse/%s %s (%d,%d) then (%d,%d)' % ((a, KIND[kind]) + s), t_reuse, (a, kind) + s, 600))
    return ts
