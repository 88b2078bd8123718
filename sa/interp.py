"""Abstract interpreter over monomorphised MIR.

States are joined at every control-flow merge (no path is ever followed on its own past a
merge); loops are unrolled only while the analysis itself decides their trip count.
Nothing is executed: every transfer function works on the abstract domain of dom.py.
"""
import heapq
import sys
from dom import (V, Sym, Lost, A, F0, F1, it, BOOL, rng, taint, anf_atom, band, pconst, vkey, bit_atom, orset)
import dom as D
from mir import Unsupported

sys.setrecursionlimit(20000)

USZ = it(64, False)


class Ptr:
    __slots__ = ('o', 'p', 'm')

    def __init__(self, o, p, m=None):
        self.o = o
        self.p = p
        self.m = m

    def __eq__(self, x):
        return x.__class__ is Ptr and self.o == x.o and self.p == x.p and self.m == x.m

    def __hash__(self):
        return hash((self.o, self.p, self.m))

    def __repr__(self):
        return 'Ptr(%r,%r,%r)' % (self.o, self.p, self.m)


class En:
    """enum value: tag (variant index, possibly undecided) and the fields per variant"""
    __slots__ = ('tag', 'alts')

    def __init__(self, tag, alts):
        self.tag = tag
        self.alts = alts

    def __repr__(self):
        return 'En(%r,%r)' % (self.tag, self.alts)


class _Div:
    def __repr__(self):
        return 'DIV'


DIV = _Div()          # the call does not return


class NeedLimb(Exception):
    def __init__(self, what=''):
        self.what = what


class Event:
    __slots__ = ('kind', 'fn', 'span', 'msg', 'must', 'stack', 't', 'u')

    def __init__(self, kind, fn, span, msg, must, stack, t=0, u=0):
        self.t = t            # taint bits common to all occurrences
        self.u = u            # taint bits of any occurrence
        self.kind = kind
        self.fn = fn
        self.span = span
        self.msg = msg
        self.must = must
        self.stack = stack

    def key(self):
        return (self.kind, self.fn, self.span, self.msg)


def merge_events(ev, new):
    for k, e in new.items():
        o = ev.get(k)
        if o is None:
            ev[k] = e
        else:
            if e.must or e.t & o.t != o.t or e.u & ~o.u:
                n = Event(o.kind, o.fn, o.span, o.msg, o.must or e.must, o.stack, o.t & e.t, o.u | e.u)
                ev[k] = n


def rebuild(v, i, x):
    return v[:i] + (x,) + v[i + 1:]


class Machine:
    def __init__(self, prog, dm, **kw):
        self.P = prog
        self.D = dm
        self.mem = {}
        self.path = ()
        self.nobj = 1
        self.events = {}
        self.stack = []
        self.models = dict(MODELS)
        self.hooks = {}           # fn id -> callable(m, fn, args) -> value or DIV or NotImplemented
        self.generic_hooks = []   # callable(m, fn, args) -> NotImplemented or value
        self.memo = {}
        self.memo_on = kw.get('memo', not dm.exact)
        self.memo_sym = dm.exact
        self.no_table = 0
        self.ij = {}
        self.calls = {}
        self.steps = 0
        self.branches = {}        # (fn, block) -> set of decided outcomes
        self.ring = None
        self.budget = kw.get('budget', 0)
        self.loopcap = kw.get('loopcap', 20000)

    # ------------------------------------------------------------ events
    def event(self, kind, span, msg, must=False, t=0):
        fn = self.stack[-1] if self.stack else None
        # attribute sites inside core to the crate frame that called them
        k = (kind, fn.name if fn else '', span, msg)
        e = self.events.get(k)
        if e is None:
            self.events[k] = Event(kind, fn.name if fn else '', span, msg, must, tuple((f.name, f.crate, f.span) for f in self.stack), t, t)
        else:
            e.t &= t
            e.u |= t
            if must:
                e.must = True

    # ------------------------------------------------------------ memory
    def new(self, v):
        o = self.nobj
        self.nobj += 1
        self.mem[o] = v
        return o

    def getobj(self, o):
        if o.__class__ is int:
            return self.mem[o]
        return o[2]

    def load(self, o, path):
        v = self.mem[o] if o.__class__ is int else o[2]
        for c in path:
            v = self.step(v, c)
        return v

    def step(self, v, c):
        cc = c.__class__
        if cc is int:
            if v.__class__ is tuple:
                if c >= len(v) or c < 0:
                    raise Unsupported('index %d outside aggregate of %d' % (c, len(v)))
                return v[c]
            if v is None:
                return None
            raise Unsupported('field %d of %s' % (c, type(v).__name__))
        if cc is V:
            if v.__class__ is not tuple:
                raise Unsupported('abstract index into ' + type(v).__name__)
            return self.index_join(v, c)
        k = c[0]
        if k == 'V':
            if v is None:
                return None
            if v.__class__ is not En:
                raise Unsupported('downcast of ' + type(v).__name__)
            return v.alts.get(c[1])
        if k == 'R':
            return v[c[1]:c[1] + c[2]]
        if k == 'B':
            w = it(c[2] * 8)
            x = v
            if x.__class__ is int:
                return (x >> (8 * c[1])) & 255
            return self.D.cast(self.D.shr(x, 8 * c[1], w), w, it(8))
        if k == 'W':
            return self.join_bytes(v[c[1]:c[1] + c[2]], c[2])
        if k == 'A':
            return self.split_bytes(v, c[1]) if v is not None else (None,) * c[1]
        if k == 'J':
            return self.join_bytes(v, c[1])
        if k == 'N':
            return ((),) * c[1] + (v,) + ((),) * (c[2] - c[1] - 1)
        raise Unsupported('path component %r' % (c,))

    def index_join(self, v, i):
        lo, hi = rng(i)
        lo, hi = max(lo, 0), min(hi, len(v) - 1)
        if lo > hi:
            raise Unsupported('abstract index never in range')
        if i.t:
            self.event('secret-index', self.span, 'memory access at a secret-dependent index', False, i.t)
        if self.D.exact and i.s is not None:
            r = self.table_lookup(v, i)
            if r is not None:
                return r
        if not self.D.exact:
            # the same element of the same array is one value: repeated loads share its number
            k = (id(v), id(i))
            c = self.ij.get(k)
            if c is None or c[0] is not v or c[1] is not i:
                r = v[lo]
                for j in range(lo + 1, hi + 1):
                    r = self.join(r, v[j], None)
                r = self.taint_with(r, i.t)
                if r.__class__ is V and r.s is None:
                    self.D.poly(r)
                if len(self.ij) > 4000:
                    self.ij = {}
                self.ij[k] = c = (v, i, r)
            r = c[2]
            if r.__class__ is V and self.D.facts and r.s is not None and r.s.k == 'P':
                f = self.D.facts.get(r.s.p.pid)
                if f:
                    lo, hi = max(r.lo, f[0]), min(r.hi, f[1])
                    return lo if lo == hi else V(lo, hi, r.t, r.s) if lo < hi else r
            return r
        r = v[lo]
        for j in range(lo + 1, hi + 1):
            r = self.join(r, v[j], None)
        return self.taint_with(r, i.t)

    def table_lookup(self, v, i):
        if not all(x.__class__ is int for x in v):
            return None
        n = len(v)
        if n & (n - 1) or n > 256:
            return None
        k = n.bit_length() - 1
        b = self.D.vbits(i, it(64))
        if b is None or any(b[k:]):
            return None
        w = max(max(v).bit_length(), 1)
        if min(v) < 0 or w > 64:
            return None
        return table_value(self.D, tuple(v), b[:k], it(w), i.t)

    def taint_with(self, v, t):
        if not t:
            return v
        if v.__class__ is V:
            if v.t | t != v.t:
                return V(v.lo, v.hi, v.t | t, v.s, v.d)
            return v
        if v.__class__ is tuple:
            return tuple(self.taint_with(x, t) for x in v)
        return v

    def store(self, o, path, val):
        if o.__class__ is not int:
            raise Unsupported('write to constant memory')
        if not path:
            self.mem[o] = val
        else:
            self.mem[o] = self.upd(self.mem[o], path, 0, val)

    def upd(self, v, path, k, val):
        if k == len(path):
            return val
        c = path[k]
        cc = c.__class__
        if cc is int:
            if v is None:
                v = (None,) * (c + 1)
            elif v.__class__ is not tuple:
                raise Unsupported('write field of ' + type(v).__name__)
            elif c >= len(v):
                v = v + (None,) * (c + 1 - len(v))
            return v[:c] + (self.upd(v[c], path, k + 1, val),) + v[c + 1:]
        if cc is V:
            if c.t:
                self.event('secret-index', self.span, 'memory write at a secret-dependent index', False, c.t)
            lo, hi = max(c.lo, 0), min(c.hi, len(v) - 1)
            out = list(v)
            for j in range(lo, hi + 1):
                out[j] = self.join(v[j], self.upd(v[j], path, k + 1, val), None)
            return tuple(out)
        t = c[0]
        if t == 'V':
            if v is None or v.__class__ is not En:
                return En(c[1], {c[1]: self.upd(None, path, k + 1, val)})
            a = dict(v.alts)
            a[c[1]] = self.upd(a.get(c[1]), path, k + 1, val)
            return En(v.tag, a)
        if t == 'R':
            sub = self.upd(v[c[1]:c[1] + c[2]], path, k + 1, val)
            return v[:c[1]] + tuple(sub) + v[c[1] + c[2]:]
        if t == 'W':
            if k + 1 != len(path):
                raise Unsupported('write through word view')
            bs = self.split_bytes(val, c[2])
            return v[:c[1]] + bs + v[c[1] + c[2]:]
        if t == 'B':
            bs = list(self.split_bytes(v if v is not None else 0, c[2]))
            bs[c[1]] = val
            return self.join_bytes(tuple(bs), c[2])
        if t == 'A':
            return self.join_bytes(tuple(self.upd(self.step(v, c), path, k + 1, val)), c[1])
        if t == 'J':
            return self.split_bytes(self.upd(self.step(v, c), path, k + 1, val), c[1])
        if t == 'N':
            return self.upd(self.step(v, c), path, k + 1, val)[c[1]]
        raise Unsupported('store path %r' % (c,))

    def split_bytes(self, v, n):
        if v.__class__ is int:
            v &= (1 << (8 * n)) - 1
            return tuple((v >> (8 * i)) & 255 for i in range(n))
        w = it(8 * n)
        v = self.D.cast(v, it(8 * n, v.lo < 0), w)
        if v.__class__ is int:
            return self.split_bytes(v, n)
        return tuple(self.D.cast(self.D.shr(v, 8 * i, w), w, it(8)) for i in range(n))

    def join_bytes(self, bs, n):
        if any(b is None for b in bs):
            return None
        if all(b.__class__ is int for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        w = it(8 * n)
        r = bs[0]
        for i in range(1, n):
            r = self.D.bitop('BitOr', r, self.D.shl(bs[i], 8 * i, w), w)
        return r

    # ------------------------------------------------------------ joins
    def join(self, a, b, sel):
        if a is b:
            return a
        ca, cb = a.__class__, b.__class__
        if ca is int or ca is V:
            if cb is int or cb is V:
                return self.D.join(a, b, None, sel)
            return None
        if ca is tuple and cb is tuple:
            if len(a) != len(b):
                return None
            if a == b and all(x.__class__ is int for x in a):
                return a
            return tuple([x if x is y else self.join(x, y, sel) for x, y in zip(a, b)])
        if ca is En and cb is En:
            alts = dict(a.alts)
            for k, y in b.alts.items():
                x = alts.get(k)
                # a payload that exists on one side only is meaningful only under that tag
                alts[k] = y if x is None else x if y is None else self.join(x, y, sel)
            return En(self.join(a.tag, b.tag, sel), alts)
        if ca is Ptr and cb is Ptr:
            if a == b:
                return a
            if a.o == b.o and len(a.p) == len(b.p) and a.p:
                if a.p[:-1] == b.p[:-1] and all(x.__class__ in (int, V) for x in (a.p[-1], b.p[-1])):
                    return Ptr(a.o, a.p[:-1] + (self.join(a.p[-1], b.p[-1], sel),),
                               a.m if a.m is None else self.join(a.m, b.m, sel))
            return None
        return None

    def join_states(self, s1, s2):
        m1, p1 = s1
        m2, p2 = s2
        sel = None
        newp = ()
        if self.D.exact and p1 is not None and p2 is not None:
            k = 0
            while k < len(p1) and k < len(p2) and p1[k] == p2[k]:
                k += 1
            try:
                r1 = F1
                for x in p1[k:]:
                    r1 = band(r1, x)
                r2 = F1
                for x in p2[k:]:
                    r2 = band(r2, x)
                s = r1 ^ r2
                newp = p1[:k] + ((s,) if s != F1 else ())
                # selector: prefer the plain first condition that separates the two
                if k < len(p1) and k < len(p2) and p1[k] == p2[k] ^ F1:
                    sel = p1[k]
                    if len(sel) > 1 and 0 in sel:
                        sel, m1, m2, p1, p2 = sel ^ F1, m2, m1, p2, p1
                else:
                    sel = r1
                    if band(r1, r2):
                        sel = None
            except Lost:
                sel = None
                newp = None
        elif self.D.exact:
            newp = None
        out = {}
        if self.D.exact:
            self.D.sides = (p1, p2)
        for o, v in m1.items():
            if o in m2:
                w = m2[o]
                out[o] = v if v is w else self.join(v, w, sel)
            else:
                out[o] = v
        self.D.sides = None
        for o, w in m2.items():
            if o not in m1:
                out[o] = w
        return out, newp

    # ------------------------------------------------------------ refinement
    def subst(self, mp):
        """replace value objects (by identity) throughout the live state"""
        ids = mp
        for p, lo, hi in mp.get('F', ()):
            self.facts_add(p, lo, hi)

        def walk(v):
            c = v.__class__
            if c is V:
                r = ids.get(id(v))
                return v if r is None else r
            if c is tuple:
                n = None
                for i, x in enumerate(v):
                    if x.__class__ is int or x is None:
                        continue
                    y = walk(x)
                    if y is not x:
                        if n is None:
                            n = list(v)
                        n[i] = y
                return v if n is None else tuple(n)
            if c is En:
                t = walk(v.tag) if v.tag.__class__ is V else v.tag
                ch = t is not v.tag
                al = {}
                for k, x in v.alts.items():
                    y = walk(x) if x is not None else x
                    al[k] = y
                    ch = ch or y is not x
                return En(t, al) if ch else v
            if c is Ptr:
                if v.m.__class__ is V:
                    m = walk(v.m)
                    if m is not v.m:
                        return Ptr(v.o, v.p, m)
                return v
            return v
        mem = self.mem
        for o, v in list(mem.items()):
            if v.__class__ is int or v is None:
                continue
            w = walk(v)
            if w is not v:
                mem[o] = w

    def assume(self, v, truth, mp):
        """collect refinements implied by boolean v having the given truth value"""
        if v.__class__ is not V:
            return
        mp[id(v)] = truth
        d = v.d
        if d is None:
            return
        if d[0] == 'not':
            self.assume(d[1], 1 - truth, mp)
            return
        if d[0] == 'and':
            if truth:
                self.assume(d[1], 1, mp)
                self.assume(d[2], 1, mp)
            return
        if len(d) != 3:
            return
        op, a, b = d
        al, ah = rng(a)
        bl, bh = rng(b)
        if op == 'Eq':
            if truth:
                lo, hi = max(al, bl), min(ah, bh)
                na = nb = (lo, hi)
            else:
                na, nb = (al, ah), (bl, bh)
                if bl == bh:
                    na = (al + (al == bl), ah - (ah == bl))
                if al == ah:
                    nb = (bl + (bl == al), bh - (bh == al))
        elif op == 'Lt':
            if truth:
                na, nb = (al, min(ah, bh - 1)), (max(bl, al + 1), bh)
            else:
                na, nb = (max(al, bl), ah), (bl, min(bh, ah))
        else:
            return
        for x, (lo, hi) in ((a, na), (b, nb)):
            if x.__class__ is V and lo <= hi and (lo > x.lo or hi < x.hi):
                if lo == hi:
                    mp[id(x)] = lo
                else:
                    mp[id(x)] = V(lo, hi, x.t, x.s, x.d)
                if not self.D.exact and x.s is not None and x.s.k == 'P':
                    # value-number fact: applies to later recomputations of the same sum
                    mp.setdefault('F', []).append((x.s.p, lo, hi))

    def facts_add(self, p, lo, hi):
        f = dict(self.D.facts)
        o = f.get(p.pid)
        if o:
            lo, hi = max(lo, o[0]), min(hi, o[1])
        f[p.pid] = (lo, hi)
        self.D.facts = f

    # ------------------------------------------------------------ calls
    def call(self, f, args):
        """args: values.  Returns the value or DIV."""
        if f.intr is not None:
            h = INTR.get(f.intr)
            if h is None:
                if f.blocks is None:
                    raise Unsupported('intrinsic ' + f.intr)
            else:
                return h(self, f, args)
        n = f.name
        if 'precondition_check' in n:
            return ()
        h = self.hooks.get(f.id)
        if h is not None:
            r = h(self, f, args)
            if r is not NotImplemented:
                return r
        for g in self.generic_hooks:
            r = g(self, f, args)
            if r is not NotImplemented:
                return r
        h = self.models.get(model_key(f))
        if h is not None:
            r = h(self, f, args)
            if r is not NotImplemented:
                return r
        if f.blocks is None:
            if f.never:
                self.event('panic', self.span, short(n), True)
                return DIV
            raise Unsupported('no body for ' + n)
        if f.u8fn is None:
            f.u8fn = (f.crate == 'crypto_pure' and f.argc == 1 and self.P.types[f.locals[0]]['s'] == 'u8'
                      and self.P.types[f.locals[1]]['s'] == 'u8')
        if f.u8fn and self.D.exact and self.D.bits and not self.no_table and args[0].__class__ is V and args[0].s is not None:
            r = self.table_fn(f, args[0])
            if r is not None:
                return r
        if self.memo_on and f.crate == 'crypto_pure':
            return self.call_memo(f, args)
        return self.run(f, args)

    def table_fn(self, f, x):
        """(u8) -> u8: summarise by constant propagation at every point of its finite domain"""
        tab = getattr(self.P, '_tab', None)
        if tab is None:
            tab = self.P._tab = {}
        t = tab.get(f.id)
        if t is None:
            self.no_table += 1
            save = self.mem, self.path
            try:
                out = []
                for i in range(256):
                    self.mem, self.path = {}, ()
                    try:
                        r = self.run(f, [i])
                    except Unsupported:
                        r = None
                    if r.__class__ is not int:
                        out = None
                        break
                    out.append(r)
                t = tuple(out) if out else False
            finally:
                self.no_table -= 1
                self.mem, self.path = save
            tab[f.id] = t
        self.calls[f.name] = self.calls.get(f.name, 0) + 1
        if t is False:
            return None
        b = self.D.vbits(x, it(8))
        if b is None:
            return None
        return table_value(self.D, t, b, it(8), x.t)

    # -------- memoisation on (function, canonical reachable arguments)
    def canon(self, v, objs, ids):
        c = v.__class__
        if c is int:
            return v
        if c is V:
            if self.memo_sym:
                s = v.s
                return ('v', v.lo, v.hi, v.t, s.key() if s is not None else None)
            return ('v', v.lo, v.hi, v.t)
        if c is tuple:
            return tuple([x if x.__class__ is int else self.canon(x, objs, ids) for x in v])
        if c is Ptr:
            o = v.o
            if o.__class__ is not int:
                k = o[:2]
            else:
                k = ids.get(o)
                if k is None:
                    k = ids[o] = len(objs)
                    objs.append(o)
            return ('p', k, tuple([x if x.__class__ is not V else self.canon(x, objs, ids) for x in v.p]), self.canon(v.m, objs, ids) if v.m is not None else None)
        if c is En:
            return ('e', self.canon(v.tag, objs, ids), tuple((k, self.canon(x, objs, ids)) for k, x in sorted(v.alts.items())))
        if v is None:
            return 'u'
        raise Unsupported('canon')

    def call_memo(self, f, args):
        objs = []
        ids = {}
        key = [f.id]
        for a in args:
            key.append(self.canon(a, objs, ids))
        i = 0
        while i < len(objs):
            key.append(self.canon(self.mem[objs[i]], objs, ids))
            i += 1
        key = tuple(key)
        r = self.memo.get(key)
        if r is None:
            ins = [self.mem[o] for o in objs]
            path = self.path
            ev = self.events
            self.events = {}
            try:
                val = self.run(f, args)
            finally:
                new = self.events
                self.events = ev
                merge_events(ev, new)
            if not self.D.exact or self.path == path or val is DIV:
                mem = self.mem
                self.memo[key] = (val, [mem[o] for o in objs] if val is not DIV else None, list(objs), new, args, ins)
            return val
        val, outs, oids, evs, args0, ins0 = r
        merge_events(self.events, evs)
        if val is DIV:
            return DIV
        self.calls[f.name] = self.calls.get(f.name, 0) + 1
        mp = dict(zip(oids, objs))
        for o, v, v0 in zip(objs, outs, ins0):
            if v is not v0:
                self.mem[o] = transplant(v, v0, self.mem[o], mp)
        if len(args0) == 1:
            return transplant(val, args0[0], args[0], mp)
        return transplant(val, None, None, mp)

    # -------- function body
    def run(self, f, args):
        self.calls[f.name] = self.calls.get(f.name, 0) + 1
        code = f.code
        if code is None:
            self.P.cfg(f)
            code = f.code = [None] * len(f.blocks)
        nl = len(f.locals)
        base = self.nobj
        self.nobj += nl
        mem = self.mem
        if len(self.stack) > 400:
            raise Unsupported('recursion too deep in ' + f.name)
        if f.spread >= 0 and len(args) != f.argc:
            raise Unsupported('spread args')
        for i in range(nl):
            mem[base + i] = None
        for i, a in enumerate(args):
            mem[base + 1 + i] = a
        self.stack.append(f)
        try:
            return self._run(f, code, base, nl)
        finally:
            self.stack.pop()

    def _run(self, f, code, base, nl):
        edges = f.edges
        its = None
        pend = None           # dict key -> (mem, path, its, facts)
        heap = None
        ret = None
        bb = 0
        facts0 = self.D.facts
        while True:
            blk = code[bb]
            if blk is None:
                blk = code[bb] = compile_block(self.P, f, f.blocks[bb])
            stmts, term = blk
            for s in stmts:
                s(self, base)
            nxt = term(self, base)
            if nxt.__class__ is int:
                if nxt >= 0:
                    e = edges.get((bb, nxt))
                    if e is not None:
                        its = edge_its(its, e)
                        if e[0] == 'back' and its[e[1]] > self.loopcap:
                            raise Unsupported('loop trip count not decided in ' + f.name)
                    if not pend:
                        bb = nxt
                        continue
                    self._push(f, pend, heap, nxt, its, self.mem, self.path)
                elif nxt == -1:      # return
                    st = (self.mem, self.path)
                    ret = st if ret is None else self.join_states(ret, st)
                # else diverged: drop state
            else:
                # undecided branch: [(target, factor, refinement), ...]
                if pend is None:
                    pend = {}
                    heap = []
                mem, path, facts = self.mem, self.path, self.D.facts
                n = len(nxt)
                for j, (tg, fac, mp) in enumerate(nxt):
                    np = path
                    if fac is not None and path is not None:
                        if any(x == fac ^ F1 for x in path):
                            continue
                        if fac not in path:
                            np = path + (fac,)
                    elif self.D.exact:
                        np = None
                    self.mem = dict(mem) if j < n - 1 else mem
                    self.D.facts = facts
                    if mp:
                        self.subst(mp) if mp.__class__ is dict else mp()
                    e = edges.get((bb, tg))
                    i2 = its
                    if e is not None:
                        i2 = edge_its(its, e)
                        if e[0] == 'back' and i2[e[1]] > self.loopcap:
                            raise Unsupported('loop trip count not decided in ' + f.name)
                    self._push(f, pend, heap, tg, i2, self.mem, np)
            if not pend:
                break
            k = heapq.heappop(heap)
            self.mem, self.path, its, bb, self.D.facts = pend.pop(k)
        if ret is None:
            self.D.facts = facts0
            return DIV
        self.mem, self.path = ret
        mem = self.mem
        r = mem[base]
        for i in range(nl):
            del mem[base + i]
        return r

    def _push(self, f, pend, heap, bb, its, mem, path):
        ch = f.chain[bb]
        pos = f.pos
        key = tuple([x for h in ch for x in (pos[h], its[h])]) + (pos[bb], -1)
        o = pend.get(key)
        if o is None:
            pend[key] = (mem, path, its, bb, self.D.facts)
            heapq.heappush(heap, key)
        else:
            m, p = self.join_states((o[0], o[1]), (mem, path))
            fa = o[4]
            if fa is not self.D.facts:
                g = self.D.facts
                fa = {k: (min(v[0], g[k][0]), max(v[1], g[k][1])) for k, v in fa.items() if k in g}
            pend[key] = (m, p, its, bb, fa)


def edge_its(its, e):
    its = dict(its) if its else {}
    if e[0] == 'back':
        for h in e[2]:
            its.pop(h, None)
        its[e[1]] = its.get(e[1], 0) + 1
    else:
        for h in e[2]:
            its.pop(h, None)
        for h in e[1]:
            its[h] = 0
    return its


def transplant(v, v0, now, mp):
    """result of a memoised call for another call with an equal abstract input.  A value that is
    the input object itself stays tied to the present input; every other value keeps only its
    interval and taint, since one abstract value object must not stand for two run-time values."""
    if v is v0 and v is not None and v.__class__ is not int:
        return now
    c = v.__class__
    if c is V:
        return V(v.lo, v.hi, v.t)
    if c is tuple:
        if v0.__class__ is tuple and now.__class__ is tuple and len(v0) == len(v) == len(now):
            return tuple([transplant(x, a, b, mp) for x, a, b in zip(v, v0, now)])
        return tuple([x if x.__class__ is int else transplant(x, None, None, mp) for x in v])
    if c is Ptr:
        return Ptr(mp.get(v.o, v.o) if v.o.__class__ is int else v.o,
                   tuple([transplant(x, None, None, mp) if x.__class__ is V else x for x in v.p]),
                   transplant(v.m, None, None, mp))
    if c is En:
        return En(transplant(v.tag, None, None, mp), {k: transplant(x, None, None, mp) for k, x in v.alts.items()})
    return v


def remap(v, mp):
    c = v.__class__
    if c is tuple:
        n = None
        for i, x in enumerate(v):
            if x.__class__ is int or x.__class__ is V or x is None:
                continue
            y = remap(x, mp)
            if y is not x:
                if n is None:
                    n = list(v)
                n[i] = y
        return v if n is None else tuple(n)
    if c is Ptr:
        if v.o.__class__ is int and v.o in mp:
            return Ptr(mp[v.o], v.p, v.m)
        return v
    if c is En:
        return En(v.tag, {k: (remap(x, mp) if x is not None else None) for k, x in v.alts.items()})
    return v


def short(n):
    return n.split('::<')[0]


def model_key(f):
    n = f.name
    i = n.find('::<')
    if n.startswith('core::slice::<impl [') or n.startswith('std::slice::<impl ['):
        return 'slice::' + n.rsplit('::', 1)[-1] if not n.endswith('>') else 'slice::' + n.rsplit('::<', 1)[0].rsplit('::', 1)[-1]
    return n[:i] if i > 0 and not n.startswith('<') else n


def table_value(dm, t, b, ty, tn):
    """value t[index bits b] as GF(2) forms: affine tables directly, others via T atoms"""
    n = len(b)
    if all(x == F1 or not x for x in b):
        return ty.wrap(t[sum(1 << i for i, x in enumerate(b) if x)])
    c = t[0]
    lin = [t[1 << i] ^ c for i in range(n)]
    affine = True
    for i, x in enumerate(t):
        y = c
        for j in range(n):
            if (i >> j) & 1:
                y ^= lin[j]
        if y != x:
            affine = False
            break
    out = []
    for j in range(ty.w):
        if affine:
            r = F1 if (c >> j) & 1 else F0
            for i in range(n):
                if (lin[i] >> j) & 1:
                    r = r ^ b[i]
            out.append(r)
        else:
            col = tuple((x >> j) & 1 for x in t)
            if not any(col):
                out.append(F0)
            elif all(col):
                out.append(F1)
            else:
                out.append(anf_atom(A.get(('T', col, tuple(b), 0), 0, 1)))
    return dm.mkB(ty, out, tn)


# =================================================================== compile
class Loc:
    __slots__ = ('o', 'p', 'm')


def norm_index(m, path, idx, sl):
    """element idx of the slice/array at path"""
    if sl:
        last = path[-1]
        if last == 0 and last.__class__ is int:
            return path[:-1] + (idx,)
        if last.__class__ is int and idx.__class__ is int:
            return path[:-1] + (last + idx,)
        if last.__class__ is tuple:
            raise Unsupported('index into byte view')
        return path[:-1] + (m.D.arith('Add', last, idx, USZ)[0],)
    if path and path[-1].__class__ is tuple and path[-1][0] == 'R':
        r = path[-1]
        if idx.__class__ is int:
            return path[:-1] + (r[1] + idx,)
        return path[:-1] + (m.D.arith('Add', r[1], idx, USZ)[0],)
    return path + (idx,)


def comp_place(P, f, pl):
    """-> loc(m, base) -> (obj, path, meta)"""
    if pl.__class__ is int:
        l = pl
        return lambda m, b: (b + l, (), None)
    l = pl[0]
    ty = f.locals[l]
    steps = []
    isslice = False
    variant = None
    for e in pl[1:]:
        k = e[0]
        T = P.types[ty]
        if k == 'd':
            steps.append(('d',))
            ty = P.pointee(ty)
            isslice = P.types[ty]['k'] in ('slice', 'str')
        elif k == 'f':
            if variant is not None:
                steps.append(('p', ('V', variant), e[1]))
                variant = None
            elif T['k'] == 'adt' and T['adt'] == 'union':
                pass
            elif T['k'] == 'pat':
                pass
            else:
                steps.append(('p', e[1]))
            ty = e[2]
            isslice = P.types[ty]['k'] in ('slice', 'str')
        elif k == 'v':
            variant = e[1]
        elif k == 'i':
            steps.append(('i', e[1], isslice))
            ty = T['elem']
            isslice = P.types[ty]['k'] == 'slice'
        elif k == 'c':
            steps.append(('c', e[1], e[3], isslice, T.get('len')))
            ty = T['elem']
            isslice = False
        elif k == 's':
            steps.append(('s', e[1], e[2], e[3], isslice, T.get('len')))
        elif k == 'o':
            pass
        else:
            raise Unsupported('projection ' + k)
    if variant is not None:
        steps.append(('p', ('V', variant)))

    def loc(m, b):
        o = b + l
        p = ()
        me = None
        for s in steps:
            k = s[0]
            if k == 'd':
                q = m.load(o, p)
                if q.__class__ is not Ptr:
                    if q.__class__ is tuple and len(q) == 1 and q[0].__class__ is Ptr:
                        q = q[0]
                    else:
                        raise Unsupported('dereference of %s in %s' % (type(q).__name__, f.name))
                o, p, me = q.o, q.p, q.m
            elif k == 'p':
                p = p + s[1:]
                me = None
            elif k == 'i':
                p = norm_index(m, p, m.mem[b + s[1]], s[2])
                me = None
            elif k == 'c':
                i = s[1]
                if s[2]:
                    i = (me if s[3] else s[4]) - i
                p = norm_index(m, p, i, s[3])
                me = None
            else:
                fr, to = s[1], s[2]
                n = me if s[4] else s[5]
                end = n - to if s[3] else to
                if s[4]:
                    p = norm_index(m, p, fr, True)
                    me = end - fr
                else:
                    p = norm_index(m, p, ('x',), False)[:-1] + (('R', fr, end - fr),)
                    me = None
        return o, p, me
    return loc


def place_type(P, f, pl):
    if pl.__class__ is int:
        return f.locals[pl]
    ty = f.locals[pl[0]]
    variant = None
    for e in pl[1:]:
        k = e[0]
        if k == 'd':
            ty = P.pointee(ty)
        elif k == 'f':
            ty = e[2]
            variant = None
        elif k in ('i', 'c'):
            ty = P.types[ty]['elem']
        elif k == 's':
            pass
    return ty


def comp_read(P, f, pl):
    if pl.__class__ is int:
        l = pl
        return lambda m, b: m.mem[b + l]
    if len(pl) == 2 and pl[1][0] == 'd':
        l = pl[0]

        def rd1(m, b):
            q = m.mem[b + l]
            if q.__class__ is Ptr:
                o = q.o
                v = m.mem[o] if o.__class__ is int else o[2]
                for c in q.p:
                    v = v[c] if c.__class__ is int and v.__class__ is tuple and c < len(v) else m.step(v, c)
                return v
            return m.load(*loc(m, b)[:2])
        loc = comp_place(P, f, pl)
        return rd1
    loc = comp_place(P, f, pl)

    def rd(m, b):
        o, p, _ = loc(m, b)
        return m.load(o, p)
    return rd


def comp_write(P, f, pl):
    if pl.__class__ is int:
        l = pl

        def w0(m, b, v):
            m.mem[b + l] = v
        return w0
    loc = comp_place(P, f, pl)

    def w(m, b, v):
        o, p, _ = loc(m, b)
        m.store(o, p, v)
    return w


def const_obj(P, alloc, ty):
    """immutable object for a constant allocation, decoded at pointee type ty"""
    key = (alloc, ty)
    r = P._decoded.get(key)
    if r is None:
        a = P.allocs[alloc]
        if a['k'] in ('mem', 'static') and a.get('data'):
            data = a['data']
            T = P.types[ty]
            if T['k'] in ('slice', 'str'):
                el = T.get('elem')
                n = len(data['b']) // 2
                if el is None:
                    v = tuple(bytes.fromhex(data['b'].replace('_', '0')))
                else:
                    sz = P.types[el]['size']
                    v = tuple(decode(P, el, data, i * sz) for i in range(n // sz)) if sz else ()
            else:
                v = decode(P, ty, data, 0)
        else:
            v = None
        r = P._decoded[key] = ('c', alloc, v)
    return r


def decode(P, t, data, off):
    T = P.types[t]
    k = T['k']
    if k == 'pat':
        return decode(P, T['elem'], data, off)
    if k in ('int', 'bool', 'char'):
        n = T['size']
        h = data['b'][2 * off:2 * (off + n)]
        if '_' in h:
            return None
        x = int.from_bytes(bytes.fromhex(h), 'little')
        return P.int_ty(t).wrap(x) if k == 'int' else x
    if k in ('ptr', 'ref'):
        el = T['elem']
        a = None
        for po, al in data['p']:
            if po == off:
                a = al
        h = data['b'][2 * off:2 * (off + 8)]
        x = 0 if '_' in h else int.from_bytes(bytes.fromhex(h), 'little')
        E = P.types[el]
        meta = None
        if T['size'] == 16:
            mh = data['b'][2 * (off + 8):2 * (off + 16)]
            meta = 0 if '_' in mh else int.from_bytes(bytes.fromhex(mh), 'little')
        if a is None:
            # dangling / integer pointer
            return Ptr(('c', 'int', ()), (0,) if meta is not None else (x,), meta)
        if P.allocs[a]['k'] in ('fn', 'vtable', 'typeid'):
            return Ptr(('c', a, None), (), meta)
        o = const_obj(P, a, el)
        if E['k'] in ('slice', 'str'):
            es = P.types[E['elem']]['size'] if E['k'] == 'slice' else 1
            return Ptr(o, (x // es if es else 0,), meta)
        if x:
            raise Unsupported('interior constant pointer')
        return Ptr(o, (), meta)
    if k == 'array':
        el = T['elem']
        sz = P.types[el]['size']
        return tuple([decode(P, el, data, off + i * sz) for i in range(T['len'])])
    if k in ('tuple', 'closure'):
        fs = T.get('f', [])
        return tuple([decode(P, x, data, off + o) for x, o in zip(fs, T.get('off', [0] * len(fs)))])
    if k == 'fndef' or k == 'never':
        return ()
    if k == 'adt':
        if T['adt'] == 'struct':
            fs = T['v'][0]['f']
            return tuple([decode(P, x, data, off + o) for x, o in zip(fs, T.get('off', [0] * len(fs)))])
        if T['adt'] == 'union':
            s = P.strip(t)
            return decode(P, s, data, off) if s != t else ()
        if 'tag' in T:
            tg = T['tag']
            to = off + tg['off']
            h = data['b'][2 * to:2 * (to + tg['size'])]
            hasp = any(po == to for po, _ in data['p'])
            raw = None if '_' in h else int.from_bytes(bytes.fromhex(h), 'little')
            if raw is None:
                return None
            if tg['enc'] == 'direct':
                v = None
                for i, x in enumerate(T['v']):
                    if int(x['d']) & ((1 << (8 * tg['size'])) - 1) == raw:
                        v = i
            else:
                unt, ns, ne, start = tg['enc']
                rel = (raw - start) % (1 << (8 * tg['size']))
                v = unt
                if not hasp and rel <= ne - ns:
                    v = ns + rel
            fs = T['v'][v]['f']
            return En(v, {v: tuple([decode(P, x, data, off + o) for x, o in zip(fs, tg['voff'][v])])})
        v = T.get('single', 0)
        fs = T['v'][v]['f'] if T['v'] else []
        return En(v, {v: tuple([decode(P, x, data, off + o) for x, o in zip(fs, T.get('off', [0] * len(fs)))])})
    raise Unsupported('constant of type ' + T['s'])


def zst(P, t):
    T = P.types[t]
    k = T['k']
    if k == 'adt' and T['adt'] == 'enum':
        return En(T.get('single', 0), {T.get('single', 0): tuple(zst(P, x) for x in (T['v'][T.get('single', 0)]['f'] if T['v'] else []))})
    if k == 'adt' or k in ('tuple', 'closure'):
        return tuple(zst(P, x) for x in P.fields(t))
    return ()


def comp_op(P, f, op):
    k = op[0]
    if k in ('c', 'm'):
        return comp_read(P, f, op[1])
    if k == 'k':
        v = zst(P, op[1]) if op[2] is None else decode(P, op[1], op[2], 0)
        return lambda m, b: v
    if k == 'rc':
        v = 1 if 'Overflow' in op[1] else 0
        return lambda m, b: v
    msg = 'unevaluated constant'

    def bad(m, b):
        raise Unsupported(msg)
    return bad


def op_type(P, f, op):
    if op[0] in ('c', 'm'):
        return place_type(P, f, op[1])
    if op[0] == 'k' or op[0] == 'kx':
        return op[1]
    return None


BOPS = {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul', 'AddUnchecked': 'Add', 'SubUnchecked': 'Sub', 'MulUnchecked': 'Mul'}


def need_scalar(v, what):
    c = v.__class__
    if c is not int and c is not V:
        raise Unsupported('%s on %s' % (what, 'uninitialised value' if v is None else c.__name__))


def shift_amount(m, k, w):
    if k.__class__ is int:
        return k & (w - 1) if k >= 0 else k & (w - 1)
    if k.lo >= 0 and k.hi < w:
        return k
    return V(0, w - 1, k.t)


def binop(m, op, x, y, ty, P, chk=False):
    cx, cy = x.__class__, y.__class__
    if cx is Ptr or cy is Ptr:
        if op == 'Offset':
            if x.m is not None:
                raise Unsupported('offset of fat pointer')
            if y.__class__ is int and y == 0:
                return x
            if not x.p:
                raise Unsupported('offset of scalar pointer')
            last = x.p[-1]
            if last.__class__ is tuple:
                if last[0] == 'B' and y.__class__ is int:
                    i = last[1] + y
                    if len(x.p) >= 2 and x.p[-2].__class__ is int:
                        return Ptr(x.o, x.p[:-2] + (x.p[-2] + i // last[2], ('B', i % last[2], last[2])))
                if last[0] == 'R' and y.__class__ is int:
                    return Ptr(x.o, x.p[:-1] + (('R', last[1] + y * last[2], last[2]),))
                raise Unsupported('offset of view pointer')
            if last.__class__ is int and y.__class__ is int:
                return Ptr(x.o, x.p[:-1] + (last + y,))
            if taint(y):
                m.event('secret-index', m.span, 'pointer offset depends on secret', False, taint(y))
            return Ptr(x.o, x.p[:-1] + (m.D.arith('Add', last, y, it(64, True))[0],))
        if op in ('Eq', 'Ne'):
            if cx is Ptr and cy is Ptr:
                if x.o != y.o or x.p[:-1] != y.p[:-1]:
                    r = 0
                elif x.p == y.p:
                    r = 1
                else:
                    r = m.D.cmp('Eq', x.p[-1], y.p[-1], USZ)
            else:
                r = 0
            return r if op == 'Eq' else m.D.bnot(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge') and cx is Ptr and cy is Ptr and x.o == y.o and x.p[:-1] == y.p[:-1]:
            return m.D.cmp(op, x.p[-1], y.p[-1], USZ)
        raise Unsupported('pointer ' + op)
    if cx is tuple and not x and cy is tuple and op in ('Eq', 'Ne'):
        return 1 if op == 'Eq' else 0
    need_scalar(x, op)
    need_scalar(y, op)
    d = m.D
    if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
        return d.cmp(op, x, y, ty)
    if op in ('BitXor', 'BitAnd', 'BitOr'):
        return d.bitop(op, x, y, ty)
    b = BOPS.get(op)
    if b is not None:
        if op.endswith('Unchecked'):
            return d.clip(b, x, y, ty)
        return d.arith(b, x, y, ty)[0]
    if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
        k = shift_amount(m, y, ty.w)
        if taint(k):
            m.event('secret-shift', m.span, 'shift amount depends on secret')
        return d.shl(x, k, ty) if op[2] == 'l' else d.shr(x, k, ty)
    if op in ('Div', 'Rem'):
        if (taint(x) or taint(y)) and y.__class__ is not int:
            m.event('secret-div', m.span, 'division on secret operands', False, taint(x) | taint(y))
        if y.__class__ is int and y == 0:
            return d.top(ty, 0)
        return d.divrem(op, x, y, ty)
    if op == 'Cmp':
        lt = d.cmp('Lt', x, y, ty)
        eq = d.cmp('Eq', x, y, ty)
        if lt.__class__ is int and eq.__class__ is int:
            t = 0 if lt else 1 if eq else 2
        elif not d.exact:
            t = V(0, 2, taint(x) | taint(y))
        else:
            # variant = 2 - 2*lt - eq
            t = d.arith('Sub', 2, d.arith('Add', d.arith('Mul', 2, lt, it(8))[0], eq, it(8))[0], it(8, True))[0]
        return En(t, {0: (), 1: (), 2: ()})
    raise Unsupported('binary op ' + op)


def comp_rvalue(P, f, r, line):
    k = r[0]
    span = f.file + ':' + str(line)
    if k == 'use':
        return comp_op(P, f, r[1])
    if k == 'bin' or k == 'chk':
        op = r[1]
        x, y = comp_op(P, f, r[2]), comp_op(P, f, r[3])
        t = op_type(P, f, r[2])
        ty = P.int_ty(t) if t is not None else USZ
        if k == 'chk':
            b = {'Add': 'Add', 'Sub': 'Sub', 'Mul': 'Mul'}.get(op)
            if b is None:
                raise Unsupported('checked ' + op)

            def chk(m, bs):
                p, q = x(m, bs), y(m, bs)
                if p.__class__ is int and q.__class__ is int:
                    z = p + q if b == 'Add' else p - q if b == 'Sub' else p * q
                    if ty.lo <= z <= ty.hi:
                        return (z, 0)
                    return (ty.wrap(z), 1)
                need_scalar(p, op)
                need_scalar(q, op)
                v, may, must = m.D.arith(b, p, q, ty)
                if not may:
                    return (v, 0)
                if must:
                    return (v, 1)
                m.ovf = (b, rng(p), rng(q))
                return (m.D.clip(b, p, q, ty), V(0, 1, taint(p) | taint(q), None))
            return chk
        if op in ('BitXor', 'BitAnd', 'BitOr'):
            def bit(m, bs):
                p, q = x(m, bs), y(m, bs)
                cp, cq = p.__class__, q.__class__
                if (cp is int or cp is V) and (cq is int or cq is V):
                    return m.D.bitop(op, p, q, ty)
                return binop(m, op, p, q, ty, P)
            return bit

        def bn(m, bs):
            m.span = span
            return binop(m, op, x(m, bs), y(m, bs), ty, P)
        return bn
    if k == 'un':
        op = r[1]
        x = comp_op(P, f, r[2])
        t = op_type(P, f, r[2])
        if op == 'PtrMetadata':
            def pm(m, b):
                v = x(m, b)
                if v.__class__ is not Ptr:
                    raise Unsupported('metadata')
                return v.m if v.m is not None else ()
            return pm
        ty = P.int_ty(t)
        isb = P.types[t]['k'] == 'bool'

        def un(m, b):
            v = x(m, b)
            need_scalar(v, op)
            if op == 'Not':
                return m.D.bnot(v) if isb else m.D.inv(v, ty)
            return m.D.neg(v, ty)[0]
        return un
    if k == 'cast':
        return comp_cast(P, f, r)
    if k == 'ref' or k == 'addr':
        pl = r[2] if k == 'ref' else r[1]
        loc = comp_place(P, f, pl)
        pt = P.types[place_type(P, f, pl)]['k']
        fat = pt in ('slice', 'str', 'dyn')
        islocal = pl.__class__ is int

        def ref(m, b):
            o, p, me = loc(m, b)
            return Ptr(o, p, me if fat else None)
        return ref
    if k == 'agg':
        kind = r[1]
        ops = [comp_op(P, f, o) for o in r[2]]
        kk = kind[0]
        if kk in ('array', 'tuple', 'closure'):
            return lambda m, b: tuple([o(m, b) for o in ops])
        if kk == 'adt':
            T = P.types[kind[1]]
            if T['adt'] == 'enum':
                v = kind[2]
                return lambda m, b: En(v, {v: tuple([o(m, b) for o in ops])})
            if T['adt'] == 'union':
                return lambda m, b: ops[0](m, b)
            return lambda m, b: tuple([o(m, b) for o in ops])
        if kk == 'rawptr':
            def rp(m, b):
                p = ops[0](m, b)
                me = ops[1](m, b)
                return Ptr(p.o, p.p, me if me.__class__ is not tuple else None)
            return rp
        raise Unsupported('aggregate ' + kk)
    if k == 'rep':
        x = comp_op(P, f, r[1])
        n = r[2]
        return lambda m, b: (x(m, b),) * n
    if k == 'discr':
        rd = comp_read(P, f, r[1])
        t = place_type(P, f, r[1])
        T = P.types[t]
        if T['k'] != 'adt' or T['adt'] != 'enum':
            return lambda m, b: 0
        ds = [int(v['d']) for v in T['v']]
        dty = P.int_ty(T['dty'])
        ds = [dty.wrap(x) for x in ds]
        if 'single' in T and T['single'] is not None and ds:
            only = ds[T['single']]
            return lambda m, b: only
        ident = all(i == x for i, x in enumerate(ds))
        off = ds[0] if ds and all(x == ds[0] + i for i, x in enumerate(ds)) else None

        def dis(m, b):
            v = rd(m, b)
            if v.__class__ is not En:
                raise Unsupported('discriminant of %s in %s:%s' % (type(v).__name__, f.name, r))
            t = v.tag
            if t.__class__ is int:
                return ds[t]
            if ident:
                return t
            if off is not None:
                return m.D.arith('Add', t, off, dty)[0]
            raise Unsupported('discriminant')
        return dis
    if k == 'len':
        loc = comp_place(P, f, r[1])
        T = P.types[place_type(P, f, r[1])]
        if T['k'] == 'array':
            return lambda m, b: T['len']
        return lambda m, b: loc(m, b)[2]
    raise Unsupported('rvalue ' + k)


def unwrap1(P, t):
    """single payload field of a transparent-ish struct, or None"""
    T = P.types[t]
    if T['k'] == 'adt' and T['adt'] == 'struct':
        fs = T['v'][0]['f']
        nz = [i for i, x in enumerate(fs) if P.types[x].get('size', 1)]
        if len(nz) == 1:
            return nz[0], fs[nz[0]]
    if T['k'] == 'array' and T['len'] == 1:
        return 0, T['elem']
    return None


def cast_ptr(P, st, dt, q):
    """adjust the typed path of pointer q when its pointee type changes"""
    if q.__class__ is not Ptr:
        raise Unsupported('pointer cast of ' + type(q).__name__)
    s, d = P.strip(P.pointee(st)), P.strip(P.pointee(dt))
    if s == d:
        return q
    S, Dt = P.types[s], P.types[d]
    sk, dk = S['k'], Dt['k']
    if dk == 'tuple' and not Dt.get('f') or dk in ('other', 'dyn'):
        return Ptr(q.o, q.p, None)
    if sk == 'tuple' and not S.get('f'):
        return q
    if sk in ('slice', 'str') and dk in ('slice', 'str'):
        return q
    if sk == 'slice':
        return cast_elem(P, P.strip(S['elem']), d, Ptr(q.o, q.p, None))
    if dk in ('slice', 'str'):
        return q
    return cast_elem(P, s, d, q)


def sk_ptr(T):
    return T['k'] in ('ptr', 'ref')


def cast_elem(P, s, d, q):
    if s == d:
        return q
    S, Dt = P.types[s], P.types[d]
    if Dt['k'] == 'array' and P.strip(Dt['elem']) == s:
        if q.p and q.p[-1].__class__ is int:
            return Ptr(q.o, q.p[:-1] + (('R', q.p[-1], Dt['len']),), q.m)
    if S['k'] == 'array' and P.strip(S['elem']) == d:
        if q.p and q.p[-1].__class__ is tuple and q.p[-1][0] == 'R':
            return Ptr(q.o, q.p[:-1] + (q.p[-1][1],), q.m)
        return Ptr(q.o, q.p + (0,), q.m)
    if S['k'] == 'array' and Dt['k'] == 'array' and P.strip(S['elem']) == P.strip(Dt['elem']):
        if q.p and q.p[-1].__class__ is tuple and q.p[-1][0] == 'R':
            return Ptr(q.o, q.p[:-1] + (('R', q.p[-1][1], Dt['len']),), q.m)
        return Ptr(q.o, q.p + (('R', 0, Dt['len']),), q.m)
    if S['k'] == 'int' and Dt['k'] == 'int':
        if S['bits'] == Dt['bits']:
            return q      # same width: signedness only (value wraps on load by type)
        if Dt['bits'] == 8:
            return Ptr(q.o, q.p + (('B', 0, S['size']),), q.m)
        if S['bits'] == 8 and q.p:
            if q.p[-1].__class__ is int:
                return Ptr(q.o, q.p[:-1] + (('W', q.p[-1], Dt['size']),), q.m)
            if q.p[-1].__class__ is tuple and q.p[-1][0] == 'B' and q.p[-1][1] == 0 and q.p[-1][2] == Dt['size']:
                return Ptr(q.o, q.p[:-1], q.m)
    if S['k'] == 'int' and Dt['k'] == 'array' and P.types[Dt['elem']]['size'] == 1 and Dt['len'] == S['size']:
        if q.p and q.p[-1] == ('J', S['size']):
            return Ptr(q.o, q.p[:-1], q.m)
        return Ptr(q.o, q.p + (('A', S['size']),), q.m)
    if Dt['k'] == 'int' and S['k'] == 'array' and P.types[S['elem']]['size'] == 1 and S['len'] == Dt['size']:
        if q.p and q.p[-1] == ('A', Dt['size']):
            return Ptr(q.o, q.p[:-1], q.m)
        return Ptr(q.o, q.p + (('J', Dt['size']),), q.m)
    u = unwrap1(P, s)
    if u is not None:
        return cast_elem(P, P.strip(u[1]), d, Ptr(q.o, q.p + (u[0],), q.m))
    u = unwrap1(P, d)
    if u is not None and q.p and q.p[-1] == u[0]:
        return cast_elem(P, s, P.strip(u[1]), Ptr(q.o, q.p[:-1], q.m)) if P.strip(u[1]) == s else q
    if u is not None and Dt['k'] == 'adt':
        r = cast_elem(P, s, P.strip(u[1]), q)
        return Ptr(r.o, r.p + (('N', u[0], len(Dt['v'][0]['f'])),), r.m)
    if sk_ptr(S) and sk_ptr(Dt):
        return q
    raise Unsupported('pointer cast %s -> %s' % (S['s'], Dt['s']))


def comp_cast(P, f, r):
    kind, op, dt = r[1], r[2], r[3]
    x = comp_op(P, f, op)
    st = op_type(P, f, op)
    if kind == 'IntToInt':
        a, b = P.int_ty(st), P.int_ty(dt)
        if a is b or (a.w == b.w and a.sg == b.sg):
            return x
        if not a or not b:
            T = P.types[st]
            if T['k'] == 'adt' and T['adt'] == 'enum':
                ds = [int(v['d']) for v in T['v']]

                def ec(m, bs):
                    v = x(m, bs)
                    if v.__class__ is En and v.tag.__class__ is int:
                        return b.wrap(ds[v.tag])
                    if v.__class__ is En and all(i == z for i, z in enumerate(ds)):
                        return v.tag
                    raise Unsupported('enum cast')
                return ec
            raise Unsupported('cast')

        def ic(m, bs):
            v = x(m, bs)
            if v.__class__ is int:
                return b.wrap(v)
            need_scalar(v, 'cast')
            return m.D.cast(v, a, b)
        return ic
    if kind.startswith('PointerCoercion(Unsize'):
        S = P.types[P.pointee(st)] if P.is_ptr(st) else None
        if S is not None and S['k'] == 'array':
            n = S['len']

            def uns(m, bs):
                q = x(m, bs)
                if q.p and q.p[-1].__class__ is tuple and q.p[-1][0] == 'R':
                    return Ptr(q.o, q.p[:-1] + (q.p[-1][1],), n)
                return Ptr(q.o, q.p + (0,), n)
            return uns
        return lambda m, bs: x(m, bs)
    if kind.startswith('PointerCoercion'):
        return x
    if kind == 'PtrToPtr':
        return lambda m, bs: cast_ptr(P, st, dt, x(m, bs))
    if kind == 'Transmute' or kind == 'Subtype':
        return lambda m, bs: transmute(m, P, st, dt, x(m, bs))
    msg = 'cast ' + kind

    def bad(m, bs):
        raise Unsupported(msg)
    return bad


def flatten(m, P, t, v, out):
    T = P.types[t]
    k = T['k']
    if k == 'pat':
        return flatten(m, P, T['elem'], v, out)
    if k in ('int', 'bool', 'char'):
        out.append((T['size'], v))
    elif k in ('ptr', 'ref'):
        out.append(('p', v, t))
    elif k == 'array':
        for i in range(T['len']):
            flatten(m, P, T['elem'], v[i] if v is not None else None, out)
    elif k == 'adt' and T['adt'] == 'union':
        s = P.strip(t)
        if s != t:
            flatten(m, P, s, v, out)
    elif k in ('tuple', 'closure') or k == 'adt' and T['adt'] == 'struct':
        fs = P.fields(t)
        off = T.get('off', [0] * len(fs))
        for i in sorted(range(len(fs)), key=lambda i: off[i]):
            flatten(m, P, fs[i], v[i] if v is not None else None, out)
    elif k == 'fndef':
        pass
    else:
        out.append(('e', v, t))


def build(m, P, t, q):
    T = P.types[t]
    k = T['k']
    if k == 'pat':
        return build(m, P, T['elem'], q)
    if k in ('int', 'bool', 'char'):
        n = T['size']
        if not q:
            raise Unsupported('transmute underflow')
        if q[0][0] == n:
            v = q.pop(0)[1]
            if v is None:
                return None
            ty = P.int_ty(t)
            if v.__class__ is int:
                return ty.wrap(v)
            if v.__class__ is V and (v.lo < ty.lo or v.hi > ty.hi):
                return m.D.cast(v, it(8 * n, not ty.sg), ty)
            return v
        if q[0][0] in ('p', 'e'):
            raise Unsupported('pointer to integer transmute')
        if q[0][0] < n:
            bs = []
            while len(bs) < n:
                s, v = q.pop(0)
                bs.extend(m.split_bytes(v, s) if v is not None else (None,) * s)
            v = m.join_bytes(tuple(bs), n)
            if v is None:
                return None
            ty = P.int_ty(t)
            return m.D.cast(v, it(8 * n), ty) if v.__class__ is V else ty.wrap(v)
        s, v = q.pop(0)
        q[0:0] = [(1, x) for x in m.split_bytes(v, s)]
        return build(m, P, t, q)
    if k in ('ptr', 'ref'):
        e = q.pop(0)
        if e[0] != 'p':
            if e[0] == 8:
                return Ptr(('c', 'int', ()), (e[1],))
            raise Unsupported('integer to pointer transmute')
        return cast_ptr(P, e[2], t, e[1])
    if k == 'array':
        return tuple([build(m, P, T['elem'], q) for _ in range(T['len'])])
    if k == 'adt' and T['adt'] == 'union':
        s = P.strip(t)
        return build(m, P, s, q) if s != t else ()
    if k in ('tuple', 'closure') or k == 'adt' and T['adt'] == 'struct':
        fs = P.fields(t)
        off = T.get('off', [0] * len(fs))
        out = [None] * len(fs)
        for i in sorted(range(len(fs)), key=lambda i: off[i]):
            out[i] = build(m, P, fs[i], q)
        return tuple(out)
    if k == 'fndef':
        return ()
    if k == 'adt' and T['adt'] == 'enum':
        e = q[0]
        if e[0] == 'e' and e[2] == t:
            return q.pop(0)[1]
        tg = T.get('tag')
        if tg is not None and tg['enc'] != 'direct' and len(T['v']) == 2:
            unt, ns, ne, start = tg['enc']
            v = e[1]
            if v.__class__ is Ptr:
                q2 = list(q)
                val = tuple([build(m, P, x, q) for x in T['v'][unt]['f']])
                return En(unt, {unt: val})
            if v.__class__ is int:
                if v == start:
                    q.pop(0)
                    return En(ns, {ns: tuple(zst(P, x) for x in T['v'][ns]['f'])})
                return En(unt, {unt: tuple([build(m, P, x, q) for x in T['v'][unt]['f']])})
            c = m.D.cmp('Eq', v, start, it(64))
            val = tuple([build(m, P, x, q) for x in T['v'][unt]['f']])
            tag = m.D.bnot(c) if unt == 1 else c
            return En(tag, {unt: val, ns: tuple(zst(P, x) for x in T['v'][ns]['f'])})
        if tg is not None and tg['enc'] == 'direct' and e[1].__class__ is int:
            for i, x in enumerate(T['v']):
                if int(x['d']) == e[1]:
                    q.pop(0)
                    return En(i, {i: ()})
    raise Unsupported('transmute to ' + T['s'])


def transmute(m, P, st, dt, v):
    if st == dt:
        return v
    out = []
    flatten(m, P, st, v, out)
    return build(m, P, dt, out)


def comp_stmt(P, f, s):
    k = s[0]
    if k == 'a':
        rv = comp_rvalue(P, f, s[2], s[3])
        pl = s[1]
        if pl.__class__ is int:
            l = pl

            def a0(m, b):
                v = rv(m, b)
                m.mem[b + l] = v
            return a0
        w = comp_write(P, f, pl)

        def a1(m, b):
            w(m, b, rv(m, b))
        return a1
    if k == 'sd':
        rd, w = comp_read(P, f, s[1]), comp_write(P, f, s[1])
        n = s[2]

        def sd(m, b):
            v = rd(m, b)
            al = v.alts if v.__class__ is En else {}
            w(m, b, En(n, {n: al.get(n, ())}))
        return sd
    if k == 'cno':
        a, c, n = (comp_op(P, f, o) for o in s[1:4])
        st, dt = op_type(P, f, s[1]), op_type(P, f, s[2])

        def cn(m, b):
            copy_mem(m, a(m, b), c(m, b), n(m, b))
        return cn
    raise Unsupported('statement ' + k)


def read_n(m, p, n):
    """n consecutive elements starting at p"""
    if n == 0:
        return ()
    if not p.p:
        if n == 1:
            return (m.load(p.o, p.p),)
        raise Unsupported('multi-element read of scalar object')
    last = p.p[-1]
    if last.__class__ is int:
        arr = m.load(p.o, p.p[:-1])
        if arr.__class__ is tuple:
            if last + n > len(arr):
                raise Unsupported('read past end of object')
            return arr[last:last + n]
    if n == 1:
        return (m.load(p.o, p.p),)
    if last.__class__ is tuple and last[0] == 'B':
        if p.p[-2].__class__ is not int:
            raise Unsupported('byte view')
        sz = last[2]
        arr = m.load(p.o, p.p[:-2])
        tot = last[1] + n
        cnt = (tot + sz - 1) // sz
        bs = []
        for x in arr[p.p[-2]:p.p[-2] + cnt]:
            bs.extend(m.split_bytes(x, sz))
        return tuple(bs[last[1]:tot])
    raise Unsupported('multi-element read')


def write_n(m, p, vals):
    n = len(vals)
    if n == 0:
        return
    if not p.p:
        if n == 1:
            m.store(p.o, p.p, vals[0])
            return
        raise Unsupported('multi-element write to scalar object')
    last = p.p[-1]
    if last.__class__ is int:
        arr = m.load(p.o, p.p[:-1])
        if arr.__class__ is tuple:
            if last + n > len(arr):
                raise Unsupported('write past end of object')
            m.store(p.o, p.p[:-1], arr[:last] + tuple(vals) + arr[last + n:])
            return
    if n == 1:
        m.store(p.o, p.p, vals[0])
        return
    if last.__class__ is tuple and last[0] == 'B':
        sz = last[2]
        if last[1] == 0 and n % sz == 0 and p.p[-2].__class__ is int:
            ws = tuple(m.join_bytes(tuple(vals[i:i + sz]), sz) for i in range(0, n, sz))
            write_n(m, Ptr(p.o, p.p[:-1]), ws)
            return
    raise Unsupported('multi-element write')


def copy_mem(m, a, c, n):
    if n.__class__ is not int:
        raise Unsupported('copy of undecided length')
    if n == 0:
        return
    write_n(m, c, read_n(m, a, n))


def comp_term(P, f, t):
    k = t[0]
    if k == 'goto':
        n = t[1]
        return lambda m, b: n
    if k == 'ret':
        return lambda m, b: -1
    if k in ('unreachable', 'resume', 'abort'):
        return lambda m, b: -2
    if k == 'switch':
        x = comp_op(P, f, t[1])
        ty = P.int_ty(t[2])
        tg = [(ty.wrap(v), n) for v, n in t[3]]
        tmap = dict(tg)
        oth = t[4]
        span = t[5]
        pl = t[1][1] if t[1][0] in ('c', 'm') else None
        isbool = ty.w == 1

        def sw(m, b):
            v = x(m, b)
            if v.__class__ is int:
                return tmap.get(v, oth)
            need_scalar(v, 'switch')
            if v.t:
                m.event('secret-branch', span, 'branch on a secret-dependent condition', False, v.t)
            outs = []
            rest = F1
            exact = m.D.exact
            left = []
            for c, n in tg:
                if c < v.lo or c > v.hi:
                    continue
                e = m.D.cmp('Eq', v, c, ty) if not (isbool and v.lo == 0 and v.hi == 1) else None
                if e.__class__ is int:
                    if e:
                        return n
                    continue
                fac = None
                mp = {}
                if e is None:
                    if exact:
                        bt = m.D.vbits(v, BOOL)
                        if bt is not None:
                            fac = bt[0] if c else bt[0] ^ F1
                    m.assume(v, c, mp)
                else:
                    if exact:
                        bt = m.D.vbits(e, BOOL)
                        fac = bt[0] if bt is not None else None
                    m.assume(e, 1, mp)
                mp[id(v)] = c
                left.append(c)
                if fac is not None and m.path is not None:
                    if fac in m.path:
                        return n
                    if any(q == fac ^ F1 for q in m.path):
                        continue
                outs.append((n, fac, mp))
                if exact:
                    try:
                        rest = band(rest, fac ^ F1) if rest is not None and fac is not None else None
                    except Lost:
                        rest = None
            # otherwise branch
            span_ = v.hi - v.lo + 1
            if span_ > len(left):
                mp = {}
                if isbool and len(left) == 1:
                    m.assume(v, 1 - left[0], mp)
                    mp[id(v)] = 1 - left[0]
                else:
                    lo, hi = v.lo, v.hi
                    while lo in left:
                        lo += 1
                    while hi in left:
                        hi -= 1
                    if lo == hi:
                        mp[id(v)] = lo
                    elif lo < hi:
                        mp[id(v)] = V(lo, hi, v.t, v.s, v.d)
                if exact and not rest and rest is not None:
                    pass
                else:
                    outs.append((oth, rest if exact else None, mp))
            if len(outs) == 1:
                n, fac, mp = outs[0]
                m.subst(mp)
                return n
            # drop arms that are unreachable blocks
            outs = [o for o in outs if f.blocks[o[0]]['t'][0] != 'unreachable']
            if len(outs) == 1:
                m.subst(outs[0][2])
                return outs[0][0]
            m.branches[(f.name, span)] = m.branches.get((f.name, span), 0) + 1
            return outs
        return sw
    if k == 'drop':
        n = t[2]
        glue = t[3]
        if glue is None:
            return lambda m, b: n
        loc = comp_place(P, f, t[1])

        def dr(m, b):
            o, p, me = loc(m, b)
            g = P.fns[glue]
            if g.blocks is None:
                return n
            r = m.call(g, [Ptr(o, p, me)])
            return -2 if r is DIV else n
        return dr
    if k == 'call':
        fn, args, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        ops = [comp_op(P, f, a) for a in args]
        w = comp_write(P, f, dest)
        if fn.__class__ is not int:
            def ub(m, b):
                raise Unsupported('indirect call in ' + f.name)
            return ub
        g = P.fns[fn]
        spread = g.spread
        untuple = g.spread < 0 and g.blocks is not None and g.argc != len(args) and len(args) == 2
        tgt = -2 if target is None else target

        def cl(m, b):
            av = [o(m, b) for o in ops]
            if untuple:
                # Fn* call of a closure: the argument tuple is spread
                tup = av[1]
                av = [av[0]] + list(tup)
            m.span = span
            r = m.call(g, av)
            if r is DIV:
                return -2
            if target is None:
                return -2
            w(m, b, r)
            return tgt
        return cl
    if k == 'assert':
        x = comp_op(P, f, t[1])
        exp = 1 if t[2] else 0
        msg = t[3]
        n = t[4]
        span = t[5]
        kind = msg[0]
        det = kind + (' in ' + msg[1] if kind == 'overflow' else '')

        def asrt(m, b):
            v = x(m, b)
            if v.__class__ is int:
                if v == exp:
                    return n
                m.event('assert', span, det, True)
                return -2
            need_scalar(v, 'assert')
            m.event('assert', span, det, False, v.t)
            if v.t and kind != 'overflow':
                m.event('secret-branch', span, 'bounds or range check on a secret-dependent value', False, v.t)
            mp = {}
            m.assume(v, exp, mp)
            m.subst(mp)
            return n
        return asrt
    raise Unsupported('terminator ' + k)


def compile_block(P, f, blk):
    st = []
    for s in blk['s']:
        try:
            st.append(comp_stmt(P, f, s))
        except Unsupported as e:
            st.append(_raiser(str(e)))
    try:
        t = comp_term(P, f, blk['t'])
    except Unsupported as e:
        t = _raiser(str(e))
    return st, t


def _raiser(msg):
    def r(m, b):
        raise Unsupported(msg)
    return r


# =================================================================== intrinsics
INTR = {}
MODELS = {}


def intr(*names):
    def d(fn):
        for n in names:
            INTR[n] = fn
        return fn
    return d


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d


def ity(m, f, i=0):
    return m.P.int_ty(f.targs[i])


@intr('cold_path', 'assume', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid')
def _nop(m, f, a):
    return ()


@intr('likely', 'unlikely', 'black_box')
def _id(m, f, a):
    return a[0]


@intr('integer_min', 'integer_max')
def _imin(m, f, a):
    x, y = a
    mx = f.intr == 'integer_max'
    if x.__class__ is int and y.__class__ is int:
        return max(x, y) if mx else min(x, y)
    al, ah = rng(x)
    bl, bh = rng(y)
    fn = max if mx else min
    if (al >= bh) if mx else (ah <= bl):
        return x
    if (bl >= ah) if mx else (bh <= al):
        return y
    return m.D.mk(ity(m, f), fn(al, bl), fn(ah, bh), taint(x) | taint(y))


@intr('bswap')
def _bswap(m, f, a):
    ty = ity(m, f)
    n = ty.w // 8
    return m.join_bytes(tuple(reversed(m.split_bytes(a[0], n))), n)


@intr('rotate_left', 'rotate_right')
def _rot(m, f, a):
    ty = ity(m, f)
    k = a[1]
    if taint(k):
        m.event('secret-shift', m.span, 'rotate amount depends on secret')
    if k.__class__ is int:
        k %= ty.w
        if f.intr == 'rotate_right':
            k = (ty.w - k) % ty.w
    return m.D.rotl(a[0], k, ty)


@intr('ctpop', 'ctlz', 'cttz', 'ctlz_nonzero', 'cttz_nonzero')
def _ctpop(m, f, a):
    ty = ity(m, f)
    if a[0].__class__ is int:
        x = a[0] & ((1 << ty.w) - 1)
        if f.intr == 'ctpop':
            return bin(x).count('1')
        if f.intr.startswith('ctlz'):
            return ty.w - x.bit_length()
        return (x & -x).bit_length() - 1 if x else ty.w
    return V(0, ty.w, taint(a[0]))


@intr('ptr_offset_from_unsigned', 'ptr_offset_from')
def _pofs(m, f, a):
    p, q = a
    if p.o != q.o or p.p[:-1] != q.p[:-1]:
        raise Unsupported('offset between objects')
    x, y = p.p[-1], q.p[-1]
    if x.__class__ is int and y.__class__ is int:
        return x - y
    if x.__class__ is tuple or y.__class__ is tuple:
        raise Unsupported('offset of views')
    return m.D.arith('Sub', x, y, USZ)[0]


@intr('copy', 'copy_nonoverlapping')
def _copy(m, f, a):
    copy_mem(m, a[0], a[1], a[2])
    return ()


@intr('write_bytes')
def _wb(m, f, a):
    n = a[2]
    if n.__class__ is not int or m.P.types[f.targs[0]].get('size') != 1:
        raise Unsupported('write_bytes')
    write_n(m, a[0], (a[1],) * n)
    return ()


@intr('size_of_val')
def _sov(m, f, a):
    T = m.P.types[f.targs[0]]
    if T['k'] == 'slice':
        return m.D.arith('Mul', a[0].m, m.P.types[T['elem']]['size'], USZ)[0]
    if T['k'] == 'str':
        return a[0].m
    return T['size']


@intr('size_of')
def _so(m, f, a):
    return m.P.types[f.targs[0]]['size']


@intr('align_of', 'min_align_of')
def _ao(m, f, a):
    return m.P.types[f.targs[0]]['align']


@intr('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'unchecked_add', 'unchecked_sub', 'unchecked_mul')
def _wr(m, f, a):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[f.intr[-3:]]
    return m.D.arith(op, a[0], a[1], ity(m, f))[0]


@intr('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow')
def _awo(m, f, a):
    op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[f.intr[:3]]
    v, may, must = m.D.arith(op, a[0], a[1], ity(m, f))
    return (v, 1 if must else 0 if not may else V(0, 1, taint(a[0]) | taint(a[1])))


@intr('saturating_add', 'saturating_sub')
def _sat(m, f, a):
    ty = ity(m, f)
    v, may, must = m.D.arith('Add' if f.intr.endswith('add') else 'Sub', a[0], a[1], ty)
    if not may:
        return v
    if must and a[0].__class__ is int and a[1].__class__ is int:
        x = a[0] + a[1] if f.intr.endswith('add') else a[0] - a[1]
        return min(max(x, ty.lo), ty.hi)
    return m.D.top(ty, taint(a[0]) | taint(a[1]))


@intr('unchecked_shl', 'unchecked_shr')
def _ush(m, f, a):
    ty = ity(m, f)
    k = shift_amount(m, a[1], ty.w)
    return m.D.shl(a[0], k, ty) if f.intr.endswith('shl') else m.D.shr(a[0], k, ty)


@intr('exact_div', 'unchecked_div', 'unchecked_rem')
def _ediv(m, f, a):
    return m.D.divrem('Rem' if f.intr.endswith('rem') else 'Div', a[0], a[1], ity(m, f))


@intr('disjoint_bitor')
def _dbo(m, f, a):
    return m.D.bitop('BitOr', a[0], a[1], ity(m, f))


@intr('is_val_statically_known')
def _ivsk(m, f, a):
    return 0


@intr('select_unpredictable')
def _selu(m, f, a):
    c = a[0]
    if c.__class__ is int:
        return a[1] if c else a[2]
    sel = None
    if m.D.exact:
        b = m.D.vbits(c, BOOL)
        sel = b[0] if b else None
    return m.taint_with(m.join(a[1], a[2], sel), c.t)


@intr('volatile_store', 'unaligned_volatile_store', 'write_via_move', 'volatile_set_memory')
def _vst(m, f, a):
    if f.intr == 'volatile_set_memory':
        raise Unsupported(f.intr)
    m.store(a[0].o, a[0].p, a[1])
    return ()


@intr('volatile_load', 'unaligned_volatile_load', 'read_via_copy')
def _vld(m, f, a):
    return m.load(a[0].o, a[0].p)


@intr('transmute', 'transmute_unchecked')
def _tm(m, f, a):
    return transmute(m, m.P, f.targs[0], f.targs[1], a[0])


@intr('arith_offset', 'offset')
def _ao2(m, f, a):
    return binop(m, 'Offset', a[0], a[1], USZ, m.P)


@intr('typed_swap_nonoverlapping')
def _tsw(m, f, a):
    x, y = m.load(a[0].o, a[0].p), m.load(a[1].o, a[1].p)
    m.store(a[0].o, a[0].p, y)
    m.store(a[1].o, a[1].p, x)
    return ()


@intr('discriminant_value')
def _dv(m, f, a):
    v = m.load(a[0].o, a[0].p)
    return v.tag


def eq_bytes(m, xs, ys, w):
    """1-bit value: all pairs equal"""
    d = m.D
    t = 0
    zs = []
    for x, y in zip(xs, ys):
        t |= taint(x) | taint(y)
        if x.__class__ is int and y.__class__ is int:
            if x != y:
                return 0
            continue
        e = d.cmp('Eq', x, y, w)
        if e.__class__ is int:
            if not e:
                return 0
            continue
        zs.append((x, y, e))
    if not zs:
        return 1
    if len(zs) == 1:
        return zs[0][2]
    if not d.exact:
        return V(0, 1, t)
    fs = set()
    for x, y, _ in zs:
        bx, by = d.vbits(x, w), d.vbits(y, w)
        if bx is None or by is None:
            return V(0, 1, t)
        for i, j in zip(bx, by):
            if i != j:
                fs |= orset(i ^ j)
    if F1 in fs:
        return 0
    return d.mkB(BOOL, (anf_atom(A.get(('eqz', frozenset(fs)), 0, 1)),), t)


@intr('compare_bytes')
def _cmpb(m, f, a):
    n = a[2]
    if n.__class__ is not int:
        raise Unsupported('compare_bytes length')
    xs, ys = read_n(m, a[0], n), read_n(m, a[1], n)
    e = eq_bytes(m, xs, ys, it(8))
    if e.__class__ is V and e.t:
        m.event('secret-compare', m.span, 'early-exit byte comparison of secret data', False, e.t)
    if e.__class__ is int:
        return 1 - e
    r = m.D.bnot(e)
    return r


@intr('raw_eq')
def _raweq(m, f, a):
    P = m.P
    x, y = [], []
    flatten(m, P, f.targs[0], m.load(a[0].o, a[0].p), x)
    flatten(m, P, f.targs[0], m.load(a[1].o, a[1].p), y)
    xs = [b for s, v in x for b in m.split_bytes(v, s)]
    ys = [b for s, v in y for b in m.split_bytes(v, s)]
    e = eq_bytes(m, xs, ys, it(8))
    if e.__class__ is V and e.t:
        m.event('secret-compare', m.span, 'early-exit byte comparison of secret data', False, e.t)
    return e


@model('slice::swap')
def _sswap(m, f, a):
    p, i, j = a
    if i.__class__ is not int or j.__class__ is not int or p.m.__class__ is not int:
        return NotImplemented
    if i >= p.m or j >= p.m:
        m.event('panic', m.span, 'slice::swap index out of bounds', True)
        return DIV
    pi, pj = norm_index(m, p.p, i, True), norm_index(m, p.p, j, True)
    x, y = m.load(p.o, pi), m.load(p.o, pj)
    m.store(p.o, pi, y)
    m.store(p.o, pj, x)
    return ()


@model('slice::rotate_left', 'slice::rotate_right')
def _srot(m, f, a):
    p, k = a
    if k.__class__ is not int or p.m.__class__ is not int:
        return NotImplemented
    if k > p.m:
        m.event('panic', m.span, 'slice::rotate amount out of bounds', True)
        return DIV
    e = read_n(m, Ptr(p.o, p.p), p.m)
    if 'rotate_right' in f.name:
        k = p.m - k
    write_n(m, Ptr(p.o, p.p), e[k:] + e[:k])
    return ()


@model('slice::reverse')
def _srev(m, f, a):
    p = a[0]
    if p.m.__class__ is not int:
        return NotImplemented
    write_n(m, Ptr(p.o, p.p), tuple(reversed(read_n(m, Ptr(p.o, p.p), p.m))))
    return ()


@model('slice::fill')
def _sfill(m, f, a):
    p = a[0]
    if p.m.__class__ is not int or a[1].__class__ not in (int, V):
        return NotImplemented
    write_n(m, Ptr(p.o, p.p), (a[1],) * p.m)
    return ()


@model('std::mem::swap', 'core::mem::swap')
def _mswap(m, f, a):
    return _tsw(m, f, a)


@model('std::mem::replace', 'core::mem::replace')
def _mrep(m, f, a):
    x = m.load(a[0].o, a[0].p)
    m.store(a[0].o, a[0].p, a[1])
    return x


@model('std::ptr::swap', 'core::ptr::swap')
def _pswap(m, f, a):
    return _tsw(m, f, a)
