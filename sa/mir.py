"""Loader for the MIR dump written by mirx."""
import json
from dom import it, BOOL


class Unsupported(Exception):
    """A construct the analyser does not model (never reported as a violation)."""


class Fn:
    __slots__ = ('id', 'name', 'tname', 'crate', 'kind', 'intr', 'targs', 'unsafe', 'never', 'span', 'argc',
                 'spread', 'locals', 'names', 'blocks', 'code', 'loops', 'edges', 'chain', 'pos', 'u8fn', 'file')

    def __repr__(self):
        return self.name


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.allocs = d['allocs']
        self.fns = []
        for f in d['fns']:
            x = Fn()
            x.id = f['id']
            x.name = f['name']
            x.tname = f['tname']
            x.crate = f['crate']
            x.kind = f['kind']
            x.intr = f.get('intrinsic')
            x.targs = f.get('targs', [])
            x.unsafe = f.get('unsafe', False)
            x.never = f.get('never', False)
            x.span = f.get('span', '')
            x.blocks = f.get('blocks')
            x.argc = f.get('argc', 0)
            x.spread = f.get('spread', -1)
            x.locals = f.get('locals', [])
            x.names = dict((a, b) for a, b in f.get('names', []))
            x.code = None
            x.u8fn = None
            x.loops = x.edges = x.chain = x.pos = None
            x.file = x.span.rsplit(':', 1)[0]
            self.fns.append(x)
        self.roots = self.fns[:d['nroots']]
        self._int = {}
        self._decoded = {}
        self.by_name = {}
        for f in self.fns:
            self.by_name.setdefault(f.name, []).append(f)

    # ---- types
    def T(self, t):
        return self.types[t]

    def int_ty(self, t):
        r = self._int.get(t)
        if r is None:
            x = self.types[t]
            k = x['k']
            if k == 'int':
                r = it(x['bits'], x['signed'])
            elif k == 'bool':
                r = BOOL
            elif k == 'char':
                r = it(32, False)
            elif k == 'pat':
                r = self.int_ty(x['elem'])
            else:
                r = False
            self._int[t] = r
        return r

    def is_ptr(self, t):
        k = self.types[t]['k']
        if k == 'pat':
            return self.is_ptr(self.types[t]['elem'])
        return k in ('ptr', 'ref')

    def pointee(self, t):
        x = self.types[t]
        while x['k'] == 'pat':
            x = self.types[x['elem']]
        return x['elem']

    def fields(self, t, variant=0):
        x = self.types[t]
        if x['k'] == 'adt':
            return x['v'][variant]['f']
        if x['k'] in ('tuple', 'closure'):
            return x.get('f', [])
        return None

    def strip(self, t):
        """see through unions and single-field newtypes to the payload type"""
        while True:
            x = self.types[t]
            if x['k'] == 'pat':
                t = x['elem']
                continue
            if x['k'] == 'adt' and x['adt'] == 'union':
                fs = [f for f in x['v'][0]['f'] if self.types[f].get('size', 1)]
                if not fs:
                    return t
                t = fs[0]
                continue
            return t

    def find(self, pred, crate='crypto_pure'):
        return [f for f in self.fns if f.crate == crate and f.blocks is not None and pred(f)]

    def find1(self, suffix, crate='crypto_pure'):
        r = [f for f in self.fns if f.crate == crate and f.blocks is not None and f.name.endswith(suffix)]
        return r[0] if len(r) == 1 else None

    def cfg(self, f):
        """loop nesting: chain per block, linear position (WTO order), edge actions"""
        if f.pos is not None:
            return
        n = len(f.blocks)
        succ = [self.succs(b['t']) for b in f.blocks]
        # reverse postorder
        seen = [False] * n
        order = []
        st = [(0, iter(succ[0]))]
        seen[0] = True
        onstack = [False] * n
        onstack[0] = True
        back = set()
        while st:
            b, i = st[-1]
            for s in i:
                if onstack[s]:
                    back.add((b, s))
                elif not seen[s]:
                    seen[s] = True
                    onstack[s] = True
                    st.append((s, iter(succ[s])))
                    break
            else:
                st.pop()
                onstack[b] = False
                order.append(b)
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        preds = [[] for _ in range(n)]
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        heads = sorted({h for _, h in back}, key=lambda h: rpo[h])
        body = {}
        for h in heads:
            s = {h}
            w = [b for b, x in back if x == h]
            while w:
                b = w.pop()
                if b in s:
                    continue
                s.add(b)
                w.extend(p for p in preds[b] if p in rpo)
            body[h] = s
        # code on the way out of a loop (before a break): kept apart per iteration, like the loop itself
        for h in heads:
            if len({s for b in body[h] for s in succ[b] if s not in body[h]}) < 2:
                continue
            w = list(body[h])
            while w:
                b = w.pop()
                for s in succ[b]:
                    if s not in body[h] and len(preds[s]) == 1 and all(h in body[x] for x in heads if s in body[x]):
                        for x in heads:
                            if h in body[x]:
                                body[x].add(s)
                        w.append(s)
        chain = {b: tuple(h for h in heads if b in body[h]) for b in order}
        # WTO linear order: sort blocks so that each loop body is contiguous
        pos = {}

        def place(blocks, depth):
            items = []
            used = set()
            for b in blocks:
                c = chain[b]
                if len(c) > depth:
                    h = c[depth]
                    if h not in used:
                        used.add(h)
                        items.append((h, [x for x in blocks if len(chain[x]) > depth and chain[x][depth] == h]))
                else:
                    items.append((b, None))
            # topological order among items
            own = {}
            for i, (b, sub) in enumerate(items):
                for x in (sub if sub is not None else [b]):
                    own[x] = i
            indeg = [0] * len(items)
            outs = [set() for _ in items]
            for b in blocks:
                for s in succ[b]:
                    if s in own and own[s] != own[b] and (b, s) not in back and own[s] not in outs[own[b]]:
                        outs[own[b]].add(own[s])
                        indeg[own[s]] += 1
            import heapq
            q = [(rpo[items[i][0]], i) for i in range(len(items)) if not indeg[i]]
            heapq.heapify(q)
            while q:
                _, i = heapq.heappop(q)
                b, sub = items[i]
                if sub is None:
                    pos[b] = len(pos)
                else:
                    place(sub, depth + 1)
                for j in outs[i]:
                    indeg[j] -= 1
                    if not indeg[j]:
                        heapq.heappush(q, (rpo[items[j][0]], j))
        place(order, 0)
        f.pos = pos
        f.chain = chain
        f.loops = heads
        f.edges = {}
        for b in order:
            for s in succ[b]:
                if chain[s] != chain[b] or (b, s) in back:
                    cb, cs = chain[b], chain[s]
                    if s in cs and s in cb:
                        f.edges[(b, s)] = ('back', s, tuple(h for h in cb if h not in cs))
                    else:
                        f.edges[(b, s)] = ('move', tuple(h for h in cs if h not in cb), tuple(h for h in cb if h not in cs))

    @staticmethod
    def succs(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        return []
