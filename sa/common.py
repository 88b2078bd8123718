"""Shared parts of the checks: export of the current tree, obligations, task pool, evidence."""
import glob
import itertools
import json
import multiprocessing
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

from mir import Prog, Unsupported                                    # noqa: E402
import dom                                                           # noqa: E402
import ring                                                          # noqa: E402
from dom import A, Dom, V, Lost, Valuation, it, vkey, rng            # noqa: E402
from interp import Machine, Ptr, DIV, En, NeedLimb                   # noqa: E402


MAXANF0 = dom.MAXANF


class Broken(Exception):
    """the check itself cannot run"""


# ---------------------------------------------------------------- export
def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True,
                          check=True).stdout.strip()


def clean_env():
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUSTDOC')) or k in ('CARGO_HOME',)}
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def build_mirx():
    d = os.path.join(VERIF, 'mirx')
    t = os.path.join(d, 'target')
    e = clean_env()
    e['CARGO_TARGET_DIR'] = t
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=d, env=e, capture_output=True, text=True)
    b = os.path.join(t, 'debug', 'mirx')
    if r.returncode or not os.path.exists(b):
        raise Broken('mirx does not build:\n' + r.stderr[-6000:])
    return b


def export(repo=None):
    """type-check the tree with the current compiler and read its monomorphised MIR"""
    repo = repo or REPO
    b = build_mirx()
    tmp = tempfile.mkdtemp(prefix='verif-sa-')
    try:
        h = os.path.join(tmp, 'h')
        os.makedirs(os.path.join(h, 'src'))
        src = os.path.join(VERIF, 'harness')
        shutil.copy(os.path.join(src, 'src', 'lib.rs'), os.path.join(h, 'src', 'lib.rs'))
        shutil.copy(os.path.join(src, 'Cargo.lock'), os.path.join(h, 'Cargo.lock'))
        with open(os.path.join(src, 'Cargo.toml')) as f:
            t = f.read()
        with open(os.path.join(h, 'Cargo.toml'), 'w') as f:
            f.write(t.replace('"/repo"', json.dumps(repo)))
        out = os.path.join(tmp, 'mir.json')
        e = clean_env()
        e['MIRX_OUT'] = out
        e['CARGO_TARGET_DIR'] = os.path.join(tmp, 't')
        e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        e['RUSTC_WORKSPACE_WRAPPER'] = b
        e['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0'
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline'], cwd=h, env=e, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise Broken('the tree does not type-check:\n' + r.stderr[-6000:])
        return Prog(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- obligations
OK, BAD, UNK = 'ok', 'bad', 'undecided'


class Ob:
    def __init__(self, name, status, detail='', site='', key=None, stats=None):
        self.name = name
        self.status = status
        self.detail = detail
        self.site = site
        self.key = key or name
        self.stats = stats or {}

    def js(self):
        r = {'obligation': self.name, 'status': self.status}
        if self.detail:
            r['detail'] = self.detail
        if self.site:
            r['site'] = self.site
        return r


class TO(Exception):
    pass


def _alarm(s, f):
    raise TO()


PROG = None


def prog():
    return PROG


def root(name):
    for f in PROG.roots:
        if f.name.endswith('::' + name):
            return f
    raise Broken('root %s missing from the exported program' % name)


def rel(span):
    """path of a span relative to the repository"""
    i = span.find('/src/')
    return span[i + 1:] if i >= 0 and 'rustlib' not in span else span


def site_of(m):
    """function/line of the innermost crypto-pure frame of a machine"""
    for f in reversed(m.stack):
        if f.crate == 'crypto_pure':
            return '%s (%s)' % (f.name, rel(f.span))
    return ''


def run_task(t):
    name, fn, args, limit = t
    A.reset()
    ring.G.reset()
    dom.CUT, dom.MAXANF = 0, MAXANF0
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        r = fn(*args)
        obs = r if isinstance(r, list) else [r]
    except TO:
        obs = [Ob(name, UNK, 'time limit of %d s' % limit)]
    except (Unsupported, Lost, NeedLimb) as e:
        obs = [Ob(name, UNK, '%s: %s' % (type(e).__name__, e))]
    except RecursionError:
        obs = [Ob(name, UNK, 'recursion')]
    except MemoryError:
        obs = [Ob(name, UNK, 'memory')]
    except Broken:
        raise
    except Exception as e:
        obs = [Ob(name, UNK, 'engine: %s' % traceback.format_exc(limit=-5))]
    finally:
        signal.alarm(0)
    dt = time.time() - t0
    for o in obs:
        o.stats.setdefault('wall', dt / len(obs))
    return obs


def pool_run(tasks, jobs=8, deadline=800):
    """tasks: [(name, fn, args, limit)] -> [Ob]"""
    t0 = time.time()
    out = []
    if os.environ.get('VERIF_SERIAL'):
        for t in tasks:
            out += run_task(t)
        return out
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(jobs, max(1, len(tasks))), maxtasksperchild=8) as p:
        rs = [(t, p.apply_async(run_task, (t,))) for t in tasks]
        for t, r in rs:
            left = deadline - (time.time() - t0)
            try:
                out += r.get(max(0.05, left))
            except multiprocessing.TimeoutError:
                out.append(Ob(t[0], UNK, 'not reached within the time budget'))
    return out


# ---------------------------------------------------------------- dataflow helpers
def machine(exact=True, **kw):
    d = Dom(exact)
    m = Machine(PROG, d, **kw)
    m.span = ''
    return m


def inp(m, name, n, t=0):
    return tuple(m.D.fresh(it(8), '%s[%d]' % (name, i), t, bits=m.D.exact) for i in range(n))


def sl(m, vals):
    return Ptr(m.new(tuple(vals)), (0,), len(vals))


def stats(m):
    return {'functions': sorted(n for n in m.calls if True), 'calls': sum(m.calls.values())}


def compare(name, got, want, m, what, fn, inputs=None, w=8, extra=None):
    """normal forms of the two byte/word sequences must agree"""
    st = {'calls': sum(m.calls.values()), 'fns': tuple(sorted(m.calls)), 'cells': len(want)}
    if got is DIV:
        return Ob(name, BAD, '%s: no path of %s returns' % (what, fn), events(m) or fn, key=name.split('/')[0], stats=st)
    if len(got) != len(want):
        return Ob(name, BAD, '%s: %s yields %d cells, %d expected' % (what, fn, len(got), len(want)), fn, stats=st)
    diff = []
    for i, (x, y) in enumerate(zip(got, want)):
        if x is None:
            return Ob(name, UNK, 'cell %d has no value' % i, fn, stats=st)
        try:
            if vkey(x) != vkey(y):
                diff.append(i)
        except Lost:
            return Ob(name, UNK, 'no normal form for cell %d of %s' % (i, what), fn, stats=st)
    if not diff:
        return Ob(name, OK, '', fn, stats=st)
    ty = it(w)
    t0 = time.time()
    lost = None
    for va in itertools.chain(valuations([(got[i], want[i]) for i in diff], inputs, ty), extra() if extra else ()):
        try:
            for i in diff:
                a, b = va.val(got[i], ty), va.val(want[i], ty)
                if a != b:
                    d = '%s: cell %d of the value computed by %s has a normal form different from the reference; ' \
                        'e.g. %s gives %#x, reference %#x' % (what, i, fn, witness(va, inputs), a, b)
                    return Ob(name, BAD, d, fn, stats=st)
        except Lost as e:
            lost = e
            break
        if time.time() - t0 > 90:
            break
    if lost:
        return Ob(name, UNK, 'normal forms differ but are not comparable: %s' % lost, fn, stats=st)
    return Ob(name, UNK, 'normal forms of cells %s differ but agree at every sampled point' % diff[:8], fn, stats=st)


PATTERNS = [lambda n: [0] * n, lambda n: [255] * n, lambda n: [1] + [0] * (n - 1), lambda n: [0] * (n - 1) + [128],
            lambda n: [0] * (n - 1) + [1], lambda n: [254] + [255] * (n - 1), lambda n: [255] * (n - 1) + [127],
            lambda n: [128] * n, lambda n: [127] * n, lambda n: [0x88] * n, lambda n: [0x77] * n]
for _c in (0, -1, 1, 18, -18, -19):
    PATTERNS.append(lambda n, c=_c: list(((1 << 255) - 19 + c).to_bytes(32, 'little')) if n == 32 else None)
for _c in (0, -1, 1):
    PATTERNS.append(lambda n, c=_c: list(((1 << 252) + 27742317777372353535851937790883648493 + c).to_bytes(32, 'little')) if n == 32 else None)
    PATTERNS.append(lambda n, c=_c: list(((1 << 130) - 5 + c & (1 << 128) - 1).to_bytes(16, 'little')) if n == 16 else None)


def valuations(pairs, inputs, ty):
    """random assignments, then assignments derived from the shape of the difference and of the
    conditions in the forms, then edge patterns; all only to exhibit a witness"""
    for seed in range(12):
        yield Valuation(seed)

    def preset(d, seed):
        va = Valuation(seed)
        va.memo.update(d)
        return va
    def inatom(i):
        return dom.A.key[i][0] == 'in'
    # a minimal monomial of the difference of two bit forms
    n = 0
    for x, y in pairs:
        if n >= 24:
            break
        bx = [b for b in bitsof(x, ty)]
        by = [b for b in bitsof(y, ty)]
        for b, c in zip(bx, by):
            d = b ^ c if b is not None and c is not None else None
            if not d or len(d) > 20000:
                continue
            ms = [dom.A.mono[m] for m in d]
            lo = min(ms, key=len)
            pre = {i: 0 for m in ms for i in m if inatom(i)}
            pre.update({i: 1 for i in lo if inatom(i)})
            n += 1
            yield preset(pre, 100 + n)
            if n >= 24:
                break
    # satisfy the conditions that occur in the forms
    conds = [i for i, k in enumerate(dom.A.key) if k[0] in ('eqz', 'eqp', 'lt')][:60]
    for i in conds:
        k = dom.A.key[i]
        if k[0] == 'eqz':
            eqs = []
            for b in k[1]:
                ms = [dom.A.mono[m] for m in b]
                if any(len(m) > 1 or len(m) == 1 and not inatom(m[0]) for m in ms):
                    break
                eqs.append((frozenset(m[0] for m in ms if m), sum(1 for m in ms if not m) & 1))
            else:
                pre = gauss(eqs)
                if pre is not None:
                    yield preset(pre, 200 + i)
        else:
            d = k[1].d
            if any(len(m) > 1 or m and not inatom(m[0]) for m in d):
                continue
            if k[0] == 'lt':
                for s in (1, -1):
                    yield preset({m[0]: (dom.A.lo if c * s > 0 else dom.A.hi)[m[0]] for m, c in d.items() if m}, 300 + i)
            else:
                c0 = d.get((), 0)
                if c0 > 0:
                    c0, d = -c0, {m: -c for m, c in d.items()}
                pre, rem = {}, -c0
                for m, c in sorted(((m, c) for m, c in d.items() if m), key=lambda q: -q[1]):
                    a = m[0]
                    v = dom.A.lo[a] if c < 0 else min(dom.A.hi[a], max(dom.A.lo[a], rem // c))
                    pre[a] = v
                    rem -= c * v
                if rem == 0:
                    yield preset(pre, 400 + i)
    # edge patterns of whole inputs
    gs = [(nm, vs) for nm, vs in (inputs or {}).items() if vs]
    for nm, vs in gs:
        for pat in PATTERNS:
            bs = pat(len(vs))
            if bs is None:
                continue
            pre = {}
            for v, x in zip(vs, bs):
                for j, b in enumerate(bitsof(v, it(8))):
                    if b and len(b) == 1:
                        m = dom.A.mono[next(iter(b))]
                        if len(m) == 1 and inatom(m[0]):
                            pre[m[0]] = x >> j & 1
            yield preset(pre, len(pre))


def bitsof(v, ty):
    if v.__class__ is int:
        return [dom.F1 if v >> j & 1 else dom.F0 for j in range(ty.w)]
    return v.s.b if v.s is not None and v.s.k == 'B' else [None] * ty.w


def gauss(eqs):
    piv = {}
    for s, c in eqs:
        s = set(s)
        for p, (t, d) in piv.items():
            if p in s:
                s ^= t
                c ^= d
        if not s:
            if c:
                return None
            continue
        p = next(iter(s))
        for q, (t, d) in list(piv.items()):
            if p in t:
                piv[q] = (t ^ s, d ^ c)
        piv[p] = (s, c)
    pre = {}
    for p, (s, c) in piv.items():
        pre[p] = c            # free atoms 0
        for i in s:
            if i != p:
                pre.setdefault(i, 0)
    return pre


def witness(va, inputs):
    r = []
    for n, vs in (inputs or {}).items():
        try:
            h = ''.join('%02x' % (va.val(v, it(8)) & 255) for v in vs)
        except Lost:
            h = '?'
        r.append('%s=%s' % (n, h if len(h) <= 128 else h[:120] + '..'))
    return ', '.join(r) or 'a witness input'


def events(m, kinds=('panic', 'assert')):
    return '; '.join('%s in %s at %s: %s' % (e.kind, e.fn, rel(e.span), e.msg)
                     for e in m.events.values() if e.kind in kinds)[:600]


def crate_frame(e):
    """innermost crypto-pure frame of an event"""
    for n, c, s in reversed(e.stack):
        if c == 'crypto_pure':
            return n, rel(s)
    return e.fn, rel(e.span)
