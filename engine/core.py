"""Common machinery of the checks: running a harness operation symbolically, the element
representation invariant, obligations, parallel tasks, native replay, reporting."""
import json, multiprocessing, os, random, resource, sys, time, traceback
import build, ll, harness, native, smt, ref
from sym import *
from execu import *
from params import *

ROOT = build.ROOT
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()
PHASE = ''           # 'optimised': the run is about the optimised code
BUDGET = 420 if TIER != 'thorough' else 4 * 3600      # seconds of symbolic execution and solving


# ----------------------------------------------------------------- representation invariant
# Per field: interval of every limb.  INVS lists candidates, widest first; all of them
# contain every unpacked string, every constant and every sum/difference of two of those.

def inv_box(f, k):
    lo = [(0, (1 << f.w) - 1)] * (f.N - 1)
    t = 1 << f.t
    if k == 0:
        return lo + [(-4 * t, 4 * t - 1)]
    if k == 1:
        return lo + [(-2 * t, 2 * t + t // 2)]
    if k == 2:
        return lo + [(-t - 256, 2 * t + 256)]
    return lo + [(-t, 2 * t - 1)]


NINV = 4


def canon_box(f):
    return [(0, (1 << f.w) - 1)] * (f.N - 1) + [(0, (1 << f.t) - 1)]


def raw_box(f):
    """limbs of any unpacked string"""
    return canon_box(f)


class Res(object):
    """one finished path of a run"""
    def __init__(self, path, ex, outs, panic):
        self.path, self.ex, self.outs, self.panic = path, ex, outs, panic
        self.conds = path.conds


RUNS = []           # the runs of the current task


class Run(object):
    """a symbolic run of harness operation h_<key>_<op>"""

    JOIN = ('loose', 'strict', None)     # how paths are joined after a two-sided branch; next on JoinLost

    def __init__(self, S, key, op, boxes=None, fixed=None, hookfn=None, box=None, maxpaths=64, onbranch=None, timeout=30, twosided=None, stop=None):
        """boxes: var -> limb boxes; fixed: var -> concrete or prepared value; box: default limb box"""
        self.S, self.key, self.op = S, key, op
        self.f, self.ins, self.isz, self.outs, self.osz = harness.layout(key, op)
        self.ctx = Ctx()
        self.results = []
        self.invars = {}          # input element -> its limb variables
        RUNS.append(self)
        del RUNS[:-200]
        self.boxes = boxes or {}
        self.fixed = fixed or {}
        self.box = box or inv_box(self.f, 0)
        self.hookfn = hookfn
        self.called = {}
        self.steps = 0
        self.onbranch = onbranch
        self.branches = []
        self.symaddr = 0
        self.twosided = twosided
        dec = smt.decider(self.ctx, timeout)
        for self.joining in self.JOIN:
            try:
                self.paths(dec, maxpaths, stop)
                break
            except JoinLost:
                pass
        else:
            raise Unsupported("paths cannot be joined")

    def attempt(self, path):
        try:
            return self.body(path)
        except (TypeError, AttributeError, LookupError, ValueError) as e:
            # a shape of code the executor was not written for
            raise Unsupported("internal: %s: %s" % (type(e).__name__, e))

    def paths(self, dec, maxpaths, stop):
        self.branches = []
        self.results = []
        for path, res in explore(self.attempt, dec, maxpaths):
            self.branches += path.branches
            if isinstance(res, Panic):
                self.results.append(Res(path, None, None, res.why))
            else:
                self.results.append(Res(path, res[0], res[1], None))
            if stop and stop(self.results[-1]):
                break

    def limbvars(self, v):
        return [self.ctx.memo[('sym', '%s.%d' % (v, j))] for j in range(self.f.N)]

    def inval(self, v, j=None):
        """the integer sum limb_i 2^(w i) of input element v as a polynomial"""
        f = self.f
        o = {}
        nm = v if j is None else '%s%d' % (v, j)
        if nm in self.fixed and self.fixed[nm] is not None and not callable(self.fixed[nm]):
            return pconst(f.val(self.fixed[nm]))
        for i in range(f.N):
            k = self.ctx.memo.get(('sym', '%s.%d' % (nm, i)))
            if k is None:
                raise KeyError(nm)
            o[(k,)] = 1 << (f.w * i)
        return o

    def put_elem(self, ex, p, nm):
        f = self.f
        fx = self.fixed.get(nm)
        vs = self.invars[nm] = []
        for j in range(f.N):
            q = Ptr(p.obj, p.off + 8 * j)
            if callable(fx):
                x = fx(ex, j)
            elif fx is not None:
                x = fx[j] & (2 ** 64 - 1)
            else:
                lo, hi = self.boxes.get(nm, self.box)[j]
                x = self.ctx.sym('%s.%d' % (nm, j), 64, lo, hi)
            vs.append(next(iter(x.p))[0] if isinstance(x, V) and len(x.p) == 1 and len(next(iter(x.p))) == 1 else None)
            ex.store(q, 8, x)

    def body(self, path):
        f = self.f
        ex = Executor(self.S.prog, self.ctx)
        ex.deadline = T0 + BUDGET
        ex.path = path
        ex.joining = self.joining
        if self.twosided:
            path.twosided = lambda f, w, c: self.twosided(self, f, w, c)
        ex.hookfn = self.hookfn
        ex.called = self.called
        ex.onbranch = self.onbranch
        self.ex = ex
        i = ex.alloc(max(self.isz, 8), 'in')
        o = ex.alloc(max(self.osz, 8), 'out')
        for v, k, off in self.ins:
            p = Ptr(i.obj, off)
            if k == 'F':
                self.put_elem(ex, p, v)
            elif k == 'P':
                for j in range(4):
                    self.put_elem(ex, Ptr(i.obj, off + 8 * f.N * j), '%s%d' % (v, j))
            elif k in ('i32', 'i16', 'i8'):
                n = int(k[1:])
                x = self.fixed.get(v)
                ex.store(p, n // 8, self.ctx.sym(v, n, -(1 << n - 1), (1 << n - 1) - 1) if x is None else x if isinstance(x, V) else x & ((1 << n) - 1))
            elif k == 'b':
                x = self.fixed.get(v)
                if x is None:
                    t = self.ctx.memo.get(('sym', v))
                    if t is None:
                        t = self.ctx.var(v, 0, 1, b01=True)
                        self.ctx.memo[('sym', v)] = t
                    x = V(8, {(t,): 1}, 0, 1)
                ex.store(p, 1, x)
            elif k == 'u64':
                x = self.fixed.get(v)
                if x is None:
                    raise Unsupported("symbolic index")
                if isinstance(x, tuple):       # ('range', lo, hi): any value in between
                    ex.store(p, 8, self.ctx.sym(v, 64, x[1], x[2]))
                else:
                    ex.store(p, 8, x & (2 ** 64 - 1))
            elif k in ('B', 'L'):
                nb = f.nb + (harness.EXT if k == 'L' else 0)
                for j in range(nb):
                    lo, hi = self.boxes.get(v, [(0, 255)] * nb)[j]
                    fx = self.fixed.get(v)
                    ex.store(Ptr(i.obj, off + j), 1, self.ctx.sym('%s.%d' % (v, j), 8, lo, hi) if fx is None else fx[j])
            elif k == 'R':
                for j in range(4 * f.N):
                    ex.store(Ptr(i.obj, off + 8 * j), 8, 0)
            else:
                raise Unsupported("input kind " + k)
        self.inobj, self.outobj = i.obj, o.obj
        try:
            ex.invoke('h_%s_%s' % (self.key, self.op), [o, i])
        finally:
            self.steps += ex.steps
            self.symaddr += len(ex.symaddr)
        res = []
        for k, off in self.outs:
            if k == 'F':
                res.append(self.get_elem(ex, o, off))
            elif k == 'P':
                res.append([self.get_elem(ex, o, off + 8 * f.N * j) for j in range(4)])
            elif k == 'b':
                res.append(ex.load(Ptr(o.obj, off), 1, 8))
            elif k == 'L':
                res.append([ex.load(Ptr(o.obj, off + j), 1, 8) for j in range(f.nb + harness.EXT)])
            elif k == 'B':
                res.append([ex.load(Ptr(o.obj, off + j), 1, 8) for j in range(f.nb)])
            elif k == 'u64':
                res.append(ex.load(Ptr(o.obj, off), 8, 64))
            elif k == 'H':
                res.append([ex.load(Ptr(o.obj, off + j), 1, 8) for j in range(160)])
        return ex, res

    def get_elem(self, ex, o, off):
        f = self.f
        out = []
        for j in range(f.N):
            x = ex.load(Ptr(o.obj, off + 8 * j), 8, 64)
            if isinstance(x, Undef):
                raise Unsupported("undefined output limb")
            out.append(ex.ops.signed(x, 64))
        return out

    def val(self, limbs):
        o = {}
        for j, l in enumerate(limbs):
            o = padd(o, l.p, 1 << (self.f.w * j))
        return o


DICT = []            # integers that the crate's code compares with


def constants(prog):
    import re
    out = set()
    for n, f in prog.funcs.items():
        if 'safecurves' in prog.pretty.get(n, ''):
            for l in f.body:
                for m in re.finditer(r'icmp \w+ i\d+ [^,]+, (-?\d+)|^\s+i\d+ (-?\d+), label', l):
                    out.add(int(m.group(1) or m.group(2)))
    return sorted(out)


class Session(object):
    def __init__(self, opt=False):
        self.b = build.build(opt)
        self.prog = ll.Program(self.b['ll'])
        self._native = None
        DICT[:] = constants(self.prog)

    @property
    def native(self):
        if self._native is None:
            self._native = native.Native(self.b)
        return self._native


# ----------------------------------------------------------------- obligations

class Obl(object):
    """one proof obligation; status proved / refuted / unknown"""
    def __init__(self, name, status, detail='', model=None, hint=None):
        self.name, self.status, self.detail, self.model, self.hint = name, status, detail, model, hint


class Out(object):
    """what a task returns (picklable)"""
    def __init__(self):
        self.obls = []
        self.called = set()
        self.steps = 0
        self.paths = 0
        self.notes = []
        self.witness = []
        self.cands = []       # candidate counterexamples: (key, op, input values)

    def add(self, name, verdict, detail='', model=None):
        st = {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown', True: 'proved', False: 'refuted'}.get(verdict, verdict)
        self.obls.append(Obl(name, st, detail, model))
        return st == 'proved'

    def ran(self, r):
        self.called |= set(r.called)
        self.steps += r.steps
        self.paths += len(r.results)

    def ok(self):
        return all(o.status == 'proved' for o in self.obls)


def cex_inputs(run, model):
    """input values of a run under a solver model"""
    vals = []
    c = run.ctx
    f = run.f

    def g(name, lo, hi):
        k = c.memo.get(('sym', name))
        if k is None:
            return None
        x = model.get(k)
        return x if x is not None else min(max(0, c.lo[k]), c.hi[k])
    for v, k, off in run.ins:
        def elem(nm):
            fx = run.fixed.get(nm)
            if fx is not None and not callable(fx):
                return tuple(fx)
            return tuple(g('%s.%d' % (nm, j), 0, 0) or 0 for j in range(f.N))
        if k == 'F':
            vals.append(elem(v))
        elif k == 'P':
            vals.append(tuple(elem('%s%d' % (v, j)) for j in range(4)))
        elif k in ('B', 'L'):
            vals.append(tuple(g('%s.%d' % (v, j), 0, 0) or 0 for j in range(f.nb + (harness.EXT if k == 'L' else 0))))
        elif k == 'R':
            # the draws of the source, in order (a value below the sampling range is returned as it is)
            ds = []
            for d in (getattr(run.hookfn, 'draws', None) or []):
                x = 0
                if d is not None:
                    lo = 0 if d.lo < 0 else d.lo
                    x = (sum(k * (model.get(m[0]) if model.get(m[0]) is not None else min(max(0, c.lo[m[0]]), c.hi[m[0]])) if m else k for m, k in d.p.items()) - lo) & (2 ** 64 - 1)
                ds.append(x)
            vals.append(tuple((ds + [0] * (4 * f.N))[:4 * f.N]))
        else:
            x = run.fixed.get(v)
            vals.append(x if x is not None and not isinstance(x, tuple) else (g(v, 0, 0) or 0))
    return vals


def in_box(out, name, run, r, limbs, box, timeout=20):
    """obligation: every limb lies in its interval"""
    for j, (l, (lo, hi)) in enumerate(zip(limbs, box)):
        if l.lo >= lo and l.hi <= hi:
            continue
        run.ex.ops.tight(l)
        if l.lo >= lo and l.hi <= hi:
            continue
        f1 = run.ex.ops.atom('ge', padd(l.p, pconst(-lo)), l.lo - lo, l.hi - lo)
        f2 = run.ex.ops.atom('ge', padd(pconst(hi), l.p, -1), hi - l.hi, hi - l.lo)
        v, m, _ = smt.check(run.ctx, list(r.conds) + [fnot(fand(f1, f2))], timeout, label=name)
        if v != 'unsat':
            out.add('%s limb %d in range' % (name, j), v, '[%d,%d] vs [%d,%d]' % (l.lo, l.hi, lo, hi), m and cex_inputs(run, m))
            return False
    out.add('%s limbs in range' % name, True)
    return True


def no_panic(out, name, run):
    ok = True
    for r in run.results:
        if r.panic:
            v, m, ex = smt.check(run.ctx, list(r.conds), 20, label=name)
            if v == 'unsat':
                continue
            out.add('%s cannot panic' % name, v, r.panic, m and cex_inputs(run, m))
            ok = False
    if ok:
        out.add('%s cannot panic or overflow' % name, True)
    return ok


def congruent(out, name, run, r, got, want, timeout=30):
    f = run.f
    v, m, ex = smt.prove_congruent(run.ctx, list(r.conds), padd(got, want, -1), f.p, timeout, label=name)
    return out.add(name, v, '', m and cex_inputs(run, m))


# ----------------------------------------------------------------- primitive specifications

def poly_pow(ctx, p, e):
    r = {(): 1}
    for _ in range(e):
        r = ctx.pmul(r, p)
    return r


SPEC = {
    'add': lambda R: padd(R.inval('x'), R.inval('y')),
    'sub': lambda R: padd(R.inval('x'), R.inval('y'), -1),
    'neg': lambda R: pscale(R.inval('x'), -1),
    'mul': lambda R: R.ctx.pmul(R.inval('x'), R.inval('y')),
    'square': lambda R: R.ctx.pmul(R.inval('x'), R.inval('x')),
    'small_add': lambda R: padd(R.inval('x'), {(R.ctx.memo[('sym', 'k')],): 1}),
    'small_sub': lambda R: padd(R.inval('x'), {(R.ctx.memo[('sym', 'k')],): 1}, -1),
    'small_mul': lambda R: R.ctx.pmul(R.inval('x'), {(R.ctx.memo[('sym', 'k')],): 1}),
    'normalize': lambda R: R.inval('x'),
}
PYSPEC = {
    'add': lambda p, x, y: (x + y) % p, 'sub': lambda p, x, y: (x - y) % p, 'neg': lambda p, x: -x % p,
    'mul': lambda p, x, y: x * y % p, 'square': lambda p, x: x * x % p, 'small_add': lambda p, x, k: (x + k) % p,
    'small_sub': lambda p, x, k: (x - k) % p, 'small_mul': lambda p, x, k: x * k % p, 'normalize': lambda p, x: x % p,
}
PRIMS = ['add', 'sub', 'neg', 'mul', 'square', 'small_add', 'small_sub', 'small_mul']


def prim_lemma(S, key, op, level, spec=None, outbox=None):
    """op maps Inv x Inv -> Inv, exactly, without panic.  Returns Out"""
    f = F[key]
    out = Out()
    box = inv_box(f, level)
    spec = spec or op
    try:
        run = Run(S, key, op, box=box)
        out.ran(run)
        no_panic(out, '%s.%s' % (key, op), run)
        for i, r in enumerate(run.results):
            if r.panic:
                continue
            tag = '%s.%s path %d' % (key, op, i)
            o = r.outs[0]
            in_box(out, tag + ' result', run, r, o, outbox or box)
            congruent(out, tag + ' congruence', run, r, run.val(o), SPEC[spec](run))
    except (Unsupported, ll.ParseError) as e:
        out.add('%s.%s encodable' % (key, op), 'unknown', str(e))
    return out


def normalize_lemma(S, key, level):
    """normalize: Inv -> canonical form of the same residue"""
    f = F[key]
    out = Out()
    try:
        run = Run(S, key, 'normalize', box=inv_box(f, level))
        out.ran(run)
        no_panic(out, '%s.normalize' % key, run)
        for i, r in enumerate(run.results):
            if r.panic:
                continue
            tag = '%s.normalize path %d' % (key, i)
            o = r.outs[0]
            v = run.val(o)
            in_box(out, tag + ' canonical', run, r, o, canon_box(f))
            congruent(out, tag + ' congruence', run, r, v, run.inval('x'))
            lo, hi = run.ctx.bounds(v)
            A = run.ex.ops.atom
            c = fand(A('ge', v, lo, hi), A('ge', padd(pconst(f.p - 1), v, -1), f.p - 1 - hi, f.p - 1 - lo))
            vv, m, _ = smt.check(run.ctx, list(r.conds) + [fnot(c)], 60, label=tag + ' range')
            out.add(tag + ' value in [0,p)', vv, '', m and cex_inputs(run, m))
    except (Unsupported, ll.ParseError) as e:
        out.add('%s.normalize encodable' % key, 'unknown', str(e))
    return out


# ----------------------------------------------------------------- parallel tasks

_S = None
SEEDTIME = 25        # seconds per failed task for inputs that reach its conditions
EXTRA = {}           # field -> values met there
EXTRAP = {}          # curve -> (points, scalars) met there


def _call(a):
    fn, args, kw = a
    t0 = time.time()
    before = smt.STATS.dict()
    del RUNS[:]
    try:
        o = fn(_S, *args, **kw)
    except Exception:
        o = Out()
        o.add('%s%r runs' % (fn.__name__, args), 'unknown', traceback.format_exc()[-1500:])
    if not o.ok():
        import seeds
        lim = min(SEEDTIME, T0 + BUDGET - time.time())
        try:
            o.seeds = seeds.harvest(RUNS[-64:], lim, '%d/%r' % (SEED, args)) if lim > 1 else []
        except Exception:
            o.notes.append('no seeds: ' + traceback.format_exc()[-300:])
    del RUNS[:]
    after = smt.STATS.dict()
    o.stats = {k: after[k] - before[k] for k in after}
    o.slow = smt.STATS.slow[-5:]
    o.secs = time.time() - t0
    return o


class Pool(object):
    """fork-based pool sharing the parsed program"""

    def __init__(self, S, n=8):
        global _S
        _S = S
        if S._native is not None:
            S._native.close()
            S._native = None
        self.pool = multiprocessing.get_context('fork').Pool(n, maxtasksperchild=None)

    def map(self, tasks):
        """tasks: list of (fn, args) or (fn, args, kw); results in order.  A task that is not done when
        the time budget ends gives an undischarged obligation."""
        ts = [(t[0], tuple(t[1]), t[2] if len(t) > 2 else {}) for t in tasks]
        rs = [self.pool.apply_async(_call, (t,)) for t in ts]
        outs = []
        late = False
        for t, r in zip(ts, rs):
            try:
                outs.append(r.get(max(0.01, T0 + BUDGET + 20 - time.time())))
            except multiprocessing.TimeoutError:
                late = True
                o = Out()
                o.add('%s%r' % (t[0].__name__, t[1]), 'unknown', 'time budget')
                o.tag = t[1]
                o.uses = {}
                outs.append(o)
        if late:
            self.pool.terminate()
            self.pool.join()
            self.pool = multiprocessing.get_context('fork').Pool(8, maxtasksperchild=None)
        return outs

    def close(self):
        self.pool.terminate()
        self.pool.join()


# ----------------------------------------------------------------- reporting

def kill_children():
    for p in multiprocessing.active_children():
        p.kill()


class Report(object):
    def __init__(self, pid, technique, bounds, assumptions=()):
        self.pid = pid
        self.t0 = time.time()
        self.obls = []
        self.called = set()
        self.steps = 0
        self.paths = 0
        self.stats = smt.Stats()
        self.notes = []
        self.technique = technique
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.witness = []
        self.samples = []
        self.native_cases = 0
        self.validated = 0
        self.rc = None
        self.slow = []
        self.S = None
        self.seeds = {}

    def take(self, outs):
        for o in outs:
            self.obls += o.obls
            self.called |= o.called
            self.steps += o.steps
            self.paths += o.paths
            self.notes += o.notes
            self.witness += o.witness
            self.harvest(o)
            if getattr(o, 'stats', None):
                self.stats.merge(o.stats)
                self.slow += getattr(o, 'slow', [])
        return [o for o in outs if not o.ok()]

    def harvest(self, o):
        """inputs that reach conditions of the task's runs: candidates for the replay"""
        for key, op, vals in getattr(o, 'seeds', None) or []:
            self.seeds.setdefault((key, op), []).append(vals)
            f, ins, _, _, _ = harness.layout(key, op)
            for (v, k, _), x in zip(ins, vals):
                if k == 'F':
                    EXTRA.setdefault(f.key, []).append(f.val(x))
                    if key != f.key:
                        EXTRAP.setdefault(key, ([], []))[1].append(x)
                elif k == 'P':
                    EXTRAP.setdefault(key, ([], []))[0].append(x)

    def failed(self):
        return [o for o in self.obls if o.status != 'proved']

    def evidence(self, violations):
        proved = sum(1 for o in self.obls if o.status == 'proved')
        own = sorted(n for n in self.called if 'safecurves' in n)
        cov = {
            'explanation': self.technique,
            'obligations': len(self.obls), 'discharged': proved,
            'undischarged': [{'name': o.name, 'status': o.status, 'detail': str(o.detail)[:300]} for o in self.obls if o.status != 'proved'][:20],
            'bounds': self.bounds,
            'functions_encoded': len(self.called), 'functions_of_the_crate': len(own), 'functions_sample': own[:60],
            'instructions_executed_symbolically': self.steps, 'paths': self.paths,
            'solver': {'queries': self.stats.queries, 'unsat': self.stats.unsat, 'sat': self.stats.sat, 'unknown': self.stats.unknown, 'seconds': round(self.stats.time, 3), 'slowest': sorted(self.slow, reverse=True)[:5]},
            'second_solver': {'solver': 'cvc5', 'confirmed': self.stats.agree, 'no_answer': self.stats.open2, 'contradicted': self.stats.differ, 'seconds': round(self.stats.time2, 1)} if smt.SECOND else 'thorough tier only',
            'vacuity_witnesses': self.witness[:12],
            'encoder_validation_cases': self.validated,
            'native_replays': self.native_cases,
            'samples': [o.name for o in self.obls[:6]] + self.samples[:6],
            'notes': self.notes[:20],
            'source_tree': self.S.b['key'] if self.S else None,
            'build_seconds': round(self.S.b['seconds'], 2) if self.S else None,
        }
        ev = {'property': self.pid, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': 'other', 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', self.pid + '.json')
        if PHASE == 'optimised':
            try:
                with open(p) as fh:
                    first = json.load(fh)
                first['coverage']['optimised_code'] = {k: cov[k] for k in cov if k not in ('explanation', 'bounds')}
                first['wall_s'] = round(first['wall_s'] + ev['wall_s'], 2)
                first['violations'] += violations
                ev = first
            except (IOError, ValueError, KeyError):
                pass
        with open(p + '.tmp', 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(p + '.tmp', p)

    def violation(self, case):
        """case: json-able description of the native counterexample"""
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s.json' % self.pid)
        with open(p, 'w') as fh:
            json.dump(dict(case, property=self.pid), fh, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (self.pid, p))
        print('  ' + str(case.get('what'))[:2000])
        sys.stdout.flush()
        self.evidence(1)
        return 1

    def finish(self):
        bad = self.failed()
        self.evidence(0)
        if bad:
            print(('OPTIMISED CODE NOT DECIDED' if PHASE == 'optimised' else 'UNDECIDED') + ' property=%s: %d obligations not discharged and no counterexample reproduced' % (self.pid, len(bad)))
            for o in bad[:10]:
                print('  %s: %s %s' % (o.name, o.status, str(o.detail)[:400]))
            return 2
        print('OK ' + ('(optimised code) ' if PHASE == 'optimised' else '') + 'property=%s: %d obligations discharged, %d solver queries, %.2f s solver, %.1f s total' % (
            self.pid, len(self.obls), self.stats.queries, self.stats.time, time.time() - self.t0))
        return 0
