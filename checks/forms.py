"""C03 (small integers), C04 (closure of the representation), C17 (operator forms), C11 (sampling)."""
from base import *
import hooks
import reps

KEYS = [f.key for f in FIELDS]
SMALL = []
for _o in ('add', 'sub', 'mul'):
    SMALL.append(('small_' + _o, 'small_' + _o))
    SMALL.append(('small_%s_fn' % _o, 'small_' + _o))
    for _t in ('i32', 'i16', 'i8'):
        for _p in ('assign', 'ref', 'val') + (('rev',) if _o != 'sub' else ()):
            SMALL.append(('%s_%s_%s' % (_o, _p, _t), 'small_' + _o))
PLAIN = [('add_assign_val', 'add'), ('add_ref', 'add'), ('add_val', 'add'), ('sub_assign_val', 'sub'), ('sub_ref', 'sub'), ('sub_val', 'sub'),
         ('mul_assign_val', 'mul'), ('mul_ref', 'mul'), ('mul_val', 'mul'), ('squared', 'square')]
DIVS = [('div_assign_val', 'div_assign'), ('div_ref', 'div_assign'), ('div_val', 'div_assign'), ('inverted', 'invert')]
HEAVY = ['invert', 'inverted', 'div_assign', 'div_assign_val', 'div_ref', 'div_val', 'legendre', 'sqrt']


def small_task(S, key, op, spec, level):
    return prim_lemma(S, key, op, level, spec)


def C03(S):
    rep = Report('C03', 'symbolic execution of every small-integer operation and operator form; z3 decides congruence with x+k, x-k, x*k for all limbs and every k of the type',
                 {'operands': 'all limb vectors of the invariant', 'k': 'every value of i8, i16, i32', 'fields': 9}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        own = ['small_add', 'small_sub', 'small_mul']
        level, bad = levels(rep, pool, KEYS, own, PRIMS + ['normalize'])
        ks = [k for k in KEYS if level[k] is not None]
        rep.take(pool.map([(small_task, (k, op, spec, level[k])) for k in ks for op, spec in SMALL if op not in own]))
        validation(rep, pool, KEYS, [op for op, _ in SMALL], 1)
    finally:
        pool.close()
    if rep.failed():
        for k in KEYS:
            f = F[k]
            for op, spec in SMALL:
                if not any(o.name.startswith('%s.%s ' % (k, op)) for o in rep.failed()):
                    continue
                kinds = [kd for _, kd, _ in harness.layout(k, op)[1]]
                rng = random.Random('%d/small/%s/%s' % (SEED, k, op))
                first = reps.models_of2(rep, k, op) + small_models(S, k, op, spec)
                c = cex.search_op(S, rep, k, op, cex.judge_value(f, PYSPEC[spec]), kinds, first, NRAND)
                if c:
                    return rep.violation(c)
        for k in KEYS:
            for op in own:
                if any(o.name.startswith('%s.%s ' % (k, op)) for o in rep.failed()):
                    c = cex.chain_models(S, rep, F[k], op, random.Random('%d/chain/%s/%s' % (SEED, k, op)))
                    if c:
                        return rep.violation(c)
    return rep.finish()


def small_models(S, key, op, spec):
    """solver counterexamples with a directly reachable x and fixed k (linear)"""
    f = F[key]
    bits = int([kd for _, kd, _ in harness.layout(key, op)[1]][1][1:])
    m = 1 << (bits - 1)
    out = []
    for k in [m - 1, -m, -m + 1, 1, -1, 2, 0, m // 2, -(m // 2), m - 2]:
        try:
            R = Run(S, key, op, box=inv_box(f, 2), fixed={'k': k})
            want = {'small_add': lambda: padd(R.inval('x'), pconst(k)), 'small_sub': lambda: padd(R.inval('x'), pconst(-k)),
                    'small_mul': lambda: pscale(R.inval('x'), k)}[spec]()
            X = R.inval('x')
            for r in R.results:
                pre = list(r.conds) + cex.reach_conds(R, X)
                if r.panic:
                    v, mm, ex = smt.check(R.ctx, pre, 10)
                else:
                    v, mm, ex = smt.prove_congruent(R.ctx, pre, padd(R.val(r.outs[0]), want, -1), f.p, 10)
                if v == 'sat':
                    vals = cex_inputs(R, mm)
                    out.append((tuple(vals[0]), k))
        except Unsupported:
            continue
        if len(out) > 3:
            break
    return out


# --------------------------------------------------------------------------- C04

CLOSED = ['add', 'sub', 'neg', 'mul', 'square', 'small_add', 'small_sub', 'small_mul', 'normalize', 'normalize_eq', 'normalize_self_eq',
          'pack', 'packed', 'pack_normalized', 'unpack', 'unpacked', 'unpack_pack', 'pack_unpack'] + [o for o, _ in PLAIN] + [o for o, _ in SMALL if o not in ('small_add', 'small_sub', 'small_mul')] + reps.BITOPS
CANON_IN = {'pack_normalized': ['x'], 'normalize_self_eq': ['y'], 'normalized_bitand': ['x', 'y'], 'normalized_bitor': ['x', 'y'],
            'normalize_self_bitand': ['y'], 'normalize_self_bitor': ['y']}


def closed_task(S, key, op, level):
    f = F[key]
    nm = '%s.%s' % (key, op)

    def body(out, hk):
        boxes = {v: canon_box(f) for v in CANON_IN.get(op, ())}
        R = Run(S, key, op, box=inv_box(f, level), boxes=boxes, hookfn=hk)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            for (k, _), o in zip(R.outs, r.outs):
                if k == 'F':
                    in_box(out, nm + ' result', R, r, o, inv_box(f, level))
    return reps.attempt(S, key, level, body, nm)


def heavy_task(S, key, op, level):
    """compound operations over the (range-preserving) primitive ones"""
    f = F[key]
    out = Out()
    nm = '%s.%s' % (key, op)
    try:
        H = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))

        R = Run(S, key, op, box=inv_box(f, level), fixed=hooks.token_inputs(H, ['x', 'y']), hookfn=H)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if not r.panic:
                for (k, _), o in zip(R.outs, r.outs):
                    if k == 'F':
                        in_box(out, nm + ' result', R, r, o, inv_box(f, level))
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


def C04(S):
    rep = Report('C04', 'inductive range invariant on limb vectors: for every operation z3/interval reasoning shows that operands in the invariant give no arithmetic overflow, no panic and a result in the invariant; hence chains of any length',
                 {'representation invariant': 'lower limbs in [0,2^w), top limb in [-4*2^t, 4*2^t) or a tighter inductive candidate', 'chain length': 'unbounded (induction)', 'fields': 9,
                  'outside': 'mask values (fill, filled) used as numbers; bit operations documented for normalised operands are taken on normalised operands'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, PRIMS + ['normalize'])
        ks = [k for k in KEYS if level[k] is not None]
        rep.take(pool.map([(closed_task, (k, op, level[k])) for k in ks for op in CLOSED if op not in PRIMS + ['normalize']] +
                          [(heavy_task, (k, op, level[k])) for k in ks for op in HEAVY] + [(rand_task, (k,)) for k in ks] +
                          [(const_task, (k, level[k])) for k in ks]))
        validation(rep, pool, KEYS, PRIMS + ['normalize'], 2)
        rep.notes.append('invariant level per field: %r' % level)
    finally:
        pool.close()
    if rep.failed():
        rng = random.Random('%d/chains' % SEED)
        names = [o.name for o in rep.failed()]
        for f in sorted(FIELDS, key=lambda f: not any(n.startswith(f.key + '.') for n in names)):
            c = cex.chain_search(S, rep, f, rng, models=[(o.name.split()[0].split('.')[1], o.model) for o in rep.failed() if o.model and o.name.startswith(f.key + '.')])
            if not c and any(n.startswith(f.key + '.') for n in names):
                c = cex.loop_search(S, rep, f, rng)
            if c:
                return rep.violation(c)
    return rep.finish()


def const_task(S, key, level):
    """the published constants lie in the invariant"""
    f = F[key]
    out = Out()
    for op in ('consts', 'params'):
        try:
            R = Run(S, key, op)
            out.ran(R)
            no_panic(out, '%s.%s' % (key, op), R)
            for r in R.results:
                if not r.panic:
                    for (k, _), o in zip(R.outs, r.outs):
                        if k == 'F':
                            in_box(out, '%s.%s' % (key, op), R, r, o, inv_box(f, level))
        except (Unsupported, ll.ParseError) as e:
            out.add('%s.%s encodable' % (key, op), 'unknown', str(e))
    return out


# --------------------------------------------------------------------------- C11

class RandHook(object):
    """draws of the random source become fresh variables"""

    def __init__(self):
        self.draws = []
        self.bad = []

    def __call__(self, name, pretty):
        if pretty.endswith('as rand::Rng>::gen_range::<i64>'):
            return self.gen_range
        if pretty.endswith('as rand::Rng>::next_u64'):
            return lambda ex, a: self.draw(ex, 64, -(1 << 63), (1 << 63) - 1)
        if pretty.endswith('as rand::Rng>::next_u32'):
            return lambda ex, a: self.draw(ex, 32, 0, (1 << 32) - 1)
        return None

    def draw(self, ex, n, lo, hi):
        v = ex.ctx.sym('draw%d' % len(self.draws), n, lo, hi)
        self.draws.append(v)
        return v

    def gen_range(self, ex, a):
        lo, hi = a[1], a[2]
        if isinstance(lo, V) or isinstance(hi, V):
            raise Unsupported("symbolic sampling range")
        lo, hi = sgn(lo, 64), sgn(hi, 64)
        if lo >= hi:
            raise Panic("gen_range on an empty range [%d, %d)" % (lo, hi))
        if lo == hi - 1:
            self.bad.append('a draw from a single value')
            self.draws.append(None)
            return lo & (2 ** 64 - 1)
        return self.draw(ex, 64, lo, hi - 1)


def rand_task(S, key):
    f = F[key]
    out = Out()
    nm = '%s.rand' % key
    try:
        H = RandHook()

        class R2(Run):
            JOIN = (None,)

            def body(self, path):
                H.draws = []
                return Run.body(self, path)
        R = R2(S, key, 'rand', hookfn=H)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            o = r.outs[0]
            in_box(out, nm + ' result', R, r, o, canon_box(f))
            v = R.val(o)
            reps.in_range(out, nm + ' result in [0,p)', R, r, v, 0, f.p - 1)
            # every limb is covered by a draw of its own: any limb can be at its top while any other is 0
            for i in range(f.N):
                big = (1 << (f.w if i < f.N - 1 else f.t)) // 2
                for j in range(f.N):
                    if i == j:
                        continue
                    c = fand(('ge', frozenset(padd(o[i].p, pconst(-big)).items()), None, None), ('eq', frozenset(o[j].p.items()), None, None))
                    vv, m, _ = smt.check(R.ctx, list(r.conds) + [tidy(R.ctx, c)], 20, label=nm)
                    out.add('%s limb %d varies independently of limb %d' % (nm, i, j), {'sat': 'proved', 'unsat': 'refuted'}.get(vv, 'unknown'))
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


def tidy(ctx, f):
    if f[0] == 'and':
        return fand(tidy(ctx, f[1]), tidy(ctx, f[2]))
    p = dict(f[1])
    if is_const(p):
        return cval(p) >= 0 if f[0] == 'ge' else cval(p) == 0
    lo, hi = ctx.bounds(p)
    return (f[0], f[1], lo, hi)


def judge_rand(f):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'sampling panics'
        v = f.val(o[0])
        if not (0 <= v < f.p) or tuple(f.limbs(v)) != tuple(o[0]):
            return 'sampling yields the non-canonical limbs %r' % (list(o[0]),)
    return j


def rand_cases(f, rng, n):
    m = (1 << 64) - 1
    vecs = [[0] * (4 * f.N), [m] * (4 * f.N), [1] * (4 * f.N), [m >> 1] * (4 * f.N), [1 << 63] * (4 * f.N), [(1 << f.w) - 1] * (4 * f.N), [((1 << f.w) - 1) << (64 - f.w)] * (4 * f.N)]
    for _ in range(n):
        vecs.append([rng.choice([0, m, rng.getrandbits(64), (1 << rng.randrange(64)), m - (1 << rng.randrange(64)), (1 << rng.randrange(64)) - 1]) for _ in range(4 * f.N)])
    return [(tuple(v),) for v in vecs]


def C11(S):
    rep = Report('C11', 'symbolic execution of Rand::rand with every draw of the generator as a fresh symbolic value of its requested range; z3 decides canonicity for all draws and that every limb varies independently',
                 {'draws': 'every value of the requested range (rand 0.3 gen_range specification: lo <= draw < hi, panics if lo >= hi)', 'fields': 9}, ASSUME + ['rand::Rng::gen_range(lo, hi) returns an arbitrary value of [lo, hi)'])
    rep.S = S
    pool = Pool(S)
    try:
        rep.take(pool.map([(rand_task, (k,)) for k in KEYS]))
        validation(rep, pool, KEYS, ['unpacked'], 1)
    finally:
        pool.close()
    if rep.failed():
        for f in FIELDS:
            if not any(o.name.startswith(f.key + '.') for o in rep.failed()):
                continue
            rng = random.Random('%d/rand/%s' % (SEED, f.key))
            first = [tuple(o.model) for o in rep.failed() if o.name.startswith(f.key + '.') and isinstance(o.model, list)]
            c = cex.search_cases(S, rep, f.key, 'rand', judge_rand(f), first + rand_cases(f, rng, 3000))
            if c:
                return rep.violation(c)
            c = stuck_limbs(S, rep, f, rng)
            if c:
                return rep.violation(c)
    return rep.finish()


def stuck_limbs(S, rep, f, rng):
    """a limb that never varies, or that always follows another one, over many native samples"""
    cs = [(tuple(rng.getrandbits(64) for _ in range(4 * f.N)),) for _ in range(4000)]
    outs = [o for o in S.native.batch(f.key, 'rand', cs) if isinstance(o, tuple)]
    rep.native_cases += len(cs)
    for i in range(f.N):
        big = (1 << (f.w if i < f.N - 1 else f.t)) // 2
        vals = [o[0][i] for o in outs]
        if not any(v >= big for v in vals):
            return dict(what='%s.rand: limb %d never exceeds half its range in %d samples (largest %d)' % (f.key, i, len(vals), max(vals)), samples=cs[:3], field_or_curve=f.key)
        for j in range(i):
            a = [(o[0][i] >= big) for o in outs]
            b = [(o[0][j] >= (1 << f.w) // 2) for o in outs]
            agree = sum(x == y for x, y in zip(a, b))
            if agree in (0, len(a)):
                return dict(what='%s.rand: limbs %d and %d are not drawn independently (top bits always agree or always differ in %d samples)' % (f.key, i, j, len(a)), samples=cs[:3], field_or_curve=f.key)
    return None


# --------------------------------------------------------------------------- C17

class PairRun(Run):
    """runs the form and then the primary operation on the same symbolic inputs"""

    def __init__(self, S, key, op, prim, **kw):
        self.prim = prim
        Run.__init__(self, S, key, op, **kw)

    def body(self, path):
        op = self.op
        L = (self.ins, self.isz, self.outs, self.osz)
        res = []
        for o in (op, self.prim):
            self.op = o
            self.f, self.ins, self.isz, self.outs, self.osz = harness.layout(self.key, o)
            if o == self.prim and op.rsplit('_', 1)[-1] in ('i8', 'i16'):
                # the primary takes an i32: widen the same symbol
                n = int(op.rsplit('_', 1)[-1][1:])
                v = self.ctx.sym('k', n, -(1 << n - 1), (1 << n - 1) - 1)
                self.fixed = dict(self.fixed, k=V(32, v.p, v.lo, v.hi))
            try:
                ex, outs = Run.body(self, path)
                res.append(outs)
            except Panic as e:
                res.append('PANIC ' + e.why)
            self.fixed = {k: v for k, v in self.fixed.items() if k != 'k'}
        self.op = op
        self.ins, self.isz, self.outs, self.osz = L
        return ex, res


def pair_task(S, key, op, prim, level, heavy=False):
    f = F[key] if key in F else C[key].f
    out = Out()
    nm = '%s.%s' % (key, op)
    H = None
    try:
        fixed = {}
        if heavy:
            H = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))
            fixed = hooks.token_inputs(H, ('x', 'y', 'p0', 'p1', 'p2', 'p3', 'q0', 'q1', 'q2', 'q3'))
        R = PairRun(S, key, op, prim, box=inv_box(f, level), fixed=fixed, hookfn=H)
        out.ran(R)
        for r in R.results:
            a, b = r.outs if r.outs else ('PANIC', None)
            if isinstance(a, str) or isinstance(b, str):
                same = isinstance(a, str) and isinstance(b, str)
                if same:
                    continue
                v, m, _ = smt.check(R.ctx, list(r.conds), 20, label=nm)
                if v == 'unsat':
                    continue
                out.add(nm + ' panics exactly when %s does' % prim, v, '%s / %s' % (a if isinstance(a, str) else 'value', b if isinstance(b, str) else 'value'), m and cex_inputs(R, m))
                continue
            for (k, _), x, y in zip(R.outs, a, b):
                xs, ys = ([x], [y]) if k == 'F' else (x, y)
                for c, (l, l2) in enumerate(zip(xs, ys)):
                    tag = '%s computes the same element as %s%s' % (nm, prim, ' (coordinate %d)' % c if len(xs) > 1 else '')
                    if H is not None:
                        e1, e2 = H.lift(r.ex, l), H.lift(r.ex, l2)
                        out.add(tag, elem_equal(f, e1, e2, tag))
                    else:
                        v, m, _ = smt.prove_congruent(R.ctx, list(r.conds), padd(R.val(l), R.val(l2), -1), f.p, 30, label=tag)
                        out.add(tag, v, '', m and cex_inputs(R, m))
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


def elem_equal(f, a, b, label=''):
    """two element polynomials denote the same function: the solver sees each monomial as an arbitrary residue"""
    return smt.prove_fp_zero(hooks.fadd(a, b, f.p, -1), f.p, label)


PFORMS = [('add_assign_val', 'add'), ('add_ref', 'add'), ('add_val', 'add'), ('doubled', 'double'), ('tripled', 'triple')]


def judge_pair(S, f, key, op, prim):
    pt = key in C

    def j(vals, o):
        w = S.native.one(key, prim, vals)
        if o in ('PANIC', 'CRASH') or w in ('PANIC', 'CRASH'):
            if o == w:
                return None
            return '%s while %s %s' % (o if isinstance(o, str) else 'returns', prim, w if isinstance(w, str) else 'returns')
        a, b = o[0], w[0]
        if pt:
            for c in range(4):
                if (f.val(a[c]) - f.val(b[c])) % f.p:
                    return 'coordinate %d differs from %s' % (c, prim)
        elif (f.val(a) - f.val(b)) % f.p:
            return 'computes 0x%x, %s computes 0x%x' % (f.val(a) % f.p, prim, f.val(b) % f.p)
    return j


def C17(S):
    rep = Report('C17', 'each operator form and its primary form are executed on the same symbolic operands; z3 decides that the difference of the results is 0 modulo p (and that panics coincide)',
                 {'operands': 'all limb vectors of the invariant, every i8/i16/i32', 'fields': 9, 'curves': 5, 'division and point forms': 'over the field operations as uninterpreted exact operations (their lemmas are C01-C03)'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, [], PRIMS + ['normalize'])
        ks = KEYS
        lv = {k: (level[k] if level[k] is not None else 2) for k in KEYS}
        tasks = []
        for k in ks:
            tasks += [(pair_task, (k, op, prim, lv[k])) for op, prim in PLAIN + [x for x in SMALL if x[0] != x[1]]]
            tasks += [(pair_task, (k, op, prim, lv[k], True)) for op, prim in DIVS]
        for c in CURVES:
            tasks += [(pair_task, (c.key, op, prim, lv[c.f.key], True)) for op, prim in PFORMS]
        rep.take(pool.map(tasks))
        validation(rep, pool, KEYS, [op for op, _ in PLAIN + SMALL], 1)
    finally:
        pool.close()
    if rep.failed():
        for t in tasks:
            key, op, prim = t[1][:3]
            if not any(o.name.startswith('%s.%s ' % (key, op)) for o in rep.failed()):
                continue
            f = F[key] if key in F else C[key].f
            rng = random.Random('%d/pair/%s/%s' % (SEED, key, op))
            ins = harness.layout(key, op)[1]
            kinds = [kd for _, kd, _ in ins]
            pre = reps.models_of2(rep, key, op)
            if 'P' in kinds:
                cs = cex.point_cases(C[key], rng, 60, len(kinds))
            elif (op, prim) in DIVS:
                els = [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, 100)]
                cs = [tuple(rng.choice(els) for _ in kinds) for _ in range(150)]
            else:
                cs = cex.cases_for(f, kinds, rng, 2000)
            c = cex.search_cases(S, rep, key, op, judge_pair(S, f, key, op, prim), pre + cs)
            if c:
                return rep.violation(c)
    return rep.finish()
