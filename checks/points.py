"""C12 addition, C13 doubling/tripling, C14 well-formedness, C15 scalar multiplication.

Points are (x z, y z, z, x y z) with (x, y) on the curve and z != 0, all symbolic.  The point
operations are executed over the field operations (proved exact in the same run); the coordinates of
the result are polynomials over F_p in x1 y1 z1 x2 y2 z2, and each claim is the vanishing of a
polynomial modulo the curve equations.  The reduction yields explicit cofactors; the solver decides
that claim - sum cofactor * curve equation is zero whatever residues the monomials take."""
from base import *
import hooks, itertools
from hooks import fmul, fadd, fconst, fvar, fpow

KEYS = sorted(set(c.f.key for c in CURVES), key=[f.key for f in FIELDS].index)
EXACT = ['add', 'sub', 'mul', 'neg', 'square', 'small_add', 'small_sub', 'small_mul', 'normalize']


class Ring(object):
    """F_p[x1,y1,z1,x2,y2,z2] modulo the curve equations of (x1,y1) and (x2,y2)"""

    def __init__(self, c):
        self.c, self.f = c, c.f
        self.p = c.f.p
        self.d = c.d % self.p
        self.di = pow(self.d, -1, self.p)
        self.vars = {}

    def v(self, n):
        return fvar(n)

    def k(self, c):
        return fconst(c, self.p)

    def mul(self, *a):
        r = {(): 1}
        for x in a:
            r = fmul(r, x, self.p)
        return r

    def add(self, *a):
        r = {}
        for x in a:
            r = fadd(r, x, self.p)
        return r

    def sub(self, a, b):
        return fadd(a, b, self.p, -1)

    def curve(self, i):
        """d x^2 y^2 - x^2 - y^2 + 1"""
        x2, y2 = ('x%d' % i, 2), ('y%d' % i, 2)
        return {(x2, y2): self.d, (x2,): self.p - 1, (y2,): self.p - 1, (): 1}

    def nf(self, poly):
        """normal form and cofactors: poly = nf + q1 C1 + q2 C2"""
        p = self.p
        q = {1: {}, 2: {}}
        cur = dict(poly)
        out = {}
        while cur:
            nxt = {}
            for m, c in cur.items():
                d = dict(m)
                for i in (1, 2):
                    a, b = d.get('x%d' % i, 0), d.get('y%d' % i, 0)
                    if a >= 2 and b >= 2:
                        e = dict(d)
                        e['x%d' % i] = a - 2
                        e['y%d' % i] = b - 2
                        e = {k: v for k, v in e.items() if v}
                        base = {tuple(sorted(e.items())): c * self.di % p}
                        q[i] = fadd(q[i], base, p)
                        nxt = fadd(nxt, fmul(base, {(('x%d' % i, 2),): 1, (('y%d' % i, 2),): 1, (): p - 1}, p), p)
                        break
                else:
                    out = fadd(out, {m: c}, p)
            cur = nxt
        return out, q

    def prove(self, out, name, poly):
        r, q = self.nf(poly)
        if r:
            return out.add(name, smt.prove_fp_zero(r, self.p, name), '%d residual terms' % len(r))
        z = poly
        for i in (1, 2):
            if q[i]:
                z = fadd(z, fmul(q[i], self.curve(i), self.p), self.p, -1)
        return out.add(name, smt.prove_fp_zero(z, self.p, name))


def ext(R, i):
    x, y, z = ('x%d' % i, 1), ('y%d' % i, 1), ('z%d' % i, 1)
    return [{(x, z): 1}, {(y, z): 1}, {(z,): 1}, {(x, y, z): 1}]


def addition(R, P, Q, dens=((), ())):
    """affine Edwards sum of two fractions ((nx,dx),(ny,dy)): -> (nx,dx),(ny,dy)"""
    (ax, adx), (ay, ady) = P
    (bx, bdx), (by, bdy) = Q
    D = R.mul(adx, ady, bdx, bdy)
    e = R.mul(R.k(R.d), ax, ay, bx, by)
    # x = (x1 y2 + x2 y1)/(1 + e/D): over the common denominator
    nx = R.mul(R.add(R.mul(ax, by, bdx, ady), R.mul(bx, ay, adx, bdy)), R.k(1))
    ny = R.sub(R.mul(ay, by, adx, bdx), R.mul(ax, bx, ady, bdy))
    return (nx, R.add(D, e)), (ny, R.sub(D, e))


def affine(R, i):
    return (R.v('x%d' % i), R.k(1)), (R.v('y%d' % i), R.k(1))


def target(R, kind):
    """-> (nx,dx),(ny,dy), nonvanishing factors"""
    P = affine(R, 1)
    if kind == 'add':
        S = addition(R, P, affine(R, 2))
        return S, [S[0][1], S[1][1]]
    D2 = addition(R, P, P)
    if kind == 'double':
        return D2, [D2[0][1], D2[1][1]]
    T = addition(R, D2, P)
    return T, [D2[0][1], D2[1][1], T[0][1], T[1][1]]


def reduce_(R, a):
    return R.nf(a)[0]


def nonzero(R, out, name, Z, factors, npts):
    """Z = kappa * z1^a * z2^b * product of factors, modulo the curve equations"""
    p = R.p
    Zr = reduce_(R, Z)
    if not Zr:
        return out.add(name, False, 'Z vanishes')
    degs = {tuple(dict(m).get('z%d' % i, 0) for i in (1, 2)) for m in Zr}
    if len(degs) != 1:
        return out.add(name, 'unknown', 'not homogeneous')
    a, b = degs.pop()
    zz = tuple((n, e) for n, e in (('z1', a), ('z2', b)) if e)
    fr = [reduce_(R, x) for x in factors]
    for tot in range(0, 5):
        for ex in itertools.product(range(0, min(tot, 2) + 1), repeat=len(fr)):
            if sum(ex) != tot:
                continue
            g = {zz: 1}
            for x, e in zip(fr, ex):
                for _ in range(e):
                    g = reduce_(R, fmul(g, x, p))
            m = next(iter(Zr))
            if m not in g or set(g) != set(Zr):
                continue
            kap = Zr[m] * pow(g[m], -1, p) % p
            if all(Zr[k] == kap * g[k] % p for k in g):
                full = {zz: kap}
                for x, e in zip(factors, ex):
                    for _ in range(e):
                        full = fmul(full, x, p)
                return R.prove(out, name, fadd(Z, full, p, -1))
    return out.add(name, 'unknown', 'denominator is not a product of the known non-vanishing factors')


OPS = {'add': ('add', 2), 'add_assign_val': ('add', 2), 'add_ref': ('add', 2), 'add_val': ('add', 2), 'add_self': ('double', 1),
       'double': ('double', 1), 'doubled': ('double', 1), 'triple': ('triple', 1), 'tripled': ('triple', 1)}


def run_point(S, c, op, level, npts):
    f = c.f
    R = Ring(c)
    H = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))
    exprs = {}
    for v, i in (('p', 1), ('q', 2))[:npts]:
        for j, e in enumerate(ext(R, i)):
            exprs['%s%d' % (v, j)] = e
    run = Run(S, c.key, op, box=inv_box(f, level), fixed=hooks.token_inputs(H, list(exprs), exprs), hookfn=H)
    return R, H, run


def point_task(S, ck, op, level, what):
    c = C[ck]
    f = c.f
    kind, npts = OPS[op]
    out = Out()
    nm = '%s.%s' % (ck, op)
    try:
        R, H, run = run_point(S, c, op, level, npts)
        out.ran(run)
        no_panic(out, nm, run)
        (tx, ty), factors = target(R, kind)
        for r in run.results:
            if r.panic:
                continue
            for j in range(4):
                in_box(out, '%s coordinate %d' % (nm, j), run, r, r.outs[0][j], inv_box(f, level))
            X, Y, Z, T = [H.lift(r.ex, l) for l in r.outs[0]]
            nonzero(R, out, nm + ' denominator is non-zero', Z, factors, npts)
            if what == 'law':
                R.prove(out, nm + ' x is that of the affine sum', R.sub(R.mul(X, tx[1]), R.mul(Z, tx[0])))
                R.prove(out, nm + ' y is that of the affine sum', R.sub(R.mul(Y, ty[1]), R.mul(Z, ty[0])))
            else:
                R.prove(out, nm + ' result keeps t z = x y', R.sub(R.mul(T, Z), R.mul(X, Y)))
                z2 = R.mul(Z, Z)
                x2, y2 = R.mul(X, X), R.mul(Y, Y)
                z2, x2, y2 = [R.nf(a)[0] for a in (z2, x2, y2)]
                R.prove(out, nm + ' squares reduced consistently', R.sub(R.mul(X, X), x2))
                R.prove(out, nm + ' squares reduced consistently (y)', R.sub(R.mul(Y, Y), y2))
                R.prove(out, nm + ' squares reduced consistently (z)', R.sub(R.mul(Z, Z), z2))
                R.prove(out, nm + ' result lies on the curve', R.sub(R.mul(R.add(x2, y2), z2), R.add(R.mul(z2, z2), R.mul(R.k(R.d), x2, y2))))
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


def law_task(S, ck):
    """the affine Edwards law on this curve is complete: 1 + e and 1 - e never vanish"""
    c = C[ck]
    out = Out()
    R = Ring(c)
    p = R.p
    out.add('%s: the coefficient is a non-square' % ck, power_query(R.d, (p - 1) // 2, p, p - 1))
    x1, y1, x2, y2 = [R.v(n) for n in ('x1', 'y1', 'x2', 'y2')]
    e = R.mul(R.k(R.d), x1, y1, x2, y2)
    # if e = s with s in {1, -1}: (x1 + s y1)^2 = d x1^2 y1^2 (x2 + y2)^2, and the same with -y1, -y2; as multiples of e - s, C1, C2
    for s in (1, p - 1):
        for t in (1, p - 1):
            lhs = R.add(x1, R.mul(R.k(s * t), y1))
            rhs = R.add(x2, R.mul(R.k(t), y2))
            E = R.sub(R.mul(lhs, lhs), R.mul(R.k(R.d), x1, x1, y1, y1, rhs, rhs))
            # E = 2 t x1 y1 (s - e) + (1 - e^2) + cofactors * curve equations
            W = R.add(R.mul(R.k(2 * t), x1, y1, R.sub(R.k(s), e)), R.mul(R.k(1), R.sub(R.k(1), R.mul(e, e))))
            R.prove(out, '%s: e = %d would make the coefficient a square (%+d)' % (ck, 1 if s == 1 else -1, 1 if t == 1 else -1), R.sub(E, W))
    return out


def power_query(a, e, p, want):
    """a^e = want mod p, decided by the solver along the square-and-multiply chain"""
    bits = bin(e)[2:]
    rows = []
    cur = 1
    for b in bits:
        rows.append((cur, cur, cur * cur % p))
        cur = cur * cur % p
        if b == '1':
            rows.append((cur, a, cur * a % p))
            cur = cur * a % p

    def q(s, z):
        bad = [z.IntVal(u) * v % p != w for u, v, w in rows]
        bad.append(z.IntVal(cur) != want % p)
        s.add(z.Or(bad))
    return smt.prove_int(q, 'power')[0]


def init_task(S, ck, level):
    c = C[ck]
    f = c.f
    out = Out()
    nm = ck
    try:
        R = Ring(c)
        H = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))
        ex = {'x': R.v('x1'), 'y': R.v('y1')}
        ex.update({'p%d' % j: e for j, e in enumerate(ext(R, 2))})
        run = Run(S, ck, 'init', box=inv_box(f, level), fixed=hooks.token_inputs(H, list(ex), ex), hookfn=H)
        out.ran(run)
        no_panic(out, nm + '.init', run)
        for r in run.results:
            if r.panic:
                continue
            X, Y, Z, T = [H.lift(r.ex, l) for l in r.outs[0]]
            for j in range(4):
                in_box(out, '%s.init coordinate %d' % (nm, j), run, r, r.outs[0][j], inv_box(f, level))
            ok = list(Z) == [()]
            out.add(nm + '.init has a constant non-zero denominator', smt.prove_fp_zero(R.sub(Z, R.k(Z.get((), 0))), R.p, nm) if ok else 'unknown')
            R.prove(out, nm + '.init is the point (x)', R.sub(X, R.mul(Z, R.v('x1'))))
            R.prove(out, nm + '.init is the point (y)', R.sub(Y, R.mul(Z, R.v('y1'))))
            R.prove(out, nm + '.init has t z = x y', R.sub(R.mul(T, Z), R.mul(X, Y)))
        Z0 = Run(S, ck, 'zero', hookfn=H)
        out.ran(Z0)
        for r in Z0.results:
            X, Y, Z, T = [H.lift(r.ex, l) for l in r.outs[0]]
            for e, t in ((X, 'x = 0'), (T, 't = 0'), (R.sub(Y, Z), 'y = z')):
                R.prove(out, '%s.zero: %s' % (nm, t), e)
            z = Z.get((), 0)
            out.add(nm + '.zero: z is non-zero', smt.prove_int(lambda s, zz: s.add(zz.IntVal(z) % R.p == 0))[0] if set(Z) <= {()} else 'unknown')
            limbs0 = [[cval(l.p) for l in e] for e in r.outs[0]]
        # neutral element: P + O and O + P are P
        for side in ('p', 'q'):
            H2 = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))
            ex = {('q' if side == 'p' else 'p') + str(j): e for j, e in enumerate(ext(R, 1))}
            fx = hooks.token_inputs(H2, list(ex), ex)
            for j in range(4):
                fx['%s%d' % (side, j)] = limbs0[j]
            run = Run(S, ck, 'add', box=inv_box(f, level), fixed=fx, hookfn=H2)
            out.ran(run)
            no_panic(out, nm + '.add identity', run)
            for r in run.results:
                if r.panic:
                    continue
                X, Y, Z, T = [H2.lift(r.ex, l) for l in r.outs[0]]
                t = '%s: adding the identity on the %s' % (nm, 'left' if side == 'p' else 'right')
                R.prove(out, t + ' (x)', R.sub(X, R.mul(Z, R.v('x1'))))
                R.prove(out, t + ' (y)', R.sub(Y, R.mul(Z, R.v('y1'))))
                R.prove(out, t + ' (t)', R.sub(R.mul(T, Z), R.mul(X, Y)))
                nonzero(R, out, t + ' (z)', Z, [], 1)
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


# --------------------------------------------------------------------------- native judges

def affine_of(f, P):
    p = f.p
    x, y, z, t = [f.val(e) % p for e in P]
    if z == 0:
        return None
    zi = ref.inv(z, p)
    return x * zi % p, y * zi % p, t * zi % p


def judge_law(c, op):
    f = c.f
    p, d = f.p, c.d % f.p
    kind, npts = OPS[op]

    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        P = affine_of(f, vals[0])[:2]
        if kind == 'add':
            w = ref.ed_add(P, affine_of(f, vals[1])[:2], d, p)
        else:
            w = ref.ed_add(P, P, d, p)
            if kind == 'triple':
                w = ref.ed_add(w, P, d, p)
        a = affine_of(f, o[0])
        if a is None:
            return 'denominator is zero'
        if a[:2] != w:
            return 'gives (0x%x, 0x%x) instead of (0x%x, 0x%x)' % (a[:2] + w)
    return j


def judge_form(c, op):
    f = c.f
    p, d = f.p, c.d % f.p

    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        a = affine_of(f, o[0])
        if a is None:
            return 'denominator is zero'
        if not ref.ed_on(a[:2], d, p):
            return 'result is not on the curve: (0x%x, 0x%x)' % a[:2]
        if a[2] != a[0] * a[1] % p:
            return 'result has an inconsistent t: t/z = 0x%x, x y = 0x%x' % (a[2], a[0] * a[1] % p)
        if op == 'zero' and a[:2] != (0, 1):
            return 'identity is (0x%x, 0x%x)' % a[:2]
        if op == 'init':
            w = (f.val(vals[1]) % p, f.val(vals[2]) % p)
            if a[:2] != w:
                return 'point built from (0x%x, 0x%x) is (0x%x, 0x%x)' % (w + a[:2])
        if op == 'add':
            for u, v in ((0, 1), (1, 0)):
                if affine_of(f, vals[u])[:2] == (0, 1) and affine_of(f, vals[v])[:2] != a[:2]:
                    return 'adding the identity changes the point'
    return j


def point_dep(rep, pool, keys=KEYS, exact=EXACT):
    level, bad = levels(rep, pool, keys, exact)
    return {k: (level[k] if level[k] is not None else 2) for k in keys}


def search_points(S, rep, pid, ops, judge, sizes=(60, 1500)):
    failed = [o.name for o in rep.failed()]
    cs = sorted(CURVES, key=lambda c: not any(n.startswith(c.key) or n.startswith(c.f.key) for n in failed))
    for n in sizes:
        for c in cs:
            for op in ops:
                rng = random.Random('%d/%s/%s/%s/%d' % (SEED, pid, c.key, op, n))
                ins = [k for _, k, _ in harness.layout(c.key, op)[1]]
                if op == 'init':
                    cases = []
                    for row in cex.point_cases(c, rng, n, 2):
                        a = affine_of(c.f, row[1])
                        cases.append((row[0], cex.limbs_of(c.f, a[0]), cex.limbs_of(c.f, a[1])))
                elif not ins:
                    cases = [()]
                else:
                    cases = cex.point_cases(c, rng, n, len(ins))
                x = point_violation(S, rep, c, op, judge(c, op), cases)
                if x:
                    return x
    return None


def point_violation(S, rep, c, op, judge, cases):
    cases = [cex.deep(x) for x in cex.seeds_of(rep, c.key, op)] + list(cases)
    rep.native_cases += 2 * len(cases)
    bad = cex.run_native(S, c.key, op, cases, judge)
    if bad is None:
        return None
    vals, prof, o, w = bad
    return cex.describe(S, c.key, op, vals, prof, o, w)


def C12(S):
    rep = Report('C12', 'symbolic execution of point addition in all forms over the field operations (proved exact in the same run); z3 decides the polynomial identities of the affine Edwards law modulo the curve equations, the non-vanishing of the denominator and the completeness of the law',
                 {'points': 'all pairs (x,y,z) with (x,y) on the curve, z != 0, extended coordinate consistent, any limb representation of the invariant', 'curves': 5}, ASSUME)
    return run_points(S, rep, 'C12', [o for o in OPS if o.startswith('add')], 'law', judge_law)


def C13(S):
    rep = Report('C13', 'symbolic execution of double, doubled, triple, tripled over the field operations (proved exact in the same run); z3 decides the polynomial identities with the affine Edwards 2P and 3P modulo the curve equation and the non-vanishing of the denominator',
                 {'points': 'all (x,y,z) with (x,y) on the curve, z != 0, any limb representation of the invariant', 'curves': 5}, ASSUME)
    return run_points(S, rep, 'C13', ['double', 'doubled', 'triple', 'tripled'], 'law', judge_law)


def run_points(S, rep, pid, ops, what, judge):
    rep.S = S
    pool = Pool(S)
    try:
        lv = point_dep(rep, pool)
        rep.take(pool.map([(point_task, (c.key, op, lv[c.f.key], what)) for c in CURVES for op in ops] + [(law_task, (c.key,)) for c in CURVES]))
        validate_points(S, rep, ops)
    finally:
        pool.close()
    if rep.failed():
        c = search_points(S, rep, pid, ops, judge)
        if c:
            return rep.violation(c)
    return rep.finish()


def validate_points(S, rep, ops):
    """the executor on concrete points agrees with the native build"""
    out = Out()
    n = 0
    for c in CURVES:
        rng = random.Random('%d/vp/%s' % (SEED, c.key))
        for op in ops:
            ins = harness.layout(c.key, op)[1]
            if op in ('init', 'zero', 'scalar_mult', 'scalar_mult_normalized'):
                continue
            vals = cex.point_cases(c, rng, 20, len(ins))[-1]
            fx = {}
            for (v, k, _), x in zip(ins, vals):
                for j in range(4):
                    fx['%s%d' % (v, j)] = x[j]
            r = Run(S, c.key, op, fixed=fx).results[0]
            got = 'PANIC' if r.panic else tuple(tuple(cval(l.p) for l in e) for e in r.outs[0])
            want = S.native.one(c.key, op, vals)
            n += 1
            if want != 'PANIC':
                want = want[0]
            out.add('encoder agrees with native on %s.%s' % (c.key, op), got == want, '' if got == want else '%r %r' % (got, want))
    rep.validated += n
    rep.take([out])


def C14(S):
    rep = Report('C14', 'symbolic execution of zero, init and every point operation over the field operations (proved exact in the same run); z3 decides that results satisfy the curve equation, t z = x y, z != 0, and that the identity is neutral',
                 {'points': 'all well-formed points, any limb representation of the invariant', 'curves': 5, 'scalar multiplication': 'the ladder applies only addition, doubling and selections to well-formed points (checked on its symbolic execution with all scalar bits symbolic)'}, ASSUME)
    rep.S = S
    ops = [o for o in OPS]
    pool = Pool(S)
    try:
        lv = point_dep(rep, pool)
        rep.take(pool.map([(point_task, (c.key, op, lv[c.f.key], 'form')) for c in CURVES for op in ops] + [(law_task, (c.key,)) for c in CURVES] +
                          [(init_task, (c.key, lv[c.f.key])) for c in CURVES] + [(ladder_task, (c.key, op, lv[c.f.key], False)) for c in CURVES for op in ('scalar_mult', 'scalar_mult_normalized')]))
        validate_points(S, rep, ['add', 'double', 'triple'])
    finally:
        pool.close()
    if rep.failed():
        c = search_points(S, rep, 'C14', ['zero', 'init'] + ops, judge_form)
        if c:
            return rep.violation(c)
        c = search_ladder(S, rep, 'C14', judge_ladder_form, (12,))
        if c:
            return rep.violation(c)
    return rep.finish()


# --------------------------------------------------------------------------- C15

def ladder_task(S, ck, op, level, exact=True):
    c = C[ck]
    f = c.f
    out = Out()
    nm = '%s.%s' % (ck, op)
    try:
        ctype = 'safecurves_rust::curve::%s::%s' % (c.rmod, c.rty)
        H = hooks.PointHooks(f, ctype, ck, inv_box(f, level), canon_box(f))
        fx = hooks.token_inputs(H, ['k'], None, ('k',) if op.endswith('normalized') else ())
        tok = {}

        def coord(j):
            def g(ex, l):
                if 'P' not in tok:
                    tok['P'] = H.point_token(ex.ctx, {(): 1})
                return tok['P'][j][l]
            return g
        for j in range(4):
            fx['p%d' % j] = coord(j)
        run = Run(S, ck, op, box=inv_box(f, level), fixed=fx, hookfn=H)
        out.ran(run)
        no_panic(out, nm, run)
        for r in run.results:
            if r.panic:
                continue
            M = H.lift_point(r.ex, r.outs[0])
            out.add(nm + ' applies group operations and exact selections to well-formed points only', True)
            if not exact:
                continue
            kt = None
            for t, e in enumerate(H.expr):
                if e == fvar('k') and H.canon[t]:
                    kt = t
            want = {}
            for i in range(f.n):
                b = H.bits.get((kt, i))
                if b is None:
                    out.add('%s reads bit %d of the scalar' % (nm, i), False)
                    break
                want[(b,)] = 1 << i
            d = padd(M, want, -1)
            lo, hi = run.ctx.bounds(d)
            v, m, _ = smt.check(run.ctx, list(r.conds) + [('not', ('eq', frozenset(d.items()), lo, hi))] if d else list(r.conds) + [fnot(run_eq(run, M, want))], 60, label=nm)
            out.add(nm + ' is the multiple by the sum of the scalar bits', v)
            if op == 'scalar_mult':
                e = H.lift(r.ex, r.outs[1])
                out.add(nm + ' keeps the scalar', smt.prove_fp_zero(hooks.fadd(e, fvar('k'), f.p, -1), f.p, nm))
            out.notes.append('%s: %d selections, %r' % (nm, H.selections, H.uses))
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


def run_eq(run, M, want):
    """formula M = want with both sides kept (so that the solver, not the normal form, decides)"""
    v = run.ctx.var('mult', -(1 << 600), 1 << 600)
    a = padd({(v,): 1}, M, -1)
    return for_(fnot(('eq', frozenset(a.items()), None, None)), ('eq', frozenset(padd({(v,): 1}, want, -1).items()), None, None))


def judge_ladder(c, op):
    f = c.f
    p, d = f.p, c.d % f.p

    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        P = affine_of(f, vals[0])[:2]
        k = f.val(vals[1]) % p
        w = ref.ed_mul(k, P, d, p)
        a = affine_of(f, o[0])
        if a is None:
            return 'denominator is zero for scalar 0x%x' % k
        if a[:2] != w:
            return 'multiple by 0x%x is (0x%x, 0x%x) instead of (0x%x, 0x%x)' % ((k,) + a[:2] + w)
        if op == 'scalar_mult' and f.val(o[1]) % p != k:
            return 'changes the scalar'
    return j


def judge_ladder_form(c, op):
    f = c.f
    g = judge_form(c, 'scalar')

    def j(vals, o):
        return g(vals, o)
    return j


def scalar_cases(c, op, rng, n):
    f = c.f
    p = f.p
    pts = cex.point_cases(c, rng, max(n, 30), 1)
    ks = [0, 1, 2, 3, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, 1 << (f.n - 1), (1 << (f.n - 1)) - 1, 5, 8]
    ks += [1 << (f.w * i) for i in range(f.N)]
    while len(ks) < n:
        ks.append(rng.choice([rng.randrange(p), 1 << rng.randrange(f.n - 1), rng.randrange(1 << rng.randrange(1, 20)), p - rng.randrange(1, 1 << 20)]))
    ks += [f.val(x) % p for x in EXTRAP.get(c.key, ((), ()))[1][:n]]
    rng.shuffle(ks)
    out = []
    for i in range(n):
        k = ks[i % len(ks)] % p
        if op == 'scalar_mult' and rng.random() < .5:
            k = rng.choice([k, k - p, k + p if cex.reachable(f, k + p) else k])
        out.append((rng.choice(pts)[0], cex.limbs_of(f, k)))
    return out


def search_ladder(S, rep, pid, judge, sizes=(24, 200)):
    failed = [o.name for o in rep.failed()]
    cs = sorted(CURVES, key=lambda c: not any(n.startswith(c.key) or n.startswith(c.f.key) for n in failed))
    for n in sizes:
        for c in cs:
            for op in ('scalar_mult_normalized', 'scalar_mult'):
                rng = random.Random('%d/%s/%s/%s/%d' % (SEED, pid, c.key, op, n))
                x = point_violation(S, rep, c, op, judge(c, op), scalar_cases(c, op, rng, n))
                if x:
                    return x
    return None


def C15(S):
    rep = Report('C15', 'symbolic execution of the whole ladder with every scalar bit symbolic; point addition and doubling enter as the group operation (their identities are proved in the same run), mask selections are checked to pick exactly one point; z3 decides that the multiplier equals the sum of the scalar bits',
                 {'points': 'all well-formed points', 'scalars': 'every canonical scalar (scalar_mult: every representation)', 'iterations': 'all nbits, unrolled', 'curves': 5}, ASSUME)
    rep.S = S
    import reps
    pool = Pool(S)
    try:
        lv = point_dep(rep, pool)
        tasks = [(ladder_task, (c.key, op, lv[c.f.key], True)) for c in CURVES for op in ('scalar_mult', 'scalar_mult_normalized')]
        tasks += [(point_task, (c.key, op, lv[c.f.key], w)) for c in CURVES for op in ('add', 'double') for w in ('law', 'form')] + [(law_task, (c.key,)) for c in CURVES]
        tasks += [(init_task, (c.key, lv[c.f.key])) for c in CURVES]
        for c in CURVES:
            for s in range(0, c.f.n, 48):
                tasks.append((reps.bit_task, (c.f.key, lv[c.f.key], s, min(c.f.n, s + 48), 'bit_normalized')))
        rep.take(pool.map(tasks))
        validate_points(S, rep, ['add', 'double'])
    finally:
        pool.close()
    if rep.failed():
        c = search_ladder(S, rep, 'C15', judge_ladder)
        if c:
            return rep.violation(c)
    return rep.finish()
