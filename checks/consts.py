"""C16 published curve parameters, C19 distinguished constants and sizes.

The constants are read out of the compiled crate by symbolic execution (they come out as literal
polynomials) and every claim about them is a solver query over integers.  Scalar multiples of the
base points are verified along their addition chain: every field multiplication u v = w (mod p) of
the chain is a conjunct that the solver decides."""
from base import *
import points

KEYS = [f.key for f in FIELDS]


def literal(out, name, run, r, limbs):
    """the limbs of a constant, or None"""
    ls = []
    for l in limbs:
        if not is_const(l.p):
            out.add(name + ' is a constant', 'unknown')
            return None
        ls.append(cval(l.p))
    return ls


def ground(out, name, build):
    return out.add(name, smt.prove_int(build, name)[0])


def canonical(out, name, f, ls):
    """limbs canonical and value in [0, p)"""
    def q(s, z):
        v = z.IntVal(0)
        bad = []
        for i, l in enumerate(ls):
            v = v + z.IntVal(l) * (1 << (f.w * i))
            bad += [z.IntVal(l) < 0, z.IntVal(l) >= (1 << (f.w if i < f.N - 1 else f.t))]
        s.add(z.Or(bad + [v < 0, v >= f.p]))
    return ground(out, name + ' is canonical', q)


def value_is(out, name, f, ls, want, mod=True):
    def q(s, z):
        v = z.Sum([z.IntVal(l) * (1 << (f.w * i)) for i, l in enumerate(ls)])
        s.add((v - want) % f.p != 0 if mod else v != want)
    return ground(out, name, q)


class Chain(object):
    """field computation whose every multiplication is recorded as an obligation"""

    def __init__(self, p):
        self.p, self.rows = p, []

    def mul(self, a, b):
        r = a * b % self.p
        self.rows.append((a, b, r))
        return r

    def check(self, extra=None):
        p = self.p

        def q(s, z):
            bad = [z.IntVal(u) * v % p != w for u, v, w in self.rows]
            bad += [z.BoolVal(not (0 <= w < p)) for _, _, w in self.rows]
            if extra:
                bad += extra(z)
            s.add(z.Or(bad))
        return smt.prove_int(q, 'chain', 120)[0]


def ed_order(out, name, f, d, x, y, l):
    """l (x,y) = O in projective coordinates; additions are verified modulo p through their products"""
    p = f.p
    c = Chain(p)

    def padd_(P, Q):
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        A = c.mul(Z1, Z2)
        B = c.mul(A, A)
        C_ = c.mul(X1, X2)
        D = c.mul(Y1, Y2)
        E = c.mul(d % p, c.mul(C_, D))
        G, H = (B - E) % p, (B + E) % p
        X3 = c.mul(c.mul(A, G), (c.mul((X1 + Y1) % p, (X2 + Y2) % p) - C_ - D) % p)
        Y3 = c.mul(c.mul(A, H), (D - C_) % p)
        return X3, Y3, c.mul(G, H)
    P = (x, y, 1)
    R = (0, 1, 1)
    for b in bin(l)[2:]:
        R = padd_(R, R)
        if b == '1':
            R = padd_(R, P)
    out.add(name + ' times the order is the identity', c.check(lambda z: [z.IntVal(R[0]) != 0, z.IntVal(R[1]) != R[2], z.IntVal(R[2]) % p == 0]))
    ground(out, name + ' is not the identity', lambda s, z: s.add(z.And(z.IntVal(x) % p == 0, (z.IntVal(y) - 1) % p == 0)))


def mo_order(out, name, f, A, x, l):
    """l P = O on the Montgomery curve by the x-only ladder"""
    p = f.p
    c = Chain(p)
    a24 = (A + 2) * pow(4, -1, p) % p
    out.add(name + ' ladder coefficient', smt.prove_int(lambda s, z: s.add((z.IntVal(a24) * 4 - (A + 2)) % p != 0))[0])
    X2, Z2, X3, Z3 = 1, 0, x, 1
    for b in bin(l)[2:]:
        if b == '1':
            X2, Z2, X3, Z3 = X3, Z3, X2, Z2
        u, v = (X2 + Z2) % p, (X2 - Z2) % p
        AA, BB = c.mul(u, u), c.mul(v, v)
        E = (AA - BB) % p
        DA, CB = c.mul((X3 - Z3) % p, u), c.mul((X3 + Z3) % p, v)
        s1, s2 = (DA + CB) % p, (DA - CB) % p
        X3, Z3 = c.mul(s1, s1), c.mul(x, c.mul(s2, s2))
        X2, Z2 = c.mul(AA, BB), c.mul(E, (BB + c.mul(a24, E)) % p)
        if b == '1':
            X2, Z2, X3, Z3 = X3, Z3, X2, Z2
    out.add(name + ' times the order is the identity', c.check(lambda z: [z.IntVal(Z2) != 0, z.IntVal(X2) % p == 0]))


def fermat(out, name, l):
    for a in (2, 3):
        out.add('%s passes Fermat to base %d' % (name, a), points.power_query(a, l - 1, l, 1))


def consts_task(S, key):
    f = F[key]
    p = f.p
    out = Out()
    vals = {}
    try:
        R = Run(S, key, 'params')
        out.ran(R)
        no_panic(out, key + '.params', R)
        for r in R.results:
            if r.panic:
                continue
            for n, limbs in zip(harness.CONSTS[key], r.outs):
                if n not in SPEC_CONST:
                    continue
                nm = '%s.%s' % (key, n)
                ls = literal(out, nm, R, r, limbs)
                if ls is None:
                    continue
                canonical(out, nm, f, ls)
                value_is(out, nm + ' has the published value', f, ls, SPEC_CONST[n])
                vals[n] = f.val(ls)
    except (Unsupported, ll.ParseError) as e:
        out.add(key + '.params encodable', 'unknown', str(e))
        return out
    for pre, (k, kind, co, h) in SPEC_CURVE.items():
        if k != key or pre + '_ORDER' not in vals:
            continue
        x, y, l = vals[pre + '_BASE_X'], vals[pre + '_BASE_Y'], vals[pre + '_ORDER']
        nm = '%s.%s' % (key, pre)
        if kind == 'edwards':
            d = vals[pre + '_D']
            ground(out, nm + ' base point on the curve', lambda s, z: s.add((z.IntVal(x) * x + z.IntVal(y) * y - 1 - z.IntVal(d) * x * x * y * y) % p != 0))
            out.add(nm + ' coefficient is a non-square', points.power_query(d, (p - 1) // 2, p, p - 1))
            ed_order(out, nm + ' base point', f, d, x, y, l)
        else:
            ground(out, nm + ' base point on the curve', lambda s, z: s.add((z.IntVal(y) * y - z.IntVal(x) * x * x - z.IntVal(co) * x * x - x) % p != 0))
            mo_order(out, nm + ' base point', f, co, x, l)
        fermat(out, nm + ' order', l)
        # the group order h*l lies in the Hasse interval: (h l - p - 1)^2 <= 4 p
        ground(out, nm + ' cofactor times order lies in the Hasse interval', lambda s, z: s.add((z.IntVal(h) * l - p - 1) * (z.IntVal(h) * l - p - 1) > 4 * p))
    return out


def dval_task(S, ck):
    c = C[ck]
    f = c.f
    out = Out()
    try:
        R = Run(S, ck, 'd_val')
        out.ran(R)
        no_panic(out, ck + '.d_val', R)
        for r in R.results:
            if r.panic:
                continue
            ls = literal(out, ck + '.d_val', R, r, r.outs[0])
            if ls is not None:
                canonical(out, ck + '.d_val', f, ls)
                value_is(out, ck + '.d_val is the published coefficient', f, ls, c.d)
    except (Unsupported, ll.ParseError) as e:
        out.add(ck + '.d_val encodable', 'unknown', str(e))
    return out


def judge_params(f):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        for n, ls in zip(harness.CONSTS[f.key], o):
            if n in SPEC_CONST and list(ls) != f.limbs(SPEC_CONST[n] % f.p):
                return '%s is %r (0x%x) instead of 0x%x in canonical form' % (n, list(ls), f.val(ls), SPEC_CONST[n] % f.p)
    return j


def judge_dval(c):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        if list(o[0]) != c.f.limbs(c.d % c.f.p):
            return 'curve coefficient is %r (0x%x) instead of %d' % (list(o[0]), c.f.val(o[0]), c.d)
    return j


def C16(S):
    rep = Report('C16', 'the constants are read out of the compiled crate by symbolic execution; z3 decides canonicity, equality with the published values, the curve equations, non-squareness of the Edwards coefficients, and order * base point = identity along the whole addition chain',
                 {'constants': len(SPEC_CONST), 'curves': len(SPEC_CURVE), 'primality of the orders': 'published; Fermat queries to bases 2 and 3'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        rep.take(pool.map([(consts_task, (k,)) for k in KEYS] + [(dval_task, (c.key,)) for c in CURVES]))
    finally:
        pool.close()
    agree(S, rep, [(k, 'params') for k in KEYS] + [(c.key, 'd_val') for c in CURVES])
    if rep.failed():
        for f in FIELDS:
            c = point_case(S, rep, f.key, 'params', judge_params(f))
            if c:
                return rep.violation(c)
        for cu in CURVES:
            c = point_case(S, rep, cu.key, 'd_val', judge_dval(cu))
            if c:
                return rep.violation(c)
    return rep.finish()


def point_case(S, rep, key, op, judge):
    rep.native_cases += 2
    bad = cex.run_native(S, key, op, [()], judge)
    return cex.describe(S, key, op, bad[0], bad[1], bad[2], bad[3]) if bad else None


def agree(S, rep, ops):
    """the executor and the native build agree on input-free operations"""
    out = Out()
    for k, op in ops:
        r = Run(S, k, op).results[0]
        got = 'PANIC' if r.panic else tuple(validate.conc(o, kd) for (kd, _), o in zip(harness.layout(k, op)[3], r.outs))
        out.add('encoder agrees with native on %s.%s' % (k, op), got == S.native.one(k, op, ()))
        rep.validated += 1
    rep.take([out])


# --------------------------------------------------------------------------- C19

CN = ['ZERO', 'ONE', 'M_ONE', 'MODULUS', 'zero()', 'one()', 'm_one()', 'modulus()']


def size_task(S, key):
    f = F[key]
    p = f.p
    out = Out()
    try:
        R = Run(S, key, 'consts')
        out.ran(R)
        no_panic(out, key + '.consts', R)
        for r in R.results:
            if r.panic:
                continue
            for i, n in enumerate(CN):
                nm = '%s.%s' % (key, n)
                ls = literal(out, nm, R, r, r.outs[i])
                if ls is None:
                    continue
                value_is(out, nm + ' denotes its value', f, ls, (0, 1, -1, 0)[i % 4])
                if i % 4 == 3:
                    value_is(out, nm + ' is the prime 2^%d - %d itself' % (f.n, f.c), f, ls, 2 ** f.n - f.c, False)
                    ground(out, nm + ' has canonical limbs', lambda s, z: s.add(z.Or([z.Or(z.IntVal(l) < 0, z.IntVal(l) >= (1 << (f.w if k < f.N - 1 else f.t))) for k, l in enumerate(ls)])))
            for i, (n, want) in enumerate((('nbits', f.n), ('nbytes', (f.n + 7) // 8))):
                v = r.outs[8 + i]
                if isinstance(v, V):
                    out.add('%s.%s is a constant' % (key, n), 'unknown')
                else:
                    ground(out, '%s.%s = %d' % (key, n, want), lambda s, z: s.add(z.IntVal(v) != want))
        if 'M_HALF' in harness.CONSTS[key]:
            R = Run(S, key, 'params')
            for r in R.results:
                if r.panic:
                    out.add(key + '.M_HALF is a constant', False, r.panic)
                    continue
                nm = key + '.M_HALF'
                ls = literal(out, nm, R, r, r.outs[harness.CONSTS[key].index('M_HALF')])
                if ls is not None:
                    canonical(out, nm, f, ls)
                    ground(out, nm + ' denotes -1/2', lambda s, z: s.add((2 * z.Sum([z.IntVal(l) * (1 << (f.w * i)) for i, l in enumerate(ls)]) + 1) % p != 0))
    except (Unsupported, ll.ParseError) as e:
        out.add(key + '.consts encodable', 'unknown', str(e))
    return out


def judge_consts(f):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        for i, n in enumerate(CN):
            v = f.val(o[i])
            if (v - (0, 1, -1, 0)[i % 4]) % f.p:
                return '%s denotes 0x%x' % (n, v % f.p)
            if i % 4 == 3 and list(o[i]) != f.limbs(f.p):
                return '%s is %r, not the limbs of the prime' % (n, list(o[i]))
        for n, v, want in (('nbits', o[8], f.n), ('nbytes', o[9], f.nb)):
            if v != want:
                return '%s is %d instead of %d' % (n, v, want)
    return j


def judge_half(f):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        ls = o[harness.CONSTS[f.key].index('M_HALF')]
        if list(ls) != f.limbs((f.p - 1) // 2):
            return 'M_HALF is %r (0x%x) instead of -1/2 in canonical form' % (list(ls), f.val(ls))
    return j


def C19(S):
    rep = Report('C19', 'the constants, accessors and sizes are read out of the compiled crate by symbolic execution; z3 decides each equality',
                 {'fields': 9, 'values': '8 elements and 2 sizes per field'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        rep.take(pool.map([(size_task, (k,)) for k in KEYS]))
    finally:
        pool.close()
    agree(S, rep, [(k, 'consts') for k in KEYS])
    if rep.failed():
        for f in FIELDS:
            c = point_case(S, rep, f.key, 'consts', judge_consts(f))
            if not c and 'M_HALF' in harness.CONSTS[f.key]:
                c = point_case(S, rep, f.key, 'params', judge_half(f))
            if c:
                return rep.violation(c)
    return rep.finish()
