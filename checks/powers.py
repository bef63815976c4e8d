"""C07, C08, C09: inversion and division, Legendre symbol, square roots.

The exponentiation chains are executed symbolically over the primitive operations (whose exactness
is proved in the same run), giving the result as an exact polynomial in x with full-size exponents.
The residues of x^e on the cosets of the M-th powers (M = 2, or 4 for p = 1 mod 4) are then decided
by the solver: exponents are compared modulo p-1 for every exponent m of a generator (x = g^m), and
the remaining coefficient sums must vanish modulo p whatever the remaining monomials are.
"""
from base import *
import hooks
from hooks import fmul, fadd, fconst, fvar

KEYS = [f.key for f in FIELDS]
EXACT = ['add', 'sub', 'mul', 'neg', 'square', 'small_add', 'small_sub', 'small_mul', 'normalize']


def classes(f):
    return 4 if f.p % 4 == 1 else 2


def root(f, M):
    """a primitive M-th root of unity"""
    if M == 2:
        return f.p - 1
    z = 2
    while pow(z, (f.p - 1) // 2, f.p) == 1:
        z += 1
    return pow(z, (f.p - 1) // 4, f.p)


def zero_on(out, name, f, E, s, M, var='x'):
    """obligations: the polynomial E vanishes for every x = g^(M j + s) (all j), all other variables free"""
    p = f.p
    io = root(f, M)
    v, _ = smt.prove_int(lambda S, z: S.add(z.Or(z.IntVal(io) * io % p != (p - 1 if M == 4 else 1), z.IntVal(io) == 1)), name + ' root of unity')
    ok = out.add('%s: %d is a primitive %d-th root of unity' % (name, io if io < 99 else -1, M), v) if M == 4 else True
    step = (p - 1) // M
    groups = {}          # (other monomials, exponent class) -> (base exponent, poly)
    res = {}
    links = []
    for mono, c in E.items():
        d = dict(mono)
        e = d.pop(var, 0)
        rest = tuple(sorted(d.items()))
        base = e % step
        u = e // step % M
        if e:
            links.append((e, base, u))
        # x^e = x^base * (x^step)^u ; x^step = iota^s on the class
        nm = rest + ((var, base),) if base else rest
        res = fadd(res, {nm: c * pow(io, u * s, p) % p}, p)

    def q(S, z):
        m = z.Int('m')
        S.add(m >= 0, m < p - 1)
        bad = [(z.IntVal(e) * m - (base + u * step) * m) % (p - 1) != 0 for e, base, u in links]
        S.add(z.Or(bad) if bad else z.BoolVal(False))
    v, _ = smt.prove_int(q, name + ' exponents')
    ok = out.add('%s: exponents agree modulo p-1 for every exponent of a generator' % name, v) and ok
    return out.add('%s: coefficients vanish on class %d of %d' % (name, s, M), smt.prove_fp_zero(res, p, name)) and ok


def forced(R, r, H, tokvar, f):
    """if the path conditions force the canonical value of an input token, return it: (token variable name, value)"""
    for t, e in enumerate(H.expr):
        if not H.canon[t] or list(e.values()) != [1] or len(next(iter(e))) != 1 or next(iter(e))[0][1] != 1:
            continue
        name = next(iter(e))[0][0]
        vs = [i for i in H.of if H.of[i][0] == t]
        used = set()
        vs.sort(key=lambda i: H.of[i][1])
        v, m, _ = smt.check(R.ctx, list(r.conds), 20, label='path')
        if v != 'sat' or any(i not in m for i in vs):
            continue
        d = fnot(False)
        for i in vs:
            k = m[i]
            d = fand(d, ('eq', frozenset(padd({(i,): 1}, pconst(-k)).items()), R.ctx.lo[i] - k, R.ctx.hi[i] - k))
        v, _, _ = smt.check(R.ctx, list(r.conds) + [fnot(d)], 20, label='path')
        if v == 'unsat':
            return name, f.val([m[i] for i in vs]) % f.p
    return None


def evaluate(E, name, val, p):
    o = {}
    for mono, c in E.items():
        d = dict(mono)
        e = d.pop(name, 0)
        k = c * pow(val, e, p) % p if e else c
        o = fadd(o, {tuple(sorted(d.items())): k} if k else {}, p)
    return o


def power_task(S, key, op, level, claims):
    """claims(f, result polynomial) -> list of (text, polynomial that has to vanish, classes of x, M, include zero)"""
    f = F[key]
    out = Out()
    nm = '%s.%s' % (key, op)
    try:
        H = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))
        R = Run(S, key, op, box=inv_box(f, level), fixed=hooks.token_inputs(H, ['x', 'y']), hookfn=H)
        out.ran(R)
        no_panic(out, nm, R)
        for i, r in enumerate(R.results):
            if r.panic:
                continue
            o = r.outs[0]
            in_box(out, nm + ' result', R, r, o, inv_box(f, level))
            e = H.lift(r.ex, o)
            fx = forced(R, r, H, None, f) if r.conds else None
            for text, E, var, cls, M, zero in CLAIMS[claims](f, e):
                if fx and fx[0] == var:
                    z = evaluate(E, var, fx[1], f.p)
                    inc = (fx[1] == 0 and zero) or (fx[1] != 0 and any(pow(fx[1], (f.p - 1) // M, f.p) == pow(root(f, M), s, f.p) for s in cls))
                    if inc:
                        out.add('%s %s (value forced by the path)' % (nm, text), smt.prove_fp_zero(z, f.p, nm))
                    continue
                for s in cls:
                    zero_on(out, '%s %s' % (nm, text), f, E, s, M, var)
                if zero:
                    out.add('%s %s at zero' % (nm, text), smt.prove_fp_zero(evaluate(E, var, 0, f.p), f.p, nm))
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


def c_inv(f, e):
    one = {(): f.p - 1}
    return [('times x is 1', fadd(fmul(e, fvar('x'), f.p), one, f.p), 'x', [0, 1], 2, False),
            ('of zero is zero', e, 'x', [], 2, True)]


def c_div(f, e):
    return [('times the divisor is the dividend', fadd(fmul(e, fvar('y'), f.p), fvar('x'), f.p, -1), 'y', [0, 1], 2, False)]


def c_leg(f, e):
    return [('is 1 on squares', fadd(e, fconst(-1, f.p), f.p), 'x', [0], 2, False),
            ('is -1 on non-squares', fadd(e, fconst(1, f.p), f.p), 'x', [1], 2, False),
            ('is 0', e, 'x', [], 2, True)]


def c_sqrt(f, e):
    M = classes(f)
    return [('squares to its argument', fadd(fmul(e, e, f.p), fvar('x'), f.p, -1), 'x', [0] if M == 2 else [0, 2], M, True)]


CLAIMS = {'inv': c_inv, 'div': c_div, 'leg': c_leg, 'sqrt': c_sqrt}


def judge(f, kind):
    p = f.p

    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        x = f.val(vals[0]) % p
        r = f.val(o[0]) % p
        if kind == 'inv':
            if x * r % p != (1 if x else 0) or (x == 0 and r):
                return 'inverse of 0x%x is 0x%x, the product is 0x%x' % (x, r, x * r % p)
        elif kind == 'div':
            y = f.val(vals[1]) % p
            if y and r * y % p != x:
                return '0x%x / 0x%x is 0x%x, times the divisor 0x%x' % (x, y, r, r * y % p)
        elif kind == 'leg':
            w = ref.legendre(x, p) % p
            if r != w:
                return 'legendre of 0x%x is 0x%x instead of 0x%x' % (x, r, w)
        elif kind == 'sqrt':
            if ref.legendre(x, p) >= 0 and r * r % p != x:
                return 'root of the square 0x%x is 0x%x, which squares to 0x%x' % (x, r, r * r % p)
    return j


def cases(f, kind, rng, n):
    els = [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, n)]
    if kind == 'sqrt':
        sq = []
        for e in els:
            v = f.val(e)
            w = v * v % f.p
            sq += [cex.limbs_of(f, w), cex.limbs_of(f, w - f.p), cex.limbs_of(f, v)]
        els = sq
    if kind == 'div':
        return [(rng.choice(els), e) for e in els]
    return [(e,) for e in els]


TASKS = {'C07': [('invert', 'inv'), ('inverted', 'inv'), ('div_assign', 'div'), ('div_assign_val', 'div'), ('div_ref', 'div'), ('div_val', 'div')],
         'C08': [('legendre', 'leg')], 'C09': [('sqrt', 'sqrt')]}
TEXT = {'C07': 'x * inverse(x) = 1, a/x*x = a for every non-zero x; inverse(0) = 0', 'C08': 'legendre(x) = 0, 1, -1 for zero, squares, non-squares',
        'C09': 'sqrt(x)^2 = x on every square (both quartic classes when p = 5 mod 8) and on zero'}


def run_power(S, pid):
    rep = Report(pid, 'symbolic execution of the exponentiation chains over the primitive operations (each proved exact in the same run for all limb vectors); the result is a polynomial in x with exact exponents and z3 decides for every class x = g^(Mj+s): ' + TEXT[pid],
                 {'operands': 'all limb vectors of the invariant', 'loops': 'fixed trip counts, fully unrolled', 'fields': 9}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, EXACT)
        ks = KEYS
        rep.take(pool.map([(power_task, (k, op, level[k] if level[k] is not None else 2, cl)) for k in ks for op, cl in TASKS[pid]]))
        validation(rep, pool, KEYS, [op for op, _ in TASKS[pid]], 1)
    finally:
        pool.close()
    if rep.failed():
        order = sorted(FIELDS, key=lambda f: not any(o.name.startswith(f.key + '.') for o in rep.failed()))
        for n in (60, 600):
            for f in order:
                for op, kind in TASKS[pid]:
                    rng = random.Random('%d/%s/%s/%s' % (SEED, pid, f.key, op))
                    c = cex.search_cases(S, rep, f.key, op, judge(f, kind), cases(f, kind, rng, n))
                    if c:
                        return rep.violation(c)
    return rep.finish()


def C07(S):
    return run_power(S, 'C07')


def C08(S):
    return run_power(S, 'C08')


def C09(S):
    return run_power(S, 'C09')
