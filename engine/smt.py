"""Solver back end: formulas of sym.py -> z3 (linear/nonlinear integer arithmetic)."""
import os, time
import z3
from sym import *

SECOND = os.environ.get('VERIF_TIER') == 'thorough'      # unsat answers are put to cvc5 as well
SECOND_LIMIT = 20                                        # seconds per query
SECOND_TOTAL = 1500                                      # seconds per process


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.slow = []
        self.agree = self.open2 = self.differ = 0       # second solver: unsat, no answer, sat
        self.time2 = 0.0

    def merge(self, d):
        self.queries += d['queries']
        self.sat += d['sat']
        self.unsat += d['unsat']
        self.unknown += d['unknown']
        self.time += d['time']
        self.agree += d['agree']
        self.open2 += d['open2']
        self.differ += d['differ']
        self.time2 += d['time2']

    def dict(self):
        return dict(agree=self.agree, open2=self.open2, differ=self.differ, time2=self.time2, queries=self.queries, sat=self.sat, unsat=self.unsat, unknown=self.unknown, time=self.time)


STATS = Stats()


def confirmed(s):
    """thorough tier: an unsat answer of z3 is repeated by cvc5; False only if cvc5 finds a model"""
    if not SECOND or STATS.time2 > SECOND_TOTAL:
        return True
    t0 = time.time()
    try:
        import cvc5
        c = cvc5.Solver()
        c.setOption('tlimit-per', str(SECOND_LIMIT * 1000))
        p = cvc5.InputParser(c)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + s.to_smt2(), 'q')
        sm = p.getSymbolManager()
        r = ''
        while True:
            k = p.nextCommand()
            if k.isNull():
                break
            r = k.invoke(c, sm).strip() or r
    except Exception:
        r = 'unknown'
    STATS.time2 += time.time() - t0
    if r == 'unsat':
        STATS.agree += 1
    elif r == 'sat':
        STATS.differ += 1
        return False
    else:
        STATS.open2 += 1
    return True


class Enc(object):
    """one query"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.vars = {}
        self.monos = {}
        self.cons = []
        self.todo = []
        self.exact = True
        self.bits = False

    def var(self, i):
        v = self.vars.get(i)
        if v is None:
            v = z3.Int('%s_%d' % (self.ctx.names[i], i))
            self.vars[i] = v
            self.todo.append(i)
        return v

    def mono(self, m):
        if len(m) == 1:
            return self.var(m[0])
        v = self.monos.get(m)
        if v is not None:
            return v
        ctx = self.ctx
        bs = [x for x in m if ctx.b01[x]]
        if bs:
            rest = tuple(x for x in m if not ctx.b01[x])
            cond = z3.And(*[self.var(x) == 1 for x in bs]) if len(bs) > 1 else self.var(bs[0]) == 1
            v = z3.If(cond, self.mono(rest) if rest else z3.IntVal(1), z3.IntVal(0))
        else:
            self.exact = False
            v = z3.Int('m_' + '_'.join(map(str, m)))
            lo, hi = ctx.mono_bounds(m)
            self.cons.append(v >= lo)
            self.cons.append(v <= hi)
        self.monos[m] = v
        return v

    def poly(self, p):
        items = p.items() if isinstance(p, dict) else p
        ts = []
        for m, c in items:
            if not m:
                ts.append(z3.IntVal(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(z3.IntVal(c) * self.mono(m))
        if not ts:
            return z3.IntVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def formula(self, f):
        if f is True:
            return z3.BoolVal(True)
        if f is False:
            return z3.BoolVal(False)
        k = f[0]
        if k == 'ge':
            return self.poly(f[1]) >= 0
        if k == 'eq':
            return self.poly(f[1]) == 0
        if k == 'ind':
            return self.poly(f[1]) == 1
        if k == 'not':
            return z3.Not(self.formula(f[1]))
        if k == 'and':
            return z3.And(self.formula(f[1]), self.formula(f[2]))
        if k == 'or':
            return z3.Or(self.formula(f[1]), self.formula(f[2]))
        if k == 'xor':
            return z3.Xor(self.formula(f[1]), self.formula(f[2]))
        if k == 'nmod':       # poly not congruent 0 mod f[2]
            q = z3.FreshInt('q')
            r = z3.FreshInt('r')
            return z3.And(self.poly(f[1]) == q * f[2] + r, r > 0, r < f[2])
        if k == 'z3':
            return f[1]
        raise Unsupported("formula " + k)

    def close(self, s):
        ctx = self.ctx
        done = set()
        while self.todo:
            i = self.todo.pop()
            if i in done:
                continue
            done.add(i)
            v = self.vars[i]
            s.add(v >= ctx.lo[i], v <= ctx.hi[i])
            k = ctx.kind[i]
            if k == FLOOR:
                r, m = ctx.defn[i]
                e = self.poly(r) - m * v
                s.add(e >= 0, e <= m - 1)
            elif k == BOOL:
                s.add((v == 1) == self.formula(ctx.defn[i]))
            elif k == ALIAS:
                s.add(v == self.poly(ctx.defn[i]))
            elif k == ANDV:
                a, b = ctx.defn[i]
                a, b = self.poly(a), self.poly(b)
                s.add(v <= a, v <= b, z3.Implies(a == b, v == a))
                self.exact = False
                self.bits = True
            elif k == CANON:
                g = ctx.defn[i]
                if id(g) not in done:
                    done.add(id(g))
                    e = z3.Sum([self.var(x) * (1 << (g['w'] * j)) for j, x in enumerate(g['vars'])])
                    s.add(e >= 0, e < g['p'], e + g['p'] * self.var(g['q']) == self.poly(g['E']))
            for c in self.cons:
                s.add(c)
            self.cons = []
        for c in self.cons:
            s.add(c)
        self.cons = []


def check(ctx, formulas, timeout=60, inputs=None, label=''):
    """satisfiability of the conjunction.  -> (verdict, model dict var->int or None, exact)"""
    t0 = time.time()
    e = Enc(ctx)
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in formulas:
        s.add(e.formula(f))
    e.close(s)
    r = s.check()
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    if dt > 2:
        STATS.slow.append((round(dt, 1), label))
    if r == z3.unsat and not confirmed(s):
        r = z3.unknown
    if r == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None, True
    if r == z3.sat:
        STATS.sat += 1
        m = s.model()
        out = {}
        for i, v in e.vars.items():
            x = m.eval(v, model_completion=True)
            out[i] = x.as_long()
        if e.bits:
            # and/or were over-approximated: decide with bit-vectors
            import bv
            b = bv.decide(ctx, formulas, min(timeout, 20))
            if b is not None:
                STATS.queries += 1
                return b
        return 'sat', out, e.exact
    STATS.unknown += 1
    return 'unknown', None, e.exact


def decider(ctx, timeout=60):
    """path feasibility: (can be true, can be false)"""
    def d(conds, f):
        t = check(ctx, list(conds) + [f], timeout, label='branch')[0] != 'unsat'
        if not t:
            return False, True
        n = check(ctx, list(conds) + [fnot(f)], timeout, label='branch')[0] != 'unsat'
        return t, n
    return d


def reduce_mod(p, m):
    """coefficients reduced to the symmetric range modulo m; returns (residual, quotient)"""
    r, q = {}, {}
    h = m // 2
    for k, c in p.items():
        b = c % m
        if b > h:
            b -= m
        if b:
            r[k] = b
        if c != b:
            q[k] = (c - b) // m
    return r, q


def prove_congruent(ctx, conds, p, m, timeout=60, label='congruence'):
    """p == 0 (mod m) on every assignment satisfying conds?"""
    p = ctx.expand(p)
    r, q = reduce_mod(p, m)
    if not r:
        # identity with explicit quotient: the solver checks p = m*q for all values
        diff = ('not', ('z3', None))
        t0 = time.time()
        e = Enc(ctx)
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(e.poly(p) != m * e.poly(q))
        v = s.check()
        STATS.queries += 1
        STATS.time += time.time() - t0
        if v == z3.unsat and confirmed(s):
            STATS.unsat += 1
            return 'unsat', None, True
        STATS.unknown += 1
        return 'unknown', None, True
    return check(ctx, list(conds) + [('nmod', frozenset(r.items()), m)], timeout, label=label)


def prove_fp_zero(poly, p, label=''):
    """a polynomial over F_p (dict monomial -> coefficient) is zero whatever residues its monomials take"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', 30000)
    ts = []
    for i, (m, c) in enumerate(poly.items()):
        if not m:
            ts.append(z3.IntVal(c))
        else:
            v = z3.Int('m%d' % i)
            s.add(v >= 0, v < p)
            ts.append(v * c)
    q, r = z3.Int('q'), z3.Int('r')
    e = z3.Sum(ts) if ts else z3.IntVal(0)
    s.add(e == q * p + r, r > 0, r < p)
    v = s.check()
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    if v == z3.unsat and not confirmed(s):
        v = z3.unknown
    if v == z3.unsat:
        STATS.unsat += 1
        return 'unsat'
    if v == z3.sat:
        STATS.sat += 1
        return 'sat'
    STATS.unknown += 1
    return 'unknown'


def prove_int(build, label='', timeout=30):
    """build(solver, z3) adds the negated claim over integers; 'unsat' means the claim holds"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    build(s, z3)
    v = s.check()
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    if dt > 2:
        STATS.slow.append((round(dt, 1), label))
    if v == z3.unsat and not confirmed(s):
        v = z3.unknown
    if v == z3.unsat:
        STATS.unsat += 1
        return 'unsat', None
    if v == z3.sat:
        STATS.sat += 1
        return 'sat', s.model()
    STATS.unknown += 1
    return 'unknown', None
