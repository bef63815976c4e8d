"""Bit-vector back end for questions about bitwise and/or: variables and their definitions are
translated into z3 bit-vectors wide enough that no integer operation wraps."""
import time
import z3
from sym import *
import smt


class Enc(object):
    def __init__(self, ctx, W, canon=True):
        self.ctx, self.W, self.canon = ctx, W, canon
        self.vars = {}
        self.cons = []
        self.groups = set()

    def c(self, x):
        return z3.BitVecVal(x, self.W)

    def need(self, lo, hi):
        if max(abs(lo), abs(hi)).bit_length() + 2 > self.W:
            raise Unsupported("bit-vector width")

    def var(self, i):
        v = self.vars.get(i)
        if v is not None:
            return v
        ctx = self.ctx
        self.need(ctx.lo[i], ctx.hi[i])
        k = ctx.kind[i]
        if k == FLOOR:
            r, m = ctx.defn[i]
            if m & (m - 1):
                lo, hi = ctx.bounds(dict(r))
                k = max(0, -(lo // m))
                self.need(lo, hi + k * m)
                v = z3.UDiv(self.poly(r) + self.c(k * m), self.c(m)) - self.c(k)
            else:
                v = self.poly(r) >> self.c(m.bit_length() - 1)
            self.vars[i] = v
            return v
        if k == ALIAS:
            v = self.poly(ctx.defn[i])
            self.vars[i] = v
            return v
        if k == ANDV:
            a, b = ctx.defn[i]
            v = self.poly(a) & self.poly(b)
            self.vars[i] = v
            return v
        v = z3.BitVec('v%d' % i, self.W)
        self.vars[i] = v
        if k == CANON and self.canon:
            g = ctx.defn[i]
            if id(g) not in self.groups:
                self.groups.add(id(g))
                e = self.c(0)
                for j, x in enumerate(g['vars']):
                    e = e + self.var(x) * self.c(1 << (g['w'] * j))
                lo, hi = ctx.bounds(dict(g['E']))
                self.need(max(abs(lo), abs(hi)) + 4 * g['p'], 0)
                self.cons += [e >= self.c(0), e < self.c(g['p']), e + self.c(g['p']) * self.var(g['q']) == self.poly(g['E'])]
        self.cons.append(v >= self.c(ctx.lo[i]))
        self.cons.append(v <= self.c(ctx.hi[i]))
        if k == BOOL:
            self.cons.append((v == self.c(1)) == self.formula(ctx.defn[i]))
        return v

    def poly(self, p):
        p = dict(p)
        lo, hi = self.ctx.bounds(p)
        self.need(sum(abs(c) * max(1, max(abs(x) for x in self.ctx.mono_bounds(m))) for m, c in p.items()) if p else 0, 0)
        t = self.c(0)
        for m, c in p.items():
            x = self.c(c)
            for v in m:
                x = x * self.var(v)
            t = t + x
        return t

    def formula(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k == 'ge':
            return self.poly(f[1]) >= self.c(0)
        if k == 'eq':
            return self.poly(f[1]) == self.c(0)
        if k == 'ind':
            return self.poly(f[1]) == self.c(1)
        if k == 'not':
            return z3.Not(self.formula(f[1]))
        if k in ('and', 'or', 'xor'):
            g = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[k]
            return g(self.formula(f[1]), self.formula(f[2]))
        if k == 'nmod':
            p = dict(f[1])
            m = f[2]
            lo, hi = self.ctx.bounds(p)
            k = max(0, -(lo // m))
            self.need(max(abs(lo), abs(hi)) + (k + 1) * m, 0)
            return z3.URem(self.poly(p) + self.c(k * m), self.c(m)) != self.c(0)
        raise Unsupported("formula " + k)


def decide(ctx, formulas, timeout):
    """exact decision of the conjunction: (verdict, model or None, True), or None if not encodable within reach"""
    t0 = time.time()
    for W in (72, 140, 600, 1200):
        try:
            e = Enc(ctx, W)
            fs = [e.formula(g) for g in formulas]
        except (Unsupported, RecursionError):
            continue
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(timeout * 1000))
        s.add(fs)
        s.add(e.cons)
        r = s.check()
        if r == z3.unsat and not smt.confirmed(s):
            return None
        smt.STATS.time += time.time() - t0
        if r == z3.unsat:
            return 'unsat', None, True
        if r == z3.sat:
            m = s.model()
            return 'sat', {i: m.eval(v, model_completion=True).as_signed_long() for i, v in e.vars.items()}, True
        return None
    return None


def equal(ctx, conds, got, want, W=80, timeout=60):
    """got == want for every assignment; want = ('and'|'or', poly, poly) or ('poly', p)"""
    t0 = time.time()
    try:
        e = Enc(ctx, W, False)      # canonical limbs as free variables: more assignments than there are
        g = e.poly(got)
        if want[0] == 'poly':
            w = e.poly(want[1])
        else:
            a, b = e.poly(want[1]), e.poly(want[2])
            w = a & b if want[0] == 'and' else a | b
        s = z3.SolverFor('QF_BV')
        s.set('timeout', timeout * 1000)
        for c in conds:
            s.add(e.formula(c))
        s.add(g != w)
        for c in e.cons:
            s.add(c)
        r = s.check()
        if r == z3.unsat and not smt.confirmed(s):
            r = z3.unknown
    except Unsupported as x:
        return 'unknown', str(x)
    dt = time.time() - t0
    smt.STATS.queries += 1
    smt.STATS.time += dt
    if dt > 2:
        smt.STATS.slow.append((round(dt, 1), 'bv'))
    if r == z3.unsat:
        smt.STATS.unsat += 1
        return 'unsat', ''
    if r == z3.sat:
        smt.STATS.sat += 1
        return 'sat', str(s.model())[:200]
    smt.STATS.unknown += 1
    return 'unknown', ''
