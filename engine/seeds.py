"""Inputs that reach the conditions of a run: for every condition that the executed code tests (branch
conditions of the paths, comparison results, selected values) solver models that make it true and models that
make it false, varied by pinning further limbs.  Used only to replay: which of them violate the property is
judged on the native build."""
import random, time
import z3
import bv, ref, smt
from sym import *
from params import *


def fill_value(rng, lo, hi, mode):
    lo, hi = int(lo), int(hi)
    if mode == 0:
        return min(max(0, lo), hi)
    if mode == 1:
        return hi
    if mode == 2:
        return min(max(rng.choice([0, 1, hi, rng.randint(lo, hi)]), lo), hi)
    return rng.randint(lo, hi)


class Inputs(object):
    """the symbolic inputs of a run"""

    def __init__(self, run):
        self.run, self.ctx, self.f = run, run.ctx, run.f
        self.H = run.hookfn if hasattr(run.hookfn, 'expr') else None
        self.elems = {}            # element name -> limb variables
        for nm, vs in run.invars.items():
            if len(vs) == self.f.N and all(v is not None for v in vs):
                self.elems[nm] = vs
        self.scal = []
        for (k, nm), i in [(k, i) for k, i in self.ctx.memo.items() if isinstance(k, tuple) and k[0] == 'sym']:
            if self.ctx.lo[i] < self.ctx.hi[i]:
                self.scal.append(i)
        ev = set(v for vs in self.elems.values() for v in vs)
        self.scal = [i for i in self.scal if i not in ev]
        self.derived = {}          # element name -> [(limb variables of its canonical form)], [bits]
        if self.H:
            for nm, vs in self.elems.items():
                t = self.H.of.get(vs[0], (None,))[0]
                if t is None:
                    continue
                ts = [u for u, e in enumerate(self.H.expr) if u != t and e == self.H.expr[t]]
                lim = []
                for u in ts:
                    lv = [None] * self.f.N
                    for v, (uu, j) in self.H.of.items():
                        if uu == u:
                            lv[j] = v
                    if all(x is not None for x in lv):
                        lim.append(lv)
                bits = [(i, v) for (u, i), v in self.H.bits.items() if u in ts or u == t]
                self.derived[nm] = (lim, bits)
        else:
            for nm in self.elems:
                lv = self.ctx.memo.get(('canon', frozenset(run.inval(nm).items())))
                if lv:
                    self.derived[nm] = ([list(lv)], ())
        # limb -> the same limb of the other elements
        self.mates = {}
        for j in range(self.f.N):
            col = [vs[j] for vs in self.elems.values()] + [x[j] for l, b in self.derived.values() for x in l]
            for v in col:
                self.mates.setdefault(v, []).extend(u for u in col if u != v)
        self.pinnable = sorted(ev | set(self.scal) | set(v for l, b in self.derived.values() for x in l for v in x) | set(v for l, b in self.derived.values() for _, v in b))

    def mate(self, v, vs, rng):
        m = [u for u in self.mates.get(v, ()) if u in vs]
        return rng.choice(m) if m and rng.random() < .8 else rng.choice(vs)

    def canonical(self, nm):
        """is the element required to be canonical?"""
        box = self.run.boxes.get(nm, self.run.box)
        f = self.f
        if self.H:
            t = self.H.of.get(self.elems.get(nm, [None])[0], (None,))[0]
            if t is not None:
                return self.H.canon[t]
        return tuple(box[-1]) == (0, (1 << f.t) - 1)

    def element(self, nm, model, rng, mode):
        """-> (limbs, constrained)"""
        f, ctx = self.f, self.ctx
        vs = self.elems.get(nm)
        fx = self.run.fixed.get(nm)
        if vs is None:
            if isinstance(fx, (list, tuple)):
                return tuple(fx), True
            return tuple([0] * f.N), False
        if any(v in model for v in vs):
            out = tuple(model[v] if v in model else self.fit(rng, v, j, mode) for j, v in enumerate(vs))
            con = True
        else:
            con = False
            out = None
            lim, bits = self.derived.get(nm, ((), ()))
            for lv in lim:
                if any(v in model for v in lv):
                    out = tuple(model[v] if v in model else fill_value(rng, ctx.lo[v], ctx.hi[v], mode) for v in lv)
                    con = True
                    break
            bm = [(i, v) for i, v in bits if v in model]
            if out is None and bm:
                k = rng.getrandbits(f.n) if mode == 3 else 0 if mode == 0 else (1 << f.n) - 1 if mode == 1 else rng.getrandbits(f.n) & rng.getrandbits(f.n)
                for i, v in bm:
                    k = k & ~(1 << i) | (model[v] << i)
                out = tuple(f.limbs(k & ((1 << f.n) - 1)))
                con = True
            if out is None:
                out = tuple(self.fit(rng, v, j, mode) for j, v in enumerate(vs))
        v = f.val(out)
        if self.canonical(nm) and not (0 <= v < f.p):
            out = tuple(f.limbs(v % f.p))
        return out, con

    def fit(self, rng, v, j, mode):
        lo, hi = self.ctx.lo[v], self.ctx.hi[v]
        if j == self.f.N - 1:
            lo, hi = max(lo, -(1 << self.f.t)), min(hi, (2 << self.f.t) - 3)
        return fill_value(rng, lo, hi, mode)

    def values(self, model, rng):
        """input values of the run (None if no well-formed inputs match)"""
        import core
        run, f = self.run, self.f
        mode = rng.randrange(4)
        base = core.cex_inputs(run, {**{i: fill_value(rng, self.ctx.lo[i], self.ctx.hi[i], mode) for i in self.scal if i not in model}, **model})
        out = []
        names = [(v, k) for v, k, _ in run.ins]
        prev = None
        for (v, k), b in zip(names, base):
            if k == 'F':
                e, con = self.element(v, model, rng, mode)
                if not con and prev is not None and rng.random() < .3:
                    e = prev if not self.canonical(v) else tuple(f.limbs(f.val(prev) % f.p))
                prev = e
                out.append(e)
            elif k == 'P':
                asg = {}
                for j in range(4):
                    e, con = self.element('%s%d' % (v, j), model, rng, mode)
                    if con:
                        asg[j] = e
                P = complete(C[run.key], asg, rng)
                if P is None:
                    return None
                out.append(P)
            else:
                out.append(b)
        if run.op == 'init' and [k for _, k in names] == ['P', 'F', 'F']:
            c = C[run.key]
            asg = {2: tuple(f.limbs(1))}
            for j, nm in ((0, 'x'), (1, 'y')):
                e, con = self.element(nm, model, rng, mode)
                if con:
                    asg[j] = e
            P = complete(c, asg, rng)
            if P is None:
                return None
            out[1], out[2] = P[0], P[1]
        return self.retarget(out, model, rng)

    def retarget(self, out, model, rng):
        """conditions on intermediate results that are polynomials over F_p: solve them for one of the inputs"""
        H, run, f = self.H, self.run, self.f
        p = f.p
        if not H or not model:
            return out
        own = [H.expr[H.of[vs[0]][0]] for vs in self.elems.values() if vs[0] in H.of]
        val = {}
        for v in model:
            if v in H.of:
                t, j = H.of[v]
                if H.expr[t] not in own:
                    val.setdefault(t, {})[j] = model[v]
        if not val:
            return out
        tg = []
        for t, d in val.items():
            mode = rng.randrange(4)
            box = H.canonbox if H.canon[t] else H.box
            l = [d[j] if j in d else fill_value(rng, box[j][0], box[j][1], mode) for j in range(f.N)]
            tg.append((H.expr[t], f.val(l) % p))
        eqs = [(e, v, {}) for e, v in tg] + [(e1, v1, e2) for i, (e1, v1) in enumerate(tg) for e2, v2 in tg[:i] if v1 == v2 and e1 != e2]
        rng.shuffle(eqs)
        # the field variables and the inputs they belong to
        env, home, free = {}, {}, []
        names = [(v, k) for v, k, _ in run.ins]
        for n, ((v, k), b) in enumerate(zip(names, out)):
            if k == 'P':
                i = 'pq'.index(v) + 1 if v in 'pq' else None
                if i is None or run.op == 'init':
                    return out
                X, Y, Z = [f.val(b[j]) % p for j in range(3)]
                if not Z:
                    return out
                zi = ref.inv(Z, p)
                env['x%d' % i], env['y%d' % i], env['z%d' % i] = X * zi % p, Y * zi % p, Z
                home['z%d' % i] = n
                free.append('z%d' % i)
            elif k == 'F':
                env[v] = f.val(b) % p
                home[v] = n
                free.append(v)
        rng.shuffle(free)
        free.sort(key=lambda v: any(i in model for i in self.elems.get(v, ())))
        def partial(e1, v1, e2, xs):
            """the equation as a polynomial in the variables xs: exponents -> coefficient"""
            uni = {}
            for E, sg in ((e1, 1), (e2, -1)):
                for mono, c in E.items():
                    u = [0] * len(xs)
                    c = c * sg
                    for y, k in mono:
                        if y in xs:
                            u[xs.index(y)] = k
                        elif y in env:
                            c = c * pow(env[y], k, p) % p
                        elif y[:1] == '?':
                            c *= model.get(int(y[1:]), 0)
                        else:
                            c = 0
                    uni[tuple(u)] = (uni.get(tuple(u), 0) + c) % p
            if not e2:
                z = (0,) * len(xs)
                uni[z] = (uni.get(z, 0) - v1) % p
            return {u: c for u, c in uni.items() if c}
        for e1, v1, e2 in eqs[:6]:
            for x in free:
                uni = {u[0]: c for u, c in partial(e1, v1, e2, [x]).items()}
                rs = [r for r in ref.roots(uni, p, rng) if r or x in self.elems]
                if rs:
                    r = rng.choice(rs)
                    n = home[x]
                    if names[n][1] == 'P':
                        i = x[1]
                        X, Y = env['x' + i] * r % p, env['y' + i] * r % p
                        out[n] = tuple(tuple(f.limbs(w % p)) for w in (X, Y, r, X * env['y' + i]))
                    else:
                        out[n] = tuple(f.limbs(r))
                    return out
            for x in free:
                if x in self.elems:
                    continue
                # no scaling does it: another point
                i = x[1]
                uni = partial(e1, v1, e2, ['x' + i, 'y' + i])
                rs = ref.curve_roots(uni, C[run.key].d % p, p, rng) if uni else []
                if rs:
                    X, Y = rng.choice(rs)
                    Z = env[x]
                    out[home[x]] = tuple(tuple(f.limbs(w % p)) for w in (X * Z, Y * Z, Z, X * Y % p * Z))
                    return out
        return out


def complete(c, asg, rng, tries=12):
    """a well-formed point whose coordinates agree with asg (coordinate -> limbs) as far as possible"""
    f, p = c.f, c.f.p
    d = c.d % p
    val = {j: f.val(l) % p for j, l in asg.items()}

    def partner(u):
        """v with u^2 + v^2 = 1 + d u^2 v^2"""
        den = (1 - d * u * u) % p
        w = ref.sqrt((1 - u * u) * ref.inv(den, p) % p, p) if den else None
        if w is None:
            return None
        return w if rng.random() < .5 else -w % p
    for _ in range(tries):
        z = val.get(2)
        x = y = None
        if z == 0:
            return None
        if 3 in val and 0 in val and val[0] and 1 not in val:
            y = val[3] * ref.inv(val[0], p) % p
        if 3 in val and 1 in val and val[1] and 0 not in val:
            x = val[3] * ref.inv(val[1], p) % p
        if 0 in val and 1 in val and z is None:
            # X^2 w + Y^2 w = w^2 + d X^2 Y^2 with w = Z^2
            s, q = (val[0] ** 2 + val[1] ** 2) % p, d * val[0] ** 2 * val[1] ** 2 % p
            r = ref.sqrt((s * s - 4 * q) % p, p)
            if r is None:
                return None
            for sg in (r, -r):
                z = ref.sqrt((s + sg) * ref.inv(2, p) % p, p)
                if z:
                    break
            if not z:
                return None
        if y is not None and z is None and 0 in val:
            x = partner(y)
            if x:
                z = val[0] * ref.inv(x, p) % p
        if x is not None and z is None and 1 in val:
            y = partner(x)
            if y:
                z = val[1] * ref.inv(y, p) % p
        if not z:
            z = rng.choice([1, 1, rng.randrange(1, p)])
        zi = ref.inv(z, p)
        if x is None and 0 in val:
            x = val[0] * zi % p
        if y is None and 1 in val:
            y = val[1] * zi % p
        if x is None and y is None and 3 in val:
            w = val[3] * zi % p
            s = ref.sqrt((1 + d * w * w + 2 * w) % p, p)
            if s is not None:
                r = ref.sqrt((s * s - 4 * w) % p, p)
                if r is not None:
                    x = (s + r) * ref.inv(2, p) % p
                    y = (s - x) % p
            if x is None:
                continue
        if x is None and y is None:
            x, y = ref.ed_point(rng, d, p) if rng.random() < .8 else rng.choice([(0, 1), (0, p - 1), (1, 0), (p - 1, 0)])
        if x is None:
            x = partner(y)
        if y is None and x is not None:
            y = partner(x)
        if x is None or y is None or (x * x + y * y - 1 - d * x * x % p * y * y) % p:
            continue
        co = [x * z % p, y * z % p, z, x * y % p * z % p]
        out = []
        for j in range(4):
            if j in asg and val[j] == co[j]:
                out.append(tuple(asg[j]))
            else:
                out.append(tuple(f.limbs(co[j])))
        return tuple(out)
    return None


class SubEnc(smt.Enc):
    """encoding in which some variables have fixed values, so that products with them are linear"""

    def __init__(self, ctx, subst):
        smt.Enc.__init__(self, ctx)
        self.subst = subst

    def var(self, i):
        if i in self.subst and i not in self.vars:
            self.vars[i] = z3.IntVal(self.subst[i])
        return smt.Enc.var(self, i)

    def mono(self, m):
        if len(m) > 1:
            k, rest = 1, []
            for x in m:
                if x in self.subst:
                    k *= self.subst[x]
                else:
                    rest.append(x)
            if len(rest) < len(m):
                if k == 0:
                    return z3.IntVal(0)
                return z3.IntVal(k) * self.mono(tuple(rest)) if rest else z3.IntVal(k)
        return smt.Enc.mono(self, m)


def ground(inp, rng):
    """values for one input element, or for all limbs but one, so that products become linear"""
    ctx, f = inp.ctx, inp.f
    nms = sorted(inp.elems)
    if not nms:
        return {}
    out = {}
    if len(nms) == 1:
        vs = list(inp.elems[nms[0]])
        free = rng.randrange(len(vs))
        mode = rng.randrange(4)
        for j, v in enumerate(vs):
            if j != free:
                out[v] = inp.fit(rng, v, j, mode)
    else:
        for nm in nms:
            if nm != nms[0] or rng.random() < .5 and len(out) == 0:
                mode = rng.randrange(4)
                for j, v in enumerate(inp.elems[nm]):
                    out[v] = inp.fit(rng, v, j, mode)
        if len(out) == f.N * len(nms):
            for v in inp.elems[nms[0]]:
                out.pop(v)
    return out


def models(inp, formulas, rng, want, deadline):
    """diverse models of the conjunction"""
    ctx, f = inp.ctx, inp.f
    found = []
    subst = {}
    exact = True
    for attempt in range(want):
        if time.time() > deadline:
            break
        e = SubEnc(ctx, subst)
        s = z3.Solver()
        s.set('timeout', 3000)
        try:
            for g in formulas:
                s.add(e.formula(g))
            e.close(s)
        except Unsupported:
            return found
        r = s.check()
        if r == z3.unsat and not subst:
            return found
        if not e.exact and not subst:
            # products: make them linear; and/or: bit-vectors
            m = bitmodels(inp, formulas, rng, 3, deadline)
            if m:
                return m
            subst = ground(inp, rng)
            exact = False
            if not subst:
                if r == z3.sat:
                    found.append(evals(e, s.model()))
                continue
            continue
        if subst:
            subst = ground(inp, rng)
        if r != z3.sat:
            continue
        # values that single operations on unpacked strings leave
        s.push()
        for nm, vs in inp.elems.items():
            v = vs[-1]
            if v in e.vars:
                s.add(e.vars[v] >= -(1 << f.t), e.vars[v] <= (2 << f.t) - 3)
        if s.check() != z3.sat:
            s.pop()
            s.check()
        m = evals(e, s.model())
        found.append(m)
        vs = [v for v in inp.pinnable if v in e.vars and v not in e.subst]
        n = 0
        while vs and n < 14 and time.time() < deadline:
            n += 1
            v = rng.choice(vs)
            s.push()
            k = rng.randrange(4)
            if k == 0:
                s.add(e.vars[v] == fill_value(rng, ctx.lo[v], ctx.hi[v], rng.randrange(4)))
            elif k == 1:
                u = inp.mate(v, vs, rng)
                s.add(e.vars[u] != e.vars[v])
            elif k == 2:
                s.add(e.vars[v] != m.get(v, 0))
            else:
                u = inp.mate(v, vs, rng)
                s.add(e.vars[u] == e.vars[v])
            if s.check() != z3.sat:
                s.pop()
                if s.check() != z3.sat:
                    break
            m = evals(e, s.model())
        found.append(m)
    return found


def evals(e, model):
    out = {}
    for i, v in e.vars.items():
        x = model.eval(v, model_completion=True)
        out[i] = x.as_long()
    out.update(getattr(e, 'subst', {}))
    return out


def bitmodels(inp, formulas, rng, want, deadline):
    ctx = inp.ctx
    found = []
    for W in (72, 140):
        try:
            e = bv.Enc(ctx, W, False)        # (canonical limbs of an input are taken as the input itself)
            fs = [e.formula(g) for g in formulas]
        except (Unsupported, RecursionError):
            continue
        for _ in range(want):
            if time.time() > deadline:
                return found
            s = z3.SolverFor('QF_BV')
            s.set('timeout', 4000)
            s.add(fs)
            s.add(e.cons)
            if s.check() != z3.sat:
                return found
            vs = [v for v in inp.pinnable if v in e.vars and z3.is_const(e.vars[v]) and not z3.is_bv_value(e.vars[v])]
            m = s.model()
            for _ in range(10):
                if not vs or time.time() > deadline:
                    break
                v = rng.choice(vs)
                s.push()
                k = rng.randrange(3)
                if k == 0:
                    s.add(e.vars[v] == e.c(fill_value(rng, ctx.lo[v], ctx.hi[v], rng.randrange(4))))
                elif k == 1:
                    s.add(e.vars[v] != e.vars[inp.mate(v, vs, rng)])
                else:
                    s.add(e.vars[v] != m.eval(e.vars[v], model_completion=True))
                if s.check() != z3.sat:
                    s.pop()
                    if s.check() != z3.sat:
                        break
                m = s.model()
            found.append({v: m.eval(e.vars[v], model_completion=True).as_signed_long() for v in vs})
        return found
    return found


def bools(run):
    """the truth values the code computed"""
    ctx = run.ctx
    return [i for i in range(len(ctx.names)) if ctx.kind[i] == BOOL]


def harvest(runs, seconds, seed):
    """list of (key, op, input values)"""
    t1 = time.time() + seconds
    rng = random.Random(seed)
    out = []
    seen = set()
    runs = list(runs)
    rng.shuffle(runs)
    for n, run in enumerate(runs):
        if time.time() > t1:
            break
        try:
            inp = Inputs(run)
        except Exception:
            continue
        ops = [run.op[:-3] + 'vec' if run.op.endswith('_any') else run.op] + ([run.prim] if hasattr(run, 'prim') else [])
        paths = [r.conds for r in run.results] or [()]
        if not run.results and getattr(run, 'ex', None) is not None:
            paths = [tuple(run.ex.path.conds)]
        groups = []
        for c in paths:
            if c:
                groups.append(list(c))
        for r in run.results:
            if r.outs and not hasattr(run, 'prim'):
                for (kd, _), o in zip(run.outs, r.outs):
                    if kd == 'b' and isinstance(o, V):
                        for val in (1, 0):
                            d = padd(o.p, pconst(-val))
                            groups.append(list(r.conds) + [('eq', frozenset(d.items()), o.lo - val, o.hi - val)])
        bs = bools(run)
        rng.shuffle(bs)
        for b in bs[:200]:
            c = list(rng.choice(paths))
            if b in run.ctx.under:
                # joined branches: under the conditions that lead to it
                c += rng.choice(run.ctx.under[b])
            for val in (1, 0):
                groups.append(c + [('eq', frozenset(padd({(b,): 1}, pconst(-val)).items()), -val, 1 - val)])
        for _ in range(min(40, len(bs) * (len(bs) - 1))):
            c = list(rng.choice(paths))
            for b in rng.sample(bs, 2):
                val = rng.randrange(2)
                c.append(('eq', frozenset(padd({(b,): 1}, pconst(-val)).items()), -val, 1 - val))
            groups.append(c)
        rng.shuffle(groups)
        slice_ = t1 if n == len(runs) - 1 else time.time() + max(2.0, (t1 - time.time()) / max(1, len(runs) - n) * 2)
        if hasattr(run, 'sides'):
            # models of the two sides of a branch, alternating
            both = []
            for g in run.sides:
                try:
                    ms = models(inp, list(g), rng, 4, min(t1, time.time() + 6))
                    vs = [inp.values(m, rng) for m in ms for _ in range(2)]
                except Exception:
                    vs = []
                both.append([v for v in vs if v is not None])
            out += [(run.key, run.op, v) for ab in zip(*both) for v in ab]
        for g in groups:
            if time.time() > min(t1, slice_):
                break
            try:
                ms = models(inp, g, rng, 3, min(t1, time.time() + 6))
            except (Unsupported, z3.Z3Exception, RecursionError):
                continue
            for m in ms:
                for _ in range(4):
                    try:
                        v = inp.values(m, rng)
                    except Exception:
                        v = None
                    if v is None:
                        continue
                    k = (run.key, run.op, repr(v))
                    if k not in seen:
                        seen.add(k)
                        for op in ops:
                            out.append((run.key, op, v))
    return out
