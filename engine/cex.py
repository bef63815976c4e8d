"""Concrete counterexamples on the real code: candidate inputs (all reachable through the
public interface), native execution in the dev and release builds, comparison with the
Python reference."""
import itertools, random, time
from params import *
from core import *


def limbs_of(f, v):
    """the limb vector of the (possibly negative or unreduced) integer v"""
    return tuple(f.limbs(v))


def reachable(f, v):
    return -(1 << f.n) < v < (1 << (f.n + 1)) - 1


def history(S, f, limbs):
    """public calls that leave an element with exactly these limbs, checked natively; None if not found"""
    v = f.val(limbs)
    if tuple(f.limbs(v)) != tuple(limbs) or not reachable(f, v):
        return None
    m = (1 << f.n) - 1
    if 0 <= v <= m:
        a = v.to_bytes(f.nb, 'little')
        r = S.native.one(f.key, 'unpacked', [tuple(a)])
        if r != 'PANIC' and r != 'CRASH' and tuple(r[0]) == tuple(limbs):
            return ['x = unpacked(0x%x)' % v]
    for op, a, b in (('add', min(v, m), max(0, v - m)), ('add', v - v // 2, v // 2), ('sub', min(m, m + v), min(m, m + v) - v), ('sub', max(0, v), max(0, v) - v)):
        if not (0 <= a <= m and 0 <= b <= m):
            continue
        r = S.native.one(f.key, op, [limbs_of(f, a), limbs_of(f, b)])
        if r not in ('PANIC', 'CRASH') and tuple(r[0]) == tuple(limbs):
            return ['x = unpacked(0x%x) %s unpacked(0x%x)' % (a, '+' if op == 'add' else '-', b)]
    return None


def elem_candidates(f, rng, nrand):
    """structured and random reachable integers"""
    n, w, p = f.n, f.w, f.p
    out = [0, 1, 2, p - 1, p, p + 1, p - 2, (p - 1) // 2, (p + 1) // 2, 2 ** n - 1, 2 ** n, 2 ** n + f.c, 2 ** n - 1 + f.c, -1, -2, -f.c, -f.c - 1, -p, -p + 1, -(2 ** n) + 1, 2 ** (n + 1) - 3, 2 * p, 2 * p - 1, 2 * p + 1,
           f.c, f.c - 1, f.c + 1, 2 ** (n - 1), 2 ** n - 2 * f.c, 2 ** n - f.c + 1]
    for i in range(f.N):
        out += [1 << (w * i), (1 << (w * i)) - 1, ((1 << w) - 1) << (w * i), 1 << (w * i + w // 2), (1 << (w * i + w // 2)) - 1, p - (1 << (w * i)), -(1 << (w * i))]
    h = w // 2
    nd = (n + h - 1) // h
    for i in range(nd):
        out.append(((1 << h) - 1) << (h * i))
        out.append(((1 << n) - 1) ^ (((1 << h) - 1) << (h * i)))
    base = [v for v in out if reachable(f, v)]
    for _ in range(nrand):
        k = rng.randrange(8)
        if k == 0:
            v = rng.randrange(2 ** n)
        elif k == 1:
            v = rng.randrange(-2 ** n + 1, 2 ** (n + 1) - 2)
        elif k in (2, 3):
            v = 0
            for i in range(nd):
                d = rng.choice([0, 0, 1, (1 << h) - 1, (1 << h) - 1, (1 << h) - 2, 1 << (h - 1), rng.randrange(1 << h)])
                v |= d << (h * i)
            v &= (1 << n) - 1
            v += rng.choice([0, 0, -(1 << n), 1 << n])
        elif k == 4:
            v = rng.choice([0, p, 2 ** n, 2 * p, -p]) + rng.choice([-1, 1]) * rng.randrange(1 << rng.randrange(1, n))
        elif k == 5:
            v = rng.choice(base) + rng.randrange(-3, 4)
        elif k == 6:
            v = sum((rng.choice([0, (1 << w) - 1, rng.randrange(1 << w)])) << (w * i) for i in range(f.N)) & ((1 << n) - 1)
            v += rng.choice([0, -(1 << n), 1 << n])
        else:
            v = 1 << rng.randrange(n)
            v = v - (1 << rng.randrange(n))
        if reachable(f, v):
            base.append(v)
    # constants of the code in single limbs, half limbs, or as the value
    m = (1 << w) - 1
    dic = []
    for c in DICT:
        for i in range(f.N):
            sh = w * i
            for o in (0, (1 << n) - 1, rng.randrange(1 << n)):
                dic.append((o & ~(m << sh) | (c & m) << sh) & ((1 << n) - 1))
        dic += [v for v in (c, c * p, (c % p) << (n // 2) & ((1 << n) - 1), p - c) if reachable(f, v)]
    base += dic if len(dic) <= nrand // 4 else rng.sample(dic, nrand // 4)
    ext = [v for v in EXTRA.get(f.key, ()) if reachable(f, v)]
    base += ext if len(ext) <= nrand // 4 + 20 else rng.sample(ext, nrand // 4 + 20)
    return base


def small_candidates(rng, n, bits=32):
    m = 1 << (bits - 1)
    L = [0, 1, -1, 2, -2, 3, m - 1, -m, -m + 1, m - 2, 1 << (bits - 2), -(1 << (bits - 2)), 7, -7]
    L += [c + d for c in DICT for d in (0, 1, -1) if -m <= c + d < m]
    L += [rng.randrange(-m, m) for _ in range(n)]
    return L


def cases_for(f, kinds, rng, n):
    """tuples of inputs of the given kinds"""
    cols = []
    E = None
    pools = []
    for k in kinds:
        if k == 'F':
            pools.append([limbs_of(f, v) for v in elem_candidates(f, rng, n)])
        elif k in ('i32', 'i16', 'i8'):
            pools.append(small_candidates(rng, 40, int(k[1:])))
        elif k == 'b':
            pools.append([0, 1])
        elif k == 'B':
            L = []
            for v in elem_candidates(f, rng, n):
                if 0 <= v < 1 << f.n:
                    L.append(tuple(v.to_bytes(f.nb, 'little')))
            pools.append(L)
        else:
            raise KeyError(k)
    fixed = [p[:46] for p in pools]
    out = list(itertools.product(*fixed)) if len(pools) <= 2 else []
    for _ in range(n):
        out.append(tuple(rng.choice(p) for p in pools))
    return out


def deep(c):
    return tuple(deep(x) if isinstance(x, (list, tuple)) else x for x in c)


def seeds_of(rep, key, op):
    return rep.seeds.get((key, op), []) if rep is not None else []


def run_native(S, key, op, cases, judge):
    """judge(vals, out or 'PANIC') -> None if fine, else a description.  Returns (vals, profile, out, why) or None"""
    for prof in ('dev', 'release'):
        outs = S.native.batch(key, op, cases, prof)
        for c, o in zip(cases, outs):
            w = judge(c, o)
            if w:
                return c, prof, o, w
    return None


def describe(S, key, op, vals, prof, out, why):
    f, ins, isz, outs, osz = harness.layout(key, op)
    hist = {}
    for (v, k, off), x in zip(ins, vals):
        if k == 'F':
            h = history(S, f, x)
            hist[v] = {'limbs': list(x), 'value': hex(f.val(x)), 'reached_by': h}
        elif k == 'P':
            hist[v] = [{'limbs': list(y), 'value': hex(f.val(y))} for y in x]
        else:
            hist[v] = x if not isinstance(x, tuple) else list(x)
    return {'field_or_curve': key, 'operation': op, 'inputs': hist, 'profile': prof, 'output': out if isinstance(out, str) else list(out), 'what': '%s.%s: %s' % (key, op, why), 'values': list(vals)}


def all_reachable(S, key, op, vals):
    f, ins, isz, outs, osz = harness.layout(key, op)
    for (v, k, off), x in zip(ins, vals):
        if k == 'F' and history(S, f, x) is None:
            return False
    return True


def search_op(S, rep, key, op, judge, kinds, first=(), n=4000, rounds=3):
    """directed search for a native counterexample; returns a case dict or None"""
    f = harness.layout(key, op)[0]
    rng = random.Random(SEED * 1000003 + hash((key, op)) % 65537 if False else '%d/%s/%s' % (SEED, key, op))
    cands = [deep(c) for c in list(first) + seeds_of(rep, key, op)]
    for r in range(rounds):
        cs = cands if r == 0 and cands else []
        cs = cs + cases_for(f, kinds, rng, n * (4 ** r if r else 1))
        if rep is not None:
            rep.native_cases += 2 * len(cs)
        while cs:
            bad = run_native(S, key, op, cs, judge)
            if bad is None:
                break
            c, prof, o, w = bad
            if all_reachable(S, key, op, c):
                return describe(S, key, op, c, prof, o, w)
            cs = cs[cs.index(c) + 1:]
    return None


def judge_value(f, spec):
    """first output element congruent to spec(p, *values) and no panic"""
    def j(vals, out):
        if out == 'PANIC':
            return 'panics'
        if out == 'CRASH':
            return 'crashes'
        args = [f.val(v) if isinstance(v, tuple) and len(v) == f.N else v for v in vals]
        want = spec(f.p, *args) % f.p
        got = f.val(out[0]) % f.p
        if got != want:
            return 'computes 0x%x instead of 0x%x (mod p)' % (got, want)
    return j


def linear_models(S, key, op, spec, rng, tries=12):
    """exact counterexamples of a two-element operation: fix y, so that everything is linear in x"""
    f = F[key]
    ys = [limbs_of(f, v) for v in elem_candidates(f, rng, 30)]
    rng.shuffle(ys)
    ys = [limbs_of(f, 2 ** f.n - 1), limbs_of(f, -2 ** f.n + 1), limbs_of(f, 1), limbs_of(f, -1), limbs_of(f, 2 ** (f.n + 1) - 3)] + ys
    found = []
    for y in ys[:tries]:
        for fx in ({'y': y}, {'x': y}):
            try:
                run = Run(S, key, op, box=inv_box(f, 2), fixed=fx)
                for r in run.results:
                    if r.panic:
                        v, m, ex = smt.check(run.ctx, list(r.conds), 10)
                    else:
                        v, m, ex = smt.prove_congruent(run.ctx, list(r.conds), padd(run.val(r.outs[0]), spec(run), -1), f.p, 10)
                    if v == 'sat':
                        found.append(cex_inputs(run, m))
            except Unsupported:
                continue
        if len(found) >= 3:
            break
    return found


def search_cases(S, rep, key, op, judge, cases):
    """first reachable case on which the native code violates judge, as a description; or None"""
    cs = [deep(c) for c in seeds_of(rep, key, op) + list(cases)]
    if rep is not None:
        rep.native_cases += 2 * len(cs)
    while cs:
        bad = run_native(S, key, op, cs, judge)
        if bad is None:
            return None
        c, prof, o, w = bad
        if all_reachable(S, key, op, c):
            return describe(S, key, op, c, prof, o, w)
        cs = cs[cs.index(c) + 1:]
    return None


def reach_conds(R, X):
    """formulas: the value is one that unpacking, or one addition or subtraction of unpacked strings, leaves"""
    f = R.f
    n = 1 << f.n
    lo, hi = R.ctx.bounds(X)
    return [('ge', frozenset(padd(X, pconst(n - 1)).items()), lo + n - 1, hi + n - 1), ('ge', frozenset(padd(pconst(2 * n - 2), X, -1).items()), 2 * n - 2 - hi, 2 * n - 2 - lo)]


# ----------------------------------------------------------------- chains of operations

CHAINOPS = ['add', 'sub', 'neg', 'mul', 'square', 'small_add', 'small_sub', 'small_mul', 'normalize', 'pack_unpack']


class Elem(object):
    __slots__ = ('limbs', 'val', 'how', 'parents')

    def __init__(self, limbs, val, how, parents=()):
        self.limbs, self.val, self.how, self.parents = tuple(limbs), val, how, parents

    def program(self):
        """straight-line program that produces the element"""
        seen, out = {}, []
        st = [(self, False)]
        while st:
            e, done = st.pop()
            if id(e) in seen:
                continue
            if done or not e.parents:
                seen[id(e)] = 'e%d' % len(seen)
                out.append('%s = %s' % (seen[id(e)], e.how.format(*[seen[id(p)] for p in e.parents])))
            else:
                st.append((e, True))
                for p in e.parents:
                    st.append((p, False))
        return out


def chain_pool(S, f, rng, size, steps, on=None, ops=CHAINOPS):
    """elements reached by random chains; on(op, args, k, native outputs dev/release, expected) -> case stops"""
    vals = [v for v in elem_candidates(f, rng, size) if 0 <= v < 1 << f.n]
    pool = [Elem(limbs_of(f, v), v % f.p, 'unpacked(0x%x)' % v) for v in vals[:size] + [rng.choice(vals) for _ in range(size // 2)]]
    ks = small_candidates(rng, 20)
    allp = list(pool)
    for st in range(steps):
        op = rng.choice(ops)
        mode = rng.randrange(4)
        two = op in ('add', 'sub', 'mul')
        sm = op.startswith('small')
        args = []
        if mode == 0 and two:
            args = [(e, e) for e in pool]
        elif two:
            sh = pool[:]
            rng.shuffle(sh)
            args = list(zip(pool, sh))
        else:
            args = [(e,) for e in pool]
        k = rng.choice(ks[:8]) if mode < 2 else rng.choice(ks)
        for rpt in range(rng.choice([1, 1, 2, 3, 24])):
            cases = [tuple(e.limbs for e in a) + ((k,) if sm else ()) for a in args]
            dev = S.native.batch(f.key, op, cases, 'dev')
            rel = S.native.batch(f.key, op, cases, 'release')
            new = []
            for a, c, d, r in zip(args, cases, dev, rel):
                if op == 'pack_unpack':
                    want = a[0].val
                elif sm:
                    want = {'small_add': a[0].val + k, 'small_sub': a[0].val - k, 'small_mul': a[0].val * k}[op] % f.p
                else:
                    x, y = a[0].val, a[-1].val
                    want = {'add': x + y, 'sub': x - y, 'mul': x * y, 'square': x * x, 'neg': -x, 'normalize': x}[op] % f.p
                why = None
                if d == 'PANIC' or r == 'PANIC' or d == 'CRASH':
                    why = 'panics (dev %s, release %s)' % (d if isinstance(d, str) else 'returns', r if isinstance(r, str) else 'returns')
                elif d != r:
                    why = 'dev and release builds differ'
                elif f.val(d[0]) % f.p != want:
                    why = 'computes 0x%x instead of 0x%x' % (f.val(d[0]) % f.p, want)
                if why:
                    if on:
                        return dict(field_or_curve=f.key, operation=op, what='%s.%s after a chain of operations: %s' % (f.key, op, why), inputs=[list(x) if isinstance(x, tuple) else x for x in c],
                                    program=sum([e.program() for e in a], []) + ['final: %s(%s)' % (op, ', '.join('last of chain %d' % i for i in range(len(a))) + (', %d' % k if sm else ''))],
                                    dev=d, release=r)
                    new.append(a[0])
                    continue
                how = {'add': '{0} + {1}', 'sub': '{0} - {1}', 'mul': '{0} * {1}'}.get(op, op + '({0}%s)' % (', %d' % k if sm else ''))
                new.append(Elem(d[0], want, how, a[:2] if two else a[:1]))
            pool = new
            allp += new
            args = [(e, e) for e in pool] if two and mode == 0 else list(zip(pool, [a[-1] for a in args])) if two else [(e,) for e in pool]
    return allp if not on else None


def chain_search(S, rep, f, rng, models=(), n=6, steps=160):
    for rnd in range(n):
        ops = CHAINOPS if rnd % 2 == 0 else [o for o in CHAINOPS if o not in ('normalize', 'pack_unpack')]
        if rnd == 1:
            ops = ['add', 'sub', 'neg']
        if rnd == 3:
            ops = ['small_mul', 'neg', 'sub', 'add', 'small_sub']
        c = chain_pool(S, f, rng, 40, steps, True, ops)
        rep.native_cases += 40 * steps
        if c:
            return c
    # directed: single operations on solver models and structured operands
    for op in ('add', 'sub', 'neg', 'mul', 'square', 'small_add', 'small_sub', 'small_mul', 'normalize'):
        kinds = [kd for _, kd, _ in harness.layout(f.key, op)[1]]
        first = [m for o, m in models if o == op]
        if kinds == ['F', 'F'] and op in SPEC:
            try:
                first = list(first) + linear_models(S, f.key, op, SPEC[op], rng)
            except Exception:
                pass
        c = search_op(S, rep, f.key, op, judge_value(f, PYSPEC[op]), kinds, first, 2000, 1)
        if c:
            return c
    return None


def loop_search(S, rep, f, rng):
    """long histories: one or two operations applied over and over, then every operation on what is left"""
    top = (1 << f.n) - 1
    consts = [limbs_of(f, v) for v in (top, f.p - 1, 1, (1 << f.n) - (1 << f.n // 2), f.p // 2 + 1)]
    ks = [2 ** 31 - 1, -2 ** 31, -1, 2]
    one = []
    for op in ('add', 'sub'):
        for c in consts:
            one += [(op, (c, c), 0), (op, (c, c), 1)]
    for op in ('small_add', 'small_sub', 'small_mul'):
        for k in ks:
            one.append((op, (consts[0], k), 0))
    one += [('neg', (consts[0],), 0), ('square', (consts[0],), 0), ('mul', (consts[0], consts[0]), 0), ('mul', (consts[1], consts[1]), 1)]
    progs = [[s] for s in one] + [[rng.choice(one), rng.choice(one)] for _ in range(120)] + [[rng.choice(one) for _ in range(3)] for _ in range(40)]

    def sem(step, v):
        op, vals, pos = step
        a = list(vals)
        c = f.val(a[1 - pos]) if len(a) > 1 and isinstance(a[1 - pos], tuple) else (a[1] if len(a) > 1 else 0)
        if op == 'sub' and pos == 1:
            return (c - v) % f.p
        return {'add': v + c, 'small_add': v + c, 'sub': v - c, 'small_sub': v - c, 'small_mul': v * c, 'mul': v * c, 'neg': -v, 'square': v * v}[op] % f.p

    def show(step):
        op, vals, pos = step
        return '%s(%s)' % (op, ', '.join('x' if i == pos else '0x%x' % f.val(v) if isinstance(v, tuple) else str(v) for i, v in enumerate(vals)))
    lim = [(0, 1 << f.w)] * (f.N - 1)
    work = []
    for pr in progs:
        st = rng.choice(consts)
        a = S.native.loop(f.key, st, pr, 64)
        b = S.native.loop(f.key, st, pr, 4096)
        rep.native_cases += 2
        g = 0
        if not isinstance(a, str) and not isinstance(b, str):
            g = max(abs(y) for y in b[:-1]) >> f.w
            g = max(g, abs(b[-1]) >> (f.t + 2))
        work.append((-1 if isinstance(a, str) or isinstance(b, str) else -g, len(work), st, pr))
    work.sort()
    t0 = time.time()
    for g, _, st, pr in work:
        if time.time() - t0 > 150:
            break
        for reps in (64, 4096, 60000, 1000000 if g < 0 else 60001):
            v = f.val(st) % f.p
            for i in range(reps):
                for s_ in pr:
                    v = sem(s_, v)
            d = S.native.loop(f.key, st, pr, reps, 'dev')
            r = S.native.loop(f.key, st, pr, reps, 'release')
            prog = ['x = unpacked(0x%x)' % f.val(st), '%d times: ' % reps + '; '.join('x = ' + show(s_) for s_ in pr)]

            def found(op, why, dd, rr):
                return dict(field_or_curve=f.key, operation=op, what='%s.%s after a long chain of operations: %s' % (f.key, op, why), program=prog, inputs=[], dev=dd, release=rr)
            if isinstance(d, str) or isinstance(r, str):
                return found(pr[-1][0], 'panics (dev %s, release %s)' % (d if isinstance(d, str) else 'returns', r if isinstance(r, str) else 'returns'), d, r)
            if d != r or f.val(d) % f.p != v:
                return found(pr[-1][0], 'computes 0x%x instead of 0x%x' % (f.val(d) % f.p, v), d, r)
            for op in ('mul', 'square', 'add', 'sub', 'small_mul', 'small_add', 'small_sub', 'neg', 'normalize', 'packed'):
                kinds = [kd for _, kd, _ in harness.layout(f.key, op)[1]]
                for o in ([d] if kinds != ['F', 'F'] else [d, consts[0]]):
                    case = (d, o) if kinds == ['F', 'F'] else (d, -2 ** 31) if len(kinds) == 2 else (d,)
                    w = v if o is d else f.val(o)
                    want = {'mul': v * w, 'square': v * v, 'add': v + w, 'sub': v - w, 'small_mul': v * -2 ** 31, 'small_add': v - 2 ** 31, 'small_sub': v + 2 ** 31, 'neg': -v}.get(op, v) % f.p
                    oo = [S.native.one(f.key, op, case, q) for q in ('dev', 'release')]
                    prog2 = prog + [op + '(x, ...)']
                    for q in oo:
                        if isinstance(q, str):
                            return dict(found(op, 'panics (dev %s, release %s)' % tuple(z if isinstance(z, str) else 'returns' for z in oo), oo[0], oo[1]), program=prog2)
                        got = int.from_bytes(bytes(q[0]), 'little') if op == 'packed' else f.val(q[0]) % f.p
                        if got != want:
                            return dict(found(op, 'computes 0x%x instead of 0x%x' % (got, want), oo[0], oo[1]), program=prog2)
    return None


def point_cases(c, rng, n, npts, scal=False):
    """well-formed points in random projective scalings and representations"""
    f = c.f
    p = f.p
    d = c.d % p
    pts = [(0, 1), (0, p - 1), (1, 0), (p - 1, 0)]
    for _ in range(12):
        pts.append(ref.ed_point(rng, d, p))

    def rep_(v):
        v %= p
        opts = [v, v - p]
        if reachable(f, v + p):
            opts.append(v + p)
        w = rng.choice(opts)
        return limbs_of(f, w if reachable(f, w) else v)

    def ext(P):
        z = rng.choice([1, 1, 2, p - 1, rng.randrange(1, p), rng.randrange(1, p)])
        x, y = P
        return (rep_(x * z), rep_(y * z), rep_(z), rep_(x * y * z))
    out = []
    met = EXTRAP.get(c.key, ((), ()))[0]
    for i in range(n):
        P = rng.choice(pts) if i >= 16 else pts[i % len(pts)]
        row = [P]
        if npts > 1:
            k = rng.randrange(5)
            Q = rng.choice(pts) if k < 2 else P if k == 2 else (-P[0] % p, P[1]) if k == 3 else ref.ed_add(P, rng.choice(pts[:4]), d, p)
            row.append(Q)
        out.append(tuple(ext(q) for q in row))
        if met and i % 3 == 0:
            out.append(tuple(rng.choice(met) if rng.random() < .7 else ext(q) for q in row))
    return out


# ----------------------------------------------------------------- bounded chains decided by the solver

class ChainRun(Run):
    """a straight-line program of operations on unpacked (canonical-box) symbolic elements.
    prog: list of (operation, operand indices, small integer or None); elements 0..nin-1 are the inputs"""

    def __init__(self, S, key, prog, nin, conc=None, **kw):
        self.prog, self.nin, self.conc = prog, nin, conc or {}
        Run.__init__(self, S, key, prog[-1][0], **kw)

    def leaf(self, i):
        f = self.f
        if i in self.conc:
            return [V(64, pconst(x), x, x) for x in f.limbs(self.conc[i])]
        out = []
        for j, (lo, hi) in enumerate(canon_box(f)):
            self.ctx.sym('e%d.%d' % (i, j), 64, lo, hi)
            v = self.ctx.memo[('sym', 'e%d.%d' % (i, j))]
            out.append(V(64, {(v,): 1}, lo, hi))
        return out

    def body(self, path):
        vals = [self.leaf(i) for i in range(self.nin)]
        self.spec = [self.val(v) for v in vals]
        for op, args, k in self.prog:
            self.op = op
            self.f, self.ins, self.isz, self.outs, self.osz = harness.layout(self.key, op)
            fx = {}
            for v, a in zip([v for v, kd, _ in self.ins if kd == 'F'], args):
                fx[v] = (lambda w: lambda ex, j: cval(w[j].p) & (2 ** 64 - 1) if is_const(w[j].p) else w[j])(vals[a])
            if k is not None:
                fx['k'] = k & 0xffffffff
            self.fixed = fx
            ex, outs = Run.body(self, path)
            vals.append(outs[0])
            x = [self.spec[a] for a in args]
            self.spec.append({'add': lambda: padd(x[0], x[1]), 'sub': lambda: padd(x[0], x[1], -1), 'neg': lambda: pscale(x[0], -1),
                              'mul': lambda: self.ctx.pmul(x[0], x[1]), 'square': lambda: self.ctx.pmul(x[0], x[0]), 'normalize': lambda: x[0],
                              'small_add': lambda: padd(x[0], pconst(k)), 'small_sub': lambda: padd(x[0], pconst(-k)), 'small_mul': lambda: pscale(x[0], k)}[op]())
        return ex, [vals[-1]]


def chain_native(S, f, prog, ins):
    """run the program on the native builds; a description of the first wrong step, or None"""
    vals = [limbs_of(f, v) for v in ins]
    want = [v % f.p for v in ins]
    text = ['e%d = unpacked(0x%x)' % (i, v) for i, v in enumerate(ins)]
    for op, args, k in prog:
        case = [vals[a] for a in args] + ([k] if k is not None else [])
        text.append('e%d = %s(%s)' % (len(vals), op, ', '.join(['e%d' % a for a in args] + ([str(k)] if k is not None else []))))
        d, r = S.native.one(f.key, op, case, 'dev'), S.native.one(f.key, op, case, 'release')
        w = PYSPEC[op](f.p, *[want[a] for a in args], *([k] if k is not None else [])) % f.p
        why = None
        if isinstance(d, str) or isinstance(r, str):
            why = 'panics (dev %s, release %s)' % tuple(z if isinstance(z, str) else 'returns' for z in (d, r))
        elif d != r:
            why = 'dev and release builds differ'
        elif f.val(d[0]) % f.p != w:
            why = 'computes 0x%x instead of 0x%x' % (f.val(d[0]) % f.p, w)
        elif op == 'normalize' and tuple(d[0]) != tuple(f.limbs(w)):
            why = 'leaves limbs %r, which are not canonical' % (list(d[0]),)
        if why:
            return dict(field_or_curve=f.key, operation=op, what='%s.%s after a chain of operations: %s' % (f.key, op, why), program=text, inputs=[list(x) if isinstance(x, tuple) else x for x in case], dev=d, release=r)
        vals.append(tuple(d[0]))
        want.append(w)
    return None


def chain_progs(rng, last, n):
    """short programs ending in the given operation"""
    out = []
    kk = [2 ** 31 - 1, -2 ** 31, 1, -1, 2, 3, -3]

    def final(i, j):
        return (last, (i, j) if last in ('add', 'sub', 'mul') else (i,), rng.choice(kk) if last.startswith('small') else None)
    # carry builders: sums of sums, differences of differences
    fixed = [
        [('add', (0, 1), None), ('add', (2, 2), None), final(3, 2)],
        [('add', (0, 1), None), ('add', (2, 2), None), final(3, 3)],
        [('sub', (0, 1), None), ('sub', (2, 1), None), final(3, 3)],
        [('sub', (0, 1), None), ('sub', (2, 1), None), final(3, 2)],
        [('add', (0, 1), None), ('sub', (0, 1), None), final(2, 3)],
        [('add', (0, 1), None), ('sub', (0, 1), None), final(3, 2)],
        [('neg', (0,), None), ('sub', (2, 1), None), final(3, 1)],
        [('sub', (0, 1), None), ('neg', (2,), None), final(3, 3)],
        [('neg', (0,), None), ('add', (2, 2), None), final(3, 3)],
        [('neg', (0,), None), ('add', (2, 2), None), final(1, 3)],
    ]
    out += fixed
    for _ in range(n):
        pr = []
        cnt = 2
        for s in range(rng.choice([1, 2, 2, 3, 3, 4])):
            op = rng.choice(['add', 'sub', 'neg', 'add', 'sub', 'small_add', 'small_sub', 'small_mul'])
            i, j = max(rng.randrange(cnt), rng.randrange(cnt)), rng.randrange(cnt)
            pr.append((op, (i, j) if op in ('add', 'sub') else (i,), rng.choice(kk) if op.startswith('small') else None))
            cnt += 1
        i, j = cnt - 1, rng.randrange(cnt)
        if rng.random() < .5:
            i, j = j, i
        pr.append(final(i, j))
        out.append(pr)
    return out


def chain_models(S, rep, f, op, rng, seconds=60, nprogs=60):
    """solver search for unpacked elements on which a short program ending in op goes wrong; reproduced natively"""
    t1 = time.time() + seconds
    for pr in chain_progs(rng, op, nprogs):
        if time.time() > t1:
            break
        conc = {}
        if op in ('mul', 'square'):
            conc = {1: rng.choice([v for v in elem_candidates(f, rng, 20) if 0 <= v < 1 << f.n])}
            if op == 'square':
                conc[0] = rng.choice([v for v in elem_candidates(f, rng, 20) if 0 <= v < 1 << f.n])
        try:
            R = ChainRun(S, f.key, pr, 2, conc, timeout=5)
        except (Unsupported, KeyError):
            continue
        for r in R.results:
            try:
                if r.panic:
                    v, m, _ = smt.check(R.ctx, list(r.conds), 5)
                else:
                    v, m, _ = smt.prove_congruent(R.ctx, list(r.conds), padd(R.val(r.outs[0]), R.spec[-1], -1), f.p, 5)
            except Unsupported:
                continue
            if v == 'sat' and m:
                ins = []
                for i in range(2):
                    if i in conc:
                        ins.append(conc[i])
                    else:
                        ins.append(sum(m.get(R.ctx.memo.get(('sym', 'e%d.%d' % (i, j))), 0) << (f.w * j) for j in range(f.N)))
                rep.native_cases += 2 * len(pr)
                c = chain_native(S, f, pr, ins)
                if c:
                    return c
    return None
