"""C05, C06, C10, C18: normalisation, equality, byte encoding, bits and masks, hexadecimal."""
from base import *
import hooks, bv

KEYS = [f.key for f in FIELDS]


def ubyte(run, b, n=8):
    return run.ex.ops.lift(run.ex.ops.unsigned(b, n), n, False)


def bytesval(run, bs):
    o = {}
    for i, b in enumerate(bs):
        o = padd(o, ubyte(run, b).p, 1 << (8 * i))
    return o


def eqpoly(out, name, run, r, got, want, extra=(), timeout=30):
    """got == want as integers on every assignment of the path"""
    d = padd(got, want, -1)
    lo, hi = run.ctx.bounds(d)
    v, m, _ = smt.check(run.ctx, list(r.conds) + list(extra) + [('not', ('eq', frozenset(d.items()), lo, hi))], timeout, label=name)
    return out.add(name, v, '', m and cex_inputs(run, m))


def in_range(out, name, run, r, v, lo, hi, extra=(), timeout=60):
    a, b = run.ctx.bounds(v)
    c = fand(('ge', frozenset(padd(v, pconst(-lo)).items()), a - lo, b - lo), ('ge', frozenset(padd(pconst(hi), v, -1).items()), hi - b, hi - a))
    vv, m, _ = smt.check(run.ctx, list(r.conds) + list(extra) + [fnot(c)], timeout, label=name)
    return out.add(name, vv, '', m and cex_inputs(run, m))


def cong(out, name, run, r, got, want, extra=(), timeout=30):
    v, m, ex = smt.prove_congruent(run.ctx, list(r.conds) + list(extra), padd(got, want, -1), run.f.p, timeout, label=name)
    return out.add(name, v, '', m and cex_inputs(run, m))


def lt_p(run, v):
    """formula 0 <= v < p"""
    a, b = run.ctx.bounds(v)
    p = run.f.p
    return fand(('ge', frozenset(v.items()), a, b), ('ge', frozenset(padd(pconst(p - 1), v, -1).items()), p - 1 - b, p - 1 - a))


def bvar(run, b):
    """formula: the returned bool is true"""
    b = ubyte(run, b)
    if is_const(b.p):
        return cval(b.p) == 1
    return ('ind', frozenset(b.p.items()))


def isbool(out, name, run, r, b):
    b = ubyte(run, b)
    if b.lo >= 0 and b.hi <= 1:
        return True
    return in_range(out, name + ' is a bool', run, r, b.p, 0, 1)


def attempt(S, key, level, body, name, modes=('hook', 'plain')):
    """run body(out, hookfn) with normalize replaced by its lemma; if that is inconclusive, without"""
    f = F[key]
    first = None
    for mode in modes:
        out = Out()
        hk = hooks.NormHook(f, inv_box(f, level), canon_box(f)) if mode == 'hook' else None
        try:
            body(out, hk)
        except (Unsupported, ll.ParseError) as e:
            out.add(name + ' encodable', 'unknown', str(e))
        if out.ok():
            return out
        if any(o.status == 'refuted' for o in out.obls):
            return out
        first = first or out
    return first


# --------------------------------------------------------------------------- C05

def eq_task(S, key, op, level):
    f = F[key]
    nm = '%s.%s' % (key, op)

    def body(out, hk):
        boxes = {'x': inv_box(f, level), 'y': inv_box(f, level) if op == 'normalize_eq' else canon_box(f)}
        R = Run(S, key, op, boxes=boxes, hookfn=hk)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            X, Y = R.inval('x'), R.inval('y')
            pre = [] if op == 'normalize_eq' else [lt_p(R, Y)]
            b = bvar(R, r.outs[0])
            isbool(out, nm, R, r, r.outs[0])
            d = R.ctx.expand(padd(X, Y, -1))
            red, _ = smt.reduce_mod(d, f.p)
            v, m, _ = smt.check(R.ctx, list(r.conds) + pre + [b, ('nmod', frozenset(red.items()), f.p)], 60, label=nm + ' true')
            out.add(nm + ' true only for congruent elements', v, '', m and cex_inputs(R, m))
            lo, hi = R.ctx.bounds(d)
            k = R.ctx.var('kq', lo // f.p - 1, hi // f.p + 1)
            e = padd(d, {(k,): f.p}, -1)
            v, m, _ = smt.check(R.ctx, list(r.conds) + pre + [fnot(b), ('eq', frozenset(e.items()), None, None)], 60, label=nm + ' false')
            out.add(nm + ' false only for incongruent elements', v, '', m and cex_inputs(R, m))
            cong(out, nm + ' keeps self', R, r, R.val(r.outs[1]), X)
            cong(out, nm + ' keeps other', R, r, R.val(r.outs[2]), Y)
    return attempt(S, key, level, body, nm)


def pairs_eq(f, rng, n):
    out = []
    for v in cex.elem_candidates(f, rng, n):
        for k in (0, 1, -1, 2, -2):
            w = v + k * f.p
            if cex.reachable(f, w):
                out.append((cex.limbs_of(f, v), cex.limbs_of(f, w)))
                for d in (1, -1, 1 << rng.randrange(f.n)):
                    if cex.reachable(f, w + d):
                        out.append((cex.limbs_of(f, v), cex.limbs_of(f, w + d)))
    rng.shuffle(out)
    return out[:6 * n]


def judge_eq(f):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        a, b = f.val(vals[0]), f.val(vals[1])
        want = int((a - b) % f.p == 0)
        if o[0] != want:
            return 'returns %s for elements 0x%x and 0x%x which are %scongruent' % (bool(o[0]), a % f.p, b % f.p, '' if want else 'not ')
        if (f.val(o[1]) - a) % f.p or (f.val(o[2]) - b) % f.p:
            return 'changes the value of an operand'
    return j


def judge_norm(f):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        want = tuple(f.limbs(f.val(vals[0]) % f.p))
        if tuple(o[0]) != want:
            return 'yields limbs %r instead of the canonical %r' % (list(o[0]), list(want))
    return j


def C05(S):
    rep = Report('C05', 'symbolic execution of normalize, normalize_eq, normalize_self_eq; z3 decides that the result is the canonical representative for every limb vector of the invariant and that the returned bool equals congruence modulo p',
                 {'operands': 'all limb vectors of the representation invariant (normalize_self_eq: second operand canonical)', 'fields': 9, 'loops': 'fixed trip counts'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, ['normalize'], PRIMS)
        ks = [k for k in KEYS if level[k] is not None]
        outs = pool.map([(eq_task, (k, op, level[k])) for k in ks for op in ('normalize_eq', 'normalize_self_eq')])
        fails = rep.take(outs)
        validation(rep, pool, KEYS, ['normalize', 'normalize_eq', 'normalize_self_eq'], 1)
    finally:
        pool.close()
    if bad or fails or rep.failed():
        for f in suspects(rep):
            models = models_of(rep, f.key)
            c = cex.search_op(S, rep, f.key, 'normalize', judge_norm(f), ['F'], [m for m in models if len(m) == 1], 2000, 2)
            if c:
                return rep.violation(c)
            rng = random.Random('%d/eq/%s' % (SEED, f.key))
            base = [m for m in models if len(m) == 2] + pairs_eq(f, rng, 1500)
            for op in ('normalize_eq', 'normalize_self_eq'):
                cs = base if op == 'normalize_eq' else [(a, tuple(f.limbs(f.val(b) % f.p))) for a, b in base]
                c = cex.search_cases(S, rep, f.key, op, judge_eq(f), cs)
                if c:
                    return rep.violation(c)
    return rep.finish()


def suspects(rep):
    """the fields, those with undischarged obligations first"""
    ks = [o.name.split('.')[0] for o in rep.failed()]
    return sorted(FIELDS, key=lambda f: -ks.count(f.key))


def models_of(rep, key):
    return [tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in o.model) for o in rep.failed() if o.model and o.name.startswith(key + '.')]


def models_of2(rep, key, op):
    return [tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in o.model) for o in rep.failed() if o.model and o.name.startswith('%s.%s ' % (key, op))]


# --------------------------------------------------------------------------- C06

def enc_task(S, key, op, level):
    f = F[key]
    nm = '%s.%s' % (key, op)
    lastmax = (1 << (f.n - 8 * (f.nb - 1))) - 1

    def body(out, hk):
        boxes = {'x': canon_box(f) if op == 'pack_normalized' else inv_box(f, level), 'b': [(0, 255)] * (f.nb - 1) + [(0, lastmax)]}
        R = Run(S, key, op, boxes=boxes, hookfn=hk)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            if op in ('pack', 'packed', 'pack_normalized'):
                B = bytesval(R, r.outs[0])
                X = R.inval('x')
                if op == 'pack_normalized':
                    eqpoly(out, nm + ' writes the bytes of the value', R, r, B, X, [lt_p(R, X)])
                    eqpoly(out, nm + ' keeps the element', R, r, R.val(r.outs[1]), X)
                else:
                    cong(out, nm + ' writes bytes of the residue', R, r, B, X)
                    in_range(out, nm + ' writes a value in [0,p)', R, r, B, 0, f.p - 1)
                    cong(out, nm + ' keeps the element', R, r, R.val(r.outs[1]), X)
            else:
                b = [R.ctx.memo[('sym', 'b.%d' % j)] for j in range(f.nb)]
                BV_ = {(v,): 1 << (8 * j) for j, v in enumerate(b)}
                if op in ('unpack', 'unpacked'):
                    cong(out, nm + ' denotes the integer', R, r, R.val(r.outs[0]), BV_)
                    in_box(out, nm + ' limbs', R, r, r.outs[0], canon_box(f))
                elif op == 'unpack_pack':
                    eqpoly(out, nm + ' is the identity on canonical strings', R, r, bytesval(R, r.outs[0]), BV_, [lt_p(R, BV_)])
                else:
                    cong(out, nm + ' preserves the element', R, r, R.val(r.outs[0]), R.inval('x'))
    if op == 'pack_unpack':
        def body(out, hk):      # noqa
            R = Run(S, key, op, boxes={'x': inv_box(f, level)}, hookfn=hk)
            out.ran(R)
            no_panic(out, nm, R)
            for r in R.results:
                if not r.panic:
                    cong(out, nm + ' preserves the element', R, r, R.val(r.outs[0]), R.inval('x'))
    return attempt(S, key, level, body, nm)


ENCOPS = ['pack', 'packed', 'pack_normalized', 'unpack', 'unpacked', 'unpack_pack', 'pack_unpack']


def judge_enc(f, op):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        if op in ('pack', 'packed', 'pack_normalized'):
            v = f.val(vals[0])
            want = tuple((v % f.p).to_bytes(f.nb, 'little'))
            if tuple(o[0]) != want:
                return 'writes %s instead of %s' % (bytes(o[0]).hex(), bytes(want).hex())
            if (f.val(o[1]) - v) % f.p:
                return 'changes the element'
        elif op in ('unpack', 'unpacked'):
            b = int.from_bytes(bytes(vals[-1]), 'little')
            if (f.val(o[0]) - b) % f.p:
                return 'denotes 0x%x instead of 0x%x' % (f.val(o[0]) % f.p, b % f.p)
        elif op == 'unpack_pack':
            b = int.from_bytes(bytes(vals[0]), 'little')
            want = tuple((b % f.p).to_bytes(f.nb, 'little'))
            if tuple(o[0]) != want:
                return 'turns %s into %s' % (bytes(vals[0]).hex(), bytes(o[0]).hex())
        else:
            if (f.val(o[0]) - f.val(vals[0])) % f.p:
                return 'changes 0x%x into 0x%x' % (f.val(vals[0]) % f.p, f.val(o[0]) % f.p)
    return j


def enc_cases(f, op, rng, n):
    els = [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, n)]
    bys = [tuple(v.to_bytes(f.nb, 'little')) for v in cex.elem_candidates(f, rng, n) if 0 <= v < 1 << f.n]
    for i in range(f.n):
        bys.append(tuple((1 << i).to_bytes(f.nb, 'little')))
        els.append(cex.limbs_of(f, 1 << i))
    if op == 'pack_normalized':
        return [(tuple(f.limbs(f.val(e) % f.p)),) for e in els]
    if op in ('pack', 'packed', 'pack_unpack'):
        return [(e,) for e in els]
    if op == 'unpack':
        return [(rng.choice(els), b) for b in bys]
    return [(b,) for b in bys]


def C06(S):
    rep = Report('C06', 'symbolic execution of pack, packed, pack_normalized, unpack, unpacked and both compositions; z3 decides that the byte polynomial equals the canonical value, and that the limb polynomial equals the value of the bytes',
                 {'operands': 'all limb vectors of the invariant; all byte strings of the full length whose value is below 2^nbits', 'fields': 9}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, ['normalize'], PRIMS)
        ks = [k for k in KEYS if level[k] is not None]
        fails = rep.take(pool.map([(enc_task, (k, op, level[k])) for k in ks for op in ENCOPS]))
        validation(rep, pool, KEYS, ENCOPS, 1)
    finally:
        pool.close()
    if rep.failed():
        for f in suspects(rep):
            for op in ENCOPS:
                rng = random.Random('%d/enc/%s/%s' % (SEED, f.key, op))
                pre = [tuple(o.model) for o in rep.failed() if o.model and o.name.startswith('%s.%s ' % (f.key, op))]
                c = cex.search_cases(S, rep, f.key, op, judge_enc(f, op), pre + enc_cases(f, op, rng, 1500))
                if c:
                    return rep.violation(c)
    return rep.finish()


# --------------------------------------------------------------------------- C10

def bit_task(S, key, level, lo, hi, op):
    f = F[key]
    tot = Out()
    keep = []                # the runs of the indices that fail: inputs are harvested from them
    for i in range(lo, hi):
        nm = '%s.%s(%d)' % (key, op, i)
        del RUNS[:]

        def body(out, hk):
            R = Run(S, key, op, boxes={'x': inv_box(f, level) if op == 'bit' else canon_box(f)}, fixed={'k': i}, hookfn=hk)
            out.ran(R)
            no_panic(out, nm, R)
            for r in R.results:
                if r.panic:
                    continue
                X = R.inval('x')
                if op == 'bit':
                    # the canonical representative of x, through the normalize lemma
                    if hk is None:
                        raise Unsupported("needs the normalize lemma")
                    vs = R.ctx.memo.get(('canon', frozenset(X.items())))
                    if vs is None:
                        raise Unsupported("no canonical form was computed")
                    Cn = {(v,): 1 << (f.w * j) for j, v in enumerate(vs)}
                    pre = []
                    cong(out, nm + ' keeps the element', R, r, R.val(r.outs[1]), X)
                else:
                    Cn = X
                    pre = [lt_p(R, X)]
                b = ubyte(R, r.outs[0])
                a, c = R.ctx.bounds(Cn)
                q1 = R.ctx.floor(Cn, a, c, 1 << i)[0]
                q2 = R.ctx.floor(Cn, a, c, 1 << (i + 1))[0]
                eqpoly(out, nm + ' is the binary digit', R, r, b.p, padd(q1, pscale(q2, 2), -1), pre)
        o = attempt(S, key, level, body, nm, ('hook',))
        merge(tot, o)
        if not o.ok():
            keep += RUNS
        if not o.ok() and len([x for x in tot.obls if x.status != 'proved']) > 4:
            break
    RUNS[:] = keep
    return tot


def merge(tot, o):
    tot.obls += o.obls
    tot.called |= o.called
    tot.steps += o.steps
    tot.paths += o.paths


def bool_of(R, name='k'):
    return R.ctx.memo[('sym', name)]


def limb_ite(k, a, b):
    """k ? a : b as a polynomial; k a 0/1 variable"""
    return None


def mask_task(S, key, op, level):
    f = F[key]
    nm = '%s.%s' % (key, op)
    out = Out()
    try:
        R = Run(S, key, op, box=inv_box(f, level))
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            ctx = R.ctx
            k = {(bool_of(R),): 1}
            nk = padd({(): 1}, k, -1)

            def limb(v, j):
                return {(ctx.memo[('sym', '%s.%d' % (v, j))],): 1}
            for j in range(f.N):
                got = ctx.expand(r.outs[0][j].p)
                if op in ('fill', 'filled', 'mask_fill', 'mask_filled'):
                    want = pscale(k, -1)
                elif op == 'mask_and':
                    want = ctx.pmul(k, limb('x', j))
                elif op == 'mask_or':
                    want = padd(ctx.pmul(nk, limb('x', j)), k, -1)
                else:
                    want = padd(ctx.pmul(k, limb('x', j)), ctx.pmul(nk, limb('y', j)))
                eqpoly(out, '%s limb %d' % (nm, j), R, r, got, want)
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return out


MASKOPS = ['fill', 'filled', 'mask_fill', 'mask_filled', 'mask_and', 'mask_or', 'mask_select']
BITOPS = ['normalized_bitand', 'normalized_bitor', 'normalize_bitand', 'normalize_bitor', 'normalize_self_bitand', 'normalize_self_bitor']


def bitop_task(S, key, op, level):
    f = F[key]
    nm = '%s.%s' % (key, op)

    def body(out, hk):
        cx = op.startswith('normalized')
        cy = not op.startswith('normalize_bit')
        boxes = {'x': canon_box(f) if cx else inv_box(f, level), 'y': canon_box(f) if cy else inv_box(f, level)}
        R = Run(S, key, op, boxes=boxes, hookfn=hk)
        out.ran(R)
        no_panic(out, nm, R)
        ctx, ops = R.ctx, R.ex.ops
        for r in R.results:
            if r.panic:
                continue

            def canon(v, already):
                if already:
                    return [V(64, {(i,): 1}, ctx.lo[i], ctx.hi[i]) for i in R.limbvars(v)]
                vs = ctx.memo.get(('canon', frozenset(R.inval(v).items())))
                if vs is None:
                    raise Unsupported("no canonical form was computed")
                return [V(64, {(i,): 1}, ctx.lo[i], ctx.hi[i]) for i in vs]
            X, Y = canon('x', cx), canon('y', cy)
            for j in range(f.N):
                want = ('and' if op.endswith('and') else 'or', X[j].p, Y[j].p)
                v, how = bv.equal(ctx, list(r.conds), r.outs[0][j].p, want)
                out.add('%s limb %d is the bitwise %s' % (nm, j, want[0]), v, how)
            if op.startswith('normalize_bit'):
                cong(out, nm + ' keeps the right operand', R, r, R.val(r.outs[1]), R.inval('y'))
    return attempt(S, key, level, body, nm, ('hook',))


def judge_bits(f, op):
    full = (1 << 64) - 1

    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        if op in ('bit', 'bit_normalized'):
            want = f.val(vals[0]) % f.p >> vals[1] & 1
            if o[0] != want:
                return 'bit %d of 0x%x reported as %d' % (vals[1], f.val(vals[0]) % f.p, o[0])
            if op == 'bit' and (f.val(o[1]) - f.val(vals[0])) % f.p:
                return 'changes the element'
        elif op in ('fill', 'filled', 'mask_fill', 'mask_filled'):
            k = vals[-1]
            if any(l != (-1 if k else 0) for l in o[0]):
                return 'mask for %s is %r' % (bool(k), list(o[0]))
        elif op == 'mask_and':
            if tuple(o[0]) != (tuple(vals[0]) if vals[1] else (0,) * f.N):
                return 'and-ing with the %s mask gives %r from %r' % (bool(vals[1]), list(o[0]), list(vals[0]))
        elif op == 'mask_or':
            if tuple(o[0]) != ((-1,) * f.N if vals[1] else tuple(vals[0])):
                return 'or-ing with the %s mask gives %r from %r' % (bool(vals[1]), list(o[0]), list(vals[0]))
        elif op == 'mask_select':
            if tuple(o[0]) != tuple(vals[0] if vals[2] else vals[1]):
                return 'selecting %s gives %r from %r, %r' % (bool(vals[2]), list(o[0]), list(vals[0]), list(vals[1]))
        else:
            a, b = f.val(vals[0]) % f.p, f.val(vals[1]) % f.p
            want = a & b if op.endswith('and') else a | b
            if f.val(o[0]) != want:
                return '%s of 0x%x and 0x%x gives 0x%x' % (op[-3:], a, b, f.val(o[0]))
            if op.startswith('normalize_bit') and f.val(o[1]) != b:
                return 'changes the right operand'
    return j


def bit_cases(f, op, rng, n):
    els = [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, n)]
    can = [tuple(f.limbs(f.val(e) % f.p)) for e in els]
    C_ = rng.choice
    if op in ('bit', 'bit_normalized'):
        src = els if op == 'bit' else can
        out = [(e, i) for i in range(f.n) for e in (src[0], src[2], tuple(f.limbs(1 << i)) if (1 << i) < f.p else src[1], C_(src), C_(src))]
        return out + [(C_(src), rng.randrange(f.n)) for _ in range(n)]
    if op in ('fill', 'mask_fill', 'mask_and', 'mask_or'):
        return [(e, k) for e in els[:n] for k in (0, 1)]
    if op in ('filled', 'mask_filled'):
        return [(0,), (1,)]
    if op == 'mask_select':
        return [(C_(els), C_(els), k) for _ in range(n) for k in (0, 1)]
    a = can if op.startswith('normalized') else els
    b = els if op.startswith('normalize_bit') else can
    return [(x, y) for x in a[:40] for y in b[:40]] + [(C_(a), C_(b)) for _ in range(n)]


def C10(S):
    rep = Report('C10', 'symbolic execution of bit, bit_normalized, fill, filled and the and/or family; z3 (integers and bit-vectors) decides equality with the binary digits and with limb-wise and/or of the canonical forms',
                 {'operands': 'all limb vectors of the invariant (canonical where the method requires it)', 'bit index': 'every index below nbits, one query each', 'fields': 9}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, ['normalize'], PRIMS)
        ks = [k for k in KEYS if level[k] is not None]
        tasks = []
        for k in ks:
            n = F[k].n
            for s in range(0, n, 48):
                for op in ('bit', 'bit_normalized'):
                    tasks.append((bit_task, (k, level[k], s, min(n, s + 48), op)))
            tasks += [(mask_task, (k, op, level[k])) for op in MASKOPS] + [(bitop_task, (k, op, level[k])) for op in BITOPS]
        rep.take(pool.map(tasks))
        validation(rep, pool, KEYS, ['bit', 'bit_normalized'] + MASKOPS + BITOPS[2:], 1)
    finally:
        pool.close()
    if rep.failed():
        for f in FIELDS:
            for op in ['bit', 'bit_normalized'] + MASKOPS + BITOPS:
                rng = random.Random('%d/bits/%s/%s' % (SEED, f.key, op))
                c = cex.search_cases(S, rep, f.key, op, judge_bits(f, op), bit_cases(f, op, rng, 800))
                if c:
                    return rep.violation(c)
    return rep.finish()
