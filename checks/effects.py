"""C22 (buffer extent of the byte encoding), C23 (in-place normalisation keeps the value)."""
from base import *
import hooks, points
from reps import *

LENS = (0, 1, 8, harness.EXT)


# --------------------------------------------------------------------------- C22

def buf_task(S, key, op, level, extra):
    """extra None: every buffer length from nbytes up to ANY at once"""
    f = F[key]
    base = op[:-4]
    nm = '%s.%s' % (key, base) if extra is None else '%s.%s(+%d)' % (key, base, extra)
    lastmax = (1 << (f.n - 8 * (f.nb - 1))) - 1

    def body(out, hk):
        boxes = {'x': canon_box(f) if op.startswith('pack_normalized') else inv_box(f, level)}
        boxes['c'] = [(0, 255)] * (f.nb - 1) + [(0, lastmax if op.startswith('unpack') else 255)] + [(0, 255)] * harness.EXT
        R = Run(S, key, op, boxes=boxes, fixed={'k': ('range', f.nb, ANY) if extra is None else f.nb + extra}, hookfn=hk)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            c = {}
            for j in range(f.nb + harness.EXT):
                t = R.ctx.memo.get(('sym', 'c.%d' % j))
                if t is not None:
                    c[j] = t
            if op.startswith('pack'):
                B = bytesval(R, r.outs[0][:f.nb])
                X = R.inval('x')
                if op.startswith('pack_normalized'):
                    eqpoly(out, nm + ' writes the bytes of the value', R, r, B, X, [lt_p(R, X)])
                else:
                    cong(out, nm + ' writes bytes of the residue', R, r, B, X)
                    in_range(out, nm + ' writes a value in [0,p)', R, r, B, 0, f.p - 1)
                for j in range(f.nb, f.nb + harness.EXT):
                    eqpoly(out, '%s leaves byte %d alone' % (nm, j), R, r, ubyte(R, r.outs[0][j]).p, {(c[j],): 1})
            else:
                cong(out, nm + ' denotes the integer of the first bytes', R, r, R.val(r.outs[0]), {(c[j],): 1 << (8 * j) for j in range(f.nb)})
                in_box(out, nm + ' limbs', R, r, r.outs[0], canon_box(f))
    return attempt(S, key, level, body, nm)


ANY = (1 << 63) - 1          # the largest length of a slice
BUFOPS = ['pack_any', 'pack_normalized_any', 'unpack_any', 'unpacked_any']
NATIVE = [op[:-3] + 'vec' for op in BUFOPS]


def judge_buf(f, op):
    def j(vals, o):
        k = vals[-1]
        if o in ('PANIC', 'CRASH'):
            return 'panics on a buffer of %d bytes' % k
        k = min(k, 65536)
        if op.startswith('pack'):
            c = vals[1]
            want = tuple((f.val(vals[0]) % f.p).to_bytes(f.nb, 'little'))
            if tuple(o[0][:f.nb]) != want:
                return 'writes %s instead of %s into a buffer of %d bytes' % (bytes(o[0][:f.nb]).hex(), bytes(want).hex(), k)
            if tuple(o[0][f.nb:]) != tuple(c[f.nb:]):
                return 'writes beyond the %d bytes of the encoding: %s becomes %s (buffer of %d bytes)' % (f.nb, bytes(c[f.nb:]).hex(), bytes(o[0][f.nb:]).hex(), k)
            if o[1]:
                return 'changes %d bytes from number %d on (buffer of %d bytes)' % (o[1], f.nb + harness.EXT, k)
        else:
            c = vals[-2]
            b = int.from_bytes(bytes(c[:f.nb]), 'little')
            if (f.val(o[0]) - b) % f.p:
                return 'reads 0x%x instead of 0x%x from a buffer of %d bytes' % (f.val(o[0]) % f.p, b % f.p, k)
    return j


def buf_cases(f, op, rng, n):
    els = [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, n)]
    out = []
    lens = [f.nb + e for e in LENS] + [c + e for c in DICT for e in (-1, 0, 1) if f.nb <= c + e <= 65536] + [f.nb + e for e in range(2, 80)] + [128, 256, 512, 1024, 4096, 65536]
    for i in range(n):
        k = lens[i % len(lens)]
        v = rng.choice([rng.randrange(1 << f.n), rng.randrange(f.p), (1 << f.n) - 1, 1 << rng.randrange(f.n)])
        tail = tuple(rng.choice([0, 255, rng.randrange(256)]) for _ in range(harness.EXT))
        c = tuple(v.to_bytes(f.nb, 'little')) + tail
        x = rng.choice(els)
        if op.startswith('pack_normalized'):
            x = tuple(f.limbs(f.val(x) % f.p))
        out.append((c, k) if op.startswith('unpacked') else (x, c, k))
    return out


def C22(S):
    rep = Report('C22', 'symbolic execution of pack, pack_normalized, unpack and unpacked on slices longer than the encoding, with the length, the element and every byte symbolic; z3 decides the bytes written, that every byte beyond stays, and that the decoded value depends on the first bytes only',
                 {'operands': 'all limb vectors of the invariant; all contents of the buffer (decoding: value of the first bytes below 2^nbits)',
                  'buffer lengths': 'every length from nbytes to 2^63-1 at once; only the first nbytes + %d bytes exist, an access beyond them would make the run undecided (code whose control flow depends on the length in a way that cannot be encoded: nbytes + %s)' % (harness.EXT, ', '.join(map(str, LENS))),
                  'fields': 9, 'outside': 'shorter buffers (a panic there is not specified)'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    fall = []
    try:
        level, bad = levels(rep, pool, KEYS, ['normalize'], PRIMS)
        ks = [k for k in KEYS if level[k] is not None]
        tasks = [(buf_task, (k, op, level[k], None)) for k in ks for op in BUFOPS]
        outs = pool.map(tasks)
        rep.take([o for o in outs if o.ok()])
        # not for every length at once: the lengths LENS one by one (a length-dependent defect that was met is kept)
        fall = [(t, o) for t, o in zip(tasks, outs) if not o.ok()]
        refuted = [o for t, o in fall if any(x.status == 'refuted' for x in o.obls)]
        rep.take(refuted)
        for t, o in fall:
            if o not in refuted:
                rep.harvest(o)
        rep.take(pool.map([(buf_task, t[1][:3] + (e,)) for t, o in fall if o not in refuted for e in LENS]))
        validation(rep, pool, KEYS, ['pack_into', 'pack_normalized_into', 'unpack_from', 'unpacked_from'], 1)
    finally:
        pool.close()
    if rep.failed() or fall:
        sus = suspects(rep)
        for f in sus if rep.failed() else [F[k] for k in sorted(set(t[1][0] for t, o in fall))]:
            for op in NATIVE:
                rng = random.Random('%d/buf/%s/%s' % (SEED, f.key, op))
                pre = [tuple(o.model) for o in rep.failed() if o.model and o.name.startswith('%s.%s' % (f.key, op[:-4]))]
                c = cex.search_cases(S, rep, f.key, op, judge_buf(f, op), [m for m in pre if len(m) == len(harness.layout(f.key, op)[1])] + buf_cases(f, op, rng, 1500))
                if c:
                    return rep.violation(c)
    return rep.finish()


# --------------------------------------------------------------------------- C23
# operation -> outputs: index of the output that is an argument's state afterwards -> (argument, canonical afterwards)

AFTER = {
    'pack': {1: ('x', True)}, 'packed': {1: ('x', True)}, 'bit': {1: ('x', True)},
    'normalize_eq': {1: ('x', True), 2: ('y', True)}, 'normalize_self_eq': {1: ('x', True), 2: ('y', False)},
    'normalize_bitand': {1: ('y', True)}, 'normalize_bitor': {1: ('y', True)},
    'pack_normalized': {1: ('x', False)},
}


def after_task(S, key, op, level, idx=None):
    f = F[key]
    nm = '%s.%s' % (key, op) + ('' if idx is None else '(%d)' % idx)

    def body(out, hk):
        boxes = {'x': canon_box(f) if op == 'pack_normalized' else inv_box(f, level), 'y': canon_box(f) if op == 'normalize_self_eq' else inv_box(f, level)}
        R = Run(S, key, op, boxes=boxes, fixed={'k': idx} if idx is not None else {}, hookfn=hk)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            for i, (v, canonical) in AFTER[op].items():
                cong(out, '%s keeps the value of %s' % (nm, v), R, r, R.val(r.outs[i]), R.inval(v))
                if canonical:
                    in_box(out, '%s leaves %s with canonical limbs' % (nm, v), R, r, r.outs[i], canon_box(f))
                    in_range(out, '%s leaves %s in [0,p)' % (nm, v), R, r, R.val(r.outs[i]), 0, f.p - 1)
    return attempt(S, key, level, body, nm)


def after_bits(S, key, level, lo, hi):
    tot = Out()
    for i in range(lo, hi):
        del RUNS[:]
        o = after_task(S, key, 'bit', level, i)
        for a in ('obls', 'notes', 'witness'):
            getattr(tot, a).extend(getattr(o, a))
        tot.called |= o.called
        tot.steps += o.steps
        tot.paths += o.paths
        if not o.ok():
            break                # (inputs are harvested from the runs of this index)
    return tot


def judge_after(f, op):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        for i, (v, canonical) in AFTER[op].items():
            a = f.val(vals['xy'.index(v)])
            b = f.val(o[i])
            if (a - b) % f.p:
                return 'changes its argument %s from 0x%x to 0x%x (mod p)' % (v, a % f.p, b % f.p)
            if canonical and tuple(o[i]) != tuple(f.limbs(a % f.p)):
                return 'leaves its argument %s as %r, which is not the canonical form of 0x%x' % (v, list(o[i]), a % f.p)
    return j


def after_cases(f, op, rng, n):
    els = [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, n)]
    can = [tuple(f.limbs(f.val(e) % f.p)) for e in els]
    if op == 'pack_normalized':
        return [(e,) for e in can]
    if op in ('pack', 'packed'):
        return [(e,) for e in els]
    if op == 'bit':
        return [(e, rng.randrange(f.n)) for e in els]
    out = []
    for e in els:
        y = rng.choice(can if op == 'normalize_self_eq' else els)
        out.append((e, y))
        out.append((y, e) if op != 'normalize_self_eq' else (y, y))
        out.append((e, tuple(f.limbs(f.val(e) % f.p))))
    return out


def C23(S):
    rep = Report('C23', 'symbolic execution of every operation that may normalise an argument in place; z3 decides that each such argument afterwards is congruent to its old value and canonical where the interface says so; the scalar of scalar multiplication through the ladder with symbolic bits',
                 {'operands': 'all limb vectors of the invariant', 'bit index': 'every index below nbits', 'fields': 9, 'curves': 5}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, ['normalize'] , PRIMS)
        ks = [k for k in KEYS if level[k] is not None]
        t = [(points.ladder_task, (c.key, 'scalar_mult', level[c.f.key], True)) for c in sorted(CURVES, key=lambda c: -c.f.n) if level[c.f.key] is not None]
        t += [(after_task, (k, op, level[k], None)) for k in ks for op in AFTER if op != 'bit']
        t += [(after_bits, (k, level[k], i, min(i + 32, F[k].n))) for k in ks for i in range(0, F[k].n, 32)]
        outs = pool.map(t)
        for o, tk in zip(outs, t):
            if tk[0] is points.ladder_task:
                o.obls = [b for b in o.obls if 'multiple' not in b.name]
        rep.take(outs)
        validation(rep, pool, KEYS, list(AFTER), 1)
    finally:
        pool.close()
    if rep.failed():
        for f in suspects(rep):
            for op in AFTER:
                rng = random.Random('%d/after/%s/%s' % (SEED, f.key, op))
                pre = [tuple(o.model) for o in rep.failed() if o.model and (o.name.startswith('%s.%s ' % (f.key, op)) or o.name.startswith('%s.%s(' % (f.key, op)))]
                c = cex.search_cases(S, rep, f.key, op, judge_after(f, op), pre + after_cases(f, op, rng, 1500))
                if c:
                    return rep.violation(c)
        for cu in CURVES:
            f = cu.f
            rng = random.Random('%d/after/%s' % (SEED, cu.key))

            def j(vals, o):
                if o in ('PANIC', 'CRASH'):
                    return 'panics'
                if (f.val(o[1]) - f.val(vals[1])) % f.p:
                    return 'changes its scalar from 0x%x to 0x%x (mod p)' % (f.val(vals[1]) % f.p, f.val(o[1]) % f.p)
            c = cex.search_cases(S, rep, cu.key, 'scalar_mult', j, points.scalar_cases(cu, 'scalar_mult', rng, 300))
            if c:
                return rep.violation(c)
    return rep.finish()
