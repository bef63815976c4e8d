"""C20, C21: scalar multiplication and what it is made of never branch or index on secret data.

The ladder, the point operations and the field operations are executed symbolically with every secret
(scalar bits, coordinates, limbs) a solver variable.  A conditional branch is harmless when the solver
shows that only one side is feasible on the current path; a memory address must be concrete.  A branch with two feasible sides (models
for both) or a symbolic address is replayed: the compiled program runs under valgrind on two inputs and
the streams of instruction and data addresses are compared."""
import itertools, subprocess, time
from base import *
import points, hooks, forms

ARITH = ['add', 'sub', 'mul', 'neg', 'square', 'small_add', 'small_sub', 'small_mul']
MASK = ['fill', 'filled', 'mask_fill', 'mask_filled', 'mask_and', 'mask_or', 'mask_select']
IGNORE = ('sdiv', 'shift', 'divisor')       # case splits of the executor, not of the program


class TwoSided(Unsupported):
    def __init__(self, where, models):
        Unsupported.__init__(self, 'the branch at %s depends on the inputs' % (where,))
        self.where, self.models = where, models


def twosided(run, f, where, conds):
    if where in IGNORE:
        return
    ms = []
    for g in (f, fnot(f)):
        v, m, _ = smt.check(run.ctx, conds + [g], 20, label='branch side')
        ms.append(m if v == 'sat' else None)
    vals = []
    for m in ms:
        try:
            vals.append(cex_inputs(run, m) if m else None)
        except Exception:
            vals.append(None)
    run.sides = (list(conds) + [f], list(conds) + [fnot(f)])
    raise TwoSided(where, vals)


def guarded(out, nm, fn):
    try:
        run = fn()
        out.ran(run)
        out.add(nm + ' has one path for all inputs', len([r for r in run.results if not r.panic]) == 1 or all(w in IGNORE for w, two in run.branches if two))
        out.add(nm + ' uses only input-independent addresses', run.symaddr == 0, '%d input-dependent addresses' % run.symaddr)
        no_panic(out, nm, run)
        out.notes.append('%s: %d branch conditions put to the solver, none with two sides' % (nm, len(run.branches)))
        return run
    except TwoSided as e:
        st = 'refuted' if all(m is not None for m in e.models) else 'unknown'
        out.obls.append(Obl(nm + ' has one path for all inputs', st, str(e), [m for m in e.models if m]))
    except (Unsupported, ll.ParseError) as e:
        out.add(nm + ' encodable', 'unknown', str(e))
    return None


def prim_ct(S, key, op, level):
    out = Out()
    out.tag = (key, op)
    f = F[key]
    guarded(out, '%s.%s' % (key, op), lambda: Run(S, key, op, box=inv_box(f, level), twosided=twosided))
    return out


def bit_ct(S, key, lo, hi):
    out = Out()
    out.tag = (key, 'bit_normalized')
    f = F[key]
    for i in range(lo, hi):
        if guarded(out, '%s.bit_normalized(%d)' % (key, i), lambda: Run(S, key, 'bit_normalized', boxes={'x': canon_box(f)}, fixed={'k': i}, twosided=twosided)) is None:
            break
    return out


def heavy_ct(S, key, op, level):
    """exponentiations and divisions over the primitives, and operations that normalise"""
    out = Out()
    out.tag = (key, op)
    f = F[key]

    def go():
        out.H = H = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))
        names = [v for v, k, _ in harness.layout(key, op)[1] if k == 'F']
        return Run(S, key, op, box=inv_box(f, level), fixed=hooks.token_inputs(H, names), hookfn=H, twosided=twosided)
    guarded(out, '%s.%s' % (key, op), go)
    out.uses = dict(out.H.uses)
    del out.H
    return out


def norm_ct(S, key, op, level):
    """operations that normalise and then work on canonical limbs"""
    out = Out()
    out.tag = (key, op)
    f = F[key]

    def go():
        return Run(S, key, op, boxes={'y': canon_box(f)} if 'self' in op else {}, box=inv_box(f, level), hookfn=hooks.NormHook(f, inv_box(f, level), canon_box(f)), twosided=twosided)
    guarded(out, '%s.%s' % (key, op), go)
    return out


def canon_ct(S, key, op):
    out = Out()
    out.tag = (key, op)
    f = F[key]
    guarded(out, '%s.%s' % (key, op), lambda: Run(S, key, op, box=canon_box(f), twosided=twosided))
    return out


def nbit_ct(S, key, lo, hi, level):
    out = Out()
    out.tag = (key, 'bit')
    f = F[key]
    for i in range(lo, hi):
        if guarded(out, '%s.bit(%d)' % (key, i), lambda: Run(S, key, 'bit', box=inv_box(f, level), fixed={'k': i}, hookfn=hooks.NormHook(f, inv_box(f, level), canon_box(f)), twosided=twosided)) is None:
            break
    return out


def point_ct(S, ck, op, level):
    c = C[ck]
    f = c.f
    out = Out()
    out.tag = (ck, op)

    def go():
        H = hooks.ElemHooks(f, inv_box(f, level), canon_box(f))
        names = [n for v, k, _ in harness.layout(ck, op)[1] for n in (['%s%d' % (v, j) for j in range(4)] if k == 'P' else [v])]
        out.H = H
        return Run(S, ck, op, box=inv_box(f, level), fixed=hooks.token_inputs(H, names), hookfn=H, twosided=twosided)
    guarded(out, '%s.%s' % (ck, op), go)
    out.uses = dict(out.H.uses)
    del out.H
    return out


def ladder_ct(S, ck, level, op='scalar_mult_normalized'):
    c = C[ck]
    f = c.f
    out = Out()
    out.tag = (ck, op)

    def go():
        ctype = 'safecurves_rust::curve::%s::%s' % (c.rmod, c.rty)
        H = hooks.PointHooks(f, ctype, ck, inv_box(f, level), canon_box(f))
        out.H = H
        fx = hooks.token_inputs(H, ['k'], None, ('k',) if op.endswith('normalized') else ())
        tok = {}

        def coord(j):
            def g(ex, l):
                if 'P' not in tok:
                    tok['P'] = H.point_token(ex.ctx, {(): 1})
                return tok['P'][j][l]
            return g
        for j in range(4):
            fx['p%d' % j] = coord(j)
        return Run(S, ck, op, box=inv_box(f, level), fixed=fx, hookfn=H, twosided=twosided)
    guarded(out, '%s.%s' % (ck, op), go)
    out.uses = dict(out.H.uses)
    del out.H
    return out


# ------------------------------------------------------------------------------- native traces

def tracer(S, key, op, vals):
    l, outs, f = S.native.encode(key, op, vals)
    name, osz, hx = l.strip().split(' ')
    env = {'PATH': '/usr/bin:/bin'}
    import os
    vg = '/usr/bin/valgrind'
    if not os.path.exists(vg):
        import shutil
        vg = shutil.which('valgrind')
    p = subprocess.Popen([vg, '--tool=lackey', '--trace-mem=yes', S.b['dev'], name, osz], stdin=subprocess.PIPE, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, env=env, bufsize=1 << 20)
    p.stdin.write(bytes.fromhex(hx))
    p.stdin.close()
    return p


def lines(p):
    for x in p.stderr:
        if not x.startswith(b'=='):
            yield x


def diverge(S, key, op, a, b, limit):
    """first position at which the address streams of the two inputs differ (each input runs twice as a control), or None"""
    ps = [tracer(S, key, op, v) for v in (a, a, b, b)]
    t0 = time.time()
    try:
        for i, (x, x2, y, y2) in enumerate(itertools.zip_longest(*[lines(p) for p in ps])):
            if x == x2 and y == y2 and x != y:
                return i, x and x.decode().strip(), y and y.decode().strip()
            if i % 65536 == 0 and time.time() - t0 > limit:
                return None
    finally:
        for p in ps:
            p.kill()
            p.wait()
    return None


def case(S, key, op, a, b, d):
    return {'field_or_curve': key, 'operation': op, 'inputs': {'first': list(a), 'second': list(b)}, 'profile': 'dev',
            'what': '%s.%s: the executed instruction/data addresses depend on the inputs: at trace position %d one run does "%s", the other "%s" (valgrind --tool=lackey --trace-mem=yes; each input repeated identically)' % (key, op, d[0], d[1], d[2])}


def search(S, rep, outs):
    t0 = time.time()
    bad = [o for o in outs if not o.ok()]
    order = sorted(bad, key=lambda o: (o.tag[1].startswith('scalar_mult'), o.tag[0] in C, C[o.tag[0]].f.n if o.tag[0] in C else F[o.tag[0]].n))
    for o in order:
        if time.time() - t0 > 420:
            return None
        key, op = o.tag
        rng = random.Random('%d/ct/%s/%s' % (SEED, key, op))
        pairs = []
        ins = harness.layout(key, op)[1]
        kinds = [k for _, k, _ in ins]
        if key in C:
            f = C[key].f
            if op.startswith('scalar_mult'):
                cs = points.scalar_cases(C[key], op, rng, 8)
                P = cs[-1][0]
                base = (P, cex.limbs_of(f, rng.randrange(f.p)))
                ks = [0, 1, f.p - 1, 1 << (f.n - 2), rng.randrange(f.p)]
                pairs = [(base, (P, cex.limbs_of(f, k))) for k in ks] + [(base, (c[0], base[1])) for c in cs[:3]]
                pairs += [(base, c) for c in cs]
            else:
                cs = cex.point_cases(C[key], rng, 24, max(1, kinds.count('P')))
                if op == 'init':
                    cs = [(c[0], c[0][0], c[0][1]) for c in cs]
                elif op == 'zero':
                    cs = [()]
                pairs = [(cs[-1], c) for c in cs[:-1]]
        else:
            f = F[key]
            if op in ('bit', 'bit_normalized'):
                # the index is public: one with a failed obligation
                i = next((int(x.name.split('(')[1].split(')')[0]) for x in o.obls if x.status != 'proved' and '(' in x.name), 0)
                cs = [(cex.limbs_of(f, v), i) for v in [0, 1, f.p - 1, 1 << i if 1 << i < f.p else 2, rng.randrange(f.p), rng.randrange(f.p)]]
            elif kinds == ['b']:
                cs = [(0,), (1,)]
            elif 'b' in kinds:
                cs = [c[:-1] + (b,) for c in cex.cases_for(f, kinds, rng, 4)[:6] for b in (0, 1)]
            else:
                cs = cex.cases_for(f, kinds, rng, 16)[:24]
                sp = [cex.limbs_of(f, v) for v in (0, 1, f.p - 1, rng.randrange(f.p))]
                cs = [tuple(x if k == 'F' else 3 for k in kinds) for x in sp] + cs
            ms = [tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in m) for ob in o.obls for m in (ob.model or []) if isinstance(m, list)]
            ms = [m for m in ms if all(cex.history(S, f, x) is not None for x, k in zip(m, kinds) if k == 'F')]
            pairs = list(zip(ms[::2], ms[1::2])) + [(cs[-1], c) for c in ms + cs[:-1]]
        sd = [cex.deep(x) for x in rep.seeds.get((key, op), [])]
        fk = [(i, k) for i, k in enumerate(kinds) if k == 'F' and key not in C]
        sd = [m for m in sd[:24] if all(cex.history(S, f, m[i]) is not None for i, k in fk)]
        sp = list(zip(sd[::2], sd[1::2]))
        if sd and pairs:
            sp += [(pairs[0][0], m) for m in sd] if kinds.count('u64') == 0 else []
        pairs = pairs[:4] + sp[:8] + pairs[4:] + sp[8:]
        t1 = time.time()
        for a, b in pairs:
            if time.time() - t0 > 420 or time.time() - t1 > 120 and len(order) > 1:
                break
            rep.native_cases += 4
            d = diverge(S, key, op, a, b, 150)
            if d:
                return case(S, key, op, a, b, d)
    return None


def C20(S):
    rep = Report('C20', 'symbolic execution of the ladder, point addition/doubling, the field operations they use and the masks on the unoptimised LLVM IR with all secrets symbolic; z3 decides that every conditional branch has a single feasible side, and no memory address depends on an input',
                 {'scalars and points': 'all (bits, coordinates and limbs symbolic; limbs in the proved invariant)', 'iterations': 'all nbits, unrolled', 'curves': 5, 'fields': len(FIELDS),
                  'outside': 'instruction timing, caches and speculative effects, the optimised build, normalisation of the scalar, memory allocation'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        keys = [f.key for f in FIELDS]
        level, bad = levels(rep, pool, keys, (), ARITH + ['normalize'])
        lv = {k: (level[k] if level[k] is not None else 2) for k in keys}
        t1 = [(ladder_ct, (c.key, lv[c.f.key])) for c in CURVES]
        t1 += [(point_ct, (c.key, op, lv[c.f.key])) for c in CURVES for op in ('add', 'double', 'add_assign_val')]
        outs = pool.map(t1)
        used = {'mul', 'add', 'sub'}
        for o in outs:
            used |= {k for k in o.uses if k in ARITH}
        if not all(o.ok() for o in outs):
            used = set(ARITH)
        t2 = [(prim_ct, (k, op, lv[k])) for k in keys for op in sorted(used) + MASK]
        for k in keys:
            n = F[k].n
            t2 += [(bit_ct, (k, s, min(n, s + 64))) for s in range(0, n, 64)]
        outs += pool.map(t2)
        rep.take(outs)
        rep.notes.insert(0, 'field operations used by the ladder: ' + ', '.join(sorted(used)))
        rep.witness = ['%s: %d instructions on the single path' % (o.tag[0], o.steps) for o in outs if o.tag[1] == 'scalar_mult_normalized']
    finally:
        pool.close()
    if rep.failed():
        c = search(S, rep, outs)
        if c:
            return rep.violation(c)
    return rep.finish()


FORMS = [op for op, _ in forms.SMALL] + [op for op, _ in forms.PLAIN]
NORMS = ['pack', 'packed', 'normalize_bitand', 'normalize_bitor', 'normalize_self_bitand', 'normalize_self_bitor']
CANON = ['pack_normalized', 'normalized_bitand', 'normalized_bitor']
BYTES = ['unpack', 'unpacked']


def C21(S):
    rep = Report('C21', 'symbolic execution of the remaining field and point operations on the unoptimised LLVM IR with all limbs, bytes and coordinates symbolic; z3 decides that every conditional branch has a single feasible side, and no memory address depends on an input',
                 {'operands': 'all limb vectors of the invariant (canonical ones for the _normalized forms), all bytes, all small integers', 'bit index': 'every index, concrete', 'fields': len(FIELDS), 'curves': len(CURVES),
                  'outside': 'equality tests, formatting, sampling; instruction timing, caches, the optimised build; the small-integer operand of a form is also covered'}, ASSUME)
    rep.S = S
    pool = Pool(S)
    try:
        keys = [f.key for f in FIELDS]
        level, bad = levels(rep, pool, keys, (), ARITH + ['normalize'])
        lv = {k: (level[k] if level[k] is not None else 2) for k in keys}
        # longest first
        t = [(ladder_ct, (c.key, lv[c.f.key], 'scalar_mult')) for c in sorted(CURVES, key=lambda c: -c.f.n)]
        t += [(heavy_ct, (k, op, lv[k])) for k in reversed(keys) for op in forms.HEAVY]
        t += [(point_ct, (c.key, op, lv[c.f.key])) for c in CURVES for op in ('triple', 'tripled', 'doubled', 'init', 'add_ref', 'add_val', 'add_assign_val')]
        for k in keys:
            t += [(prim_ct, (k, op, lv[k])) for op in ARITH + ['normalize'] + FORMS + BYTES]
            t += [(norm_ct, (k, op, lv[k])) for op in NORMS]
            t += [(canon_ct, (k, op)) for op in CANON]
            n = F[k].n
            t += [(nbit_ct, (k, s, min(n, s + 64), lv[k])) for s in range(0, n, 64)]
        outs = pool.map(t)
        rep.take(outs)
        rep.witness = ['%s.%s: %d instructions on the single path' % (o.tag[0], o.tag[1], o.steps) for o in outs if o.tag[1] in ('invert', 'sqrt')]
    finally:
        pool.close()
    if rep.failed():
        c = search(S, rep, outs)
        if c:
            return rep.violation(c)
    return rep.finish()
