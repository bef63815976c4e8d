"""C18: hexadecimal formatting."""
from base import *
import hooks, fmthooks
from reps import attempt, cong, in_range, eqpoly, models_of2

KEYS = [f.key for f in FIELDS]


class FmtRun(Run):
    """symbolic run of <field as LowerHex/UpperHex>::fmt into a collecting sink"""

    def body(self, path):
        f = self.f
        ex = Executor(self.S.prog, self.ctx)
        ex.deadline = T0 + BUDGET
        ex.path = path
        ex.joining = self.joining
        fh = self.hookfn
        ex.hookfn = fh
        ex.called = self.called
        ex.onbranch = self.onbranch
        self.ex = ex
        x = ex.alloc(8 * f.N, 'x')
        self.put_elem(ex, x, 'x')
        tr = 'LowerHex' if self.op == 'lowerhex' else 'UpperHex'
        want = '<%s as core::fmt::%s>::fmt' % (f.pretty, tr)
        nm = [n for n, p in self.S.prog.pretty.items() if p == want and n in self.S.prog.funcs]
        if not nm:
            raise Unsupported("no " + want)
        try:
            r = ex.invoke(nm[0], [x, fh.fresh(ex)])
        finally:
            self.steps += ex.steps
            self.symaddr += len(ex.symaddr)
        if isinstance(r, (V, tuple)):
            raise Unsupported("symbolic result")
        return ex, [fh.chars(ex), self.get_elem(ex, x, 0), bool(r)]


def hex_task(S, key, op, level):
    f = F[key]
    nm = '%s.%s' % (key, op)
    upper = op == 'upperhex'

    def body(out, hk):
        R = FmtRun(S, key, op, box=inv_box(f, level), hookfn=fmthooks.FmtHook(hk), stop=lambda r: r.panic or len(r.outs[0]) != 2 * f.nb)
        out.ran(R)
        no_panic(out, nm, R)
        for r in R.results:
            if r.panic:
                continue
            chars, after, err = r.outs
            out.add(nm + ' succeeds', not err)
            if not out.add('%s prints %d digits' % (nm, 2 * f.nb), len(chars) == 2 * f.nb, '%d' % len(chars)):
                v, m, _ = smt.check(R.ctx, list(r.conds), 20, label=nm)
                out.add(nm + ' path with the wrong length', v, '', m and cex_inputs(R, m))
                continue
            ctx, ops = R.ctx, r.ex.ops
            D = {}
            bad = []
            for j, ch in enumerate(chars):
                if isinstance(ch, int):
                    t = '0123456789ABCDEF' if upper else '0123456789abcdef'
                    if chr(ch) not in t:
                        out.add('%s character %d is a digit' % (nm, j), False)
                        return
                    d = pconst(t.index(chr(ch)))
                else:
                    c, d = ch
                    if d is None:
                        # a code of the form 48 + d + jump * [d >= 10] shows its digit; what is guessed here is checked below
                        for m, k in c.p.items():
                            if m and k == (7 if upper else 39):
                                t = padd(padd(c.p, pconst(-48)), {m: k}, -1)
                                if len(m) == 1 and ctx.ind(ops.atom('ge', padd(t, pconst(-10)), -10, 5)) == {m: 1}:
                                    d = t
                                    break
                    if d is None:
                        g = ctx.ind(ops.atom('ge', padd(c.p, pconst(-58)), c.lo - 58, c.hi - 58))
                        d = padd(padd(c.p, pconst(-48)), pscale(g, 7 if upper else 39), -1)
                    lo, hi = ctx.bounds(d)
                    ge = ctx.ind(ops.atom('ge', padd(d, pconst(-10)), lo - 10, hi - 10))
                    e = padd(c.p, padd(padd(d, pconst(48)), pscale(ge, 7 if upper else 39)), -1)
                    # 0 <= d <= 15 and the character is its digit
                    bad.append(fnot(fand(fand(ops.atom('ge', d, lo, hi), ops.atom('ge', padd(pconst(15), d, -1), 15 - hi, 15 - lo)), ops.atom('eq', e, *ctx.bounds(e)))))
                D = padd(D, d, 1 << (4 * (2 * f.nb - 1 - j)))
            for s in range(0, len(bad), 16):
                q = fnot(True)
                for b in bad[s:s + 16]:
                    q = for_(q, b)
                v, m, _ = smt.check(ctx, list(r.conds) + [q], 30, label=nm)
                out.add('%s characters %d.. are the digits of the value' % (nm, s), v, '', m and cex_inputs(R, m))
            X = R.inval('x')
            cong(out, nm + ' prints the residue', R, r, D, X)
            in_range(out, nm + ' prints a value in [0,p)', R, r, D, 0, f.p - 1)
            cong(out, nm + ' keeps the element', R, r, R.val(after), X)
    return attempt(S, key, level, body, nm)


def judge_hex(f, op):
    def j(vals, o):
        if o in ('PANIC', 'CRASH'):
            return 'panics'
        v = f.val(vals[0])
        want = ('%0*X' if op == 'upperhex' else '%0*x') % (2 * f.nb, v % f.p)
        got = o[0].split(b'\0')[0].decode('latin-1')
        if got != want:
            return 'prints %s instead of %s' % (got, want)
        if (f.val(o[1]) - v) % f.p:
            return 'changes the element'
    return j


def hex_cases(f, rng, n):
    els = [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, n)]
    els += [cex.limbs_of(f, 1 << i) for i in range(f.n)]
    els += [cex.limbs_of(f, sum(rng.choice([0, 0x0f, 0xf0, rng.randrange(256)]) << (8 * i) for i in range(f.nb)) % f.p) for _ in range(n // 4)]
    return [(e,) for e in els]


def validate_hex(S, key, n):
    """executor (with the modelled formatter) against the native build"""
    f = F[key]
    out = Out()
    rng = random.Random('%d/vh/%s' % (SEED, key))
    cases = hex_cases(f, rng, 30)
    out.nval = 0
    for op in ('lowerhex', 'upperhex'):
        for (e,) in [rng.choice(cases) for _ in range(n)]:
            R = FmtRun(S, key, op, fixed={'x': e}, hookfn=fmthooks.FmtHook())
            r = R.results[0]
            got = 'PANIC' if r.panic else bytes(c if isinstance(c, int) else cval(c[0].p) for c in r.outs[0])
            o = S.native.one(key, op, (e,))
            want = o if isinstance(o, str) else o[0].split(b'\0')[0]
            out.nval += 1
            out.add('encoder agrees with native on %s.%s' % (key, op), got == want, '%r %r' % (got, want))
    return out


def C18(S):
    rep = Report('C18', 'symbolic execution of the LowerHex/UpperHex implementations with core::fmt replaced by its documented meaning (validated natively in every run); z3 decides that the characters are the digits of a value congruent to the element and in [0,p)',
                 {'operands': 'all limb vectors of the representation invariant', 'fields': 9, 'format': 'the plain {:x} and {:X} specifiers'}, ASSUME + ['core::fmt::write and the integer hexadecimal formatters behave as documented'])
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, ['normalize'], PRIMS)
        rep.take(pool.map([(hex_task, (k, op, level[k] if level[k] is not None else 2)) for k in KEYS for op in ('lowerhex', 'upperhex')]))
        outs = pool.map([(validate_hex, (k, 2 if TIER == 'quick' else 10)) for k in KEYS])
        rep.validated += sum(getattr(o, 'nval', 0) for o in outs)
        rep.take(outs)
    finally:
        pool.close()
    if rep.failed():
        order = sorted(FIELDS, key=lambda f: not any(o.name.startswith(f.key + '.') and 'hex' in o.name for o in rep.failed()))
        for n in (300, 4000):
            for f in order:
                for op in ('lowerhex', 'upperhex'):
                    rng = random.Random('%d/hex/%s/%s' % (SEED, f.key, op))
                    pre = models_of2(rep, f.key, op)
                    c = cex.search_cases(S, rep, f.key, op, judge_hex(f, op), pre + hex_cases(f, rng, n))
                    if c:
                        return rep.violation(c)
    return rep.finish()
