"""Compositional hooks: a call of an already verified field operation is replaced by its
specification.  Two variants:

NormHook   limb level: Normalize::normalize returns fresh canonical limbs c with
           0 <= val(c) < p and val(c) = val(x) - p*q  (the normalize lemma).
ElemHooks  element level: add/sub/mul/neg/square/small_*/normalize work on tokens that
           stand for 'any limbs of the invariant that denote this element'; a token
           carries an exact polynomial over F_p (exponents may be astronomically large).
"""
from sym import *
from execu import *
from params import *


def names(f):
    P = f.pretty
    PF = '<%s as safecurves_rust::field::prime_field::PrimeField>::' % P
    return {
        '<%s as safecurves_rust::normalize::Normalize>::normalize' % P: 'normalize',
        '<%s as core::ops::arith::AddAssign<&%s>>::add_assign' % (P, P): 'add',
        '<%s as core::ops::arith::SubAssign<&%s>>::sub_assign' % (P, P): 'sub',
        '<%s as core::ops::arith::MulAssign<&%s>>::mul_assign' % (P, P): 'mul',
        '<%s as core::ops::arith::Neg>::neg' % P: 'neg',
        PF + 'square': 'square', PF + 'small_add_assign': 'small_add', PF + 'small_sub_assign': 'small_sub',
        PF + 'small_mul_assign': 'small_mul', PF + 'bit_normalized': 'bit_normalized',
    }


def read_limbs(ex, p, f):
    out = []
    for j in range(f.N):
        x = ex.load(Ptr(p.obj, p.off + 8 * j), 8, 64)
        if isinstance(x, Undef):
            raise Unsupported("undefined limb")
        out.append(ex.ops.signed(x, 64))
    return out


def write_limbs(ex, p, limbs):
    for j, l in enumerate(limbs):
        ex.store(Ptr(p.obj, p.off + 8 * j), 8, l)


def poly_of(f, limbs):
    o = {}
    for j, l in enumerate(limbs):
        o = padd(o, l.p, 1 << (f.w * j))
    return o


def within(ops, limbs, box):
    for l, (lo, hi) in zip(limbs, box):
        if l.lo < lo or l.hi > hi:
            ops.tight(l)
            if l.lo < lo or l.hi > hi:
                return False
    return True


class NormHook(object):
    def __init__(self, f, invbox, canonbox):
        self.f, self.invbox, self.canonbox = f, invbox, canonbox
        self.name = [n for n, k in names(f).items() if k == 'normalize'][0]
        self.uses = 0

    def __call__(self, name, pretty):
        return self.normalize if pretty == self.name else None

    def normalize(self, ex, args):
        f = self.f
        ctx = ex.ctx
        p = args[0]
        limbs = read_limbs(ex, p, f)
        if not within(ex.ops, limbs, self.invbox):
            raise Unsupported("normalize called outside the invariant")
        E = poly_of(f, limbs)
        self.uses += 1
        if is_const(E):
            write_limbs(ex, p, f.limbs(cval(E) % f.p))
            return None
        key = ('canon', frozenset(E.items()))
        vs = ctx.memo.get(key)
        if vs is None:
            lo, hi = ctx.bounds(E)
            vs = []
            grp = {'E': E, 'p': f.p, 'vars': vs, 'w': f.w}
            q = ctx.var('q%d' % len(ctx.names), lo // f.p - 1, hi // f.p + 1, FRESH, None)
            grp['q'] = q
            for j in range(f.N):
                vs.append(ctx.var('c%d_%d' % (len(ctx.names), j), self.canonbox[j][0], self.canonbox[j][1], CANON, grp))
            ctx.memo[key] = vs
            # the canonical form of a canonical form is itself
            E2 = {}
            for j, v in enumerate(vs):
                E2[(v,)] = 1 << (f.w * j)
            ctx.memo[('canon', frozenset(E2.items()))] = vs
        for j, v in enumerate(vs):
            ex.store(Ptr(p.obj, p.off + 8 * j), 8, V(64, {(v,): 1}, ctx.lo[v], ctx.hi[v]))
        return None


# ------------------------------------------------------------- polynomials over F_p
# dict: monomial -> coefficient mod p; a monomial is a sorted tuple of (name, exponent)

def fmul(a, b, p):
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            if not m:
                k = m2
            elif not m2:
                k = m
            else:
                d = dict(m)
                for v, e in m2:
                    if v[0] == '?':
                        d[v] = 1
                    else:
                        d[v] = d.get(v, 0) + e
                k = tuple(sorted(d.items()))
            v = (r.get(k, 0) + c * c2) % p
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def fadd(a, b, p, k=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + k * c) % p
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def fconst(c, p):
    c %= p
    return {(): c} if c else {}


def fvar(n):
    return {((n, 1),): 1}


def fpow(a, e, p):
    r = {(): 1}
    while e:
        if e & 1:
            r = fmul(r, a, p)
        e >>= 1
        if e:
            a = fmul(a, a, p)
    return r


class ElemHooks(object):
    def __init__(self, f, box, canonbox, maxterms=4000):
        self.f, self.box, self.canonbox = f, box, canonbox
        self.names = names(f)
        self.expr = []          # token -> polynomial
        self.canon = []
        self.of = {}            # ctx var -> (token, limb)
        self.uses = {}
        self.memo = {}
        self.maxterms = maxterms
        self.bits = {}          # (token, i) -> ctx var
        self.bithook = False

    def __call__(self, name, pretty):
        k = self.names.get(pretty)
        if k is None or (k == 'bit_normalized' and not self.bithook):
            return None
        return getattr(self, 'h_' + k)

    def token(self, ctx, expr, canon=False, lo=None):
        """limbs of a fresh token"""
        f = self.f
        t = len(self.expr)
        self.expr.append(expr)
        self.canon.append(canon)
        out = []
        for j in range(f.N):
            lo, hi = (self.canonbox if canon else self.box)[j]
            v = ctx.var('t%d_%d' % (t, j), lo, hi, FRESH, None)
            self.of[v] = (t, j)
            out.append(V(64, {(v,): 1}, lo, hi))
        return out

    def lift(self, ex, limbs):
        """polynomial over F_p denoted by the limbs; booleans appear as variables named ?id"""
        f = self.f
        p = f.p
        const = 0
        acc = {}
        for j, l in enumerate(limbs):
            for mm, c in l.p.items():
                toks = [x for x in mm if x in self.of]
                rest = [x for x in mm if x not in self.of]
                if len(toks) > 1 or any(not ex.ctx.b01[x] for x in rest):
                    raise Unsupported("limb arithmetic outside the field operations")
                g = tuple(sorted(('?%d' % x, 1) for x in rest))
                if not toks:
                    key = (g, None)
                    acc.setdefault(key, {})
                    acc[key]['c'] = acc[key].get('c', 0) + (c << (f.w * j))
                else:
                    t, jj = self.of[toks[0]]
                    if jj != j:
                        raise Unsupported("limbs exchanged")
                    acc.setdefault((g, t), {})[j] = c
        out = {}
        for (g, t), d in acc.items():
            if t is None:
                out = fadd(out, fmul({g: 1}, fconst(d['c'], p), p), p)
            else:
                cs = set(d.get(j, 0) for j in range(f.N))
                if len(cs) != 1:
                    raise Unsupported("partial limbs of an element")
                out = fadd(out, fmul({g: cs.pop() % p}, self.expr[t], p), p)
        return out

    def arg(self, ex, ptr):
        limbs = read_limbs(ex, ptr, self.f)
        if not within(ex.ops, limbs, self.box):
            raise Unsupported("operand outside the invariant")
        return self.lift(ex, limbs)

    def result(self, ex, ptr, expr, canon=False):
        if len(expr) > self.maxterms:
            raise Unsupported("expression too large")
        write_limbs(ex, ptr, self.token(ex.ctx, expr, canon))

    def count(self, k):
        self.uses[k] = self.uses.get(k, 0) + 1

    def h_add(self, ex, a):
        self.count('add')
        self.result(ex, a[0], fadd(self.arg(ex, a[0]), self.arg(ex, a[1]), self.f.p))

    def h_sub(self, ex, a):
        self.count('sub')
        self.result(ex, a[0], fadd(self.arg(ex, a[0]), self.arg(ex, a[1]), self.f.p, -1))

    def h_mul(self, ex, a):
        self.count('mul')
        self.result(ex, a[0], fmul(self.arg(ex, a[0]), self.arg(ex, a[1]), self.f.p))

    def h_neg(self, ex, a):
        self.count('neg')
        self.result(ex, a[0], fadd({}, self.arg(ex, a[1]), self.f.p, -1))

    def h_square(self, ex, a):
        self.count('square')
        x = self.arg(ex, a[0])
        self.result(ex, a[0], fmul(x, x, self.f.p))

    def small(self, k):
        if isinstance(k, V):
            raise Unsupported("symbolic small operand")
        return fconst(sgn(k, 32), self.f.p)

    def h_small_add(self, ex, a):
        self.count('small_add')
        self.result(ex, a[0], fadd(self.arg(ex, a[0]), self.small(a[1]), self.f.p))

    def h_small_sub(self, ex, a):
        self.count('small_sub')
        self.result(ex, a[0], fadd(self.arg(ex, a[0]), self.small(a[1]), self.f.p, -1))

    def h_small_mul(self, ex, a):
        self.count('small_mul')
        self.result(ex, a[0], fmul(self.arg(ex, a[0]), self.small(a[1]), self.f.p))

    def h_normalize(self, ex, a):
        self.count('normalize')
        limbs = read_limbs(ex, a[0], self.f)
        t = self.single(limbs)
        if t is not None and self.canon[t]:
            return
        e = self.arg(ex, a[0])
        if not e or (len(e) == 1 and () in e):
            write_limbs(ex, a[0], self.f.limbs(e.get((), 0)))
            return
        key = frozenset(e.items())
        if key in self.memo:
            write_limbs(ex, a[0], self.memo[key])
            return
        l = self.token(ex.ctx, e, True)
        self.memo[key] = l
        write_limbs(ex, a[0], l)

    def single(self, limbs):
        """token whose limbs these exactly are"""
        t0 = None
        for j, l in enumerate(limbs):
            if len(l.p) != 1:
                return None
            (mm, c), = l.p.items()
            if c != 1 or len(mm) != 1 or mm[0] not in self.of:
                return None
            t, jj = self.of[mm[0]]
            if jj != j or (t0 is not None and t != t0):
                return None
            t0 = t
        return t0

    def h_bit_normalized(self, ex, a):
        self.count('bit_normalized')
        i = a[1]
        if isinstance(i, V):
            raise Unsupported("symbolic bit index")
        t = self.single(read_limbs(ex, a[0], self.f))
        if t is None or not self.canon[t]:
            raise Unsupported("bit of a non-canonical element")
        if i >= self.f.w * self.f.N:
            raise Panic("bit index out of range")
        v = self.bits.get((t, i))
        if v is None:
            v = ex.ctx.var('bit%d_%d' % (t, i), 0, 1, FRESH, None, True)
            self.bits[(t, i)] = v
        return ('ind', frozenset({(v,): 1}.items()))


def token_inputs(H, names, exprs=None, canon=()):
    """'fixed' entries of a Run: each named input element is a token standing for the variable of that name"""
    def elem(v):
        def g(ex, j):
            if ('tok', v) not in H.memo:
                H.memo[('tok', v)] = H.token(ex.ctx, exprs[v] if exprs and v in exprs else fvar(v), v in canon)
            return H.memo[('tok', v)][j]
        return g
    return {v: elem(v) for v in names}


class PointHooks(ElemHooks):
    """Point level: addition and doubling of well-formed points are replaced by the group operation.

    A point token stands for any well-formed coordinates of the point [M]P; M is an integer polynomial
    in the scalar bits.  Selections by masks appear as 0/1 combinations of tokens and are checked."""

    def __init__(self, f, ctype, key, box, canonbox):
        ElemHooks.__init__(self, f, box, canonbox)
        E = 'safecurves_rust::curve::edwards::EdwardsExtended<%s>' % ctype
        self.pnames = {
            '<%s as core::ops::arith::AddAssign<&%s>>::add_assign' % (E, E): self.h_padd,
            '<%s as safecurves_rust::curve::point::Point>::double' % E: self.h_pdouble,
            '<%s as safecurves_rust::curve::point::Point>::triple' % E: self.h_ptriple,
        }
        self.orname = '<%s as safecurves_rust::field::prime_field::PrimeField>::normalized_bitor' % f.pretty
        self.key = key
        self.derived = {}       # selection -> (point id, its tokens)
        self.pts = {}           # element token -> (point id, coordinate)
        self.mult = []          # point id -> integer polynomial in the bits
        self.slots = None
        self.bithook = True
        self.selections = 0

    def __call__(self, name, pretty):
        h = self.pnames.get(pretty)
        if h is not None:
            return h
        if pretty == self.orname:
            return lambda ex, a: self.h_or(ex, name, a)
        return ElemHooks.__call__(self, name, pretty)

    def point_token(self, ctx, mult):
        i = len(self.mult)
        self.mult.append(mult)
        out = []
        for c in range(4):
            out.append(self.token(ctx, fvar('P%d_%d' % (i, c))))
            self.pts[len(self.expr) - 1] = (i, c)
        return out

    def order(self, ex):
        """memory slot of each coordinate (x, y, z, t)"""
        if self.slots is None:
            f = self.f
            src, dst = ex.alloc(32 * f.N, 'coords'), ex.alloc(32 * f.N, 'point')
            for c in range(4):
                for j in range(f.N):
                    ex.store(Ptr(src.obj, 8 * (c * f.N + j)), 8, c + 1)
            nm = [n for n, p in ex.prog.pretty.items() if p == 'scverif::c_%s::mk' % self.key]
            ex.call_function(nm[0], [dst, src])
            self.slots = [None] * 4
            for s in range(4):
                self.slots[ex.load(Ptr(dst.obj, 8 * s * f.N), 8, 64) - 1] = s
        return self.slots

    def coords(self, ex, ptr):
        return [read_limbs(ex, Ptr(ptr.obj, ptr.off + 8 * self.f.N * s), self.f) for s in self.order(ex)]

    def put(self, ex, ptr, coords):
        for s, l in zip(self.order(ex), coords):
            write_limbs(ex, Ptr(ptr.obj, ptr.off + 8 * self.f.N * s), l)

    def lift_point(self, ex, coords):
        """multiplier polynomial of the point with these coordinates (each a list of limbs)"""
        f = self.f
        ctx = ex.ctx
        sel = {}         # point id or 'O' -> boolean polynomial
        for c in range(4):
            # (a coordinate shown to select exactly one token is in the invariant like the token)
            for j, l in enumerate(coords[c]):
                here = {}
                for mm, k in ctx.expand(l.p).items():
                    toks = [x for x in mm if x in self.of]
                    rest = tuple(x for x in mm if x not in self.of)
                    if len(toks) > 1 or any(not ctx.b01[x] for x in rest):
                        raise Unsupported("coordinates are not a selection of points")
                    if toks:
                        t, jj = self.of[toks[0]]
                        if jj != j or t not in self.pts or self.pts[t][1] != c:
                            raise Unsupported("coordinates of points mixed")
                        d = here.setdefault(self.pts[t][0], {})
                    else:
                        d = here.setdefault('O', {})
                    d[rest] = d.get(rest, 0) + k
                o = here.pop('O', {})
                if j == 0 and c in (1, 2):
                    here['O'] = o            # the identity is (0, 1, 1, 0)
                elif o:
                    raise Unsupported("constant coordinates are not the identity")
                for k in here:
                    here[k] = {m: v for m, v in here[k].items() if v}
                here = {k: v for k, v in here.items() if v}
                if not (j == 0 and c in (1, 2)):
                    cmp_ = {k: v for k, v in sel.items() if k != 'O'}
                else:
                    cmp_ = sel
                if c == 0 and j == 0:
                    sel = here
                elif c == 1 and j == 0:
                    if {k: v for k, v in here.items() if k != 'O'} != sel:
                        raise Unsupported("coordinates select different points")
                    sel = here
                elif here != cmp_:
                    raise Unsupported("coordinates select different points")
        # exactly one is selected, with weight one, for every value of the bits
        bits = sorted({x for v in sel.values() for m in v for x in m})
        if len(bits) > 12:
            raise Unsupported("selection over too many bits")
        tot = {}
        for v in sel.values():
            tot = padd(tot, v)
            sq = ctx.expand(ctx.pmul(v, v))
            if sq != {m: k for m, k in v.items()}:
                raise Unsupported("selection weight is not 0 or 1")
        if tot != {(): 1}:
            raise Unsupported("selection weights do not sum to one")
        self.selections += 1
        M = {}
        for k, v in sel.items():
            if k != 'O':
                M = padd(M, ctx.expand(ctx.pmul(v, self.mult[k])))
        return M

    def h_or(self, ex, name, a):
        """the result of a merge that is a selection by many bits becomes the coordinate of a new token"""
        ex.call_function(name, a)
        limbs = read_limbs(ex, a[0], self.f)
        sel = self.selection(ex.ctx, limbs)
        if sel is None:
            return
        c, sel = sel
        key = frozenset((k, frozenset(v.items())) for k, v in sel.items())
        if key not in self.derived:
            M = {}
            for k, v in sel.items():
                if k != 'O':
                    M = padd(M, ex.ctx.expand(ex.ctx.pmul(v, self.mult[k])))
            self.derived[key] = self.point_token(ex.ctx, M)
            self.selections += 1
        write_limbs(ex, a[0], self.derived[key][c])

    def selection(self, ctx, limbs):
        """(coordinate, point id or 'O' -> weight) if the limbs are that coordinate of one point, chosen by at least four bits"""
        if not all(isinstance(l, V) for l in limbs) or sum(len(l.p) for l in limbs) > 400:
            return None
        coord, first = None, None
        for j, l in enumerate(limbs):
            here = {}
            for mm, k in ctx.expand(l.p).items():
                toks = [x for x in mm if x in self.of]
                rest = tuple(x for x in mm if x not in self.of)
                if len(toks) > 1 or any(not ctx.b01[x] for x in rest):
                    return None
                if not toks:
                    continue
                t, jj = self.of[toks[0]]
                if jj != j or t not in self.pts or coord not in (None, self.pts[t][1]):
                    return None
                i, coord = self.pts[t]
                here.setdefault(i, {})[rest] = k
            if first is None:
                first = here
            elif here != first:
                return None
        if coord is None or not 4 <= len({x for v in first.values() for m in v for x in m}) <= 12:
            return None
        rest = {(): 1}
        for v in first.values():
            rest = padd(rest, v, -1)
        if rest:
            first['O'] = rest
        for v in first.values():
            if ctx.expand(ctx.pmul(v, v)) != v:
                return None
        # what is left over is the same coordinate of the identity (0, 1, 1, 0)
        for j, l in enumerate(limbs):
            o = {m: k for m, k in ctx.expand(l.p).items() if not any(x in self.of for x in m)}
            if o != (rest if j == 0 and coord in (1, 2) else {}):
                return None
        return coord, first

    def h_padd(self, ex, a):
        self.count('point add')
        M = padd(self.lift_point(ex, self.coords(ex, a[0])), self.lift_point(ex, self.coords(ex, a[1])))
        self.put(ex, a[0], self.point_token(ex.ctx, M))

    def h_pdouble(self, ex, a):
        self.count('point double')
        M = pscale(self.lift_point(ex, self.coords(ex, a[0])), 2)
        self.put(ex, a[0], self.point_token(ex.ctx, M))

    def h_ptriple(self, ex, a):
        self.count('point triple')
        M = pscale(self.lift_point(ex, self.coords(ex, a[0])), 3)
        self.put(ex, a[0], self.point_token(ex.ctx, M))
