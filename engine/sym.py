"""Symbolic values.

A machine integer of n bits is either a Python int (concrete: the unsigned bit pattern) or
a V: an integer polynomial p over solver variables together with an interval [lo, hi] that
contains p's value; the bit pattern is p mod 2^n.  Shifts, masks, truncations and divisions
by constants introduce floor variables  f = floor(r / m)  (definition: 0 <= r - m f < m),
hash-consed on a canonical residue r, so that "x mod 2^k" becomes the linear term
x - 2^k f.  Nothing here is an approximation: every rewriting is an integer identity that
holds whenever the recorded variable definitions and bounds hold.  Booleans are small
formulas over linear/polynomial atoms.
"""


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ polynomials
# dict: monomial (sorted tuple of var ids) -> nonzero int

def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def pconst(c):
    return {(): c} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def cval(p):
    return p.get((), 0)


IN, FLOOR, BOOL, ALIAS, FRESH, ANDV, CANON = 'in', 'floor', 'bool', 'alias', 'fresh', 'and', 'canon'


class Ctx(object):
    def __init__(self):
        self.names = []
        self.lo = []
        self.hi = []
        self.kind = []
        self.defn = []
        self.b01 = []
        self.under = {}          # condition symbol of a joined branch -> conditions that lead to it
        self.memo = {}
        self.zero = {}           # polynomial of a bitwise result -> differences that are all zero iff it is zero
        self.token = {}        # var id -> (token, limb index)
        self.byname = {}

    def var(self, name, lo, hi, kind=IN, defn=None, b01=False):
        i = len(self.names)
        self.names.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        self.kind.append(kind)
        self.defn.append(defn)
        self.b01.append(b01)
        self.byname[name] = i
        return i

    def sym(self, name, n, lo, hi):
        """fresh (or memoised by name) input of n bits"""
        key = ('sym', name)
        if key in self.memo:
            i = self.memo[key]
        else:
            i = self.var(name, lo, hi)
            self.memo[key] = i
        if lo == hi:
            return lo & ((1 << n) - 1)
        return V(n, {(i,): 1}, lo, hi)

    def pmul(self, a, b):
        if not a or not b:
            return {}
        if len(a) == 1 and () in a:
            return pscale(b, a[()])
        if len(b) == 1 and () in b:
            return pscale(a, b[()])
        r = {}
        b01 = self.b01
        for m, c in a.items():
            for m2, c2 in b.items():
                if not m:
                    k = m2
                elif not m2:
                    k = m
                else:
                    k = m + m2
                    if len(k) == 2:
                        if k[0] > k[1]:
                            k = (k[1], k[0])
                        elif k[0] == k[1] and b01[k[0]]:
                            k = (k[0],)
                    else:
                        k = sorted(k)
                        o = []
                        for x in k:
                            if o and o[-1] == x and b01[x]:
                                continue
                            o.append(x)
                        k = tuple(o)
                v = r.get(k, 0) + c * c2
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return r

    def mono_bounds(self, m):
        lo, hi = 1, 1
        i = 0
        n = len(m)
        while i < n:
            x = m[i]
            e = 1
            while i + e < n and m[i + e] == x:
                e += 1
            a, b = self.lo[x], self.hi[x]
            if e > 1:
                c = (a ** e, b ** e)
                if e % 2 == 0:
                    a2, b2 = (0 if a <= 0 <= b else min(c)), max(c)
                else:
                    a2, b2 = c
                a, b = a2, b2
            cs = (lo * a, lo * b, hi * a, hi * b)
            lo, hi = min(cs), max(cs)
            i += e
        return lo, hi

    def bounds(self, p):
        lo = hi = 0
        L, H = self.lo, self.hi
        for m, c in p.items():
            if not m:
                lo += c
                hi += c
                continue
            if len(m) == 1:
                a, b = L[m[0]], H[m[0]]
            else:
                a, b = self.mono_bounds(m)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    # ---------------------------------------------------------- floor(p / m)
    def floor(self, p, lo, hi, m):
        """-> (poly, lo, hi) of floor(p/m), given p in [lo,hi]"""
        if m == 1:
            return p, lo, hi
        qlo, qhi = lo // m, hi // m
        if qlo == qhi:
            return pconst(qlo), qlo, qhi
        f = self._floor(p, m, 0)
        if is_const(f):
            c = cval(f)
            return f, c, c
        if len(f) == 1:
            (mm, c), = f.items()
            if len(mm) == 1 and c == 1:
                x = mm[0]
                if qlo > self.lo[x] or qhi < self.hi[x]:
                    # the caller's interval is a theorem about the same integer
                    qlo = max(qlo, self.lo[x])
                    qhi = min(qhi, self.hi[x])
                    if self.kind[x] == FLOOR:
                        self.lo[x] = qlo
                        self.hi[x] = qhi
        return f, qlo, qhi

    def _floor(self, p, m, depth):
        q = {}
        r = {}
        h = m // 2
        for mm, c in p.items():
            if not mm:
                a, b = divmod(c, m)
            else:
                b = c % m
                if b > h:
                    b -= m
                a = (c - b) // m
            if a:
                q[mm] = a
            if b:
                r[mm] = b
        if is_const(r):
            return q
        if m == 2 and len(r) == 1:
            (mm, c), = r.items()
            if len(mm) == 2 and mm[0] == mm[1] and c == 1:      # a square is 0 or 1 modulo 4
                return padd(q, pscale(self._floor(r, 4, depth + 1), 2))
        # common factor with m
        g = m
        for mm, c in r.items():
            if mm:
                g = _gcd(g, c)
                if g == 1:
                    break
        if g > 1:
            c0 = r.pop((), 0)
            s = {mm: c // g for mm, c in r.items()}
            c0 //= g
            if c0:
                s[()] = c0
            if g == m:
                return padd(q, s)
            return padd(q, self._floor(s, m // g, depth + 1))
        # drop a low part that cannot influence the quotient
        d = self._droplow(r, m)
        if d is not None:
            s, m2 = d
            return padd(q, self._floor(s, m2, depth + 1))
        # nest: floor((u + floor(r2/m2))/m) = floor((m2 u + r2)/(m2 m))
        cand = None
        for mm, c in r.items():
            if len(mm) == 1 and c == 1 and self.kind[mm[0]] == FLOOR:
                if cand is not None:
                    cand = None
                    break
                cand = mm
        if cand is not None and len(r) <= 4000:
            r2, m2 = self.defn[cand[0]]
            u = dict(r)
            del u[cand]
            z = padd(pscale(u, m2), r2)
            return padd(q, self._floor(z, m2 * m, depth + 1))
        lo, hi = self.bounds(r)
        a, b = lo // m, hi // m
        if a == b:
            if a:
                return padd(q, pconst(a))
            return q
        key = ('fl', frozenset(r.items()), m)
        i = self.memo.get(key)
        if i is None:
            i = self.var('f%d' % len(self.names), a, b, FLOOR, (r, m))
            self.memo[key] = i
        return padd(q, {(i,): 1})

    def _droplow(self, r, m):
        if len(r) < 2 or m & 1:
            return None
        items = []
        for mm, c in r.items():
            if mm:
                items.append(((c & -c).bit_length() - 1, mm, c))
        vals = sorted(set(x[0] for x in items))
        if len(vals) < 2:
            return None
        c0 = r.get((), 0)
        lo = hi = 0
        lowset = []
        items.sort(key=lambda x: x[0])
        j = 0
        best = None
        for vi in range(len(vals) - 1):
            while j < len(items) and items[j][0] == vals[vi]:
                _, mm, c = items[j]
                a, b = self.mono_bounds(mm)
                if c > 0:
                    lo += c * a
                    hi += c * b
                else:
                    lo += c * b
                    hi += c * a
                lowset.append(mm)
                j += 1
            g = 1 << vals[vi + 1]
            if m % g:
                break
            cl = c0 % g
            if (lo + cl) // g == (hi + cl) // g:
                best = (g, (lo + cl) // g + c0 // g, set(lowset))
            if hi - lo >= (1 << vals[-1]):
                break
        if best is None:
            return None
        g, k, low = best
        s = {mm: c // g for mm, c in r.items() if mm and mm not in low}
        if k:
            s[()] = k
        return s, m // g

    # ---------------------------------------------------------- booleans
    def alias(self, p):
        """a 0/1 variable equal to the 0/1-valued polynomial p; returns var id, or None"""
        if len(p) == 1:
            (mm, c), = p.items()
            if c == 1 and len(mm) == 1 and self.b01[mm[0]]:
                return mm[0]
        key = ('al', frozenset(p.items()))
        i = self.memo.get(key)
        if i is None:
            i = self.var('b%d' % len(self.names), 0, 1, ALIAS, p, True)
            self.memo[key] = i
        return i

    def plain(self, f):
        return f[0] == 'ind' or f[0] == 'not' and self.plain(f[1]) or f[0] in ('and', 'or') and all(isinstance(g, tuple) and self.plain(g) for g in f[1:])

    def ind(self, f):
        """indicator polynomial of formula f, over 0/1 variables"""
        if f is True:
            return {(): 1}
        if f is False:
            return {}
        k = f[0]
        if k == 'not':
            return padd({(): 1}, self.ind(f[1]), -1)
        p = None
        if k == 'ind':
            p = dict(f[1])
            if len(p) == 2 and p.get(()) == 1:
                q = {mm: -c for mm, c in p.items() if mm}
                (mm, c), = q.items()
                if c == 1 and len(mm) == 1 and self.b01[mm[0]]:
                    return p
        elif k == 'eq':
            q = dict(f[1])
            lo, hi = self.bounds(q)
            if f[2] is not None:
                lo, hi = max(lo, f[2]), min(hi, f[3])
            if lo == 0 and hi == 1:
                p = padd({(): 1}, q, -1)
            elif lo == -1 and hi == 0:
                p = padd({(): 1}, q)
        elif k == 'ge':
            q = dict(f[1])
            lo, hi = self.bounds(q)
            if f[2] is not None:
                lo, hi = max(lo, f[2]), min(hi, f[3])
            if lo == -1 and hi == 0:
                p = padd({(): 1}, q)
        elif k == 'and' and self.plain(f):
            # of 0/1 values: their product
            q = self.pmul(self.ind(f[1]), self.ind(f[2]))
            if len(q) <= 8:
                p = q
        if p is not None:
            if is_const(p):
                return p
            c = self.complement_alias(p)
            if c is not None:
                return padd({(): 1}, {(c,): 1}, -1)
            return {(self.alias(p),): 1}
        key = ('bf', f)
        i = self.memo.get(key)
        if i is None:
            i = self.var('b%d' % len(self.names), 0, 1, BOOL, f, True)
            self.memo[key] = i
        return {(i,): 1}

    def complement_alias(self, p):
        q = padd({(): 1}, p, -1)
        if len(q) == 1:
            (mm, c), = q.items()
            if c == 1 and len(mm) == 1 and self.b01[mm[0]]:
                return mm[0]
        return self.memo.get(('al', frozenset(q.items())))

    def expand(self, p):
        """replace alias variables by their defining polynomials"""
        while True:
            todo = None
            for mm in p:
                for x in mm:
                    if self.kind[x] == ALIAS:
                        todo = x
                        break
                if todo is not None:
                    break
            if todo is None:
                return p
            out = {}
            # substitute all aliases in one pass
            for mm, c in p.items():
                al = [x for x in mm if self.kind[x] == ALIAS]
                if not al:
                    v = out.get(mm, 0) + c
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
                    continue
                t = {tuple(x for x in mm if self.kind[x] != ALIAS): c}
                for x in al:
                    t = self.pmul(t, self.defn[x])
                for m2, c2 in t.items():
                    v = out.get(m2, 0) + c2
                    if v:
                        out[m2] = v
                    else:
                        out.pop(m2, None)
            p = out

    def andvar(self, a, b):
        """bitwise and of two non-negative integers as an uninterpreted, axiomatised variable"""
        ka, kb = frozenset(a.p.items()), frozenset(b.p.items())
        if ka == kb:
            return a
        key = ('andv', frozenset((ka, kb)))
        i = self.memo.get(key)
        hi = min(a.hi, b.hi)
        if i is None:
            i = self.var('and%d' % len(self.names), 0, hi, ANDV, (a.p, b.p))
            self.memo[key] = i
        return V(a.n, {(i,): 1}, 0, hi)


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


class V(object):
    __slots__ = ('n', 'p', 'lo', 'hi', 'ite')

    def __init__(self, n, p, lo, hi, ite=None):
        self.n = n
        self.p = p
        self.lo = lo
        self.hi = hi
        self.ite = ite

    def __repr__(self):
        return 'V%d(%r in [%d,%d])' % (self.n, self.p if len(self.p) < 8 else '..%d..' % len(self.p), self.lo, self.hi)


def sgn(x, n):
    return x - (1 << n) if x >> (n - 1) else x


# ------------------------------------------------------------- formulas
# True/False | ('ge',frozenset(poly),lo,hi) poly>=0 | ('eq',..) poly==0 | ('ind',frozenset(poly)) 0/1 poly is 1
# | ('not',f) | ('and',f,g) | ('or',f,g) | ('xor',f,g)

def fnot(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def fand(f, g):
    if f is True:
        return g
    if g is True:
        return f
    if f is False or g is False:
        return False
    if f == g:
        return f
    if f == fnot(g):
        return False
    return ('and', f, g)


def for_(f, g):
    return fnot(fand(fnot(f), fnot(g)))


def fxor(f, g):
    if f is True:
        return fnot(g)
    if g is True:
        return fnot(f)
    if f is False:
        return g
    if g is False:
        return f
    if f == g:
        return False
    return ('xor', f, g)


class Ops(object):
    """operations on n-bit values"""

    def __init__(self, ctx):
        self.c = ctx
        self.refine = None      # optional callback(V) -> (lo,hi), used before giving up on an interval

    def V(self, n, p, lo, hi, ite=None):
        if is_const(p):
            return cval(p) & ((1 << n) - 1)
        if len(p) <= 6:
            a, b = self.c.bounds(p)
            if a > lo:
                lo = a
            if b < hi:
                hi = b
        if lo == hi:
            return lo & ((1 << n) - 1)
        return V(n, p, lo, hi, ite)

    def lift(self, x, n, signed=True):
        if isinstance(x, V):
            return x
        if signed:
            x = sgn(x, n)
        return V(n, pconst(x), x, x)

    def tight(self, v):
        a, b = self.c.bounds(v.p)
        if a > v.lo:
            v.lo = a
        if b < v.hi:
            v.hi = b
        return v

    def range(self, v, lo0, n):
        """representative of v's bit pattern in [lo0, lo0+2^n)"""
        top = lo0 + (1 << n)
        if v.lo >= lo0 and v.hi < top:
            return v
        self.tight(v)
        if v.lo >= lo0 and v.hi < top:
            return v
        m = 1 << n
        q, ql, qh = self.c.floor(padd(v.p, pconst(-lo0)), v.lo - lo0, v.hi - lo0, m)
        p = padd(v.p, pscale(q, m), -1)
        if ql == qh:
            lo, hi = v.lo - m * ql, v.hi - m * ql
        else:
            lo, hi = lo0, top - 1
        r = self.V(n, p, lo, hi)
        if isinstance(r, V):
            if v.ite is not None:
                b, a1, a0 = v.ite
                r.ite = (b, self._rng(a1, lo0, n), self._rng(a0, lo0, n))
            return r
        return self.lift(r, n, lo0 < 0)

    def _rng(self, a, lo0, n):
        if isinstance(a, V):
            return self.range(a, lo0, n)
        return a

    def signed(self, x, n):
        if not isinstance(x, V):
            return self.lift(x, n, True)
        return self.range(x, -(1 << (n - 1)), n)

    def unsigned(self, x, n):
        if not isinstance(x, V):
            return self.lift(x, n, False)
        return self.range(x, 0, n)

    def add(self, a, b, n):
        if not isinstance(a, V) and not isinstance(b, V):
            return (a + b) & ((1 << n) - 1)
        a, b = self.lift(a, n), self.lift(b, n)
        return self.V(n, padd(a.p, b.p), a.lo + b.lo, a.hi + b.hi)

    def sub(self, a, b, n):
        if not isinstance(a, V) and not isinstance(b, V):
            return (a - b) & ((1 << n) - 1)
        a, b = self.lift(a, n), self.lift(b, n)
        return self.V(n, padd(a.p, b.p, -1), a.lo - b.hi, a.hi - b.lo)

    def mul(self, a, b, n):
        if not isinstance(a, V) and not isinstance(b, V):
            return (a * b) & ((1 << n) - 1)
        a, b = self.lift(a, n), self.lift(b, n)
        cs = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo, hi = min(cs), max(cs)
        if a.p == b.p and a.lo == b.lo:
            if a.lo <= 0 <= a.hi:
                lo = 0
        return self.V(n, self.c.pmul(a.p, b.p), lo, hi)

    def shl(self, a, k, n):
        if not isinstance(a, V):
            return (a << k) & ((1 << n) - 1)
        r = self.V(n, pscale(a.p, 1 << k), a.lo << k, a.hi << k)
        if a.ite is not None and isinstance(r, V):
            b, x, y = a.ite
            r.ite = (b, self.shl(x, k, n), self.shl(y, k, n))
        return r

    def shift_arms(self, f, a, k, n):
        """shift of a choice between two values that leaves only constants"""
        if a.ite is None:
            return None
        b, x, y = a.ite
        x, y = f(x, k, n), f(y, k, n)
        return None if isinstance(x, V) or isinstance(y, V) else self.mk_ite(b, x, y, n)

    def below(self, a, k, n):
        """the borrow of x - 1 for a bitwise result x"""
        if self.c.zero and a.lo == -1 and a.hi < 1 << k:
            f = self.iszero(padd(a.p, pconst(1)))
            if f is not None:
                return self.mul(self.b2v(f, n), (1 << (n - k)) - 1, n)
        return None

    def ashr(self, a, k, n):
        if not isinstance(a, V):
            return (sgn(a, n) >> k) & ((1 << n) - 1)
        t = self.shift_arms(self.ashr, a, k, n)
        if t is not None:
            return t
        s = self.signed(a, n)
        p, lo, hi = self.c.floor(s.p, s.lo, s.hi, 1 << k)
        return self.V(n, p, lo, hi)

    def lshr(self, a, k, n):
        if not isinstance(a, V):
            return a >> k
        t = self.below(a, k, n)
        if t is not None:
            return t
        t = self.shift_arms(self.lshr, a, k, n)
        if t is not None:
            return t
        s = self.unsigned(a, n)
        p, lo, hi = self.c.floor(s.p, s.lo, s.hi, 1 << k)
        return self.V(n, p, lo, hi)

    def udiv(self, a, m, n):
        s = self.unsigned(a, n)
        p, lo, hi = self.c.floor(s.p, s.lo, s.hi, m)
        return self.V(n, p, lo, hi)

    def urem(self, a, m, n):
        s = self.unsigned(a, n)
        p, lo, hi = self.c.floor(s.p, s.lo, s.hi, m)
        if lo == hi:
            return self.V(n, padd(s.p, pconst(lo * m), -1), s.lo - lo * m, s.hi - lo * m)
        return self.V(n, padd(s.p, pscale(p, m), -1), 0, m - 1)

    def zext(self, a, n, m):
        if not isinstance(a, V):
            return a
        u = self.unsigned(a, n)
        r = self.V(m, u.p, u.lo, u.hi)
        if u.ite is not None and isinstance(r, V):
            b, x, y = u.ite
            r.ite = (b, self.zext(x, n, m), self.zext(y, n, m))
        return r

    def sext(self, a, n, m):
        if not isinstance(a, V):
            return sgn(a, n) & ((1 << m) - 1)
        u = self.signed(a, n)
        r = self.V(m, u.p, u.lo, u.hi)
        if u.ite is not None and isinstance(r, V):
            b, x, y = u.ite
            r.ite = (b, self.sext(x, n, m), self.sext(y, n, m))
        return r

    def trunc(self, a, m):
        if not isinstance(a, V):
            return a & ((1 << m) - 1)
        r = self.V(m, a.p, a.lo, a.hi)
        if a.ite is not None and isinstance(r, V):
            b, x, y = a.ite
            r.ite = (b, self.trunc(x, m), self.trunc(y, m))
        return r

    # -------- bitwise
    def mk_ite(self, b, v1, v0, n):
        if not isinstance(v1, V) and not isinstance(v0, V) and v1 == v0:
            return v1
        if isinstance(v1, V) and isinstance(v0, V) and v1.p == v0.p:
            return v1
        a1, a0 = self.lift(v1, n), self.lift(v0, n)
        p = padd(a0.p, self.c.pmul({(b,): 1}, padd(a1.p, a0.p, -1)))
        return V(n, p, min(a1.lo, a0.lo), max(a1.hi, a0.hi), (b, v1, v0))

    def arms(self, v, b, n):
        """(value if b, value if not b)"""
        if not isinstance(v, V):
            return v, v
        if v.ite is not None and v.ite[0] == b:
            return v.ite[1], v.ite[2]
        if not any(b in mm for mm in v.p):
            return v, v
        out = []
        for bit in (1, 0):
            p = {}
            for mm, c in v.p.items():
                if b in mm:
                    if not bit:
                        continue
                    mm = tuple(x for x in mm if x != b)
                t = p.get(mm, 0) + c
                if t:
                    p[mm] = t
                else:
                    p.pop(mm, None)
            lo, hi = self.c.bounds(p)
            out.append(self.V(n, p, lo, hi))
        return out[0], out[1]

    def bvar(self, v):
        """the single 0/1 variable v depends on, or its ite condition"""
        if not isinstance(v, V):
            return None
        if v.ite is not None:
            return v.ite[0]
        ms = [mm for mm in v.p if mm]
        if len(ms) == 1 and len(ms[0]) == 1 and self.c.b01[ms[0][0]]:
            return ms[0][0]
        return None

    def and_(self, a, b, n):
        if not isinstance(a, V) and not isinstance(b, V):
            return a & b
        if not isinstance(a, V):
            a, b = b, a
        if not isinstance(b, V):
            return self.and_mask(a, b, n)
        if a.p == b.p and a.n == b.n:
            return a
        for t in (b, a):
            x = self.bvar(t)
            if x is not None:
                a1, a0 = self.arms(a, x, n)
                b1, b0 = self.arms(b, x, n)
                return self.mk_ite(x, self.and_(a1, b1, n), self.and_(a0, b0, n), n)
        for t, u in ((a, b), (b, a)):
            if t.lo >= -1 and t.hi <= 0:
                return self.V(n, pscale(self.c.pmul(t.p, u.p), -1), min(u.lo, 0), max(u.hi, 0))
        ua, ub = self.unsigned(a, n), self.unsigned(b, n)
        return self.c.andvar(ua, ub)

    def and_mask(self, a, mask, n):
        full = (1 << n) - 1
        mask &= full
        if mask == 0:
            return 0
        if mask == full:
            return a
        if not isinstance(a, V):
            return a & mask
        x = self.bvar(a)
        if x is not None:
            a1, a0 = self.arms(a, x, n)
            return self.mk_ite(x, self.and_mask(a1, mask, n), self.and_mask(a0, mask, n), n)
        if a.lo >= -1 and a.hi <= 1:
            self.tight(a)
            m = sgn(mask, n)
            if a.hi <= 0:           # all ones or zero
                return self.V(n, pscale(a.p, -m), min(m, 0), max(m, 0))
            if a.lo >= 0:
                return a if mask & 1 else 0
        runs = []
        i = 0
        while i < n:
            if mask >> i & 1:
                j = i
                while j < n and mask >> j & 1:
                    j += 1
                runs.append((i, j))
                i = j
            else:
                i += 1
        if len(runs) > 8:
            ua = self.unsigned(a, n)
            return self.c.andvar(ua, self.lift(mask, n, False))
        p, lo, hi = {}, 0, 0
        for (s, e) in runs:
            if e == n:
                v = self.signed(a, n)
                q, l, h = self.c.floor(v.p, v.lo, v.hi, 1 << s)
                p = padd(p, pscale(q, 1 << s))
                lo += l << s
                hi += h << s
            else:
                ql, ll, lh = self.c.floor(a.p, a.lo, a.hi, 1 << s)
                qh, hl, hh = self.c.floor(a.p, a.lo, a.hi, 1 << e)
                p = padd(p, padd(pscale(ql, 1 << s), pscale(qh, 1 << e), -1))
                if hl == hh:
                    lo += (ll << s) - (hl << e)
                    hi += (lh << s) - (hl << e)
                else:
                    hi += (1 << e) - (1 << s)
        return self.V(n, p, lo, hi)

    def tz(self, v, n):
        if not isinstance(v, V):
            return n if v == 0 else (v & -v).bit_length() - 1
        k = n
        for mm, c in v.p.items():
            k = min(k, (c & -c).bit_length() - 1)
        return k

    def or_(self, a, b, n):
        if not isinstance(a, V) and not isinstance(b, V):
            return a | b
        if not isinstance(a, V) and a == 0:
            return b
        if not isinstance(b, V) and b == 0:
            return a
        if isinstance(a, V) and isinstance(b, V) and a.p == b.p:
            return a
        if isinstance(a, V) and isinstance(b, V) and (a.ite is None) + (b.ite is None) < 2 and not (a.ite and b.ite and a.ite[0] == b.ite[0]) and self.exclusive(a, b):
            return self.V(n, padd(a.p, b.p), min(a.lo, b.lo), max(a.hi, b.hi))
        # same or opposite 0/1 guard
        for t, o in ((a, b), (b, a)):
            if isinstance(t, V) and t.ite is not None:
                x = t.ite[0]
                a1, a0 = self.arms(a, x, n)
                b1, b0 = self.arms(b, x, n)
                return self.mk_ite(x, self.or_(a1, b1, n), self.or_(a0, b0, n), n)
        for x, y in ((a, b), (b, a)):
            k = self.tz(y, n)
            if k:
                if isinstance(x, V):
                    if x.lo >= 0 and x.hi < (1 << k):
                        return self.add(x, y, n)
                elif x < (1 << k):
                    return self.add(x, y, n)
        # disjoint as polynomials in one boolean
        for t in (a, b):
            x = self.bvar(t)
            if x is not None:
                a1, a0 = self.arms(a, x, n)
                b1, b0 = self.arms(b, x, n)
                return self.mk_ite(x, self.or_(a1, b1, n), self.or_(a0, b0, n), n)
        if isinstance(a, V) and isinstance(b, V) and self.exclusive(a, b):
            # never both nonzero
            return self.V(n, padd(a.p, b.p), min(a.lo, b.lo), max(a.hi, b.hi))
        if not isinstance(b, V):
            a, b = b, a
        if not isinstance(a, V):
            # constant a: x|m = (x & ~m) + m
            return self.add(self.and_mask(b, ~a, n), a, n)
        if a.p == pscale(b.p, -1):
            t = a if a.lo >= 0 else b
            if t.lo >= 0 and t.hi < 1 << (n - 1):
                # x | -x is zero for x = 0 and negative otherwise (its other bits are left open)
                z = self.c.ind(self.nonzero(t))
                if is_const(z):
                    if not cval(z):
                        return 0
                else:
                    b01 = [mm[0] for mm in z if len(mm) == 1]
                    if len(b01) == 1 and all(len(mm) <= 1 for mm in z):
                        key = ('lowbit', frozenset(t.p.items()))
                        i = self.c.memo.get(key)
                        if i is None:
                            i = self.c.memo[key] = self.c.var('low%d' % len(self.c.names), 0, t.hi)
                        r = V(n, {(): -1, (i,): -1}, -1 - t.hi, -1)
                        return self.mk_ite(b01[0], r, 0, n) if z[(b01[0],)] == 1 else self.mk_ite(b01[0], 0, r, n)
        ua, ub = self.unsigned(a, n), self.unsigned(b, n)
        w = self.c.andvar(ua, ub)
        s = self.V(n, padd(padd(ua.p, ub.p), w.p, -1), max(ua.lo, ub.lo), (1 << max(ua.hi.bit_length(), ub.hi.bit_length())) - 1)
        if isinstance(s, V):
            self.c.zero[frozenset(s.p.items())] = [z for x, u in ((a, ua), (b, ub)) for z in self.zeros(x if -(1 << n) < x.lo and x.hi < 1 << n else u)]
        return s

    def exclusive(self, a, b):
        """the product of two small polynomials in which 0/1 variables guard every term vanishes"""
        if len(a.p) * len(b.p) > 256 or a.lo > 0 or b.lo > 0 or a.hi < 0 or b.hi < 0:
            return False
        for v in (a, b):
            for mm in v.p:
                if not any(self.c.b01[x] for x in mm):
                    return False
        return not self.c.expand(self.c.pmul(a.p, b.p))

    def zeros(self, v):
        """differences (polynomial, lo, hi), all zero iff the value v is zero"""
        return self.c.zero.get(frozenset(v.p.items())) or [(v.p, v.lo, v.hi)]

    def iszero(self, p):
        """formula for p = 0 if p is the polynomial of a bitwise result, otherwise None"""
        zs = self.c.zero.get(frozenset(p.items()))
        if zs is None:
            return None
        r = True
        for q, lo, hi in zs:
            r = fand(r, self.atom('eq', q, lo, hi))
        return r

    def nonzero(self, v):
        f = self.iszero(v.p)
        return fnot(self.atom('eq', v.p, v.lo, v.hi) if f is None else f)

    def not_(self, a, n):
        """-1 - a"""
        if not isinstance(a, V):
            return ~a & ((1 << n) - 1)
        r = self.V(n, padd(pconst(-1), a.p, -1), -1 - a.hi, -1 - a.lo)
        if a.ite is not None and isinstance(r, V):
            r.ite = (a.ite[0], self.not_(a.ite[1], n), self.not_(a.ite[2], n))
        return r

    def xor(self, a, b, n):
        if not isinstance(a, V) and not isinstance(b, V):
            return a ^ b
        if not isinstance(a, V):
            a, b = b, a
        if not isinstance(b, V):
            if b == 0:
                return a
            if b == (1 << n) - 1:
                return self.not_(a, n)
            w = self.and_mask(a, b, n)
            return self.sub(self.add(a, b, n), self.shl(w, 1, n), n)
        if a.p == b.p:
            return 0
        for t in (a, b):
            x = self.bvar(t)
            if x is not None:
                a1, a0 = self.arms(a, x, n)
                b1, b0 = self.arms(b, x, n)
                return self.mk_ite(x, self.xor(a1, b1, n), self.xor(a0, b0, n), n)
        ua, ub = self.unsigned(a, n), self.unsigned(b, n)
        w = self.c.andvar(ua, ub)
        r = self.V(n, padd(padd(ua.p, ub.p), w.p, -2), 0, (1 << max(ua.hi.bit_length(), ub.hi.bit_length())) - 1)
        if isinstance(r, V):
            x, y = (a, b) if all(-(1 << (n - 1)) <= t.lo and t.hi < 1 << (n - 1) for t in (a, b)) else (ua, ub)
            self.c.zero[frozenset(r.p.items())] = [(padd(x.p, y.p, -1), x.lo - y.hi, x.hi - y.lo)]
        return r

    # -------- comparisons -> formula
    def atom(self, kind, p, lo, hi):
        if is_const(p):
            c = cval(p)
            return c >= 0 if kind == 'ge' else c == 0
        a, b = self.c.bounds(p)
        lo, hi = max(lo, a), min(hi, b)
        if kind == 'ge':
            if lo >= 0:
                return True
            if hi < 0:
                return False
            if lo == -1 and self.c.zero:
                z = self.iszero(padd(p, pconst(1)))
                if z is not None:
                    return fnot(z)
        else:
            if lo > 0 or hi < 0:
                return False
            if lo == hi:
                return True
            # gcd test
            g = 0
            for mm, c in p.items():
                if mm:
                    g = _gcd(g, c)
            if g > 1 and p.get((), 0) % g:
                return False
        return (kind, frozenset(p.items()), lo, hi)

    def icmp(self, pred, a, b, n):
        if not isinstance(a, V) and not isinstance(b, V):
            if pred[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred if len(pred) == 2 and pred[0] in 'en' and pred in ('eq', 'ne') else pred[1:]]
        if pred in ('eq', 'ne'):
            half = 1 << (n - 1)
            va, vb = self.lift(a, n), self.lift(b, n)
            if not (va.lo >= -half and va.hi < half and vb.lo >= -half and vb.hi < half):
                va, vb = self.unsigned(a, n), self.unsigned(b, n)
            d = padd(va.p, vb.p, -1)
            r = self.c.zero and self.iszero(d) or self.extreme(d) or self.atom('eq', d, va.lo - vb.hi, va.hi - vb.lo)
            return r if pred == 'eq' else fnot(r)
        f = self.signed if pred[0] == 's' else self.unsigned
        va, vb = f(a, n), f(b, n)
        k = pred[1:]
        if k in ('gt', 'le'):
            # a>b <=> a-b-1>=0 ; a<=b <=> not
            r = self.atom('ge', padd(padd(va.p, vb.p, -1), pconst(-1)), va.lo - vb.hi - 1, va.hi - vb.lo - 1)
            return r if k == 'gt' else fnot(r)
        r = self.atom('ge', padd(va.p, vb.p, -1), va.lo - vb.hi, va.hi - vb.lo)
        return r if k == 'ge' else fnot(r)

    def extreme(self, d):
        """d = 0 for a sum of 0/1 variables that is 0 only at one end of its range: each term on its own"""
        if not 3 <= len(d) <= 24 or () not in d:
            return None
        lo = hi = d[()]
        for mm, c in d.items():
            if mm:
                if len(mm) != 1 or not self.c.b01[mm[0]]:
                    return None
                lo, hi = lo + min(c, 0), hi + max(c, 0)
        if lo != 0 and hi != 0:
            return None
        r = True
        for mm, c in d.items():
            if mm:
                one = (c > 0) == (hi == 0)
                r = fand(r, self.atom('eq', padd({mm: 1}, pconst(-1)), -1, 0) if one else self.atom('eq', {mm: 1}, 0, 1))
        return r

    def b2v(self, f, n):
        """zext of a boolean"""
        if f is True:
            return 1
        if f is False:
            return 0
        p = self.c.ind(f)
        return self.V(n, p, 0, 1)

    def v2b(self, v):
        """trunc to i1"""
        if not isinstance(v, V):
            return bool(v & 1)
        if v.lo >= 0 and v.hi <= 1:
            return ('ind', frozenset(v.p.items()))
        r = self.and_mask(v, 1, v.n)
        if not isinstance(r, V):
            return bool(r & 1)
        return ('ind', frozenset(r.p.items()))
