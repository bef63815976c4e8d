"""Symbolic executor for decoded LLVM IR (see ll.py) over the values of sym.py.

One run follows one path.  A conditional branch whose condition is not decided by the value
domain is put to the solver (path.decide); when both sides are feasible the run takes the
side prescribed by its decision prefix and the driver (explore) schedules the other side.
"""
import re, time
import ll
from sym import *


class Panic(Exception):
    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class Infeasible(Exception):
    pass


class NoMerge(Exception):
    """the two sides of a branch cannot be joined into one state"""


class JoinLost(Unsupported):
    """a joined state turned out to be too coarse: repeat without joining"""


class Obj(object):
    __slots__ = ('size', 'cells', 'name', 'const', 'init')

    def __init__(self, size, name, const=False):
        self.size = size
        self.cells = {}      # offset -> (size, value)
        self.name = name
        self.const = const


class Ptr(object):
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return '&%s+%d' % (self.obj.name, self.off)


class FnPtr(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Undef(object):
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Lost(object):
    """memory contents that two joined paths left different in a way that cannot be expressed"""
    def __repr__(self):
        return 'lost'


LOST = Lost()
NULLOBJ = Obj(0, 'null')


class Path(object):
    """decisions of one run"""

    def __init__(self, prefix, decider):
        self.prefix = list(prefix)
        self.taken = []
        self.conds = []
        self.decider = decider
        self.branches = []

    def choose(self, f, where, merge=None):
        """f: undecided formula; returns bool and records the path condition.  With merge, a
        branch with two feasible sides is first offered to merge(); what that returns is
        returned when it could join the sides."""
        i = len(self.taken)
        if self.merging:
            ft, ff = self.decider(self.conds, f)
            if ft != ff:
                return ft
            if not ft:
                raise NoMerge()
            self.branches.append((where, True))
            if self.twosided:
                self.twosided(f, where, list(self.conds))
            if merge is None:
                raise NoMerge()
            return merge()
        if i < len(self.prefix):
            r = self.prefix[i]
            if r == 'M':
                self.taken.append(r)
                self.forced.append(True)
                return merge()
        else:
            ft, ff = self.decider(self.conds, f)
            if not ft and not ff:
                raise Infeasible()
            if merge is not None and ft and ff:
                try:
                    nb = len(self.branches)
                    self.branches.append((where, True))
                    if self.twosided:
                        self.twosided(f, where, list(self.conds))
                    res = merge()
                    self.taken.append('M')
                    self.forced.append(True)
                    return res
                except NoMerge:
                    del self.branches[nb:]
            r = True if ft else False
            self.branches.append((where, ft and ff))
            if not (ft and ff):
                # forced: remember as a decision that has no alternative
                self.taken.append(r)
                self.conds.append(f if r else fnot(f))
                self.forced.append(True)
                return r
            if self.twosided:
                self.twosided(f, where, list(self.conds))
        self.taken.append(r)
        self.forced.append(False) if i >= len(self.prefix) else self.forced.append(True)
        self.conds.append(f if r else fnot(f))
        return r

    forced = None
    merging = 0
    twosided = None      # called with (formula, place, conditions) when both sides are feasible


HEAP = re.compile(r'___rust_(alloc_zeroed|alloc|realloc|dealloc|no_alloc_shim_is_unstable\w*)$')


class Executor(object):
    def __init__(self, prog, ctx, hooks=None, maxsteps=60000000):
        self.prog = prog
        self.ctx = ctx
        self.ops = Ops(ctx)
        self.hooks = hooks or {}       # mangled name -> callable(ex, args) -> return value
        self.hookfn = None             # callable(pretty) -> hook or None
        self.hookcache = {}
        self.globs = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.path = None
        self.called = {}               # pretty name -> count
        self.symaddr = []
        self.onbranch = None
        self.depth = 0
        self.deadline = None
        self.journals = []             # per open merge: obj -> cells before its first write
        self.nomerge = set()
        self.joining = True
        self.merges = 0

    # ------------------------------------------------------------ memory
    def alloc(self, size, name, const=False):
        return Ptr(Obj(size, name, const), 0)

    def glob(self, mod, name):
        key = (id(mod), name)
        p = self.globs.get(key)
        if p is not None:
            return p
        m = mod
        if name not in m.globtext:
            m = None
            for mm in self.prog.mods:
                if name in mm.globtext and ' external ' not in ' ' + mm.globtext[name].split(' constant ')[0]:
                    m = mm
            if m is None:
                if name in self.prog.funcs or name in self.prog.declared:
                    return FnPtr(name)
                raise Unsupported("global " + name)
        if ' external ' in (' ' + m.globtext[name])[:60]:
            for mm in self.prog.mods:
                if name in mm.globtext and ' external ' not in (' ' + mm.globtext[name])[:60]:
                    m = mm
        ty, v = m.global_init(name)
        p = self.alloc(ll.size_of(ty), '@' + name, True)
        self.globs[key] = p
        self.init_store(p.obj, 0, ty, v, m)
        return p

    def init_store(self, obj, off, ty, v, mod):
        k = v[0]
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                obj.cells[off + i] = (1, b)
        elif k == 'zero':
            for i in range(ll.size_of(ty)):
                obj.cells[off + i] = (1, 0)
        elif k == 'undef':
            pass
        elif k == 'agg':
            for i, (et, ev) in enumerate(v[2]):
                o, ft = ll.field_off(ty, i)
                self.init_store(obj, off + o, et, ev, mod)
        else:
            obj.cells[off] = (ll.size_of(ty), self.operand(v, None, mod))

    def load(self, p, size, bits, isptr=False):
        if not isinstance(p, Ptr):
            raise Unsupported("load from %r" % (p,))
        obj, off = p.obj, p.off
        if not isinstance(off, int):
            t = self.table(p, size, bits)
            if t is not None:
                return t
            off = self.concretize_off(p)
        if off < 0 or off + size > obj.size:
            raise Panic("memory access out of bounds: %s+%d size %d of %d" % (obj.name, off, size, obj.size))
        c = obj.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if v is LOST:
                raise JoinLost("memory that differs between joined paths")
            if isinstance(v, bool) or isinstance(v, tuple):
                if bits == 8:
                    return self.ops.b2v(v, 8)
            return v
        return self.load_pieces(obj, off, size, bits)

    def table(self, p, size, bits):
        """read of a table of concrete entries at a symbolic index: a sum over index indicators"""
        v = self.ops.tight(p.off)
        if v.lo < 0 or v.hi + size > p.obj.size or v.hi - v.lo > 2048:
            return None
        ent = []
        idx = []
        for k in range(v.lo, v.hi + 1):
            f = self.ops.atom('eq', padd(v.p, pconst(-k)), v.lo - k, v.hi - k)
            if f is False:
                continue
            c = p.obj.cells.get(k)
            if c is not None and c[0] == size:
                c = c[1]
            else:
                bs = [p.obj.cells.get(k + i) for i in range(size)]
                if any(b is None or b[0] != 1 or not isinstance(b[1], int) for b in bs):
                    return None
                c = sum(int(b[1]) << (8 * i) for i, b in enumerate(bs))
            if not isinstance(c, int) or isinstance(c, bool):
                return None
            ent.append((f, sgn(c, bits)))
            idx.append(k)
            if len(ent) > 256:
                return None
        if not ent:
            return None
        self.symaddr.append(v)
        lo, hi = min(e for _, e in ent), max(e for _, e in ent)
        st = idx[1] - idx[0] if len(idx) > 1 else 0
        if st and all(b - a == st for a, b in zip(idx, idx[1:])) and all(c % st == 0 for m, c in v.p.items() if m) and (v.p.get((), 0) - idx[0]) % st == 0:
            # piecewise linear in the index: slope, and the jumps as steps
            i = {m: c // st for m, c in padd(v.p, pconst(-idx[0])).items()}
            ds = [b[1] - a[1] for a, b in zip(ent, ent[1:])]
            a = max(sorted(set(ds)), key=ds.count)
            js = [(k + 1, d - a) for k, d in enumerate(ds) if d != a]
            if len(js) <= len(ds) // 2:
                r = padd(pconst(ent[0][1]), i, a)
                for k, d in js:
                    r = padd(r, pscale(self.ctx.ind(self.ops.atom('ge', padd(i, pconst(-k)), -k, len(ds) - k)), d))
                return self.ops.V(bits, r, lo, hi)
        r = pconst(lo)
        for f, e in ent:
            if e != lo:
                r = padd(r, pscale(self.ctx.ind(f), e - lo))
        return self.ops.V(bits, r, lo, hi)

    def load_pieces(self, obj, off, size, bits):
        # gather from smaller cells, or slice a larger one
        acc = 0
        o = off
        end = off + size
        nundef = 0
        while o < end:
            c = obj.cells.get(o)
            if c is None:
                # look for a covering cell
                c2 = None
                for back in range(1, 17):
                    c2 = obj.cells.get(o - back)
                    if c2 is not None:
                        break
                if c2 is None or c2[0] <= back:
                    # uninitialised byte (padding, absent enum payload): any value
                    if obj.const or size == 1:
                        return UNDEF
                    hole = self.ctx.var('undef%d' % len(self.ctx.names), 0, 255)
                    back, c2 = 0, (1, V(8, {(hole,): 1}, 0, 255))
                    nundef += 1
                    if nundef == size:
                        return UNDEF
                sz, v = c2
                if v is LOST:
                    raise JoinLost("memory that differs between joined paths")
                if isinstance(v, (Ptr, FnPtr, Undef)):
                    raise Unsupported("partial pointer load")
                if isinstance(v, Undef):
                    return UNDEF
                if back:
                    v = self.ops.lshr(v, 8 * back, 8 * sz)
                    sz -= back
                    if isinstance(v, V):
                        v = V(8 * sz, v.p, v.lo, v.hi)
            else:
                sz, v = c
            if v is LOST:
                raise JoinLost("memory that differs between joined paths")
            if isinstance(v, Undef):
                return UNDEF
            if isinstance(v, (bool, tuple)):
                v = self.ops.b2v(v, 8)
            if isinstance(v, (Ptr, FnPtr)):
                raise Unsupported("partial pointer load")
            if o + sz > end:
                nb = 8 * (end - o)
                v = self.ops.trunc(v, nb)
                sz = end - o
            v = self.ops.zext(v, 8 * sz, bits)
            acc = self.ops.add(acc, self.ops.shl(v, 8 * (o - off), bits), bits)
            o += sz
        return acc

    def store(self, p, size, v):
        if not isinstance(p, Ptr):
            raise Unsupported("store to %r" % (p,))
        obj, off = p.obj, p.off
        if not isinstance(off, int):
            off = self.concretize_off(p)
        if obj.const:
            raise Panic("store to constant memory " + obj.name)
        if off < 0 or off + size > obj.size:
            raise Panic("memory access out of bounds: store %s+%d" % (obj.name, off))
        if self.journals:
            self.note(obj)
        cells = obj.cells
        c = cells.get(off)
        if c is None or c[0] != size:
            self.clear(obj, off, size)
        cells[off] = (size, v)

    def note(self, obj):
        for j in self.journals:
            if obj not in j:
                j[obj] = dict(obj.cells)

    def clear(self, obj, off, size):
        cells = obj.cells
        # split cells overlapping the boundary
        for o in range(max(0, off - 15), off + size):
            c = cells.get(o)
            if c is None:
                continue
            sz, v = c
            if o + sz <= off:
                continue
            if o < off or o + sz > off + size:
                if isinstance(v, (Ptr, FnPtr)):
                    raise Unsupported("partial pointer overwrite")
                del cells[o]
                if isinstance(v, Undef):
                    continue
                if v is LOST:
                    for k in range(sz):
                        if o + k < off or o + k >= off + size:
                            cells[o + k] = (1, LOST)
                    continue
                if isinstance(v, (bool, tuple)):
                    v = self.ops.b2v(v, 8)
                for k in range(sz):
                    a = o + k
                    if a < off or a >= off + size:
                        cells[a] = (1, self.ops.trunc(self.ops.lshr(v, 8 * k, 8 * sz), 8))
            else:
                del cells[o]

    def memcpy(self, d, s, n):
        if n == 0:
            return
        if s.off < 0 or s.off + n > s.obj.size or d.off < 0 or d.off + n > d.obj.size:
            raise Panic("memcpy out of bounds")
        src = []
        so = s.obj.cells
        # boundary-splitting reads
        a, b = s.off, s.off + n
        for o in range(max(0, a - 15), b):
            c = so.get(o)
            if c is None:
                continue
            sz, v = c
            if o + sz <= a:
                continue
            if o < a or o + sz > b:
                for k in range(sz):
                    if v is LOST:
                        raise JoinLost("memory that differs between joined paths")
                    if a <= o + k < b:
                        src.append((o + k, 1, self.ops.trunc(self.ops.lshr(v, 8 * k, 8 * sz), 8)))
            else:
                src.append((o, sz, v))
        if d.obj.const:
            raise Panic("memcpy to constant memory")
        if self.journals:
            self.note(d.obj)
        self.clear(d.obj, d.off, n)
        for o, sz, v in src:
            d.obj.cells[o - s.off + d.off] = (sz, v)

    def memset(self, d, byte, n):
        if n == 0:
            return
        if d.off < 0 or d.off + n > d.obj.size:
            raise Panic("memset out of bounds")
        if self.journals:
            self.note(d.obj)
        self.clear(d.obj, d.off, n)
        if isinstance(byte, Undef):
            return
        if not isinstance(byte, V) and n % 8 == 0 and d.off % 8 == 0:
            w = int.from_bytes(bytes([byte]) * 8, 'little')
            for i in range(0, n, 8):
                d.obj.cells[d.off + i] = (8, w)
        else:
            for i in range(n):
                d.obj.cells[d.off + i] = (1, byte)

    def concretize_off(self, p):
        """symbolic offset: split over its feasible values"""
        v = p.off
        self.symaddr.append(v)
        if v.hi - v.lo > 4096:
            raise Unsupported("symbolic address")
        for k in range(v.lo, v.hi + 1):
            f = self.ops.atom('eq', padd(v.p, pconst(-k)), v.lo - k, v.hi - k)
            if self.decide(f, 'address'):
                return k
        raise Infeasible()

    # ------------------------------------------------------------ operands
    def operand(self, v, fr, mod):
        k = v[0]
        if k == 'l':
            return fr[v[1]]
        if k == 'c':
            return v[1]
        if k == 'g':
            if v[1] in self.prog.funcs or v[1] in self.prog.declared:
                return FnPtr(v[1])
            return self.glob(mod, v[1])
        if k == 'null':
            return Ptr(NULLOBJ, 0)
        if k == 'undef':
            t = v[1]
            if t[0] == 'st':
                return [UNDEF] * len(t[1])
            if t[0] == 'arr':
                return [UNDEF] * t[1]
            return UNDEF
        if k == 'zero':
            return self.zero(v[1])
        if k == 'gep':
            return self.gep(v[1], [(t, self.operand(x, fr, mod)) for t, x in v[2]])
        if k == 'inttoptr':
            return Ptr(NULLOBJ, self.operand(v[1], fr, mod))
        if k == 'ptrtoint':
            return self.ptr2int(self.operand(v[1], fr, mod))
        if k == 'agg':
            return [self.operand(x, fr, mod) for _, x in v[2]]
        raise Unsupported("operand %r" % (v,))

    def zero(self, t):
        if t[0] == 'i':
            return 0
        if t[0] == 'ptr':
            return Ptr(NULLOBJ, 0)
        if t[0] == 'st':
            return [self.zero(x) for x in t[1]]
        if t[0] == 'arr':
            return [self.zero(t[2])] * t[1]
        raise Unsupported("zero")

    def ptr2int(self, p):
        if isinstance(p, Ptr):
            if p.obj is NULLOBJ:
                return p.off
            # a fixed, aligned fake address per object
            base = self.ctx.memo.setdefault(('addr', id(p.obj)), (len(self.ctx.memo) + 1) << 20)
            self.ctx.memo[('obj', base >> 20)] = p.obj
            return base + p.off
        raise Unsupported("ptrtoint")

    def int2ptr(self, x):
        if isinstance(x, int):
            o = self.ctx.memo.get(('obj', x >> 20))
            if o is not None and x >> 20:
                return Ptr(o, x & 0xfffff)
            return Ptr(NULLOBJ, x)
        raise Unsupported("inttoptr")

    def gep(self, bt, ops):
        p = ops[0][1]
        if isinstance(p, Undef):
            raise Unsupported("gep on undef")
        if isinstance(p, FnPtr):
            raise Unsupported("gep on function")
        off = p.off
        t = bt
        first = True
        for it, iv in ops[1:]:
            if first:
                sz = ll.size_of(t)
                first = False
            elif t[0] == 'arr':
                sz = ll.size_of(t[2])
                t = t[2]
            else:
                o, t = ll.field_off(t, iv)
                off = self.offadd(off, o)
                continue
            if isinstance(iv, V):
                s = self.ops.signed(iv, it[1])
                if isinstance(s, V):
                    s = V(64, pscale(s.p, sz), s.lo * sz, s.hi * sz)
                off = self.offadd(off, s)
            else:
                off = self.offadd(off, sgn(iv, it[1]) * sz)
        return Ptr(p.obj, off)

    def offadd(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return V(64, padd(a.p, pconst(b)), a.lo + b, a.hi + b)
        p = padd(a.p, b.p)
        if is_const(p):
            return cval(p)
        return V(64, p, a.lo + b.lo, a.hi + b.hi)

    # ------------------------------------------------------------ control
    def decide(self, f, where):
        if f is True or f is False:
            return f
        if isinstance(f, int):
            return bool(f)
        if self.onbranch:
            self.onbranch(f, where)
        return self.path.choose(f, where)

    def call_function(self, name, args):
        f = self.prog.funcs.get(name)
        if f is None:
            return self.external(name, args)
        if f.blocks is None:
            self.prog.decode(f)
        self.called[f.pretty] = self.called.get(f.pretty, 0) + 1
        fr = {}
        for (ty, pn), a in zip(f.params, args):
            fr[pn] = a
        return self.run(f, fr)

    def external(self, name, args):
        if name in self.prog.noreturn:
            raise Panic(self.prog.pretty.get(name, name))
        if name in ('memcmp', 'bcmp') and isinstance(args[2], int):
            return self.compare(self.cp(args[0]), self.cp(args[1]), args[2])
        h = HEAP.search(name)
        if h:
            return self.heap(h.group(1), args)
        raise Unsupported("external function " + self.prog.pretty.get(name, name))

    def heap(self, what, a):
        """the global allocator: never fails, blocks disjoint from everything else"""
        if what in ('alloc', 'alloc_zeroed'):
            if not all(isinstance(x, int) for x in a):
                raise Unsupported("allocation of unknown size")
            if a[0] > 1 << 16:
                raise Unsupported("allocation of %d bytes" % a[0])
            p = self.alloc(a[0], 'heap')
            if what == 'alloc_zeroed':
                self.memset(p, 0, a[0])
            return p
        if what == 'realloc':
            p, old, align, new = a
            q = self.heap('alloc', [new, align])
            self.memcpy(q, p, min(old, new))
            return q
        return None

    def compare(self, a, b, n):
        """memcmp: 0 exactly when the n bytes agree; the sign of a nonzero result is left open"""
        same = True
        o = 0
        while o < n:
            k = 1
            ca, cb = a.obj.cells.get(a.off + o), b.obj.cells.get(b.off + o)
            if ca is not None and cb is not None and ca[0] == cb[0] and o + ca[0] <= n:
                k = ca[0]
            x, y = self.load(Ptr(a.obj, a.off + o), k, 8 * k), self.load(Ptr(b.obj, b.off + o), k, 8 * k)
            same = fand(same, self.icmp('eq', ('i', 8 * k), x, y))
            o += k
        if same is True:
            return 0
        if self.path.twosided and same is not False:
            ft, ff = self.path.decider(self.path.conds, same)
            if ft and ff:       # its running time tells where the first difference is
                self.path.branches.append(('memcmp', True))
                self.path.twosided(same, 'memcmp', list(self.path.conds))
        t = self.ctx.var('cmp%d' % len(self.ctx.names), 0, 1, b01=True)
        sign = self.ops.V(32, {(t,): 2, (): -1}, -1, 1)
        if same is False:
            return sign
        return self.join(self.joinvar(same), same, 0, sign, ('i', 32))

    def as_bool(self, v):
        if isinstance(v, (bool, tuple)):
            return v
        if isinstance(v, V):
            return self.ops.v2b(v)
        if isinstance(v, int):
            return bool(v & 1)
        raise Unsupported("bool %r" % (v,))

    def run(self, f, fr, cur=None, prev=None, stop=None):
        """from block cur (entered from prev) to the return, or to block stop: then the result
        is (stop's predecessor, None), and for a return inside a merge (None, value)"""
        self.depth += 1
        if self.depth > 200:
            raise Unsupported("recursion")
        try:
            return self.run1(f, fr, cur, prev, stop)
        except KeyError as e:
            if self.merges:
                raise JoinLost("a value that differs between joined paths: %s" % e)
            raise
        finally:
            self.depth -= 1

    def branch(self, f, fr, cur, c, a, b, where):
        """two-way branch on formula c: the label to continue at (with its predecessor), or a joined state"""
        if c is True or c is False:
            return a if c else b
        if self.onbranch:
            self.onbranch(c, where)
        m = None
        if self.joining and (f.name, cur) not in self.nomerge:
            m = lambda: self.merge(f, fr, cur, c, a, b)
        r = self.path.choose(c, where, m)
        if r is True or r is False:
            return a if r else b
        return r

    def merge(self, f, fr, cur, c, a, b):
        """run both sides up to the branch's immediate postdominator and join the two states"""
        path = self.path
        j = ll.ipdom(f, cur)
        if j is None or a == b or path.merging > 40 or (f.name, cur) in self.nomerge:
            raise NoMerge()
        self.merges += 1
        path.merging += 1
        nconds = len(path.conds)
        sides = []
        log = {}
        self.journals.append(log)
        try:
            for cond, tgt in ((c, a), (fnot(c), b)):
                path.conds.append(cond)
                fr1 = dict(fr)
                prev, val = self.run(f, fr1, tgt, cur, j)
                del path.conds[nconds:]
                after = {}
                for o, old in log.items():
                    after[o] = o.cells
                    o.cells = dict(old)
                sides.append((prev, val, fr1, after))
            (p1, v1, f1, m1), (p2, v2, f2, m2) = sides
            b1 = self.joinvar(c)
            u = self.ctx.under.setdefault(b1[0], [])
            if len(u) < 3:
                u.append(list(path.conds[:nconds]))
            for o, old in log.items():
                o.cells = self.join_cells(b1, c, m1.get(o, old), m2.get(o, old))
            if j == ll.EXIT:
                out = ('ret', self.join(b1, c, v1, v2, ll.value_types(f)[None]) if v1 is not v2 else v1)
            else:
                phis = {}
                for ins in f.blocks[j]:
                    if ins[0] != 'phi':
                        break
                    x, y = [q[ins[1]] if isinstance(q, dict) else self.operand(ins[3][q], g, f.mod) for q, g in ((p1, f1), (p2, f2))]
                    phis[ins[1]] = self.join(b1, c, x, y, ins[2])
                out = ('join', j, phis)
            types = ll.value_types(f)
            for k in set(f1) | set(f2):
                x, y = f1.get(k, self), f2.get(k, self)
                if x is y:
                    fr[k] = x
                    continue
                try:
                    if x is self or y is self:
                        raise NoMerge()
                    fr[k] = self.join(b1, c, x, y, types.get(k))
                except NoMerge:
                    fr.pop(k, None)      # not usable past the join
            return out
        except (NoMerge, Panic, Infeasible):
            for o, old in log.items():
                o.cells = old
            self.nomerge.add((f.name, cur))
            raise NoMerge()
        finally:
            del path.conds[nconds:]
            path.merging -= 1
            self.journals.pop()

    def joinvar(self, c):
        q = self.ctx.ind(c)
        if len(q) == 1 and () not in q:
            (mm, k), = q.items()
            if k == 1 and len(mm) == 1:
                return mm[0], True
        if len(q) == 2 and q.get(()) == 1:
            mm = [m for m in q if m][0]
            if q[mm] == -1 and len(mm) == 1:
                return mm[0], False
        key = ('bf', ('x', c))
        i = self.ctx.memo.get(key)
        if i is None:
            i = self.ctx.var('b%d' % len(self.ctx.names), 0, 1, BOOL, c, True)
            self.ctx.memo[key] = i
        return i, True

    def join(self, bv, c, x, y, ty):
        if x is y:
            return x
        if isinstance(x, Undef):
            return y
        if isinstance(y, Undef):
            return x
        if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            ts = [None] * len(x)
            if ty is not None:
                ts = ty[1] if ty[0] == 'st' else [ty[2]] * len(x)
            return [self.join(bv, c, p, q, t) for p, q, t in zip(x, y, ts)]
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.obj is y.obj and isinstance(x.off, int) and x.off == y.off:
                return x
            raise NoMerge()
        if isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name:
            return x
        n = None
        if ty is not None:
            if ty[0] != 'i':
                raise NoMerge()
            n = ty[1]
        if isinstance(x, (bool, tuple)) or isinstance(y, (bool, tuple)):
            if n is not None and n != 1:
                x = self.ops.b2v(x, n) if isinstance(x, (bool, tuple)) else x
                y = self.ops.b2v(y, n) if isinstance(y, (bool, tuple)) else y
            elif n == 1 or (isinstance(x, (bool, tuple)) and isinstance(y, (bool, tuple))):
                x, y = self.as_bool(x), self.as_bool(y)
                return for_(fand(c, x), fand(fnot(c), y))
            else:
                raise NoMerge()
        if not isinstance(x, (int, V)) or not isinstance(y, (int, V)):
            raise NoMerge()
        if n is None:
            n = x.n if isinstance(x, V) else y.n if isinstance(y, V) else None
            if n is None:
                if x == y:
                    return x
                raise NoMerge()
        b, pos = bv
        return self.ops.mk_ite(b, x, y, n) if pos else self.ops.mk_ite(b, y, x, n)

    def join_cells(self, bv, c, m1, m2):
        if m1 is m2:
            return m1
        out = {}
        for o in set(m1) | set(m2):
            x, y = m1.get(o), m2.get(o)
            if x is y:
                out[o] = x
            elif x is None or y is None:
                # initialised on one side only: an overlapping cell of another size cannot be joined
                z, other = (x, m2) if x is not None else (y, m1)
                for k in range(o - 15, o + z[0]):
                    w = other.get(k)
                    if w is not None and k + w[0] > o:
                        raise NoMerge()
                out[o] = z
            elif x[0] != y[0]:
                raise NoMerge()
            else:
                u, v = x[1], y[1]
                try:
                    if u is LOST or v is LOST:
                        raise NoMerge()
                    if isinstance(u, (bool, tuple)) and isinstance(v, (bool, tuple)):
                        out[o] = (x[0], self.join(bv, c, u, v, ('i', 1)))
                    elif isinstance(u, (Ptr, FnPtr, Undef)) or isinstance(v, (Ptr, FnPtr, Undef)):
                        out[o] = (x[0], self.join(bv, c, u, v, None))
                    else:
                        out[o] = (x[0], self.join(bv, c, u, v, ('i', 8 * x[0])))
                except NoMerge:
                    if self.joining == 'strict':
                        raise
                    out[o] = (x[0], LOST)
        return out

    def run1(self, f, fr, cur, prev, stop):
        ops = self.ops
        blocks = f.blocks
        mod = f.mod
        if cur is None:
            cur = f.entry
        phis = None
        while True:
            if isinstance(cur, tuple):
                k = cur[0]
                if k == 'ret':
                    return cur[1] if stop is None else (None, cur[1])
                if k == 'join':
                    # both sides of a branch joined at this block, its phis already evaluated
                    _, cur, phis = cur
                    prev = None
                    if cur == stop:
                        return phis, None
                elif k == 'sw':
                    _, ins, idx, x, blk = cur
                    if idx == len(ins[5]):
                        cur, prev = ins[4], blk
                    else:
                        cv, lab = ins[5][idx]
                        cur = self.branch(f, fr, blk, self.icmp('eq', ins[2], x, cv), lab, ('sw', ins, idx + 1, x, blk), (f.pretty, blk))
                        prev = blk
                    if not isinstance(cur, tuple) and cur == stop:
                        return prev, None
                    continue
            elif cur == stop and prev is not None:
                return prev, None
            body = blocks[cur]
            nxt = None
            # phis first, simultaneously
            i = 0
            if phis is not None:
                while body[i][0] == 'phi':
                    i += 1
                fr.update(phis)
                phis = None
            elif body and body[0][0] == 'phi':
                vals = []
                while body[i][0] == 'phi':
                    ins = body[i]
                    vals.append((ins[1], self.operand(ins[3][prev], fr, mod)))
                    i += 1
                for d, v in vals:
                    fr[d] = v
            for ins in body[i:] if i else body:
                self.steps += 1
                k = ins[0]
                if k == 'bin':
                    _, d, op, ty, a, b, flags = ins
                    fr[d] = self.binop(op, ty, self.operand(a, fr, mod), self.operand(b, fr, mod))
                elif k == 'load':
                    _, d, ty, pv = ins
                    p = self.operand(pv, fr, mod)
                    if ty[0] == 'i':
                        n = ty[1]
                        v = self.load(p, (n + 7) // 8, n)
                        if n == 1:
                            v = self.as_bool(v)
                        fr[d] = v
                    elif ty[0] == 'ptr':
                        v = self.load(p, 8, 64, True)
                        if isinstance(v, int):
                            v = self.int2ptr(v)
                        fr[d] = v
                    else:
                        fr[d] = self.load_agg(p, ty)
                elif k == 'store':
                    _, _, ty, v, pv = ins
                    p = self.operand(pv, fr, mod)
                    x = self.operand(v, fr, mod)
                    self.store_ty(p, ty, x)
                elif k == 'gep':
                    _, d, bt, o = ins
                    fr[d] = self.gep(bt, [(t, self.operand(x, fr, mod)) for t, x in o])
                elif k == 'call':
                    _, d, ty, callee, args, cont = ins
                    r = self.call(callee, args, fr, mod, ty)
                    if d is not None:
                        fr[d] = r
                    if cont is not None:
                        nxt = cont
                elif k == 'extract':
                    _, d, v, idx = ins
                    x = self.operand(v, fr, mod)
                    for j in idx:
                        x = x[j]
                    fr[d] = x
                elif k == 'br':
                    _, _, c, a, b = ins
                    cv = self.operand(c, fr, mod)
                    if isinstance(cv, int):
                        nxt = a if cv else b
                    else:
                        if isinstance(cv, V):
                            cv = ops.v2b(cv)
                        nxt = self.branch(f, fr, cur, cv, a, b, (f.pretty, cur))
                elif k == 'jmp':
                    nxt = ins[2]
                elif k == 'ret':
                    rv = None if ins[3] is None else self.operand(ins[3], fr, mod)
                    return rv if stop is None else (None, rv)
                elif k == 'cast':
                    _, d, op, ty, a, t2 = ins
                    fr[d] = self.cast(op, ty, self.operand(a, fr, mod), t2)
                elif k == 'icmp':
                    _, d, pred, ty, a, b = ins
                    fr[d] = self.icmp(pred, ty, self.operand(a, fr, mod), self.operand(b, fr, mod))
                elif k == 'alloca':
                    fr[ins[1]] = Ptr(Obj(ins[2], ins[1]), 0)
                elif k == 'insert':
                    _, d, ty, v, e, idx = ins
                    x = self.operand(v, fr, mod)
                    fr[d] = self.insert(x, idx, self.operand(e, fr, mod))
                elif k == 'select':
                    _, d, ty, c, a, b = ins
                    cv = self.operand(c, fr, mod)
                    if isinstance(cv, V):
                        cv = ops.v2b(cv)
                    fr[d] = self.select(cv, ty, self.operand(a, fr, mod), self.operand(b, fr, mod), (f.pretty, cur))
                elif k == 'mov':
                    fr[ins[1]] = self.operand(ins[2], fr, mod)
                elif k == 'switch':
                    nxt = ('sw', ins, 0, self.operand(ins[3], fr, mod), cur)
                elif k == 'unreachable':
                    raise Panic("unreachable executed in " + f.pretty)
                elif k == 'nop':
                    pass
                else:
                    raise Unsupported("instruction %s in %s" % (ins[2] if len(ins) > 2 else k, f.pretty))
            if self.steps > self.maxsteps:
                raise Unsupported("step limit")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget")
            prev, cur = cur, nxt

    def load_agg(self, p, ty):
        n = len(ty[1]) if ty[0] == 'st' else ty[1]
        out = []
        for i in range(n):
            o, ft = ll.field_off(ty, i)
            q = Ptr(p.obj, p.off + o)
            if ft[0] == 'i':
                out.append(self.load(q, (ft[1] + 7) // 8, ft[1]))
            elif ft[0] == 'ptr':
                out.append(self.load(q, 8, 64, True))
            else:
                out.append(self.load_agg(q, ft))
        return out

    def store_ty(self, p, ty, x):
        if ty[0] == 'i':
            n = ty[1]
            if n == 1 and isinstance(x, (bool, tuple)):
                x = self.ops.b2v(x, 8)
            self.store(p, (n + 7) // 8, x)
        elif ty[0] == 'ptr':
            self.store(p, 8, x)
        else:
            n = len(ty[1]) if ty[0] == 'st' else ty[1]
            for i in range(n):
                o, ft = ll.field_off(ty, i)
                self.store_ty(Ptr(p.obj, p.off + o), ft, x[i])

    def insert(self, x, idx, e):
        x = list(x)
        if len(idx) == 1:
            x[idx[0]] = e
        else:
            x[idx[0]] = self.insert(x[idx[0]], idx[1:], e)
        return x

    def select(self, c, ty, a, b, where):
        if isinstance(c, int):
            return a if c else b
        if ty[0] == 'i':
            n = ty[1]
            if n == 1:
                a, b = self.as_bool(a), self.as_bool(b)
                return for_(fand(c, a), fand(fnot(c), b))
            if not isinstance(a, Undef) and not isinstance(b, Undef):
                q = self.ctx.ind(c)
                if len(q) == 1 and () not in q:
                    (mm, _), = q.items()
                    return self.ops.mk_ite(mm[0], a, b, n)
                if len(q) == 2:
                    mm = [m for m in q if m][0]
                    return self.ops.mk_ite(mm[0], b, a, n)
        return a if self.decide(c, where) else b

    def binop(self, op, ty, a, b):
        n = ty[1] if ty[0] == 'i' else None
        if n is None:
            raise Unsupported("binop type")
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        o = self.ops
        if n == 1:
            a, b = self.as_bool(a), self.as_bool(b)
            if op == 'and' or op == 'mul':
                return fand(a, b)
            if op == 'or':
                return for_(a, b)
            if op in ('xor', 'add', 'sub'):
                return fxor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, (bool, tuple)):
            a = o.b2v(a, n)
        if isinstance(b, (bool, tuple)):
            b = o.b2v(b, n)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            raise Unsupported("pointer arithmetic")
        if op == 'add':
            return o.add(a, b, n)
        if op == 'sub':
            return o.sub(a, b, n)
        if op == 'mul':
            return o.mul(a, b, n)
        if op == 'and':
            return o.and_(a, b, n)
        if op == 'or':
            return o.or_(a, b, n)
        if op == 'xor':
            return o.xor(a, b, n)
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, V):
                b = self.concretize(b, n, 'shift')
            if b >= n:
                return UNDEF
            return getattr(o, op)(a, b, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, V):
                b = self.concretize(b, n, 'divisor')
            if b == 0:
                raise Panic("division by zero")
            if op[0] == 's':
                if not isinstance(a, V):
                    x, y = sgn(a, n), sgn(b, n)
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    return (q if op == 'sdiv' else x - q * y) & ((1 << n) - 1)
                s = o.signed(a, n)
                if s.lo < 0 or b >> (n - 1):
                    # truncating division: split on the sign
                    f = o.icmp('sge', a, 0, n)
                    y = sgn(b, n)
                    neg = not self.decide(f, 'sdiv')
                    m = o.sub(0, a, n) if neg else a
                    q = o.udiv(m, abs(y), n)
                    r = o.sub(m, o.mul(q, abs(y), n), n)
                    if op == 'sdiv':
                        return o.sub(0, q, n) if neg != (y < 0) else q
                    return o.sub(0, r, n) if neg else r
            return o.udiv(a, b, n) if op[1:] == 'div' else o.urem(a, b, n)
        raise Unsupported("binop " + op)

    def concretize(self, v, n, where):
        v = self.ops.unsigned(v, n)
        if v.hi - v.lo > 4096:
            raise Unsupported("symbolic " + where)
        for k in range(v.lo, v.hi + 1):
            if self.decide(self.ops.atom('eq', padd(v.p, pconst(-k)), v.lo - k, v.hi - k), where):
                return k
        raise Infeasible()

    def icmp(self, pred, ty, a, b):
        if ty[0] == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                same = a.obj is b.obj
                if same and isinstance(a.off, int) and isinstance(b.off, int):
                    return self.ops.icmp(pred, a.off & (2**64 - 1), b.off & (2**64 - 1), 64)
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
            raise Unsupported("pointer comparison")
        n = ty[1]
        if n == 1:
            a, b = self.as_bool(a), self.as_bool(b)
            if pred == 'eq':
                return fnot(fxor(a, b))
            if pred == 'ne':
                return fxor(a, b)
            a, b = self.ops.b2v(a, 8), self.ops.b2v(b, 8)
            n = 8
            pred = 'u' + pred[1:]
        if isinstance(a, Undef) or isinstance(b, Undef):
            raise Unsupported("comparison of undef")
        if isinstance(a, (bool, tuple)):
            a = self.ops.b2v(a, n)
        if isinstance(b, (bool, tuple)):
            b = self.ops.b2v(b, n)
        return self.ops.icmp(pred, a, b, n)

    def cast(self, op, ty, a, t2):
        if isinstance(a, Undef):
            return UNDEF
        if op == 'ptrtoint':
            return self.ptr2int(a) & ((1 << t2[1]) - 1)
        if op == 'inttoptr':
            return self.int2ptr(a)
        if op == 'bitcast':
            return a
        n, m = ty[1], t2[1]
        if n == 1:
            a = self.as_bool(a)
            if op == 'zext':
                return self.ops.b2v(a, m)
            if op == 'sext':
                z = self.ops.b2v(a, m)
                return self.ops.sub(0, z, m)
        if isinstance(a, (bool, tuple)):
            a = self.ops.b2v(a, n)
        if op == 'trunc':
            if m == 1:
                return self.ops.v2b(a) if isinstance(a, V) else bool(a & 1)
            return self.ops.trunc(a, m)
        if op == 'zext':
            return self.ops.zext(a, n, m)
        if op == 'sext':
            return self.ops.sext(a, n, m)
        raise Unsupported("cast " + op)

    def call(self, callee, args, fr, mod, ty):
        if callee[0] == 'g':
            name = callee[1]
        else:
            fp = self.operand(callee, fr, mod)
            if not isinstance(fp, FnPtr):
                raise Unsupported("indirect call")
            name = fp.name
        av = [self.operand(x, fr, mod) for _, x in args]
        return self.invoke(name, av)

    def invoke(self, name, av):
        if name.startswith('llvm.'):
            return self.intrinsic(name, av)
        if name not in self.hookcache:
            h = self.hooks.get(name)
            if h is None and self.hookfn is not None:
                h = self.hookfn(name, self.prog.pretty.get(name, name))
            self.hookcache[name] = h
        h = self.hookcache[name]
        if h is not None:
            return h(self, av)
        return self.call_function(name, av)

    def intrinsic(self, name, a):
        o = self.ops
        if '.with.overflow.' in name:
            n = int(name.rsplit('.i', 1)[1])
            op = name[5:9]
            x, y = a
            if isinstance(x, Undef) or isinstance(y, Undef):
                raise Unsupported("undef arithmetic")
            f = {'add': o.add, 'sub': o.sub, 'mul': o.mul}[op[1:]]
            if not isinstance(x, V) and not isinstance(y, V):
                if op[0] == 's':
                    x, y = sgn(x, n), sgn(y, n)
                r = x + y if op[1:] == 'add' else x - y if op[1:] == 'sub' else x * y
                lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op[0] == 's' else (0, (1 << n) - 1)
                return [r & ((1 << n) - 1), not (lo <= r <= hi)]
            g = o.signed if op[0] == 's' else o.unsigned
            x, y = g(x, n), g(y, n)
            r = f(x, y, n)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op[0] == 's' else (0, (1 << n) - 1)
            if not isinstance(r, V):
                # the exact integer is constant
                p = padd(x.p, y.p) if op[1:] == 'add' else padd(x.p, y.p, -1) if op[1:] == 'sub' else self.ctx.pmul(x.p, y.p)
                if is_const(p):
                    e = cval(p)
                    return [r, not (lo <= e <= hi)]
                return [r, False]
            if r.lo >= lo and r.hi <= hi:
                return [r, False]
            o.tight(r)
            if r.lo >= lo and r.hi <= hi:
                return [r, False]
            over = for_(o.atom('ge', padd(r.p, pconst(-hi - 1)), r.lo - hi - 1, r.hi - hi - 1),
                        o.atom('ge', padd(pconst(lo - 1), r.p, -1), lo - 1 - r.hi, lo - 1 - r.lo))
            if over is False:
                r2 = V(n, r.p, max(r.lo, lo), min(r.hi, hi))
                return [r2, False]
            return [r, over]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = a[2]
            if isinstance(n, V):
                n = self.concretize(n, 64, 'memcpy size')
            self.memcpy(self.cp(a[0]), self.cp(a[1]), n)
            return None
        if name.startswith('llvm.memset'):
            n = a[2]
            if isinstance(n, V):
                n = self.concretize(n, 64, 'memset size')
            self.memset(self.cp(a[0]), a[1], n)
            return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or name.startswith('llvm.experimental.noalias'):
            return None
        if name.startswith('llvm.is.constant'):
            return False
        if name.startswith('llvm.expect'):
            return a[0]
        if name.startswith('llvm.ctpop'):
            if isinstance(a[0], int):
                return bin(a[0]).count('1')
        n = int(name.rsplit('.i', 1)[1]) if '.i' in name else 0
        if name.startswith('llvm.abs'):
            f = o.icmp('slt', a[0], 0, n)
            neg = o.sub(0, a[0], n)
            return self.select(f, ('i', n), neg, a[0], 'abs')
        for nm, pred in (('smax', 'sge'), ('smin', 'sle'), ('umax', 'uge'), ('umin', 'ule')):
            if name.startswith('llvm.' + nm):
                return self.select(o.icmp(pred, a[0], a[1], n), ('i', n), a[0], a[1], nm)
        if name.startswith('llvm.bswap') and isinstance(a[0], int):
            return int.from_bytes(a[0].to_bytes(n // 8, 'little'), 'big')
        if name.startswith('llvm.bswap'):
            r = 0
            for i in range(n // 8):
                byte = o.and_mask(o.lshr(a[0], 8 * i, n), 255, n)
                r = o.add(r, o.shl(byte, n - 8 - 8 * i, n), n)
            return r
        if name.startswith('llvm.fsh') and isinstance(a[2], int):
            k = a[2] % n
            l = name.startswith('llvm.fshl')
            if k == 0:
                return a[0] if l else a[1]
            if l:
                return o.or_(o.shl(a[0], k, n), o.lshr(a[1], n - k, n), n)
            return o.or_(o.shl(a[0], n - k, n), o.lshr(a[1], k, n), n)
        if name.startswith('llvm.ctlz') and isinstance(a[0], int):
            return n - a[0].bit_length()
        if name.startswith('llvm.cttz') and isinstance(a[0], int):
            return (a[0] & -a[0]).bit_length() - 1 if a[0] else n
        raise Unsupported("intrinsic " + name)

    def cp(self, p):
        if isinstance(p, Ptr) and isinstance(p.off, V):
            return Ptr(p.obj, self.concretize_off(p))
        return p


def explore(body, decider, maxpaths=4096):
    """body(path) runs one path to the end and returns a result; yields (path, result-or-exception)"""
    work = [[]]
    n = 0
    while work:
        prefix = work.pop()
        path = Path(prefix, decider)
        path.forced = []
        n += 1
        if n > maxpaths:
            raise Unsupported("more than %d paths" % maxpaths)
        try:
            res = body(path)
        except Infeasible:
            continue
        except Panic as e:
            res = e
        # schedule alternatives of unforced decisions beyond the prefix
        for i in range(len(prefix), len(path.taken)):
            if not path.forced[i]:
                work.append(path.taken[:i] + [not path.taken[i]])
        yield path, res
