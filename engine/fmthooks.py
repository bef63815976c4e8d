"""core::fmt as a specification: core::fmt::write, Formatter::write_* and the integer hexadecimal
formatters are outside the crate (library code); they are replaced by their documented meaning,
the characters written are collected symbolically."""
import re
import hooks
from sym import *
from execu import *

WSTR, WCHAR = 'scverif.sink.write_str', 'scverif.sink.write_char'
INT = re.compile(r'^<([ui])(8|16|32|64|128|size) as core::fmt::(LowerHex|UpperHex|Display)>::fmt$')
DEFAULT = 0x20 | 3 << 29


def hexchar(ctx, ops, d, upper):
    """ASCII code polynomial of the hexadecimal digit with value d (V or int)"""
    if not isinstance(d, V):
        return ord('0123456789ABCDEF'[d] if upper else '0123456789abcdef'[d])
    g = ctx.ind(ops.atom('ge', padd(d.p, pconst(-10)), d.lo - 10, d.hi - 10))
    k = 7 if upper else 39
    return V(8, padd(padd(d.p, pconst(48)), pscale(g, k)), 48, (70 if upper else 102))


class FmtHook(object):
    def __init__(self, inner=None):
        self.inner = inner
        self.buf = None        # object holding the number of characters and the characters
        self.digit = {}        # code polynomial of a character -> polynomial of the digit it shows
        self.uses = {}

    LIMIT = 1024

    def put(self, ex, c, d=None):
        n = ex.load(Ptr(self.buf, 0), 8, 64)
        if not isinstance(n, int):
            raise JoinLost("paths print different numbers of characters")
        if n >= self.LIMIT:
            raise Unsupported("output too long")
        if isinstance(c, V) and d is not None:
            self.digit[frozenset(c.p.items())] = d
        ex.store(Ptr(self.buf, 8 + n), 1, c)
        ex.store(Ptr(self.buf, 0), 8, n + 1)

    def chars(self, ex):
        """the characters written: int code or (code V, digit polynomial or None)"""
        n = ex.load(Ptr(self.buf, 0), 8, 64)
        if not isinstance(n, int):
            raise JoinLost("paths print different numbers of characters")
        out = []
        for i in range(n):
            c = ex.load(Ptr(self.buf, 8 + i), 1, 8)
            out.append((c, self.digit.get(frozenset(c.p.items()))) if isinstance(c, V) else c)
        return out

    def __call__(self, name, pretty):
        if pretty == 'core::fmt::write':
            return self.write
        if pretty in ('<str as core::fmt::Display>::fmt', '<core::fmt::Formatter>::pad', '<alloc::string::String as core::fmt::Display>::fmt'):
            return lambda ex, a: self.pad(ex, a, pretty)
        if pretty == '<core::fmt::Formatter>::write_fmt':
            return lambda ex, a: self.write(ex, [ex.load(a[0], 8, 64, True), ex.load(Ptr(a[0].obj, a[0].off + 8), 8, 64, True)] + a[1:])
        if pretty == 'core::str::converts::from_utf8':
            return self.from_utf8
        if pretty == '<alloc::raw_vec::RawVec<u8>>::grow_one':
            return self.grow_one
        if pretty == 'alloc::fmt::format::format_inner':
            return self.to_string
        if name == WSTR:
            return self.sink_str
        if name == WCHAR:
            return self.sink_char
        m = INT.match(pretty)
        if m and m.group(3) != 'Display':
            n = 64 if m.group(2) == 'size' else int(m.group(2))
            return lambda ex, a: self.inthex(ex, a, n, m.group(3) == 'UpperHex')
        if pretty in ('<core::fmt::Formatter>::write_str', '<core::fmt::Formatter as core::fmt::Write>::write_str'):
            return lambda ex, a: self.via(ex, a, 24)
        if pretty in ('<core::fmt::Formatter>::write_char', '<core::fmt::Formatter as core::fmt::Write>::write_char'):
            return lambda ex, a: self.via(ex, a, 32)
        return self.inner(name, pretty) if self.inner else None

    def pad(self, ex, a, pretty):
        """text printed without width or precision is written as it is"""
        if 'String' in pretty:
            t = a[0]
            a = [ex.load(Ptr(t.obj, t.off + 8), 8, 64, True), ex.load(Ptr(t.obj, t.off + 16), 8, 64), a[1]]
        if 'Formatter' in pretty:
            a = [a[1], a[2], a[0]]
        flags = ex.load(Ptr(a[2].obj, a[2].off + 16), 4, 32)
        if flags >> 27 & 3:
            raise Unsupported("padded text")
        return self.via(ex, [a[2], a[0], a[1]], 24)

    def from_utf8(self, ex, a):
        """only for text all of whose characters are ASCII"""
        out, p, n = a
        if not isinstance(n, int):
            raise Unsupported("text of unknown length")
        for i in range(n):
            c = ex.load(Ptr(p.obj, p.off + i), 1, 8)
            if self.wide(ex, c, 8):
                raise Unsupported("wide character")
        for o, v in ((0, 0), (8, p), (16, n)):
            ex.store(Ptr(out.obj, out.off + o), 8, v)

    def wide(self, ex, c, n):
        if isinstance(c, V):
            c = ex.ops.unsigned(c, n)
        if isinstance(c, V):
            return c.hi > 127 and ex.decide(ex.ops.atom('ge', padd(c.p, pconst(-128)), c.lo - 128, c.hi - 128), 'wide character')
        return c > 127

    def grow_one(self, ex, a):
        v = a[0]
        cap = ex.load(v, 8, 64)
        old = ex.load(Ptr(v.obj, v.off + 8), 8, 64, True)
        if not isinstance(cap, int):
            raise Unsupported("vector of unknown capacity")
        new = max(8, 2 * cap)
        p = ex.alloc(new, 'vec')
        if cap:
            ex.memcpy(p, old, cap)
        ex.store(v, 8, new)
        ex.store(Ptr(v.obj, v.off + 8), 8, p)

    def to_string(self, ex, a):
        """format!: the characters go to a new heap block, the result is the String made of it"""
        out, tpl, args = a
        keep = self.buf
        try:
            f = self.fresh(ex)
            self.write(ex, [ex.load(f, 8, 64, True), ex.load(Ptr(f.obj, 8), 8, 64, True), tpl, args])
            chars = [ex.load(Ptr(self.buf, 8 + i), 1, 8) for i in range(ex.load(Ptr(self.buf, 0), 8, 64))]
        finally:
            self.buf = keep
        p = ex.alloc(max(1, len(chars)), 'string')
        for i, c in enumerate(chars):
            ex.store(Ptr(p.obj, i), 1, c)
        for o, v in self.STRING(ex, len(chars), p):
            ex.store(Ptr(out.obj, out.off + o), 8, v)

    @staticmethod
    def STRING(ex, n, p):
        return (0, n), (8, p), (16, n)

    def formatter(self, ex, data, vt, flags=DEFAULT, width=0, prec=0):
        p = ex.alloc(24, 'formatter')
        ex.store(p, 8, data)
        ex.store(Ptr(p.obj, 8), 8, vt)
        ex.store(Ptr(p.obj, 16), 4, flags)
        ex.store(Ptr(p.obj, 20), 2, width)
        ex.store(Ptr(p.obj, 22), 2, prec)
        return p

    def fresh(self, ex):
        """a formatter that writes into the collector"""
        self.buf = Obj(8 + self.LIMIT, 'printed')
        self.buf.cells[0] = (8, 0)
        data = ex.alloc(8, 'sink')
        vt = ex.alloc(48, 'sinkvtable')
        ex.store(Ptr(vt.obj, 24), 8, FnPtr(WSTR))
        ex.store(Ptr(vt.obj, 32), 8, FnPtr(WCHAR))
        return self.formatter(ex, data, vt)

    def sink_str(self, ex, a):
        p, n = a[1], a[2]
        if isinstance(n, V):
            n = ex.concretize(n, 64, 'string length')
        for i in range(n):
            c = ex.load(Ptr(p.obj, p.off + i), 1, 8)
            if isinstance(c, Undef):
                raise Unsupported("undefined character")
            self.put(ex, c)
        return False

    def sink_char(self, ex, a):
        c = a[1]
        if isinstance(c, V):
            c = ex.ops.unsigned(c, 32)
            if isinstance(c, V) and self.wide(ex, c, 32):
                raise Unsupported("wide character")
            self.put(ex, V(8, c.p, max(0, c.lo), min(127, c.hi)) if isinstance(c, V) else c)
        elif c > 127:
            for b in chr(c).encode('utf-8'):
                self.put(ex, b)
        else:
            self.put(ex, c)
        return False

    def via(self, ex, a, slot):
        f = a[0]
        data = ex.load(f, 8, 64, True)
        vt = ex.load(Ptr(f.obj, f.off + 8), 8, 64, True)
        fn = ex.load(Ptr(vt.obj, vt.off + slot), 8, 64, True)
        return ex.invoke(fn.name, [data] + a[1:])

    def emit(self, ex, data, vt, chars):
        """write given characters to the sink behind a formatter"""
        fn = ex.load(Ptr(vt.obj, vt.off + 24), 8, 64, True)
        if fn.name != WSTR:
            # the formatter writes to something else, a String say
            p = ex.alloc(max(1, len(chars)), 'text')
            for i, c in enumerate(chars):
                c, d = c if isinstance(c, tuple) else (c, None)
                if isinstance(c, V) and d is not None:
                    self.digit[frozenset(c.p.items())] = d
                ex.store(Ptr(p.obj, i), 1, c)
            if ex.invoke(fn.name, [data, p, len(chars)]) not in (0, False):
                raise Unsupported("foreign sink")
            return
        for c in chars:
            if isinstance(c, tuple):
                self.put(ex, c[0], c[1])
            else:
                self.put(ex, c)

    def count(self, ex, args, i):
        """a width or precision given as an argument"""
        a = ex.load(Ptr(args.obj, args.off + 16 * i), 8, 64)
        w = ex.load(Ptr(args.obj, args.off + 16 * i + 8), 2, 16)
        if (a if isinstance(a, int) else isinstance(a, Ptr) and a.obj is NULLOBJ and a.off) != 0 or not isinstance(w, int):
            raise Unsupported("dynamic width")
        return w

    def lit(self, ex, data, vt, p, off, n):
        self.emit(ex, data, vt, [ex.load(Ptr(p.obj, p.off + off + i), 1, 8) for i in range(n)])

    def write(self, ex, a):
        data, vt, tpl, args = a
        self.uses['write'] = self.uses.get('write', 0) + 1
        if args.obj is NULLOBJ and isinstance(args.off, int) and args.off & 1:
            self.lit(ex, data, vt, tpl, 0, args.off >> 1)
            return False

        def rd(off, n):
            v = 0
            for i in range(n):
                v |= ex.load(Ptr(tpl.obj, tpl.off + off + i), 1, 8) << (8 * i)
            return v

        def arg(i):
            x = ex.load(Ptr(args.obj, args.off + 16 * i), 8, 64, True)
            y = ex.load(Ptr(args.obj, args.off + 16 * i + 8), 8, 64, True)
            return (y, x) if isinstance(x, FnPtr) else (x, y)
        o = 0
        idx = 0
        while True:
            n = rd(o, 1)
            o += 1
            if n == 0:
                return False
            if n < 0x80:
                self.lit(ex, data, vt, tpl, o, n)
                o += n
                continue
            if n == 0x80:
                k = rd(o, 2)
                self.lit(ex, data, vt, tpl, o + 2, k)
                o += 2 + k
                continue
            if n < 0xc0:
                raise Unsupported("format template")
            flags, width, prec = DEFAULT, 0, 0
            if n & 1:
                flags = rd(o, 4)
                o += 4
            if n & 2:
                width = rd(o, 2)
                o += 2
            if n & 4:
                prec = rd(o, 2)
                o += 2
            if n & 8:
                idx = rd(o, 2)
                o += 2
            if n & 16:
                width = self.count(ex, args, width)
            if n & 32:
                prec = self.count(ex, args, prec)
            v, fn = arg(idx)
            idx += 1
            if not isinstance(fn, FnPtr):
                raise Unsupported("format argument")
            r = ex.invoke(fn.name, [v, self.formatter(ex, data, vt, flags, width, prec)])
            if isinstance(r, (V, tuple)):
                raise Unsupported("symbolic formatting result")
            if r:
                return True

    def inthex(self, ex, a, n, upper):
        v = ex.load(a[0], n // 8, n)
        f = a[1]
        if isinstance(v, Undef):
            raise Unsupported("undefined value formatted")
        data = ex.load(f, 8, 64, True)
        vt = ex.load(Ptr(f.obj, f.off + 8), 8, 64, True)
        flags = ex.load(Ptr(f.obj, f.off + 16), 4, 32)
        width = ex.load(Ptr(f.obj, f.off + 20), 2, 16) if flags >> 27 & 1 else 0
        self.uses['hex'] = self.uses.get('hex', 0) + 1
        ops, ctx = ex.ops, ex.ctx
        v = ops.unsigned(v, n) if isinstance(v, V) else v
        N = n // 4
        prefix = [ord('0'), ord('x')] if flags >> 23 & 1 else []
        zero = flags >> 24 & 1
        if flags >> 21 & 1:
            prefix = [ord('+')] + prefix
        digs = []
        for i in reversed(range(N)):
            if isinstance(v, V):
                lo = ops.unsigned(v, n)
                q, ql, qh = ctx.floor(lo.p, lo.lo, lo.hi, 1 << (4 * i))
                q2, _, _ = ctx.floor(lo.p, lo.lo, lo.hi, 1 << (4 * i + 4))
                d = padd(q, pscale(q2, 16), -1)
                x = ops.V(8, d, 0, 15)
                digs.append((hexchar(ctx, ops, x, upper), d) if isinstance(x, V) else hexchar(ctx, ops, x, upper))
            else:
                digs.append(hexchar(ctx, ops, v >> (4 * i) & 15, upper))
        fixed = zero and width >= N + len(prefix)
        if not fixed:
            # number of significant digits
            k = N
            while k > 1:
                if isinstance(v, V):
                    c = ops.atom('ge', padd(v.p, pconst(-(1 << (4 * k - 4)))), v.lo - (1 << (4 * k - 4)), v.hi - (1 << (4 * k - 4)))
                    if ex.decide(c, 'number of hexadecimal digits'):
                        break
                elif v >> (4 * k - 4):
                    break
                k -= 1
            digs = digs[N - k:]
        pad = max(0, width - len(prefix) - len(digs))
        if zero:
            out = prefix + [ord('0')] * pad + digs
        else:
            al = flags >> 29 & 3
            left = 0 if al == 0 else pad if al in (1, 3) else pad // 2
            fill = chr(flags & 0x1fffff).encode('utf-8')
            out = list(fill) * left + prefix + digs + list(fill) * (pad - left)
        self.emit(ex, data, vt, out)
        return False
