"""Parser for the textual LLVM IR that rustc emits (only what the executor needs).

Functions are indexed by a text scan and decoded lazily, the first time they are
executed, into tuples.  A module keeps its own private globals; functions are looked up
across all modules of the build.
"""
import re

TOK = re.compile(r'''
   (?P<ws>[\s]+)
 | (?P<cstr>c"[^"]*")
 | (?P<loc>%"[^"]*"|%[-a-zA-Z0-9$._]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z0-9$._]+)
 | (?P<meta>![-a-zA-Z0-9$._]*)
 | (?P<attr>\#\d+)
 | (?P<str>"[^"]*")
 | (?P<num>-?\d+(?![\w.]))
 | (?P<fl>-?\d+\.\d+[-+e\d]*|0x[0-9A-Fa-f]+)
 | (?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 | (?P<p>\.\.\.|[{}\[\]<>(),=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i] == ';':
                break
            raise ParseError("cannot tokenize: " + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


# ---- types: ('i',n) ('ptr',) ('arr',n,t) ('st',[t],packed) ('void',) ('label',) ('named',n)

class Toks(object):
    def __init__(self, s, mod):
        self.t = tokenize(s)
        self.i = 0
        self.mod = mod

    def peek(self, d=0):
        j = self.i + d
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, d=0):
        j = self.i + d
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise ParseError("expected %s got %s in %r" % (x, self.peek(), ' '.join(a[1] for a in self.t)))
        self.i += 1

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = ('ptr',)
        elif t == 'void':
            r = ('void',)
        elif t == 'label':
            r = ('label',)
        elif re.match(r'i\d+$', t):
            r = ('i', int(t[1:]))
        elif t in ('float', 'double', 'half', 'fp128', 'x86_fp80', 'token', 'metadata'):
            r = (t,)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            r = ('st', self._fields('}'), False)
        elif t == '<':
            if self.accept('{'):
                f = self._fields('}')
                self.expect('>')
                r = ('st', f, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        elif t.startswith('%'):
            r = self.mod.named(t)
        else:
            raise ParseError("type? " + t)
        # function type used in indirect calls:  i1 (ptr, ptr)
        return r

    def _fields(self, close):
        f = []
        if self.accept(close):
            return f
        while True:
            f.append(self.type())
            if self.accept(','):
                continue
            self.expect(close)
            return f

    VALSTART = ('true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr',
                'inttoptr', 'ptrtoint', 'none')

    def skip_attrs(self):
        while True:
            k = self.kind()
            t = self.peek()
            if k == 'id' and t not in self.VALSTART:
                self.i += 1
                if t == 'align' and self.kind() == 'num':
                    self.i += 1
                elif self.peek() == '(':
                    self.balanced()
            elif k == 'str':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            else:
                return

    def balanced(self):
        d = 0
        while True:
            t = self.next()
            if t in ('(',):
                d += 1
            elif t == ')':
                d -= 1
                if d == 0:
                    return

    def value(self, ty):
        """operand: ('l',name) | ('g',name) | ('c',int) | ('null',) | ('undef',) | ('agg',[...]) ..."""
        k = self.kind()
        t = self.next()
        if k == 'loc':
            return ('l', t)
        if k == 'glob':
            return ('g', t[1:].strip('"'))
        if k == 'num':
            n = ty[1] if ty[0] == 'i' else 64
            return ('c', int(t) & ((1 << n) - 1))
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef', ty)
        if t == 'zeroinitializer' or t == 'none':
            return ('zero', ty)
        if k == 'cstr':
            return ('bytes', cbytes(t))
        if t == 'getelementptr':
            while self.kind() == 'id' and self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
                if self.peek() == '(' and False:
                    pass
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                ot = self.type()
                self.skip_attrs()
                ops.append((ot, self.value(ot)))
                if self.accept(','):
                    continue
                self.expect(')')
                break
            return ('gep', bt, ops)
        if t in ('inttoptr', 'ptrtoint'):
            self.expect('(')
            ft = self.type()
            v = self.value(ft)
            self.expect('to')
            self.type()
            self.expect(')')
            return (t, v)
        if t in ('{', '[', '<'):
            packed = False
            close = {'{': '}', '[': ']', '<': '>'}[t]
            if t == '<' and self.peek() == '{':
                self.next()
                packed = True
                close = '}'
            el = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.accept(','):
                        continue
                    self.expect(close)
                    break
            if packed:
                self.expect('>')
            return ('agg', ty, el)
        raise ParseError("value? %r (%s)" % (t, ' '.join(a[1] for a in self.t)))

    def tyval(self):
        ty = self.type()
        self.skip_attrs()
        return ty, self.value(ty)


def cbytes(t):
    s = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def align_of(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        r = 1
        while r < n:
            r *= 2
        return min(r, 16)
    if k == 'ptr' or k == 'double':
        return 8
    if k == 'float':
        return 4
    if k == 'arr':
        return align_of(t[2])
    if k == 'st':
        return 1 if t[2] else max([align_of(x) for x in t[1]] + [1])
    raise ParseError("align " + repr(t))


def size_of(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        r = 1
        while r < n:
            r *= 2
        return r
    if k in ('ptr', 'double'):
        return 8
    if k == 'float':
        return 4
    if k == 'arr':
        return t[1] * size_of(t[2])
    if k == 'st':
        o = 0
        for f in t[1]:
            if not t[2]:
                a = align_of(f)
                o = (o + a - 1) // a * a
            o += size_of(f)
        if not t[2]:
            a = align_of(t)
            o = (o + a - 1) // a * a
        return o
    raise ParseError("size " + repr(t))


def field_off(t, i):
    if t[0] == 'arr':
        return i * size_of(t[2]), t[2]
    o = 0
    for j, f in enumerate(t[1]):
        if not t[2]:
            a = align_of(f)
            o = (o + a - 1) // a * a
        if j == i:
            return o, f
        o += size_of(f)
    raise ParseError("field")


class Func(object):
    __slots__ = ('name', 'mod', 'pretty', 'head', 'body', 'blocks', 'params', 'entry', 'rty', 'pdom', 'types')


class Module(object):
    def __init__(self, path, prog):
        self.path = path
        self.prog = prog
        self.types = {}
        self.typecache = {}
        self.globtext = {}
        self.globobj = {}
        with open(path, encoding='utf-8', errors='replace') as f:
            lines = f.read().split('\n')
        i = 0
        n = len(lines)
        pretty = None
        attrs = ''
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z0-9$._]+)\(', l)
                name = m.group(1).strip('"')
                f = Func()
                f.name = name
                f.mod = self
                f.pretty = pretty or name
                f.head = l
                f.body = lines[i + 1:j]
                f.blocks = None
                if name not in prog.funcs or ' internal ' not in l:
                    prog.funcs[name] = f
                prog.pretty[name] = f.pretty
                i = j
                pretty = None
                attrs = ''
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z0-9$._]+)\(', l)
                name = m.group(1).strip('"')
                if 'noreturn' in attrs:
                    prog.noreturn.add(name)
                prog.declared.add(name)
                prog.pretty.setdefault(name, pretty or name)
                pretty = None
                attrs = ''
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z0-9$._]+) = (.*)$', l)
                self.globtext[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('%') and ' = type ' in l:
                a, b = l.split(' = type ', 1)
                self.types[a] = b
            elif l.startswith('; Function Attrs:'):
                attrs = l
            elif l.startswith('; '):
                pretty = l[2:]
            elif l == '':
                pretty = None
                attrs = ''
            i += 1

    def named(self, n):
        if n not in self.typecache:
            if n not in self.types:
                raise ParseError("named type " + n)
            self.typecache[n] = Toks(self.types[n], self).type()
        return self.typecache[n]

    def global_init(self, name):
        """-> (type, value) for a global constant"""
        txt = self.globtext[name]
        m = re.match(r'(?:(?:private|internal|external|hidden|unnamed_addr|local_unnamed_addr|thread_local(?:\([a-z]+\))?|dso_local|linkonce_odr|weak) )*(?:constant|global) ', txt)
        if not m:
            raise ParseError("global " + txt[:80])
        tk = Toks(txt[m.end():], self)
        ty = tk.type()
        return ty, tk.value(ty)


class Program(object):
    def __init__(self, paths):
        self.funcs = {}
        self.pretty = {}
        self.noreturn = set()
        self.declared = set()
        self.mods = [Module(p, self) for p in paths]

    def decode(self, f):
        if f.blocks is not None:
            return f
        tk = Toks(f.head[:f.head.rindex('{')], f.mod)
        # params
        while tk.kind() != 'glob':
            tk.next()
        tk.next()
        tk.expect('(')
        f.params = []
        if not tk.accept(')'):
            while True:
                if tk.accept('...'):
                    tk.expect(')')
                    break
                ty = tk.type()
                tk.skip_attrs()
                f.params.append((ty, tk.next()))
                if tk.accept(','):
                    continue
                tk.expect(')')
                break
        f.blocks = {}
        cur = None
        joined = []
        for l in f.body:
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            if l[0] != ' ' and s.split(';')[0].strip().endswith(':'):
                cur = '%' + s.split(':')[0]
                f.blocks[cur] = []
                if len(f.blocks) == 1:
                    f.entry = cur
                continue
            if cur is None:
                cur = '%start0'
                f.blocks[cur] = []
                f.entry = cur
            joined.append((cur, s))
        k = 0
        while k < len(joined):
            cur, s = joined[k]
            # multi-line: switch [ ... ], invoke ... to/unwind, landingpad clauses
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while not joined[k][1].rstrip().endswith(']'):
                    k += 1
                    s += ' ' + joined[k][1]
            elif ('invoke ' in s) and ' unwind label ' not in s:
                k += 1
                s += ' ' + joined[k][1]
            elif 'landingpad' in s:
                while k + 1 < len(joined) and re.match(r'(cleanup|catch|filter)', joined[k + 1][1]):
                    k += 1
                    s += ' ' + joined[k][1]
            f.blocks[cur].append(self.instr(s, f.mod))
            k += 1
        return f

    def instr(self, s, mod):
        tk = Toks(s, mod)
        dest = None
        if tk.kind() == 'loc' and tk.peek(1) == '=':
            dest = tk.next()
            tk.next()
        op = tk.next()
        if op in ('tail', 'musttail', 'notail'):
            op = tk.next()
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            flags = set()
            while tk.kind() == 'id' and tk.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.add(tk.next())
            ty = tk.type()
            a = tk.value(ty)
            tk.expect(',')
            b = tk.value(ty)
            return ('bin', dest, op, ty, a, b, frozenset(flags))
        if op == 'icmp':
            while tk.peek() in ('samesign',):
                tk.next()
            pred = tk.next()
            ty = tk.type()
            a = tk.value(ty)
            tk.expect(',')
            b = tk.value(ty)
            return ('icmp', dest, pred, ty, a, b)
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            while tk.kind() == 'id' and tk.peek() in ('nneg', 'nuw', 'nsw'):
                tk.next()
            ty = tk.type()
            a = tk.value(ty)
            if op == 'freeze':
                return ('mov', dest, a)
            tk.expect('to')
            t2 = tk.type()
            return ('cast', dest, op, ty, a, t2)
        if op == 'load':
            while tk.peek() in ('volatile', 'atomic'):
                tk.next()
            ty = tk.type()
            tk.expect(',')
            tk.type()
            return ('load', dest, ty, tk.value(('ptr',)))
        if op == 'store':
            while tk.peek() in ('volatile', 'atomic'):
                tk.next()
            ty = tk.type()
            v = tk.value(ty)
            tk.expect(',')
            tk.type()
            return ('store', None, ty, v, tk.value(('ptr',)))
        if op == 'alloca':
            ty = tk.type()
            cnt = 1
            return ('alloca', dest, size_of(ty) * cnt)
        if op == 'getelementptr':
            while tk.kind() == 'id' and tk.peek() in ('inbounds', 'nuw', 'nusw'):
                tk.next()
            bt = tk.type()
            tk.expect(',')
            ops = []
            while True:
                ops.append(tk.tyval())
                if not tk.accept(','):
                    break
            return ('gep', dest, bt, ops)
        if op == 'br':
            if tk.accept('label'):
                return ('jmp', None, tk.next())
            tk.type()
            c = tk.value(('i', 1))
            tk.expect(',')
            tk.expect('label')
            a = tk.next()
            tk.expect(',')
            tk.expect('label')
            return ('br', None, c, a, tk.next())
        if op == 'switch':
            ty = tk.type()
            v = tk.value(ty)
            tk.expect(',')
            tk.expect('label')
            d = tk.next()
            tk.expect('[')
            cases = []
            while not tk.accept(']'):
                ct = tk.type()
                c = tk.value(ct)
                tk.expect(',')
                tk.expect('label')
                cases.append((c[1], tk.next()))
            return ('switch', None, ty, v, d, cases)
        if op == 'ret':
            ty = tk.type()
            if ty == ('void',):
                return ('ret', None, None, None)
            return ('ret', None, ty, tk.value(ty))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'phi':
            ty = tk.type()
            inc = {}
            while True:
                tk.expect('[')
                v = tk.value(ty)
                tk.expect(',')
                inc[tk.next()] = v
                tk.expect(']')
                if not tk.accept(','):
                    break
            return ('phi', dest, ty, inc)
        if op == 'select':
            tk.type()
            c = tk.value(('i', 1))
            tk.expect(',')
            ty = tk.type()
            a = tk.value(ty)
            tk.expect(',')
            tk.type()
            b = tk.value(ty)
            return ('select', dest, ty, c, a, b)
        if op == 'extractvalue':
            ty = tk.type()
            v = tk.value(ty)
            idx = []
            while tk.accept(','):
                if tk.kind() != 'num':
                    break
                idx.append(int(tk.next()))
            return ('extract', dest, v, idx)
        if op == 'insertvalue':
            ty = tk.type()
            v = tk.value(ty)
            tk.expect(',')
            et = tk.type()
            e = tk.value(et)
            idx = []
            while tk.accept(','):
                if tk.kind() != 'num':
                    break
                idx.append(int(tk.next()))
            return ('insert', dest, ty, v, e, idx)
        if op in ('call', 'invoke'):
            # ret attrs
            while True:
                t = tk.peek()
                if tk.kind() == 'id' and not re.match(r'(i\d+|ptr|void|float|double|label)$', t):
                    tk.next()
                    if tk.peek() == '(':
                        tk.balanced()
                    elif t == 'align':
                        tk.next()
                else:
                    break
            ty = tk.type()
            if tk.peek() == '(':      # function type
                tk.balanced()
            callee = tk.value(('ptr',))
            tk.expect('(')
            args = []
            if not tk.accept(')'):
                while True:
                    if tk.peek() == 'metadata':
                        return ('nop', None)
                    args.append(tk.tyval())
                    if tk.accept(','):
                        continue
                    tk.expect(')')
                    break
            cont = None
            if op == 'invoke':
                while tk.peek() != 'to':
                    tk.next()
                tk.next()
                tk.expect('label')
                cont = tk.next()
            return ('call', dest, ty, callee, args, cont)
        if op in ('landingpad', 'resume', 'cleanupret', 'fence'):
            return ('eh', dest, op)
        return ('unsupported', dest, s)


# ---- control flow of a decoded function

EXIT = '<exit>'


def successors(body):
    out = []
    for ins in body:
        k = ins[0]
        if k == 'br':
            out += [ins[3], ins[4]]
        elif k == 'jmp':
            out.append(ins[2])
        elif k == 'ret':
            out.append(EXIT)
        elif k == 'switch':
            out.append(ins[4])
            out += [lab for _, lab in ins[5]]
        elif k == 'call' and ins[5] is not None:
            out.append(ins[5])
    return out


def ipdom(f, blk):
    """immediate postdominator of a block over the ways that reach a return; None if there is none"""
    try:
        pd = f.pdom
    except AttributeError:
        pd = None
    if pd is None:
        succ = dict((b, set(successors(body))) for b, body in f.blocks.items())
        pred = {}
        for b, ss in succ.items():
            for t in ss:
                pred.setdefault(t, set()).add(b)
        live = set([EXIT])
        todo = [EXIT]
        while todo:
            for b in pred.get(todo.pop(), ()):
                if b not in live:
                    live.add(b)
                    todo.append(b)
        order = []
        seen = set([EXIT])
        todo = [EXIT]
        while todo:                       # breadth first from the exit
            b = todo.pop(0)
            order.append(b)
            for q in sorted(pred.get(b, ())):
                if q not in seen:
                    seen.add(q)
                    todo.append(q)
        full = set(order)
        sets = dict((b, full) for b in order)
        sets[EXIT] = set([EXIT])
        change = True
        while change:
            change = False
            for b in order[1:]:
                ss = [sets[t] for t in succ[b] if t in live]
                n = set.intersection(*ss) | set([b]) if ss else set([b])
                if n != sets[b]:
                    sets[b] = n
                    change = True
        pd = {}
        for b in order[1:]:
            c = sets[b] - set([b])
            # the closest: the one every other strict postdominator postdominates
            best = None
            for x in c:
                if len(sets[x]) == len(c):
                    best = x
            pd[b] = best
        f.pdom = pd
    return pd.get(blk)


def value_types(f):
    """type of each value name (where the instruction tells), and of the return value under None"""
    try:
        if f.types is not None:
            return f.types
    except AttributeError:
        pass
    out = {None: None}
    for ty, n in f.params:
        out[n] = ty
    for body in f.blocks.values():
        for ins in body:
            k = ins[0]
            if k == 'bin':
                out[ins[1]] = ins[3]
            elif k == 'cast':
                out[ins[1]] = ins[5]
            elif k in ('load', 'phi', 'select', 'call'):
                if ins[1] is not None:
                    out[ins[1]] = ins[2]
            elif k == 'icmp':
                out[ins[1]] = ('i', 1)
            elif k == 'ret' and ins[3] is not None:
                out[None] = ins[2]
    f.types = out
    return out
