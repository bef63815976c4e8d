"""Native replay of harness operations on concrete values (dev and release builds)."""
import subprocess
import harness


class Native(object):
    def __init__(self, b):
        self.b = b
        self.procs = {}
        self.count = 0

    def proc(self, prof):
        p = self.procs.get(prof)
        if p is None or p.poll() is not None:
            p = subprocess.Popen([self.b[prof]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1)
            self.procs[prof] = p
        return p

    def encode(self, key, op, vals):
        f, ins, isz, outs, osz = harness.layout(key, op)
        buf = bytearray(isz)
        for (v, k, off), x in zip(ins, vals):
            put(buf, k, off, x, f)
        return '%s.%s %d %s\n' % (key, op, osz, buf.hex()), outs, f

    def batch(self, key, op, cases, prof='dev'):
        """cases: list of input value tuples; returns list of output tuples or 'PANIC'"""
        res = []
        p = self.proc(prof)
        CH = 200
        for s in range(0, len(cases), CH):
            lines = []
            for vals in cases[s:s + CH]:
                l, outs, f = self.encode(key, op, vals)
                lines.append(l)
            import threading
            t = threading.Thread(target=lambda: (p.stdin.write(''.join(lines)), p.stdin.flush()))
            t.start()
            for _ in lines:
                r = p.stdout.readline().strip()
                self.count += 1
                if r == 'PANIC':
                    res.append('PANIC')
                elif r == 'UNKNOWN' or (not r and outs):
                    res.append('CRASH')
                else:
                    b = bytes.fromhex(r)
                    res.append(tuple(get(b, k, off, f) for k, off in outs))
            t.join()
        return res

    def loop(self, key, start, steps, reps, prof='dev'):
        """feed element start through the steps (op, input values, index of the input it replaces), reps times.
        -> limbs or 'PANIC'"""
        p = self.proc(prof)
        b = bytearray(8 * len(start))
        f = harness.layout(key, steps[0][0])[0]
        put(b, 'F', 0, start, f)
        line = 'LOOP %d %s' % (reps, b.hex())
        for op, vals, pos in steps:
            f, ins, isz, outs, osz = harness.layout(key, op)
            buf = bytearray(isz)
            for (v, k, off), x in zip(ins, vals):
                put(buf, k, off, x, f)
            line += ' %s.%s %d %d %s' % (key, op, osz, ins[pos][2], buf.hex())
        p.stdin.write(line + '\n')
        p.stdin.flush()
        r = p.stdout.readline().strip()
        self.count += 1
        if r == 'PANIC' or not r:
            return 'PANIC' if r else 'CRASH'
        return get(bytes.fromhex(r), 'F', 0, f)

    def one(self, key, op, vals, prof='dev'):
        return self.batch(key, op, [vals], prof)[0]

    def close(self):
        for p in self.procs.values():
            try:
                p.stdin.close()
                p.wait(5)
            except Exception:
                p.kill()


def put(buf, k, off, x, f):
    if k == 'F':
        for i, l in enumerate(x):
            buf[off + 8 * i:off + 8 * i + 8] = (l & (2**64 - 1)).to_bytes(8, 'little')
    elif k == 'P':
        for j, e in enumerate(x):
            put(buf, 'F', off + 8 * f.N * j, e, f)
    elif k in ('i32', 'i16', 'i8', 'u64', 'b'):
        buf[off:off + 8] = (int(x) & (2**64 - 1)).to_bytes(8, 'little')
    elif k in ('B', 'L'):
        buf[off:off + len(x)] = bytes(x)
    elif k == 'R':
        for i, l in enumerate(x):
            buf[off + 8 * i:off + 8 * i + 8] = (l & (2**64 - 1)).to_bytes(8, 'little')
    else:
        raise KeyError(k)


def s64(b):
    return int.from_bytes(b, 'little', signed=True)


def get(b, k, off, f):
    if k == 'F':
        return tuple(s64(b[off + 8 * i:off + 8 * i + 8]) for i in range(f.N))
    if k == 'P':
        return tuple(get(b, 'F', off + 8 * f.N * j, f) for j in range(4))
    if k == 'b':
        return b[off]
    if k == 'u64':
        return s64(b[off:off + 8])
    if k == 'B':
        return tuple(b[off:off + f.nb])
    if k == 'L':
        return tuple(b[off:off + f.nb + harness.EXT])
    if k == 'H':
        return bytes(b[off:off + 160])
    raise KeyError(k)
