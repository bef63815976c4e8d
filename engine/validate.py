"""Encoder validation: the executor run on concrete inputs must agree with the native build."""
import random
from core import *
import cex


def validate(S, key, ops, n=2):
    out = Out()
    f = F[key]
    rng = random.Random('%d/val/%s' % (SEED, key))
    cnt = 0
    for op in ops:
        _, ins, _, outs, _ = harness.layout(key, op)
        for _ in range(n):
            vals = []
            for v, k, off in ins:
                if k == 'F':
                    vals.append(rng.choice(cex_pool(f, rng)))
                elif k[0] == 'i':
                    vals.append(rng.choice(cex.small_candidates(rng, 5, int(k[1:]))))
                elif k == 'b':
                    vals.append(rng.randrange(2))
                elif k == 'u64':
                    vals.append(f.nb + rng.randrange(harness.EXT + 1) if 'L' in [q for _, q, _ in ins] else rng.randrange(f.n))
                elif k == 'L':
                    vals.append(tuple(rng.randrange(256) for _ in range(f.nb + harness.EXT)))
                elif k == 'B':
                    vals.append(tuple(rng.randrange(256) for _ in range(f.nb)))
                else:
                    raise KeyError(k)
            r = Run(S, key, op, fixed={v: x for (v, k, off), x in zip(ins, vals)})
            res = r.results[0]
            got = 'PANIC' if res.panic else tuple(conc(o, k) for (k, _), o in zip(outs, res.outs))
            want = S.native.one(key, op, vals)
            cnt += 1
            if got != want:
                out.add('encoder agrees with native on %s.%s' % (key, op), False, 'encoder %r native %r on %r' % (got, want, vals))
                return out, cnt
    out.add('encoder agrees with native code on %d concrete runs of %s' % (cnt, key), True)
    return out, cnt


def cex_pool(f, rng):
    return [cex.limbs_of(f, v) for v in cex.elem_candidates(f, rng, 40)]


def conc(o, k):
    def one(x, signed=True):
        if isinstance(x, V):
            assert is_const(x.p)
            return cval(x.p)
        return x
    if k == 'F':
        return tuple(one(x) for x in o)
    if k in ('B', 'L'):
        return tuple(one(x) & 255 for x in o)
    if k == 'H':
        return bytes(one(x) & 255 for x in o)
    if k == 'b':
        return one(o) & 255
    if k == 'u64':
        return sgn(one(o) & (2**64 - 1), 64)
    raise KeyError(k)
