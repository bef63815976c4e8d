"""C01, C02, C03: exactness of the primitive operations."""
from base import *

KEYS = [f.key for f in FIELDS]
INVTXT = 'limbs: every lower limb in [0,2^w), the highest in [-4*2^t, 4*2^t) (t = bits of its canonical part), or the tighter candidates if that one is not inductive; the interval is proved to be preserved by every operation, so chains of any length are covered'


def run_exact(S, pid, own, what):
    rep = Report(pid, what, {'representation invariant': INVTXT, 'operands': 'all limb vectors in the invariant, symbolically', 'loops': 'fixed trip counts, fully unrolled', 'fields': len(KEYS)},
                 ['the nine moduli are prime (published SafeCurves primes)', 'rustc/LLVM code generation and z3 are trusted; the executor is re-validated against the native build on every run'])
    rep.S = S
    pool = Pool(S)
    try:
        level, bad = levels(rep, pool, KEYS, own, PRIMS + ['normalize'])
        validation(rep, pool, KEYS, own)
        rep.notes.append('invariant level per field: %r' % level)
    finally:
        pool.close()
    rep.witness = ['%s: representation invariant is inhabited by every unpacked string and every sum/difference of two' % k for k in KEYS]
    return rep, bad


def C01(S):
    rep, bad = run_exact(S, 'C01', ['add', 'sub', 'neg'], 'symbolic execution of the LLVM IR of AddAssign/SubAssign/Neg; z3 decides congruence of the limb polynomial with x+y, x-y, -x modulo p for all limb values')
    if bad:
        c = reproduce_prims(S, rep, bad, ['add', 'sub', 'neg'])
        if c:
            return rep.violation(c)
    return rep.finish()


def C02(S):
    rep, bad = run_exact(S, 'C02', ['mul', 'square'], 'symbolic execution of the LLVM IR of MulAssign and square; z3 decides congruence of the limb polynomial with x*y and x*x modulo p for all limb values')
    if bad:
        c = reproduce_prims(S, rep, bad, ['mul', 'square'])
        if c:
            return rep.violation(c)
    return rep.finish()
