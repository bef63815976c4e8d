"""Shared steps: invariant selection, dependency lemmas, counterexample reporting."""
import random
from core import *
import cex, validate

NRAND = 3000
ASSUME = ['the nine moduli 2^n - c are prime (published SafeCurves primes)', 'rustc/LLVM code generation, z3 and the executor are trusted; the executor is compared with the native build on concrete inputs in every run']


def only_range(out):
    """keep the 'cannot panic' / 'in range' / 'encodable' obligations of a lemma"""
    out.obls = [o for o in out.obls if 'congruence' not in o.name or 'runs' in o.name]
    return out


def lemma(S, key, op, level, mode):
    o = normalize_lemma(S, key, level) if op == 'normalize' else prim_lemma(S, key, op, level)
    if mode == 'range':
        only_range(o)
    o.tag = (key, op, level)
    return o


def levels(rep, pool, keys, exact, ranged=()):
    """Prove the primitive lemmas of the given fields under the widest invariant that is inductive.
    exact: operations whose exactness is needed; ranged: operations needed only to preserve the invariant.
    -> dict key -> level (level None if no candidate invariant works), list of failed Outs"""
    level = {}
    bad = {}
    todo = list(keys)
    best = {}
    for lv in range(NINV):
        tasks = [(lemma, (k, op, lv, 'exact')) for k in todo for op in exact] + [(lemma, (k, op, lv, 'range')) for k in todo for op in ranged if op not in exact]
        outs = pool.map(tasks)
        nxt = []
        for k in todo:
            mine = [o for o, t in zip(outs, tasks) if t[1][0] == k]
            for o, t in zip(outs, tasks):
                o.tag = t[1]
            if all(o.ok() for o in mine):
                rep.take(mine)
                level[k] = lv
            else:
                nxt.append(k)
                best[k] = mine
        todo = nxt
        if not todo:
            break
    for k in todo:
        rep.take(best[k])
        level[k] = None
        bad[k] = [o for o in best[k] if not o.ok()]
    return level, bad


def validation(rep, pool, keys, ops, n=2):
    outs = pool.map([(validate_task, (k, ops, n)) for k in keys])
    for o in outs:
        rep.validated += getattr(o, 'nval', 0)
    rep.take(outs)


def validate_task(S, key, ops, n):
    o, c = validate.validate(S, key, ops, n)
    o.nval = c
    return o


def reproduce_prims(S, rep, bad, own):
    """bad: key -> failed Outs.  Directed search for concrete violations of own operations."""
    for k, outs in bad.items():
        f = F[k]
        for o in outs:
            op = o.tag[1]
            if op not in own:
                continue
            first = [b.model for b in o.obls if b.model]
            kinds = [kd for _, kd, _ in harness.layout(k, op)[1]]
            if kinds == ['F', 'F'] and op in SPEC:
                rng = random.Random('%d/lin/%s/%s' % (SEED, k, op))
                first += linear(S, k, op, rng)
            c = cex.search_op(S, rep, k, op, cex.judge_value(f, PYSPEC[op]), kinds, first, NRAND)
            if c:
                return c
    for k, outs in bad.items():
        for op in own:
            if any(o.tag[1] == op for o in outs):
                c = cex.chain_models(S, rep, F[k], op, random.Random('%d/chain/%s/%s' % (SEED, k, op)))
                if c:
                    return c
    return None


def linear(S, k, op, rng):
    try:
        return cex.linear_models(S, k, op, SPEC[op], rng)
    except Exception:
        return []
