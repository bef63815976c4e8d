#!/usr/bin/env python3
"""writes MANIFEST.json (run by hand after the claims change)"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIELDNOTE = ' Holds for every limb vector of the inductive representation invariant (proved in the same run), nine fields, loops with their fixed trip counts fully unrolled. Trusts rustc/LLVM IR generation, z3, the executor (compared with the native build in every run) and primality of the nine moduli.'
PTNOTE = ' The field primitives enter through their exactness lemmas, which are proved in the same run on all limb vectors of the invariant. Trusts rustc/LLVM IR generation, z3, the executor and primality of the moduli.'
T = {
 'C01': ('symbolic execution of LLVM IR, SMT (integer arithmetic) congruence proof', 'add, sub, neg exact modulo p.' + FIELDNOTE),
 'C02': ('symbolic execution of LLVM IR, SMT (polynomial identity over limbs) congruence proof', 'mul and square exact modulo p.' + FIELDNOTE),
 'C03': ('symbolic execution of LLVM IR, SMT congruence proof', 'all small-integer forms, every i8/i16/i32 value.' + FIELDNOTE),
 'C04': ('symbolic execution of LLVM IR, SMT-checked inductive range invariant', 'no overflow, no panic, invariant preserved by every operation: chains of any length.' + FIELDNOTE),
 'C05': ('symbolic execution of LLVM IR, SMT (integer arithmetic)', 'normalize, normalize_eq, normalize_self_eq.' + FIELDNOTE),
 'C06': ('symbolic execution of LLVM IR, SMT (integer arithmetic)', 'pack/unpack family and both compositions, all byte strings below 2^nbits.' + FIELDNOTE),
 'C07': ('symbolic execution of LLVM IR over proved primitives, SMT on exponents and coefficients', 'invert, inverted and the division forms.' + FIELDNOTE),
 'C08': ('symbolic execution of LLVM IR over proved primitives, SMT on exponents and coefficients', 'legendre on zero, squares, non-squares.' + FIELDNOTE),
 'C09': ('symbolic execution of LLVM IR over proved primitives, SMT on exponents and coefficients', 'sqrt on every square.' + FIELDNOTE),
 'C10': ('symbolic execution of LLVM IR, SMT (integers and bit-vectors)', 'bit, bit_normalized at every index, masks, bitwise and/or.' + FIELDNOTE),
 'C11': ('symbolic execution of LLVM IR with the random draws symbolic, SMT', 'Rand::rand under the specification of rand 0.3 gen_range.' + FIELDNOTE),
 'C12': ('symbolic execution of LLVM IR over proved primitives, SMT-checked polynomial identities over F_p', 'addition of any two points of each of the five curves in any projective scaling.' + PTNOTE),
 'C13': ('symbolic execution of LLVM IR over proved primitives, SMT-checked polynomial identities over F_p', 'double, triple and their functional forms.' + PTNOTE),
 'C14': ('symbolic execution of LLVM IR over proved primitives, SMT-checked polynomial identities over F_p', 'identity, construction and results of every point operation.' + PTNOTE),
 'C15': ('symbolic execution of the whole ladder with symbolic scalar bits, SMT', 'scalar_mult and scalar_mult_normalized for every scalar, over point addition/doubling as proved group operations.' + PTNOTE),
 'C16': ('symbolic execution of the constant initialisers, SMT ground arithmetic queries', 'coefficients, base points, orders. Curve parameters of the specification are restated in engine/params.py; primality of orders is checked by Pocklington-style or Fermat queries as stated in DESIGN.md.'),
 'C17': ('relational symbolic execution of LLVM IR, SMT equivalence', 'every operator form against its primary form.' + FIELDNOTE),
 'C18': ('symbolic execution of LLVM IR with the formatter modelled, SMT', 'LowerHex and UpperHex.' + FIELDNOTE),
 'C19': ('symbolic execution of LLVM IR, SMT ground arithmetic queries', 'constants, accessors and sizes.' + FIELDNOTE),
 'C20': ('symbolic execution of LLVM IR, SMT check of every branch and address for secret dependence', 'no two-sided branch and no symbolic address in the ladder, the point formulas, the primitives and the masks.' + PTNOTE),
 'C21': ('symbolic execution of LLVM IR, SMT check of every branch and address for dependence on the operands', 'no two-sided branch and no symbolic address in any field operation, operator form, exponentiation, encoding or point operation other than equality, formatting and sampling.' + PTNOTE),
 'C22': ('symbolic execution of LLVM IR, SMT (integer arithmetic)', 'encoding into and decoding from buffers of nbytes + 0, 1, 8 and 24 bytes with all contents symbolic.' + FIELDNOTE),
 'C23': ('symbolic execution of LLVM IR, SMT (integer arithmetic)', 'state of every argument that is normalised in place, and the scalar of scalar_mult.' + FIELDNOTE),
}
CLAIMED = [c for c in os.environ.get('CLAIMED', '').split() if c]


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
    import importlib.util
    src = open(os.path.join(R, 'check.py')).read()
    import re
    claimed = sorted(set(re.findall(r"'(C\d\d)': '", src)))
    m = {'version': 1, 'setup_cmd': 'python3-vt engine/build.py',
         'hooks': {'guard': 'safecurves_verif', 'enable': 'RUSTFLAGS="--cfg safecurves_verif" (set by engine/build.py for the harness crate it generates outside /repo)',
                   'source_commits': ['eb5605af217bb8c16e32cdc8dbec34af5f94ef0e']},
         'checks': [], 'not_applicable': []}
    for i in ids:
        if i in claimed:
            m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
                                'technique': T[i][0], 'level': 'other', 'level_note': T[i][1]})
        else:
            m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
    json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)


main()
