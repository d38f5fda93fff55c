#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the list of checks and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contract-based deductive verification of the compiled code (LLVM IR) by '
NOTE = {
 'C01': (T + 'symbolic execution of the IR and the inline assembly to limb polynomials with linear arithmetic', 'Every Fp_model ring operation (assembly for 3, 4 and 5 limbs, GMP for 6) is executed on symbolic 64-bit limbs; congruence modulo p, canonical range and absence of lost carries are discharged for all operands, aliased forms included. GMP mpn functions enter through assumed contracts. Bounded differential runs of the shipped binary replay failures.'),
 'C02': (T + 'symbolic execution to limb polynomials, integer linear forms and loop invariants', 'Inversion over the assumed mpn_gcdext contract, every power overload for every exponent, Tonelli-Shanks square roots with termination, on all eight prime fields. Assumes C01 contracts and find_wnaf (C10).'),
 'C03': ('postconditions of the parameter initialisers, discharged by exact evaluation of the state the real code leaves, with Pocklington primality and multiplicative-order certificates', 'The initialisers have no input, so their execution in each initialisation order (nine orders, including each curve alone and repeated initialisation) is the whole input space; every published constant and reported size of 8 prime fields, 13 tower levels and 5 binary fields is compared with its defining equation.'),
 'C04': ('postconditions of the curve initialisers, discharged by exact evaluation of the state the real code leaves, with primality certificates and exact curve arithmetic', 'As C03: the initialisers have no input. Generators, identities, orders, cofactors, coefficients, twists, endomorphism constants, loop counts, final exponents and reported sizes of the ten groups are compared with their definitions. Curve orders are identified among the admissible twist orders with three arbitrary points.'),
 'C05': (T + 'symbolic execution to polynomial identities', 'Every tower operation of the real code is executed symbolically on all inputs against its contract; the callee field operations are used through their contracts (C01). Bounded differential runs of the shipped binary replay failures and stand in for anything undecided.'),
 'C06': (T + 'symbolic execution to polynomial identities and integer linear forms with loop invariants', 'Frobenius for every power (all residues), cyclotomic squaring on the whole cyclotomic subgroup, sparse products, all powers and cyclotomic exponentiations for every exponent, and square roots with termination are discharged on the compiled code for all inputs. Assumes the Fp contracts (C01), tower products (C05) and find_wnaf (C10). Bounded differential runs replay failures.'),
 'C07': (T + 'symbolic execution to GF(2) polynomial forms per bit with loop invariants on the exponentiation chains', 'Addition, multiplication (portable and carry-less-multiply builds as compiled), squaring, comparison, conversions, inversion chains, powers and square roots of the five binary fields are discharged for every operand; the modulus polynomial is proved irreducible. The carry-less multiply instruction enters by its documented meaning. Bounded differential runs replay failures.'),
 'C08': (T + 'symbolic execution to polynomial identities modulo the curve equation, with complete case analysis of every zero test', 'Every addition, doubling, subtraction and negation of the ten groups is executed on symbolic coordinates; each path (all zero-test outcomes) is shown to return a representative of the chord-tangent sum on the curve, for every representative of both operands and for aliased operands. Assumes the field contracts (C01, C05). Bounded differential runs against an independent affine model replay failures.'),
 'C09': (T + 'symbolic execution to polynomial identities modulo the curve equation, with complete case analysis of every zero test', 'Equality, zero and validity predicates, normalisation (single, and batch over nonzero entries for every list length by loop invariants), the q-power endomorphism, cofactor and coefficient helpers are discharged for all representatives. Assumes the field contracts (C01, C05), scalar multiplication (C10) and batch inversion (C18).'),
 'C14': (T + 'symbolic execution in the exponent group of the target field (integers modulo q^k-1), including branches on special arguments', 'Each final exponentiation (free function and _pp wrapper, both chunks inlined) raises every nonzero element to the published multiple of (q^k-1)/r; membership preconditions of cyclotomic operations are discharged. Assumes the target-field contracts (C05, C06).'),
 'C10': (T + 'symbolic execution to integer linear forms over scalar bits; bit-vector loop invariant for the signed-digit recoding', 'Double-and-add, the operator* overloads, fixed-window multiplication (windows 1..10) and the window choice return the integer multiple for every scalar of every instantiated width in all ten groups; find_wnaf is proved for every scalar and every window 1..61 at nine widths by a loop invariant with termination. Assumes the group law (C08) and GMP mpn contracts. Bounded differential runs replay failures.'),
 'C11': (T + 'symbolic execution to integer linear forms over scalar bits, for enumerated window and scalar sizes', 'get_window_table and windowed_exp of all ten groups are executed for every base and every scalar, for enumerated window sizes (1..8 quick, more thorough) and scalar sizes including the full field width; batch forms use windowed_exp by contract and are proved for every list length by loop invariants; the recommended window is evaluated at every threshold. Assumes the group law (C08). Bounded differential runs replay failures.'),
 'C12': (T + 'symbolic execution to linear forms over bases and scalars with branch indicators; loop invariant over the heap for Bos-Coster', 'All four multi_exp methods, the chunked driver, the mixed-addition variant and inner_product return the linear combination of the bases for every base and scalar value, over the contracts of point addition and scalar multiplication (C08, C10). The naive methods, the inner product and the chunked driver are proved for every list length by loop invariants; BDLO12 list and bit lengths and the number of chunks are enumerated; the Bos-Coster main loop is cut by an invariant (sum of scalar times base plus the accumulator is constant; every index stays in range) for enumerated heap sizes. Bounded differential runs stand in only where a path is not recognised.'),
 'C17': (T + 'symbolic execution to bit-vector formulas (z3) and per-bit GF(2) forms, with enumerated container lengths', 'Integer helpers (log2, powers of two, two\'s complement, bit reversal, div_ceil) for every argument in their domain; big-integer conversions, comparisons, bit tests and mpz/limb round trips at every width 1..6; field/bit-vector/word/packing conversions for every value at enumerated list lengths and word sizes. GMP mpz/mpn functions enter by contract. Bounded differential runs replay failures.'),
 'C18': (T + 'symbolic execution in the exponent group of the prime field (roots of unity, every 64-bit size) and to polynomial identities (batch inversion)', 'get_root_of_unity is discharged for every 64-bit size in every prime field (exact order, refusal of unsupported sizes), coset_shift lies outside the subgroup, batch_invert inverts every entry for every value and every list length (loop invariants). Assumes field contracts (C01, C02, C05, C07) and the constants of C03.'),
    'C13': (T + 'symbolic execution of each Miller loop to polynomial identities over the tower (line functions, point steps) and divisor arithmetic modulo r', 'Every public pairing entry of the five curves, for generic points in generic representations: each step computes the sum of the points it passes, each factor is the line through those points at the other argument up to constants killed by the final exponentiation, and the divisor is that of the published (ate, optimal ate, Tate) function, whose bilinearity and non-degeneracy theorem is trusted with its numeric hypotheses checked. Assumes C01, C05, C06, C09, C14.'),
    'C15': (T + 'equality of the formal products of line factors produced by symbolic execution of the real Miller loops, and of their divisors', 'Double Miller loops equal the product of the single ones factor by factor, precomputed equals direct, the affine variants have the divisor of the standard pairing, for all generic arguments. The recorded finding is the sign of the mnt6 affine Miller loop. Assumes C01, C05, C06, C09, C14.'),
 'C16': (T + 'symbolic execution of writer and reader over one symbolic stream, contracts for the standard stream members; polynomial identities modulo the curve equation for point compression', 'For every serialisable type (integers, prime fields, towers, binary fields, points in every representation, vectors, pairing precomputation) the real writer and reader are executed on values of opaque words: the reader consumes exactly what the writer wrote and restores every word; compressed points are restored for every choice of square root and every parity, including coordinates with zero coefficients. Vectors are proved for every length (element operators by contract) and executed for lengths 0..4; the built encoding and four others (text, plain integers, uncompressed points) are judged.'),
 'C19': (T + 'symbolic execution to bit-vector formulas (z3) with arbitrary random words and hash values; redraw loops closed by state recurrence', 'random_element/randomize of all fields, the groups\' random_element, the draws with exclusions and SHA512_rng: every accepted value is reduced for every output of the random source or hash, every field value is reachable, redraw loops are closed by induction on the program state, and repeated calls of SHA512_rng with an index agree whatever was called in between.'),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        n = NOTE[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i,
                       'technique': n[0], 'level': n[2] if len(n) > 2 else 'proof', 'level_note': n[1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
