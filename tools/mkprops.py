#!/usr/bin/env python3
"""writes /verif/properties.jsonl (single source of the property texts)"""
import json, os
F='libff/algebra/fields/'; C='libff/algebra/curves/'; U='libff/algebra/field_utils/'; S='libff/algebra/scalar_multiplication/'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    return {'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a}
P=[]
P.append(p('C01','Prime-field ring arithmetic is exact and canonical for every operand',
 'For every prime field the library offers (scalar and base field of all five curves), addition, subtraction, negation, multiplication, squaring, comparison, zero test and conversion from and to integers give exactly the result of the same operation on integers modulo that prime. Every element that is produced is the unique fully reduced representative, so equal values always compare equal. In-place and value-returning forms agree, also when operands alias.',
 ['inputs'],'all pairs of field elements, of every supported limb count (3,4,5,6) and modulus; all 64-bit integers and all limb vectors for the conversions',
 'Tests multiply a few random elements and check algebraic identities; carry-out at the top limb, results in [p,2^k), and borrow chains occur with negligible probability for random operands, and only hand-written assembly for each limb count decides them.',
 [F+'prime_base/fp.hpp',F+'prime_base/fp.tcc',U+'fp_aux.tcc',U+'bigint.tcc'],
 [('Montgomery multiplication (assembly CIOS/Comba and generic)',F+'prime_base/fp.tcc mul_reduce'),('add/sub with conditional reduction (assembly)',F+'prime_base/fp.tcc operator+=, operator-='),('conversions',F+'prime_base/fp.tcc constructors, as_bigint, as_ulong'),('carry/borrow assembly macros',U+'fp_aux.tcc')],
 [('mont_repr','value times 2^(64n) mod p, always < p',F+'prime_base/fp.hpp')]))
P.append(p('C02','Prime-field inversion, powers and square roots are correct for every input',
 'In every prime field, inverting a nonzero element gives the element whose product with it is one, raising to a power given as a multi-limb or machine integer equals repeated multiplication, the Frobenius map is the identity, and the square root of any quadratic residue (zero included) squares back to it.',
 ['inputs'],'all nonzero elements, all exponents of every limb width, all squares, in all ten prime fields',
 'Tests use random elements; the square-root loop depends on the 2-adic order of the input (up to 2^34 classes) and random inputs only reach generic ones; exponents with long runs of zero limbs or zero itself are not sampled.',
 [F+'prime_base/fp.tcc','libff/algebra/field_utils/algorithms.tcc','libff/algebra/field_utils/algorithms.hpp'],
 [('extended-gcd inversion with Montgomery correction',F+'prime_base/fp.tcc invert'),('square and multiply',U+'algorithms.tcc power'),('Tonelli-Shanks',U+'algorithms.tcc tonelli_shanks_sqrt')]))
P.append(p('C03','Field parameters and tower constants are mathematically right',
 'After initialisation the published constants of every prime field, extension field and binary field are the ones their definitions demand: Montgomery constants, Euler exponent, 2-adicity and odd part, quadratic non-residue and its odd power, multiplicative generator and root of unity of exact order, tower non-residues that make each extension a field, every Frobenius coefficient, and a multiplicative generator.',
 ['configurations'],'every constant of every field of all five curves and of the five binary fields',
 'Tests exercise constants indirectly with random elements; a constant used only in a rare branch (odd Frobenius powers, a non-residue with the wrong order, an Euler exponent) can be wrong without any sampled identity failing.',
 [C+'alt_bn128/alt_bn128_fields.cpp',C+'bls12_381/bls12_381_fields.cpp',C+'edwards/edwards_fields.cpp',C+'mnt/mnt46_common.cpp',C+'mnt/mnt4/mnt4_fields.cpp',C+'mnt/mnt6/mnt6_fields.cpp',F+'binary/gf32.cpp'],
 [('field initialisation','*_fields.cpp init_*_fields'),('binary field generators',F+'binary/gf*.cpp')]))
P.append(p('C04','Curve and pairing parameters are mathematically right',
 'After initialisation each curve group has a zero element, a generator that lies on the curve and has exactly the scalar-field prime order, a correct cofactor, twist and curve coefficients that match the pairing-friendly construction, and pairing loop and final-exponent constants that match the curve family. Reported sizes agree with the field and group orders.',
 ['configurations'],'all ten groups of the five curves and all pairing constants',
 'Tests check the generator order with the same constants under test and never the cofactors of all groups, the twist relation or the loop count independently.',
 [C+'alt_bn128/alt_bn128_init.cpp',C+'bls12_381/bls12_381_init.cpp',C+'edwards/edwards_init.cpp',C+'mnt/mnt4/mnt4_init.cpp',C+'mnt/mnt6/mnt6_init.cpp'],
 [('parameter initialisation','*_init.cpp init_*_params')]))
P.append(p('C05','Extension-tower arithmetic implements the quotient-ring definition',
 'In every extension field of degree 2, 3, 4, 6 and 12, addition, subtraction, negation, multiplication, squaring, scalar multiplication by a subfield element, inversion of nonzero elements, equality and zero test are exactly those of polynomials modulo the defining irreducible polynomials. All squaring and multiplication variants agree with each other, and in-place forms agree with value-returning forms.',
 ['inputs'],'all elements (all coefficient values, including zero coefficients and aliasing operands) of all fourteen extension fields',
 'Tests check ring axioms on small random samples; variants that agree on generic operands may differ when a coefficient vanishes, and associativity-style tests pass for a consistently wrong tower.',
 [F+'prime_extension/fp2.tcc',F+'prime_extension/fp3.tcc',F+'prime_extension/fp4.tcc',F+'prime_extension/fp6_2over3.tcc',F+'prime_extension/fp6_3over2.tcc',F+'prime_extension/fp12_2over3over2.tcc'],
 [('Karatsuba / complex / Chung-Hasan formulas','prime_extension/*.tcc operator*, squared, inverse')]))
P.append(p('C06','Frobenius, cyclotomic and sparse tower operations equal their generic meaning',
 'For every extension field the Frobenius map of any power equals raising to that power of the characteristic, the unitary inverse and cyclotomic squaring and exponentiation equal generic inversion, squaring and exponentiation on the elements they are specified for, sparse multiplications equal multiplication by the corresponding full element, and generic powers equal repeated multiplication; the square root of a square squares back to it.',
 ['inputs'],'all elements, all Frobenius powers, all exponents, all sparse coefficient triples',
 'Frobenius is tested for few powers and cyclotomic shortcuts on one kind of random element; sparse multiplication is only exercised inside the pairing.',
 [F+'prime_extension/fp12_2over3over2.tcc',F+'prime_extension/fp6_2over3.tcc',F+'prime_extension/fp4.tcc',F+'prime_extension/fp6_3over2.tcc',F+'prime_extension/fp2.tcc',F+'prime_extension/fp3.tcc'],
 [('Frobenius_map','prime_extension/*.tcc'),('cyclotomic_squared / cyclotomic_exp','prime_extension/fp12*.tcc, fp6_2over3.tcc, fp4.tcc'),('mul_by_024 / mul_by_045 / mul_by_2345 / mul_by_023','prime_extension/*.tcc')]))
P.append(p('C07','Binary-field arithmetic is exact for every element',
 'In the binary fields of 32, 64, 128, 192 and 256 bits, addition, multiplication, squaring, inversion, powers and square roots equal those of binary polynomials modulo the published irreducible polynomial, for every operand. Comparison, conversion to and from machine words and in-place forms are consistent with them.',
 ['inputs'],'all pairs of elements of the five fields; all word contents',
 'Products are reduced in two folding steps whose high-order cross terms only matter for specific top bits; tests sample random products and check identities against the same code.',
 [F+'binary/gf32.cpp',F+'binary/gf64.cpp',F+'binary/gf128.cpp',F+'binary/gf192.cpp',F+'binary/gf256.cpp'],
 [('carry-less multiplication and reduction','binary/gf*.cpp operator*='),('addition-chain inversion','binary/gf*.cpp inverse')]))
P.append(p('C08','Curve addition, doubling and negation implement the group law everywhere',
 'For each of the ten curve groups, every addition routine (general, mixed, complete, special-form and in-place), doubling, subtraction and negation returns the mathematical sum for every pair of group elements in every projective representation. This includes the identity on either side, equal points given with different coordinates, and opposite points, and the result is again a well-formed curve point.',
 ['inputs'],'all pairs of curve points and all of their projective representatives, for the ten groups',
 'Tests add random points in few representations; the exceptional cases (equal points with different Z, opposite points, identity operands in mixed additions) and the two-torsion case need specific operands.',
 [C+'alt_bn128/alt_bn128_g1.cpp',C+'alt_bn128/alt_bn128_g2.cpp',C+'bls12_381/bls12_381_g1.cpp',C+'bls12_381/bls12_381_g2.cpp',C+'edwards/edwards_g1.cpp',C+'edwards/edwards_g2.cpp',C+'mnt/mnt4/mnt4_g1.cpp',C+'mnt/mnt4/mnt4_g2.cpp',C+'mnt/mnt6/mnt6_g1.cpp',C+'mnt/mnt6/mnt6_g2.cpp'],
 [('add, mixed_add, dbl, operator+/-','curves/*/*_g[12].cpp')]))
P.append(p('C09','Point equality, normalisation and validity do not depend on representation',
 'For every group, two elements compare equal exactly when they are the same affine point, zero is recognised in every representation, the validity predicate accepts a representation exactly when it satisfies the curve equation, and converting to affine or special form (one at a time or in a batch) keeps the point and yields the normal form. Endomorphism helpers keep the element on the curve and multiply it by the field characteristic, cofactor multiplication multiplies by the published cofactor, and the coefficient helpers multiply by the curve coefficient.',
 ['inputs'],'all pairs of coordinate triples representing curve points, all batches of points including identities',
 'Random points nearly always have generic coordinates; batches containing the identity, and comparisons of points sharing one coordinate, are not systematically tested.',
 [C+'alt_bn128/alt_bn128_g1.cpp',C+'bls12_381/bls12_381_g2.cpp',C+'edwards/edwards_g1.cpp',C+'mnt/mnt4/mnt4_g1.cpp',C+'mnt/mnt6/mnt6_g2.cpp',C+'curve_utils.tcc'],
 [('operator==, is_zero, is_well_formed, to_affine_coordinates, to_special, batch_to_special_all_non_zeros, mul_by_q','curves/*/*_g[12].cpp')]))
P.append(p('C10','Scalar multiplication gives the same point by every algorithm',
 'Multiplying a group element by any scalar - a field element, a multi-limb integer of any supported width, or a machine word - by double-and-add or by any windowed signed-digit method with any window size returns exactly that multiple of the element. The signed-digit expansion used always sums back to the scalar with digits inside the window bound.',
 ['inputs'],'all scalars including zero, one, all-ones limbs and values above the group order; all group elements; all window sizes',
 'Tests draw random field scalars, which never have the top bit pattern that makes the recoding carry out of the last limb, and use only the window sizes selected by the tables.',
 [S+'wnaf.tcc',S+'wnaf.hpp',C+'curve_utils.tcc',U+'bigint.tcc'],
 [('find_wnaf, fixed_window_wnaf_exp, opt_window_wnaf_exp',S+'wnaf.tcc'),('scalar_mul',C+'curve_utils.tcc'),('operator*(bigint, G)','curves/*/*_g[12].hpp')]))
P.append(p('C11','Fixed-base window tables reproduce ordinary scalar multiplication',
 'For every base element, scalar width and window size, the precomputed window table and the windowed exponentiation built on it return exactly the scalar multiple of the base, single, in batch and in batch with a common coefficient. The recommended window size is always usable.',
 ['inputs'],'all bases, all scalars, all window sizes and widths (including a last window that is cut short)',
 'Tests use one or two batch sizes and the window chosen for them; a shortened last window or extreme digits need particular width/window pairs.',
 [S+'multiexp.tcc',S+'multiexp.hpp'],
 [('get_window_table, windowed_exp, batch_exp, batch_exp_with_coeff, get_exp_window_size',S+'multiexp.tcc')]))
P.append(p('C12','Every multi-exponentiation method returns the same linear combination',
 'For every list of group elements and equally long list of scalars, each multi-exponentiation method, the mixed-addition variant that skips zero and one coefficients, any chunk count, and the inner product return the sum of each element times its scalar. This holds for the empty list, repeated and identity elements, equal, zero, one and maximal scalars.',
 ['inputs'],'all lengths, all element and scalar vectors, all methods and chunk counts',
 'Tests compare methods on long lists of random scalars; ties in the heap, all-equal or all-zero scalars, single-element lists and lengths not divisible by the chunk count are not sampled.',
 [S+'multiexp.tcc',S+'multiexp.hpp'],
 [('multi_exp, multi_exp_inner (naive, plain, Bos-Coster, BDLO12), multi_exp_with_mixed_addition, multi_exp_filter_one_zero, inner_product',S+'multiexp.tcc')]))
P.append(p('C13','The reduced pairings are bilinear and non-degenerate',
 'For each pairing-friendly curve, the reduced pairing of a multiple of one argument with a multiple of the other equals the pairing raised to the product of the multiples, for all non-identity elements of the two prime-order groups and all scalars. The pairing of the generators is not one, and every value lies in the target group of scalar-field order.',
 ['inputs'],'all pairs of non-identity elements of the prime-order subgroups, in every projective representation, for the five pairings',
 'A finite number of random scalars is tested; a line function or a loop step that is wrong only for some representation, or multiplied by a factor the final power does not kill, escapes.',
 [C+'alt_bn128/alt_bn128_pairing.cpp',C+'bls12_381/bls12_381_pairing.cpp',C+'edwards/edwards_pairing.cpp',C+'mnt/mnt4/mnt4_pairing.cpp',C+'mnt/mnt6/mnt6_pairing.cpp'],
 [('doubling and addition steps','*_pairing.cpp doubling_step_for_*, mixed_addition_step_for_*'),('Miller loops','*_pairing.cpp *_miller_loop'),('precomputation','*_pairing.cpp *_precompute_G[12]')]))
P.append(p('C14','The final exponentiation raises to the exact published exponent',
 'For each curve the final exponentiation, computed in two chunks with Frobenius maps and cyclotomic powers, equals raising any nonzero target-field element to a fixed integer multiple, prime to the group order, of (field size minus one) over the group order, so that its result always has order dividing the group order.',
 ['inputs'],'all nonzero elements of the five target fields',
 'The addition chain is only run on Miller-loop outputs; a chain that is wrong by a factor invisible on those, or on elements in a subfield, is not seen.',
 [C+'alt_bn128/alt_bn128_pairing.cpp',C+'bls12_381/bls12_381_pairing.cpp',C+'edwards/edwards_pairing.cpp',C+'mnt/mnt4/mnt4_pairing.cpp',C+'mnt/mnt6/mnt6_pairing.cpp'],
 [('final_exponentiation_first_chunk / last_chunk / exp_by_z','*_pairing.cpp')]))
P.append(p('C15','Multi-pairing and alternative pairing variants agree with single pairings',
 'For each curve the double Miller loop on two pairs equals the product of the two single Miller loops, precomputed and direct pairings agree, and the affine-precomputation and alternative (ate versus affine) variants that the library offers give the same reduced value as the standard one.',
 ['inputs'],'all quadruples of group elements in any representation, for the five curves',
 'One random quadruple is tested per curve; the shared accumulator of the double loop must match step by step for every loop position.',
 [C+'alt_bn128/alt_bn128_pairing.cpp',C+'bls12_381/bls12_381_pairing.cpp',C+'edwards/edwards_pairing.cpp',C+'mnt/mnt4/mnt4_pairing.cpp',C+'mnt/mnt6/mnt6_pairing.cpp'],
 [('double_miller_loop, affine_ate_*, *_pp wrappers','*_pairing.cpp, *_pp.cpp')]))
P.append(p('C16','Serialised elements read back as the same value',
 'Writing any field element, extension-field element, binary-field element, curve point (compressed or not), multi-limb integer or vector of such values and reading it back yields an equal value and consumes exactly what was written, for the configured text or binary encoding, also for several values in one stream. The identity and points with extreme or zero coordinates are included.',
 ['inputs'],'all values of every serialisable type and all sequences of them in one stream',
 'Round trips are tested for a handful of small and random values; the compressed sign bit, zero coordinates and adjacent values in a stream need particular inputs.',
 ['libff/common/serialization.tcc',F+'prime_base/fp.tcc',C+'alt_bn128/alt_bn128_g1.cpp',C+'alt_bn128/alt_bn128_g2.cpp',C+'bls12_381/bls12_381_g1.cpp',C+'edwards/edwards_g1.cpp',C+'mnt/mnt4/mnt4_g2.cpp',U+'bigint.tcc'],
 [('operator<< / operator>>','all value types'),('point (de)compression','curves/*/*_g[12].cpp')]))
P.append(p('C17','Bit, word, digit and integer conversions are inverse and exact',
 'Converting integers and field elements to bits, bit windows, words, digits, packed field elements or decimal text and back restores the value, bit and limb accessors return exactly the requested bits, and multi-limb integer comparison and arithmetic agree with the integers they represent. The integer helpers (logarithm, power-of-two rounding, ceiling division, bit reversal, two\'s complement, byte/bit vector conversions) agree with their mathematical definitions on their whole domain.',
 ['inputs'],'all bit vectors, all limb vectors, all field elements, all machine integers in the documented domains',
 'Only small values and a few random vectors are tested; the limb boundaries and maximal values are where the shifts go wrong.',
 [U+'bigint.tcc',U+'field_utils.tcc','libff/common/utils.cpp','libff/common/utils.tcc',F+'prime_base/fp.tcc'],
 [('bigint accessors and text conversion',U+'bigint.tcc'),('pack/convert helpers',U+'field_utils.tcc'),('utility functions','libff/common/utils.cpp')]))
P.append(p('C18','Batch inversion, coset and root-of-unity helpers are exact',
 'Batch inversion of any list of nonzero elements returns each element\'s inverse in place, for every list length, and the root of unity returned for a requested size has exactly that multiplicative order, for every power of two the field supports, while unsupported sizes are refused. Coset shifts are never members of the subgroups they shift.',
 ['inputs'],'all lists of nonzero elements; all requested orders up to the field\'s 2-adicity',
 'Only small lengths and small orders are tested; orders of 2^32 and above exercise different integer widths.',
 [U+'field_utils.tcc',U+'field_utils.hpp'],
 [('batch_invert, get_root_of_unity, coset_shift',U+'field_utils.tcc')]))
P.append(p('C19','Random and hash-derived elements are always valid and deterministic',
 'Elements drawn at random are always fully reduced (and, for groups, well-formed members of the prime-order group), random nonzero draws exclude nothing but what they must, and the hash-based generator returns the same valid element for the same index on every call while treating all field values as reachable.',
 ['inputs','histories'],'all outputs of the random source and all indices',
 'A test cannot see that every possible output of the random source leads to a reduced element, nor that rejected draws are redrawn rather than folded.',
 [F+'prime_base/fp.tcc','libff/common/rng.tcc',U+'bigint.tcc'],
 [('random_element, bigint::randomize',F+'prime_base/fp.tcc'),('SHA512_rng','libff/common/rng.tcc')]))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import sys
for x in P: assert len(x['title'])<=80,x['id']
