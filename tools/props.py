#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None}})


F = 'libff/algebra/fields/'
C = 'libff/algebra/curves/'
FP = F + 'prime_base/fp.tcc'
AUX = 'libff/algebra/field_utils/fp_aux.tcc'
ALLG = [C + x for x in ('alt_bn128/alt_bn128_g1.cpp', 'alt_bn128/alt_bn128_g2.cpp', 'bls12_381/bls12_381_g1.cpp', 'bls12_381/bls12_381_g2.cpp',
                        'edwards/edwards_g1.cpp', 'edwards/edwards_g2.cpp', 'mnt/mnt4/mnt4_g1.cpp', 'mnt/mnt4/mnt4_g2.cpp', 'mnt/mnt6/mnt6_g1.cpp', 'mnt/mnt6/mnt6_g2.cpp')]
ALLP = [C + x for x in ('alt_bn128/alt_bn128_pairing.cpp', 'bls12_381/bls12_381_pairing.cpp', 'edwards/edwards_pairing.cpp', 'mnt/mnt4/mnt4_pairing.cpp', 'mnt/mnt6/mnt6_pairing.cpp')]
EXT = [F + 'prime_extension/' + x for x in ('fp2.tcc', 'fp3.tcc', 'fp4.tcc', 'fp6_2over3.tcc', 'fp6_3over2.tcc', 'fp12_2over3over2.tcc')]
GF = [F + 'binary/gf%s.cpp' % b for b in ('32', '64', '128', '192', '256')]
ME = 'libff/algebra/scalar_multiplication/multiexp.tcc'
WN = 'libff/algebra/scalar_multiplication/wnaf.tcc'

prop('P01', 'Prime-field arithmetic is exact and canonical',
     'For every two elements of every prime field, addition, subtraction, negation, multiplication and squaring (in place or not, with aliased operands too) return the residue that integer arithmetic modulo the field\'s modulus gives, in the unique reduced representation, and leave the other operands unchanged. Equality, inequality and the zero test agree with equality of residues.',
     ['inputs', 'programs', 'configurations'], 'all pairs of elements (including values whose representation sits on a limb, carry or modulus edge), all straight-line programs of operations, with and without assembly',
     'The existing tests multiply a few random elements per field; carry and final-subtraction edges have probability around 2^-64 under random sampling, and only one build configuration is compiled.',
     [FP, AUX], [('limb-count specialised add/sub/Montgomery multiplication and the generic fallback', FP), ('assembly macros', AUX)])
prop('P02', 'Inversion and exponentiation are exact in every field',
     'In every field (prime, extension and binary) inverting a non-zero element gives its multiplicative inverse, inverting a vector in one batch gives every single inverse in order, and raising to a power equals repeated multiplication for every exponent in every exponent type, including 0, exponents longer than the field and multi-word exponents.',
     ['inputs'], 'all non-zero elements, all exponents (all types), all vector lengths and contents',
     'Tests invert random elements and use a handful of exponents; exponent bit patterns, word boundaries and batch shapes are unbounded.',
     [FP, 'libff/algebra/field_utils/algorithms.tcc', 'libff/algebra/field_utils/field_utils.tcc'] + EXT + GF,
     [('extended Euclid inversion', FP), ('square-and-multiply', 'libff/algebra/field_utils/algorithms.tcc'), ('batch inversion', 'libff/algebra/field_utils/field_utils.tcc')])
prop('P03', 'Integer, bit and word conversions are exact',
     'Big integers preserve their value through construction (machine word, decimal string, GMP integer), comparison, bit access and conversion back; a field element built from any integer is its residue, and converting an element to an integer, words or bits yields its canonical value, which converts back to the same element. Reading words reports exactly whether the value was below the modulus, and packing bits or integers into field elements keeps every bit in its position.',
     ['inputs', 'configurations'], 'all n-limb integers (also above the modulus), all signed and unsigned machine integers, all word vectors and bit vectors of admissible length, Montgomery and plain output modes',
     'Tests convert a few random values; limb boundaries, values at or above the modulus and most-negative integers are not sampled.',
     ['libff/algebra/field_utils/bigint.tcc', FP, 'libff/algebra/field_utils/field_utils.tcc'] + GF,
     [('conversion in and out of Montgomery form', FP), ('packing helpers', 'libff/algebra/field_utils/field_utils.tcc'), ('limb access', 'libff/algebra/field_utils/bigint.tcc')])
prop('P04', 'Extension-field arithmetic is exact',
     'In every extension field, every arithmetic operation (sum, difference, negation, product, square by every provided algorithm, inverse, Frobenius power, multiplication by a base-field element, by the non-residue, and by the sparse elements that pairings use) returns the element that schoolbook polynomial arithmetic in the tower gives.',
     ['inputs', 'programs'], 'all elements of all quadratic, cubic, quartic, sextic and dodecic towers, including sparse and subfield elements; all Frobenius powers; all programs of operations',
     'Tests use a few random dense elements; sparse elements, subfield elements and vanishing intermediate sums are never sampled and the sparse multiplications are only exercised indirectly.',
     EXT, [('Karatsuba/Toom/complex formulas', EXT[0]), ('sparse multiplications', EXT[5]), ('Frobenius coefficient tables', 'curve *_init.cpp')])
prop('P05', 'Arithmetic in the unit-norm (cyclotomic) subgroup agrees with the general one',
     'For elements of the cyclotomic subgroup of the pairing target field, the specialised squaring, conjugate inverse and exponentiation give the same results as the general squaring, inversion and exponentiation, for every exponent.',
     ['inputs'], 'all elements of the cyclotomic subgroup and of the order-r subgroup of each target field, all exponents of any length',
     'The shortcuts are only valid on the subgroup and are only exercised through whole pairings with one or two fixed exponents.',
     [EXT[2], EXT[3], EXT[5]], [('cyclotomic_squared / cyclotomic_exp / unitary_inverse', EXT[5])])
prop('P06', 'Square roots are correct for every square',
     'For every square of every field that offers square roots, the square root operation terminates and returns an element whose square is the input, which therefore is plus or minus the original root; the root of zero is zero.',
     ['inputs'], 'all squares of all prime fields and of the quadratic and cubic extensions, including those whose odd part falls into every subgroup of the 2-power part',
     'Tests take the roots of a few random squares; the number of rounds and the subgroup orders met depend on the input and deep 2-power cases are exponentially unlikely.',
     ['libff/algebra/field_utils/algorithms.tcc', EXT[0], EXT[1]], [('Tonelli-Shanks loop', 'libff/algebra/field_utils/algorithms.tcc')])
prop('P07', 'Field parameters, generators and roots of unity are what they claim',
     'Every field\'s published parameters satisfy their definitions: sizes match the modulus, the 2-adic decomposition is exact, the non-residues really are non-residues, the multiplicative generator has full order as far as the order can be factored, and the root of unity has exactly the stated order. A root of unity requested for a power of two n up to that order has exact order n, all other n are rejected by an exception, and the domain generators and coset shift are consistent.',
     ['inputs', 'configurations'], 'all fields of all curves, all n (powers of two up to the 2-adicity, beyond it, and non-powers of two)',
     'Tests use the constants indirectly with a few n; a wrong constant in an untested field or large n goes unseen.',
     [C + x for x in ('alt_bn128/alt_bn128_fields.cpp', 'bls12_381/bls12_381_fields.cpp', 'edwards/edwards_fields.cpp', 'mnt/mnt4/mnt4_fields.cpp', 'mnt/mnt6/mnt6_fields.cpp')] + ['libff/algebra/field_utils/field_utils.tcc'],
     [('hard-coded parameters', C + 'alt_bn128/alt_bn128_fields.cpp'), ('get_root_of_unity', 'libff/algebra/field_utils/field_utils.tcc')])
prop('P08', 'Binary-field arithmetic is exact',
     'In every binary field (32 to 256 bits) addition, subtraction, multiplication, squaring, inversion, equality and the zero test agree with polynomial arithmetic over GF(2) modulo the field\'s published irreducible polynomial, for every pair of elements, in hardware and portable code alike; the field axioms hold and the generator generates.',
     ['inputs', 'configurations'], 'all pairs of elements, including sparse ones and ones that fill the reduction boundaries; the carry-less-multiply, reduced-instruction and portable implementations',
     'Tests check random products against one portable routine; reduction-boundary bit patterns are not targeted and the alternative implementations are not compiled.',
     GF, [('carry-less multiplication and reduction', GF[4])])
prop('P09', 'Curve point addition and doubling implement the group law',
     'For every two points of every supported group, in whatever coordinates they are represented, addition, subtraction, doubling, negation and mixed addition give the point that the affine chord-and-tangent (or Edwards) law gives, including equal, opposite and identity operands.',
     ['inputs', 'programs'], 'all pairs of points (equal, opposite, identity, small multiples of each other, on or off the prime subgroup), all representations (any scaling, special form), all programs of group operations',
     'Tests use a handful of random and generator-derived points; exceptional-case branches for equal points in different representations, and long histories, are hardly sampled.',
     ALLG, [('exceptional-case handling before the generic formulas', ALLG[0])])
prop('P10', 'Results do not depend on the representation of a point',
     'Two representations of the same point compare equal and of different points unequal, both are or are not the identity, and converting to affine or special form (singly or in a batch, with identities anywhere in the batch) yields the same point in the unique normal form.',
     ['inputs'], 'all points, all scalings of their coordinates, every form of the identity, all vectors of points with identities at any positions',
     'Tests compare few points; scaled identities, batches with identities at the ends and equal points with different scalings are not sampled.',
     ALLG + [ME], [('cross-multiplied equality', ALLG[0]), ('batch_to_special', ME)])
prop('P11', 'Scalar multiplication computes the multiple, by every algorithm',
     'Multiplying any point by any integer scalar (given as a field element or as a big integer of any length, including zero, values at or above the group order and all-ones patterns) gives the sum of that many copies of the point; the windowed signed-digit form of any scalar, for any window, sums to the scalar, and exponentiation through it gives the same point.',
     ['inputs'], 'all points (identity included), all scalars of all lengths, all window sizes',
     'Tests multiply by few random scalars below the order; carries out of the top limb, digit patterns and small windows are not sampled.',
     [C + 'curve_utils.tcc', WN] + ALLG, [('double-and-add', C + 'curve_utils.tcc'), ('find_wnaf', WN)])
prop('P12', 'Multi-scalar multiplication equals the sum of the products',
     'For any two equally long sequences of group elements and scalars, every multi-exponentiation method, the variant with special treatment of 0 and 1 scalars, and the inner product return the sum of the products, whatever the length, the number of chunks, the number of threads, and the mix of zero, one, repeated, small and full-size scalars and identity or repeated bases.',
     ['inputs', 'configurations'], 'all lengths (0 included), chunk counts, scalar distributions and bases in admissible form, single- and multi-threaded builds, with and without mixed addition',
     'One test compares methods on few sizes of random input; skewed scalars, tiny lengths, chunk remainders and the threaded and mixed-addition builds are not covered.',
     [ME], [('Bos-Coster heap, BDLO12 buckets, chunking', ME)])
prop('P13', 'Fixed-base windowed exponentiation equals scalar multiplication',
     'For every base, window size, scalar length and scalar fitting that length, the window table and the exponentiations that use it (single, batched, batched with a coefficient) return exactly the scalar multiples of the base, in order, and the window size chosen for a given number of scalars is usable and never above the memory bound of the low-memory build.',
     ['inputs', 'configurations'], 'all bases, windows, scalar lengths (multiples of the window or not), scalars, batch sizes, single- and multi-threaded and low-memory builds',
     'No test calls these with windows that do not divide the scalar length or with edge scalars.',
     [ME], [('get_window_table / windowed_exp / batch_exp', ME)])
prop('P14', 'Pairings are bilinear and non-degenerate',
     'For every supported curve and all P in G1, Q in G2 and scalars a, b, the reduced pairing satisfies e(aP, bQ) = e(P, Q)^(ab) and is additive in each argument, has order exactly r on non-identity inputs and is one when either input is the identity; it does not depend on the coordinates in which P and Q are given.',
     ['inputs'], 'all P, Q (identities included), all scalars (0, 1, -1, r-1, random), all representations of P and Q',
     'One test checks one random pair per curve; identities, extreme scalars and other representations are not tried.',
     ALLP, [('Miller loops and final exponentiation', ALLP[0])])
prop('P15', 'All ways of computing a pairing agree',
     'Precomputation followed by the Miller loop equals the one-shot Miller loop, the double Miller loop equals the product of the two single ones, the affine variants agree with the projective ones, the ratio variants equal the corresponding products and quotients, final exponentiation is exactly raising to the documented multiple of (q^k-1)/r and so multiplicative, and the Tate and ate variants are powers of each other.',
     ['inputs'], 'all pairs and pairs of pairs of points including identities, all elements of the target field for the final exponentiation',
     'Tests compare one or two random inputs through one path per curve.',
     ALLP, [('precompute/miller/double_miller/affine variants', ALLP[3]), ('final exponentiation chains', ALLP[1])])
prop('P16', 'Serialization of numbers, field elements and containers round-trips',
     'Writing any integer, field element (prime, extension, binary) or vector, map, set or bit vector of serialisable values to a stream and reading it back yields an equal value and leaves the stream exactly after it, so that any sequence of objects written with the documented separators is read back in order; equal values produce identical bytes.',
     ['inputs', 'programs', 'configurations'], 'all values and all heterogeneous sequences of objects on one stream, in binary and text mode, in Montgomery and plain mode',
     'Tests round-trip single objects; sequences on one stream, zero words, whitespace-like bytes in binary mode and empty containers are not covered.',
     ['libff/common/serialization.tcc', 'libff/algebra/field_utils/bigint.tcc', FP, 'libff/common/utils.cpp'] + EXT + GF, [('stream operators', 'libff/common/serialization.tcc')])
prop('P17', 'Serialization of points, point vectors and pairing precomputations round-trips',
     'Writing any group element, vector of group elements, or precomputed pairing argument and reading it back yields an equal object, in compressed and uncompressed form, wherever it stands in a stream; the bytes depend only on the point and not on its coordinates, and the decompressed point has the right sign.',
     ['inputs', 'programs', 'configurations'], 'all points (identity and both square-root signs included) in all representations, all sequences on one stream, compressed/uncompressed and binary/text builds',
     'One test round-trips few points in one configuration; the precomputation streams and the other configurations are hardly tested.',
     ALLG + ALLP, [('operator<< / operator>> with point compression', ALLG[0])])
prop('P18', 'Membership, order, cofactor and endomorphism data are right',
     'A point is reported well-formed exactly if its coordinates satisfy the curve equation; the generators and everything produced by the group operations are well-formed and killed by the group order; random elements lie in the prime-order subgroup; the twist and Frobenius helpers of the second group act as multiplication by the field size on it; reported order, sizes and field characteristics equal the mathematical ones.',
     ['inputs'], 'all coordinate triples on and off the curve (near misses included), all reachable points',
     'Tests check few reachable points and no off-curve triples close to the curve.',
     ALLG, [('is_well_formed / mul_by_q / order()', ALLG[1])])
prop('P19', 'Common integer utilities match their definitions',
     'Logarithms, powers of two, rounding, two\'s complement, bit reversal, ceiling division and integer-to-bit expansion return what their documentation defines for every argument in their domain, and reject division by zero by an exception.',
     ['inputs'], 'all machine integers and widths in the documented domains',
     'Few fixed values are tested; boundaries near 2^32, 2^63 and word size are not.',
     ['libff/common/utils.cpp', 'libff/common/utils.hpp'], [('the functions themselves', 'libff/common/utils.cpp')])
prop('P20', 'Random sampling is deterministic where specified, in range and not degenerate',
     'The hash-based generator returns for every index exactly the element its specification defines (the masked hash output, rejection-sampled below the modulus); random elements of fields and groups are always canonical and valid, and over many draws hit every bit position both ways and do not repeat; the excluded-value samplers never return an excluded value.',
     ['inputs', 'histories'], 'all 64-bit indices, all fields, long histories of draws',
     'Tests compare two generator outputs or none; bias, range and masking errors show only over many draws.',
     ['libff/common/rng.tcc', FP, 'libff/algebra/field_utils/bigint.tcc', 'libff/common/utils.tcc'], [('SHA512_rng rejection loop', 'libff/common/rng.tcc'), ('random_element rejection loop', FP)])
prop('P21', 'Every supported build configuration computes the same results',
     'With assembly or without, with assertions and debug checks or without, multi-threaded or not, binary or text, Montgomery or plain output, compressed or not, mixed addition or not, low memory or not: the library builds and any program over its fields, curves, multi-exponentiations and pairings computes the same mathematical values.',
     ['configurations', 'programs'], 'the build options the project offers, random programs over the public interface',
     'The tests run in exactly one configuration.',
     ['CMakeLists.txt', FP, AUX, ME] + GF, [('preprocessor-selected implementations', FP)])
prop('P22', 'Profiling does not change results and accounts correctly',
     'For every properly nested history of block entries and exits, the reported invocation counts equal the number of entries of each block, nesting is restored, per-block operation counts equal the operations executed inside, and enabling, disabling or clearing profiling never changes a computed value.',
     ['histories', 'configurations'], 'all well-nested histories of entering and leaving blocks, with output and counters inhibited or not',
     'No test exercises the profiler.',
     ['libff/common/profiling.cpp', FP], [('enter_block/leave_block maps', 'libff/common/profiling.cpp')])
prop('P23', 'The complex-double field stand-in behaves like a field element type',
     'For all moderate complex values, arithmetic, powers, inverses, comparisons and roots of unity of the floating-point stand-in agree with complex arithmetic to the documented tolerance.',
     ['inputs'], 'all finite complex numbers of moderate size, exponents and root orders',
     'The tests do not exercise it beyond construction.',
     ['libff/common/double.cpp', 'libff/common/double.hpp'], [('std::complex wrapper', 'libff/common/double.cpp')])
prop('P24', 'No admissible use triggers undefined behaviour or an internal assertion',
     'Any sequence of public operations on admissible values runs, in a build with assertions, debug checks and sanitizers, without a memory error, undefined behaviour, failed internal assertion or non-termination.',
     ['programs', 'inputs'], 'random programs over every public component, mixing values from different components, in the sanitized debug build',
     'The tests run without sanitizers and with assertions off in the recorded build.',
     [FP, ME, WN, 'libff/common/serialization.tcc'] + ALLG[:2], [('assertions and internal checks', FP)])
prop('P25', 'Results depend only on the arguments, not on earlier or concurrent calls',
     'For every set of computations on fields, groups, multi-exponentiations, window tables, pairings, conversions and streams of their own, each computes the same, correct result whatever was computed before it, whatever runs at the same time in other threads of the process (on shared arguments that are only read), and however often the parameters were initialised; no two threads access the same memory without synchronisation.',
     ['histories', 'schedules'], 'all sets of computations, in every order and interleaving',
     'The tests run every computation once, in one order and one thread.',
     [FP, ME, 'libff/common/profiling.cpp', 'libff/common/rng.tcc', WN], [('static data members set by the *_init functions', ME), ('profiling maps', 'libff/common/profiling.cpp')])
prop('P26', 'Printed values and type descriptions are true',
     'Printing an integer, a field element or a point shows its exact value: integers in decimal or hexadecimal, field elements in canonical (not Montgomery) form coefficient by coefficient, points in affine coordinates whatever their representation and the identity as "O", print_coordinates the coordinates as stored, vectors element by element in order; printing changes nothing. The generic helpers report the true kind, size and words of a field.',
     ['inputs', 'configurations'], 'all integers of several limb counts, all elements of every field, all points in every representation, all vectors of integers and strings',
     'The tests print nothing and look at no printed text; the type helpers are not called.',
     ['libff/algebra/field_utils/bigint.tcc', FP, 'libff/algebra/field_utils/field_utils.tcc', 'libff/common/utils.hpp'] + ALLG + GF, [('print and print_coordinates', ALLG[0]), ('Montgomery reduction before printing', FP), ('type helpers', 'libff/algebra/field_utils/field_utils.tcc')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
