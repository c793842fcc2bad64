#!/usr/bin/env python3
"""Writes known_findings.json. Only entries with status "known" suppress anything (vf.py)."""
import json, os
FIXED = [
    ('P16', 'bd7f832', 'gf32..gf256 wrote decimal text with empty separators under BINARY_OUTPUT, so consecutive elements ran together; input: a std::vector<gf64> of two elements in configuration A'),
    ('P16', '2f7c68f', 'operator>>(std::istream&, std::vector<T>&) was declared with an output stream, so extracting a vector from a std::stringstream (reserialize of a vector) was ambiguous; call site serialization.hpp'),
    ('P07', '637d83c', 'get_root_of_unity(n) for n >= 2^32 computed with a 32-bit shift; input: get_root_of_unity<bls12_381_Fr>(1ull << 32)'),
    ('P11', '69bfee3', 'find_wnaf lost the carry out of the top limb; input: window 1, bigint<1> 2^64-1 (sum of digits is -1 instead of 2^64-1)'),
    ('P21', 'b652490', 'PROFILE_OP_COUNTS builds did not link: the binary fields defined their counters in headers; gf64.hpp and the others'),
    ('P21', 'ded8ed6', 'builds without NDEBUG did not compile: test_invariant was a static member function using this; edwards/mnt pairings'),
    ('P14', '439de2e', 'pairings with an identity argument: e(0, Q) and e(P, 0) were zero or garbage instead of one; input: reduced_pairing(G1::zero(), G2::one()) on every curve'),
    ('P03', 'a7020d2', 'Fp::from_words compared with the modulus only after the reducing conversion, so it reported any words as valid without MONTGOMERY_OUTPUT; input: the words of the modulus in configuration N'),
    ('P03', '2627664', 'Fp(long) negated LONG_MIN (undefined behaviour); input: Fp(LONG_MIN)'),
    ('P22', '5fe7c70', 'edwards_tate_reduced_pairing left a block with another name than the one it entered (assertion failure without NDEBUG); call site edwards_pairing.cpp'),
    ('P08', '3606bbf', 'the published multiplicative generator 2 of gf192 has order (2^192-1)/7; input: 2^((2^192-1)/7) == 1'),
    ('P18', 'cb00344', 'G2::mul_by_b of alt_bn128 and bls12_381 multiplied by the coefficient of G1; input: alt_bn128_G2::mul_by_b(1)'),
    ('P12', 'caec556', 'bigint comparison in ordered_exponent lacked a memory clobber: wrong sums of Bos-Coster at -O2 with USE_ASM; input: scalars 1, 1, 1'),
    ('P15', '01cfd51', 'mnt6 affine Miller loop ignored that the loop count is negative: affine_reduced_pairing was the inverse of reduced_pairing; input: the generators'),
    ('P22', '00544a7', 'enter_block recorded the operation counters only when not inhibited, but leave_block always accumulated the difference: wrong per-block operation counts; history: inhibit_profiling_info, enter, multiply, leave'),
    ('P15', '239e886', 'edwards Tate pairing with an identity argument was zero or failed an assertion; input: edwards_tate_reduced_pairing(edwards_G1::zero(), edwards_G2::one())'),
    ('P16', 'bcefc73', 'the stream operators of vectors of Fp6_2over3 elements were declared but not defined; call site fp6_2over3.hpp'),
    ('P16', '19a8561', 'reading a vector of Fp2, Fp3, Fp6_3over2 or Fp12 elements in text mode left the last newline in the stream; input: any such vector of one element followed by a point'),
    ('P16', '1f76db8', 'deserialize_bit_vector left the last newline in the stream; input: an empty bit vector followed by anything'),
    ('P19', 'cec81df', 'div_ceil was wrong for a negative dividend or divisor and overflowed near LLONG_MAX; input: div_ceil(-8, 2) was -3'),
    ('P23', 'fdad24b', 'Double::zero() ^ 0 was not a number; input: Double(0) ^ 0'),
    ('P22', '293bed6', 'Fp::squared of 3-limb fields with USE_ASM decremented mul_cnt without an upcoming multiplication; input: any squaring in edwards_Fr with PROFILE_OP_COUNTS'),
    ('P22', 'b3abb7b', 'bls12_381 G1 and G2 operator+ did not count additions; input: any sum of two different points'),
    ('P22', 'a84835d', 'mnt4 and mnt6 operator+ counted neither additions nor doublings; input: any sum'),
    ('P22', 'de44b03', 'mnt4 and mnt6 mixed_add of equal points counted an addition and a doubling; input: P.mixed_add(P)'),
    ('P22', 'a62ea27', 'clear_profiling_counters kept the cumulative operation counts, so later averages were wrong; history: enter and leave a block, clear, enter and leave it again, print_cumulative_op_counts'),
    ('P25', '5c28293', 'enter_block and leave_block changed the shared profiling maps and counts without synchronisation, so multi_exp with BDLO12, USE_MIXED_ADDITION and several chunks crashed in a MULTICORE build; history: 8 chunks, profiling counters on'),
    ('P17', '6b7da3d', 'compressed G2 points store the lowest bit of Y.c0 as the sign of Y, which is no sign when Y.c0 is zero: such a point and its negative were written alike; input: bls12_381 G2 point with Y.c0 = 0, for instance with X.c1 = 2 (well formed, outside the prime-order subgroup)'),
]
KNOWN = []
out = {'findings': [{'status': 'fixed', 'property': p, 'commit': c, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, c, w)} for p, c, w in FIXED] + KNOWN}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
