"""What each check is and what its evidence says about it."""

GEN = ('Cases are generated from a choice sequence derived from VERIF_SEED, the test name and the case index; values mix uniform draws with '
       'structured ones (0, 1, -1, values near limb, carry and modulus edges, sparse and dense bit patterns, values whose Montgomery form has such a '
       'pattern, images of earlier values). A case counts once per distinct choice sequence actually consumed and build configuration. ')
REF = 'the reference in harness/ref.* (schoolbook tower, GF(2) and affine curve arithmetic on GMP integers, sharing no code with libff) and GMP are right'
ENV = 'x86-64, the installed g++ and libgmp/libsodium; the bn128 curve (it needs an uninitialised submodule) is not covered'
PUB = 'the curve and field parameters in harness/curve.hpp and gens.inc are the published ones'

# property: (technique, rule, further assumptions)
META = {
    'P01': ('property-based testing of every prime field against GMP residues, single operations, aliasing and generated straight-line programs',
            'Non-trivial: both operands of a binary operation (the operand of a unary one) are neither 0, 1 nor -1; a program always.', [PUB]),
    'P02': ('property-based testing of inverse, batch inverse and power against the reference fields, metamorphic laws for exponents',
            'Non-trivial: the inverted element is not one, a batch has more than one entry, an exponent exceeds 2.', [PUB]),
    'P03': ('property-based testing of conversions: round trips and GMP as the oracle',
            'Non-trivial: the converted value exceeds 1 (or is negative, or not below the modulus).', [PUB]),
    'P04': ('property-based testing of every extension field against schoolbook tower arithmetic, single operations, sparse products and generated programs',
            'Non-trivial: operands are neither 0, 1 nor -1 (Frobenius: and the power is not a multiple of the degree); a program always.', [PUB]),
    'P05': ('differential property-based testing of the cyclotomic operations against the reference field on generated unit-norm elements',
            'Non-trivial: the element is neither 1 nor -1, and an exponent exceeds 2.', [PUB]),
    'P06': ('property-based testing of square roots of generated squares, structured by the order of their 2-power part',
            'Non-trivial: the square is neither 0 nor 1. A root that is not found within the time limit of a case counts as non-termination.', [PUB]),
    'P07': ('property-based testing of parameters and generated root orders against their definitions in the reference fields',
            'Non-trivial: a constant or coefficient checked by its definition on random elements, or an order n above 2.', [PUB, 'generator order is tested for the prime factors that harness/ref finds (trial division and published factors)']),
    'P08': ('property-based testing of the binary fields against bit-wise polynomial arithmetic, single operations, programs and every prime factor of the group order',
            'Non-trivial: operands exceed 1; a program and an order test always.', []),
    'P09': ('stateful property-based testing of the group law against the affine law of the reference curve',
            'Non-trivial: neither operand is the identity; a history has more than one operation that used the current point.', [PUB]),
    'P10': ('metamorphic property-based testing: the same point in different scalings, equality, normal forms and batches',
            'Non-trivial: the points involved are not the identity; a batch has more than one entry and one that is not the identity.', [PUB]),
    'P11': ('differential property-based testing of every scalar multiplication against the reference curve and group laws',
            'Non-trivial: the scalar exceeds 2 (laws: both exceed 1).', [PUB]),
    'P12': ('differential property-based testing of every multi-exponentiation method against a sum with known discrete logarithms',
            'Non-trivial: more than one term.', [PUB]),
    'P13': ('differential property-based testing of window tables and fixed-base exponentiation against the reference curve',
            'Non-trivial: the base is not the identity (batch: and more than one scalar); a window choice above 1.', [PUB]),
    'P14': ('property-based testing of the reduced pairing against a textbook pairing in the reference tower, and of its laws',
            'Non-trivial: neither argument is the identity.', [PUB, 'the documented multiple of (q^k-1)/r in the final exponentiation is part of the specification']),
    'P15': ('differential property-based testing of every pairing entry point against the textbook pairing and each other, final exponentiation against one big power',
            'Non-trivial: no argument is the identity; for the final exponentiation: the element is neither 1 nor -1.', [PUB, 'the documented multiple of (q^k-1)/r in the final exponentiation is part of the specification']),
    'P16': ('stateful property-based testing of round trips: generated sequences of objects on one stream, byte determinism, decimal output against GMP',
            'Non-trivial: a sequence always; a single element other than 0, 1, -1; a bigint above 1.', ['streams that another program damaged or truncated are outside the property']),
    'P17': ('stateful property-based testing of round trips of points, vectors and precomputations against the reference curve',
            'Non-trivial: a sequence or long vector always; points other than the identity.', [PUB, 'streams that another program damaged or truncated are outside the property']),
    'P18': ('property-based testing of membership on generated near-miss triples, orders, cofactors and endomorphisms against the reference curve',
            'Non-trivial: a membership case always, elsewhere a point other than the identity (or outside the prime-order subgroup, or an element other than 0, 1, -1).', [PUB]),
    'P19': ('property-based testing against definitions in GMP, exhaustive for small arguments',
            'Non-trivial: the argument exceeds 2 (signed: is negative or exceeds 1; division: a non-zero dividend, divisor other than 1).', ['machine integers are 64 bits wide; FORMAT results of at most 255 characters']),
    'P20': ('property-based testing of histories of draws from a scripted source of randomness; differential testing of the hash-based generator against libsodium SHA-512',
            'Non-trivial: every case (a sampler case: when the scripted source is not empty). One history case is 1500 draws; uniformity is rejected beyond nine standard deviations.', [PUB, 'std::random_device and libsodium randombytes are uniform: the harness replaces them by a scripted stream', 'libsodium SHA-512 is right']),
    'P21': ('differential property-based testing: the same generated programs over fields, groups, multi-exponentiation, pairings and serialization in nine build configurations, against a model and against each other',
            'Non-trivial: every program.', [PUB, 'clang 18 and g++ 13 stand for the supported compilers']),
    'P22': ('model-based property-based testing of histories of profiling blocks; operation counters of every field and group on generated programs; library calls with profiling on and off',
            'Non-trivial: every case.', [PUB, 'block names identify blocks: a block is not entered again while it is open, and a block is left in the inhibition mode in which it was entered']),
    'P23': ('differential property-based testing against complex long double arithmetic, metamorphic laws',
            'Non-trivial: operands are not zero and exponents exceed 1, an order above 2, an integer above 1; comparisons and laws always.', ['values of moderate size: powers below 10^15, inverses of numbers above 10^-4; arithmetic may round relative to the size of its operands']),
    'P24': ('property-based testing and random programs over every component under AddressSanitizer, UndefinedBehaviorSanitizer, checked containers, internal assertions, threads and memcheck',
            'Non-trivial: every case.', ['a defect that the sanitizers, libstdc++ debug mode, memcheck and the internal assertions do not report is not seen', 'memcheck sees only the NDEBUG build with assembly']),
    'P25': ('stateful property-based testing: generated jobs on shared arguments run one after the other, at the same time in threads (also under ThreadSanitizer), and in the reverse order; compared with each other and with the reference',
            'Non-trivial: every case (two to five jobs whose arguments almost agree).', [PUB, 'the schedules explored are those the machine happens to take; ThreadSanitizer sees unordered accesses in portable code without OpenMP', 'profiling counters are on only in builds with MULTICORE, where the library synchronises them']),
    'P26': ('property-based testing: the captured output is parsed back and compared with the generated value (round trip through text); type helpers against the reference field',
            'Non-trivial: the value is neither 0 nor 1, the point is not the identity.', [PUB]),
}


def rule(pid):
    return GEN + META[pid][1]


def technique(pid):
    return META[pid][0]


def assumptions(pid):
    return [REF, ENV] + META[pid][2]
