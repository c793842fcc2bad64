// P21: binary fields, integers and utilities compute the same in every configuration.
#include "gf2.hpp"
#include <libff/algebra/field_utils/bigint.hpp>
#include <libff/common/double.hpp>
#include <libff/common/utils.hpp>
using namespace gf2;
namespace {
template<class F> void program(Src &s)
{
    const Ref &R = ref_of<F>(); const int K = 4, len = 4 + s.draw(12); Z m[K]; F x[K]; std::ostringstream os; s.nt();
    for (int i = 0; i < K; i++) { m[i] = gen(s, R.bits); x[i] = enc<F>(m[i]); }
    for (int t = 0; t < len; t++) {
        const int d = s.draw(K - 1), a = s.draw(K - 1), b = s.draw(K - 1), op = s.draw(8); os << "+-*S2IPQW"[op];
        switch (op) {
        case 0: x[d] = x[a] + x[b]; m[d] = m[a] ^ m[b]; break;
        case 1: x[d] -= x[b]; m[d] = m[d] ^ m[b]; break;
        case 2: x[d] = x[a] * x[b]; m[d] = R.mul(m[a], m[b]); break;
        case 3: x[d].square(); m[d] = R.mul(m[d], m[d]); break;
        case 4: x[d] *= x[d]; m[d] = R.mul(m[d], m[d]); break;
        case 5: if (m[a] != 0) { x[d] = x[a].inverse(); m[d] = R.inv(m[a]); } break;
        case 6: { const unsigned long e = lf::gen_limb(s); x[d] = x[a] ^ e; m[d] = R.pow(m[a], lf::z_of_u64(e)); break; }
        case 7: x[d] = x[a].sqrt(); { const Z w = dec(x[d]); CHECK(R.mul(w, w) == m[a], gname<F>() << " square root of " << hex(m[a])); m[d] = w; } break;
        default: { F y; y.from_words(x[a].to_words()); x[d] = y; m[d] = m[a]; }
        }
    }
    s.say(std::string(gname<F>()) + " " + os.str());
    for (int i = 0; i < K; i++) { EXPECT_GF(F, x[i], m[i], "register " << i << " after " << os.str()); s.digest(hex(m[i])); }
}
template<mp_size_t n> void ints(Src &s)
{
    const Z a = lf::gen_limbs(s, n), b = lf::gen_limbs(s, n); const libff::bigint<n> x = lf::to_bigint<n>(a), y = lf::to_bigint<n>(b); s.nt(); s.say(a.get_str(16) + " " + b.get_str(16));
    CHECK((x < y) == (a < b) && (x == y) == (a == b) && (x != y) == (a != b), "comparison"); CHECK(x.num_bits() == ref::bits(a), "num_bits"); CHECK(x.as_ulong() == lf::u64_of_z(a), "as_ulong");
    const libff::bigint<n> z(a.get_str().c_str()); CHECK(lf::to_z(z) == a, "from decimal " << a.get_str()); const size_t i = s.draw(64 * n - 1); CHECK(x.test_bit(i) == (mpz_tstbit(a.get_mpz_t(), i) != 0), "test_bit " << i);
    std::stringstream st; st << x << OUTPUT_NEWLINE; libff::bigint<n> w; st >> w; CHECK(w == x, "reading back " << a.get_str());
    s.digest(std::to_string(libff::log2((size_t)lf::u64_of_z(a))) + " " + std::to_string(libff::bitreverse(lf::u64_of_z(a) & 0xffff, 16)) + " " + std::to_string(libff::to_twos_complement(-(int)(s.draw(99)), 32)));
}
void all()
{
    pbt::reg("gf32/programs", 400, program<libff::gf32>); pbt::reg("gf64/programs", 400, program<libff::gf64>); pbt::reg("gf128/programs", 400, program<libff::gf128>); pbt::reg("gf192/programs", 400, program<libff::gf192>); pbt::reg("gf256/programs", 400, program<libff::gf256>);
    pbt::reg("integers-1", 2000, ints<1>); pbt::reg("integers-4", 2000, ints<4>); pbt::reg("integers-6", 2000, ints<6>);
}
PBT_REGISTER(all)
}
