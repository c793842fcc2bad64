// P25: binary fields and helpers that run after, before and beside each other.
#include "gf2.hpp"
#include "jobs.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/common/double.hpp>
#include <libff/common/serialization.hpp>
#include <libff/common/utils.hpp>
#include <complex>
using namespace gf2;
namespace {
struct Ctx { Z v[5][4]; uint64_t n; };
template<class F> void gf(const Ctx &c, Src &s, int f)
{
    const Ref &R = ref_of<F>(); const Z a = c.v[f][s.draw(3)], b = c.v[f][s.draw(3)]; const F x = enc<F>(a), y = enc<F>(b);
    switch (s.draw(7)) {
    case 0: EXPECT_GF(F, x * y, R.mul(a, b), "a*b"); break;
    case 1: EXPECT_GF(F, x.squared() + y, R.mul(a, a) ^ b, "a^2+b"); break;
    case 2: if (a != 0) EXPECT_GF(F, x.inverse(), R.inv(a), "inverse"); break;
    case 3: EXPECT_GF(F, x ^ c.n, R.pow(a, lf::z_of_u64(c.n)), "a^n"); break;
    case 4: EXPECT_GF(F, x.sqrt().squared(), a, "sqrt"); break;
    case 5: { std::stringstream st; st << x << OUTPUT_NEWLINE << std::vector<F>(3, y) << x; F z; std::vector<F> v; st >> z; libff::consume_OUTPUT_NEWLINE(st); st >> v; CHECK(!st.fail() && z == x && v == std::vector<F>(3, y), "write and read"); s.digest(st.str()); break; }
    case 6: { F z; const auto w = x.to_words(); CHECK(z.from_words(w) && z == x, "words"); std::vector<F> v(1 + s.draw(4), a == 0 ? F::one() : x); batch_invert<F>(v); for (auto &u : v) CHECK(u * (a == 0 ? F::one() : x) == F::one(), "batch_invert"); break; }
    default: { std::set<Z> seen; for (int i = 0; i < 3; i++) { const F z = F::random_element(); CHECK(R.bits < 100 || seen.insert(dec(z)).second, "the same random element twice"); } }
    }
}
void fields(const Ctx &c, Src &s) { switch (s.draw(4)) { case 0: gf<libff::gf32>(c, s, 0); break; case 1: gf<libff::gf64>(c, s, 1); break; case 2: gf<libff::gf128>(c, s, 2); break; case 3: gf<libff::gf192>(c, s, 3); break; default: gf<libff::gf256>(c, s, 4); } }
void helpers(const Ctx &c, Src &s)
{
    const uint64_t n = c.n + s.draw(2);
    switch (s.draw(4)) {
    case 0: s.digest(std::to_string(libff::log2(n % 100000 + 1)) + " " + std::to_string(libff::bitreverse(n & 255, 8)) + " " + std::to_string(libff::to_twos_complement(-(int)(n & 63), 8))); break;
    case 1: { const libff::Double a((double)(n & 255) + 1), b(2.5); s.digest(std::to_string((double)(a * b + a.inverse() - (b ^ 3ul)).val.real())); break; }
    case 2: { libff::bit_vector v(1 + (n & 31)); for (size_t i = 0; i < v.size(); i++) v[i] = n >> i & 1; std::stringstream st; libff::serialize_bit_vector(st, v); libff::bit_vector w; libff::deserialize_bit_vector(st, w); CHECK(v == w, "bit vector"); s.digest(st.str()); break; }
    case 3: { const auto b = libff::int_list_to_bits({n & 7, n >> 3 & 7}, 4); std::string d; for (bool x : b) d += x ? '1' : '0'; s.digest(d); break; }
    default: s.digest(std::to_string(libff::div_ceil((long long)(n & 0xffff), 7)) + libff::FORMAT("p", "%d", (int)(n & 99)));
    }
}
const Kind<Ctx> KINDS[] = {{"binary field operations", fields}, {"helpers", helpers}};
void all()
{
    pbt::reg("binary fields/jobs", 600, [](Src &s) {
        Ctx c; const int bits[] = {32, 64, 128, 192, 256};
        for (int f = 0; f < 5; f++) { const Z a = gen(s, bits[f]); c.v[f][0] = a; c.v[f][1] = a ^ 1; c.v[f][2] = a ^ (Z(1) << (bits[f] - 1)); c.v[f][3] = gen_related(s, f == 0 ? ref_of<libff::gf32>() : f == 1 ? ref_of<libff::gf64>() : f == 2 ? ref_of<libff::gf128>() : f == 3 ? ref_of<libff::gf192>() : ref_of<libff::gf256>(), a); }
        c.n = lf::gen_limb(s); run_jobs(s, c, KINDS); });
}
PBT_REGISTER(all)
}
