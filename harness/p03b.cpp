// P03 (integers and binary fields)
#include "gf2.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
using namespace gf2;
using lf::to_z; using lf::to_bigint; using lf::z_of_u64; using lf::u64_of_z; using lf::gen_limb; using lf::gen_limbs;
namespace {

template<int n> void bigints(Src &s)
{
    Z z = gen_limbs(s, n); if (s.chance(1, 3)) z >>= s.draw(64 * n - 1);
    const uint64_t op = s.cycle(8);
    static const char *names[] = {"machine word", "decimal string", "GMP", "comparison", "bits", "parts", "clear / one", "copy"};
    s.label(names[op]); s.say(std::string(names[op]) + " " + z.get_str(16)); if (z > 1) s.nt();
    const bigint<n> b = to_bigint<n>(z);
    switch (op) {
    case 0: { const uint64_t v = gen_limb(s); const bigint<n> x(v); CHECK(to_z(x) == z_of_u64(v), "bigint(" << v << ")"); CHECK(x.as_ulong() == v, "as_ulong"); break; }
    case 1: { std::string t = z.get_str(); const bigint<n> x(t.c_str()); CHECK(to_z(x) == z && x == b, "bigint(\"" << t << "\")"); break; }
    case 2: { const bigint<n> x(z.get_mpz_t()); CHECK(x == b, "bigint(mpz 0x" << z.get_str(16) << ")"); Z back = 77; x.to_mpz(back.get_mpz_t()); CHECK(back == z, "to_mpz gives 0x" << back.get_str(16)); break; }
    case 3: {
        Z w; // differs in one limb, one bit, or everywhere
        switch (s.draw(4)) { case 0: w = z; break; case 1: w = z ^ (Z(1) << s.draw(64 * n - 1)); break; case 2: w = z ^ (z_of_u64(s.word()) << 64 * s.draw(n - 1)); break; case 3: w = z + 1; if (ref::bits(w) > 64 * n) w = 0; break; default: w = gen_limbs(s, n); }
        const bigint<n> c = to_bigint<n>(w);
        CHECK((b == c) == (z == w), "== of 0x" << z.get_str(16) << " 0x" << w.get_str(16)); CHECK((b != c) == (z != w), "!="); CHECK((b < c) == (z < w), "< of 0x" << z.get_str(16) << " 0x" << w.get_str(16)); CHECK((c < b) == (w < z), "> of 0x" << z.get_str(16) << " 0x" << w.get_str(16)); break; }
    case 4: {
        CHECK(b.num_bits() == ref::bits(z), "num_bits of 0x" << z.get_str(16) << " = " << b.num_bits()); CHECK(b.max_bits() == 64 * n, "max_bits");
        for (int i = 0; i < 64 * n + 66; i++) CHECK(b.test_bit(i) == (bool)mpz_tstbit(z.get_mpz_t(), i), "bit " << i << " of 0x" << z.get_str(16));
        CHECK(!b.test_bit(s.draw(1) ? ~0ull : s.word() | 0x10000), "bit far beyond"); break; }
    case 5: CHECK(b.is_zero() == (z == 0), "is_zero 0x" << z.get_str(16)); CHECK(b.is_even() == (mpz_even_p(z.get_mpz_t()) != 0), "is_even"); CHECK(b.as_ulong() == u64_of_z(z), "as_ulong"); break;
    case 6: { bigint<n> c = b; c.clear(); CHECK(c.is_zero() && to_z(c) == 0, "clear"); CHECK(to_z(bigint<n>::one()) == 1, "one"); CHECK(to_z(bigint<n>()) == 0, "default"); break; }
    default: { bigint<n> c = b, d; d = c; c.clear(); CHECK(d == b && to_z(d) == z, "copy"); }
    }
}

template<class F> void gfwords(Src &s)
{
    const Ref &R = ref_of<F>(); const Z a = gen(s, R.bits); const F x = enc<F>(a);
    if (a > 1) s.nt(); s.say(hex(a));
    const W w = x.to_words(), ww = words(a, R.bits);
    CHECK(w == ww, "to_words of " << hex(a));
    F y = enc<F>(gen(s, R.bits)); CHECK(y.from_words(w), "from_words rejects"); CHECK(y == x, "from_words(to_words)");
    EXPECT_GF(F, y, a, "from_words");
    if (R.bits < 64) { W v = w; v[0] |= gen_limb(s) << R.bits; y = enc<F>(gen(s, R.bits)); CHECK(y.from_words(v), "from_words rejects " << v[0] << ", whose higher bits do not count"); EXPECT_GF(F, y, a, "from_words of " << v[0]); }
}
template<class F> void gfhelp(Src &s)
{
    const Ref &R = ref_of<F>(); const Z a = gen(s, R.bits); const F x = enc<F>(a); if (a > 1) s.nt(); s.say(hex(a));
    const size_t k = s.draw((R.bits + 63) / 64 - 1);
    CHECK(get_word_of_field_elem<F>(x, k) == words(a, R.bits)[k], "get_word_of_field_elem");
    CHECK((int)log_of_field_size_helper<F>(x) == R.bits && (int)soundness_log_of_field_size_helper<F>(x) == R.bits, "field size helpers");
    CHECK(get_field_type<F>(x) == additive_field_type, "field type");
    CHECK(!is_multiplicative<F>::value && is_additive<F>::value, "traits");
}
template<class F> void gfctor1(Src &s) // from one machine word, where offered
{
    const uint64_t v = gen_limb(s); if (v > 1) s.nt(); s.say(std::to_string(v));
    EXPECT_GF(F, F(v), z_of_u64(v), "F(word)");
}
void all()
{
    pbt::reg("bigint<1>", 20000, bigints<1>); pbt::reg("bigint<2>", 20000, bigints<2>); pbt::reg("bigint<3>", 20000, bigints<3>);
    pbt::reg("bigint<4>", 20000, bigints<4>); pbt::reg("bigint<5>", 20000, bigints<5>); pbt::reg("bigint<6>", 20000, bigints<6>);
    pbt::reg("bigint<12>", 5000, bigints<12>);
    pbt::reg("gf32/words", 5000, gfwords<gf32>); pbt::reg("gf64/words", 5000, gfwords<gf64>); pbt::reg("gf128/words", 5000, gfwords<gf128>); pbt::reg("gf192/words", 5000, gfwords<gf192>); pbt::reg("gf256/words", 5000, gfwords<gf256>);
    pbt::reg("gf64/helpers", 2000, gfhelp<gf64>); pbt::reg("gf128/helpers", 2000, gfhelp<gf128>); pbt::reg("gf192/helpers", 2000, gfhelp<gf192>); pbt::reg("gf256/helpers", 2000, gfhelp<gf256>);
    pbt::reg("gf64/from word", 2000, gfctor1<gf64>); pbt::reg("gf128/from word", 2000, gfctor1<gf128>); pbt::reg("gf192/from word", 2000, gfctor1<gf192>); pbt::reg("gf256/from word", 2000, gfctor1<gf256>);
}
PBT_REGISTER(all)
}
