// P02: inversion, batch inversion and powers in the binary fields.
#include "gf2.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
using namespace gf2;
namespace {
template<class F> void inverse(Src &s)
{
    const Ref &R = ref_of<F>(); Z a = gen(s, R.bits); if (a == 0) a = 1;
    F x = enc<F>(a); if (a > 1) s.nt(); s.say(std::string(gname<F>()) + " inverse of " + hex(a));
    EXPECT_GF(F, x.inverse(), R.inv(a), "inverse"); EXPECT_GF(F, x.inverse() * x, Z(1), "a^-1 a"); EXPECT_GF(F, x, a, "operand");
    F &r = x.invert(); CHECK(&r == &x, "invert"); EXPECT_GF(F, x, R.inv(a), "invert");
}
template<class F> void batch_of(Src &s, int len)
{
    const Ref &R = ref_of<F>();
    std::vector<Z> a; std::vector<F> v;
    for (int i = 0; i < len; i++) { a.push_back(i && s.chance(1, 4) ? a[s.draw(i - 1)] : gen(s, R.bits)); if (a[i] == 0) a[i] = 1; v.push_back(enc<F>(a[i])); }
    if (len > 1) s.nt(); s.say("batch of " + std::to_string(len));
    batch_invert<F>(v);
    CHECK((int)v.size() == len, "length changed");
    for (int i = 0; i < len; i++) EXPECT_GF(F, v[i], R.inv(a[i]), "element " << i);
}
template<class F, int M> void pow_big(Src &s, const Z &a, const F &x)
{
    const Ref &R = ref_of<F>();
    Z e = lf::gen_limbs(s, M); if (s.coin()) e >>= s.draw(64 * M - 1);
    if (s.chance(1, 6)) e = (Z(1) << R.bits) - 2 + (long)s.draw(3);
    e = ref::zmod(e, Z(1) << (64 * M));
    if (e > 2) s.nt(); s.say("a=" + hex(a) + " e=" + hex(e));
    const Z w = R.pow(a, e); const bigint<M> b = lf::to_bigint<M>(e);
    EXPECT_GF(F, x ^ b, w, "a^bigint " << hex(e)); F y = x; y ^= b; EXPECT_GF(F, y, w, "a^=bigint"); EXPECT_GF(F, (power<F, M>(x, b)), w, "power");
}
template<class F> void powers(Src &s)
{
    const Ref &R = ref_of<F>(); const uint64_t kind = s.cycle(6);
    const Z a = gen(s, R.bits); const F x = enc<F>(a);
    switch (kind) {
    case 0: { const uint64_t u = lf::gen_limb(s); const Z e = lf::z_of_u64(u), w = R.pow(a, e); if (e > 2) s.nt(); s.say("a=" + hex(a) + " ulong e=" + hex(e));
        EXPECT_GF(F, x ^ (unsigned long)u, w, "a^ulong"); F y = x; y ^= (unsigned long)u; EXPECT_GF(F, y, w, "a^=ulong"); EXPECT_GF(F, power<F>(x, (unsigned long)u), w, "power(ulong)"); break; }
    case 1: pow_big<F, 1>(s, a, x); break;
    case 2: pow_big<F, 4>(s, a, x); break;
    case 3: pow_big<F, 6>(s, a, x); break;
    case 4: { const uint64_t u = lf::gen_limb(s); const Z e = lf::z_of_u64(u); if (e > 2) s.nt(); s.say("a=" + hex(a) + " ull e=" + hex(e)); EXPECT_GF(F, power<F>(x, (unsigned long long)u), R.pow(a, e), "power(ull)"); break; }
    default: { const int k = s.draw(5); std::vector<unsigned long long> w; Z e; for (int i = 0; i < k; i++) { w.push_back(lf::gen_limb(s)); e <<= 64; e += lf::z_of_u64(w.back()); }
        if (e > 2) s.nt(); s.say("a=" + hex(a) + " words e=" + hex(e)); EXPECT_GF(F, power<F>(x, w), R.pow(a, e), "power(words) " << hex(e)); break; }
    }
}
template<class F> void fam(uint64_t n)
{
    const std::string f = gname<F>();
    pbt::reg(f + "/inverse", n, inverse<F>); pbt::reg(f + "/batch-inverse", n / 4, [](Src &s) { batch_of<F>(s, s.draw(12)); }); pbt::reg(f + "/long-batch-inverse", 54, [](Src &s) { batch_of<F>(s, pbt::long_len(s, 600)); }); pbt::reg(f + "/power", n / 10, powers<F>);
}
void all() { fam<gf32>(6000); fam<gf64>(6000); fam<gf128>(5000); fam<gf192>(4000); fam<gf256>(3000); }
PBT_REGISTER(all)
}
