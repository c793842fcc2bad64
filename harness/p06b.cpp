// P06: square roots in binary fields (every element is a square).
#include "gf2.hpp"
using namespace gf2;
namespace {
template<class F> void root(Src &s)
{
    const Ref &R = ref_of<F>(); const Z a = gen(s, R.bits); const F x = enc<F>(a), x0 = x; if (a > 1) s.nt(); s.say(hex(a));
    const Z r = dec(x.sqrt()); CHECK(R.mul(r, r) == a, "sqrt(" << hex(a) << ") = " << hex(r)); CHECK(x == x0, "operand changed");
    EXPECT_GF(F, enc<F>(R.mul(a, a)).sqrt(), a, "sqrt(a^2)");
}
void all()
{
    pbt::reg("gf32/sqrt", 3000, root<gf32>); pbt::reg("gf64/sqrt", 3000, root<gf64>); pbt::reg("gf128/sqrt", 2000, root<gf128>); pbt::reg("gf192/sqrt", 2000, root<gf192>); pbt::reg("gf256/sqrt", 1600, root<gf256>);
}
PBT_REGISTER(all)
}
