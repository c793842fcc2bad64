// P06: square roots of squares.
#include "curve.hpp"
using namespace lf;
namespace {
template<class F> void root(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>();
    static const Z s2 = [&] { Z t = R.order - 1; unsigned long k = mpz_scan1(t.get_mpz_t(), 0); return Z(k); }();
    static const Z t = (R.order - 1) >> s2.get_ui();
    E a;
    const uint64_t kind = s.cycle(6);
    static const char *names[] = {"square of an edge element", "small number, squared", "element of 2-power order", "base-field element", "square of a sparse element", "general square"};
    s.label(names[kind]);
    switch (kind) {
    case 1: a = R.from(z_of_u64(s.draw(200))); break;
    case 2: { // the whole 2-Sylow subgroup: worst cases of Tonelli-Shanks
        static const E g = [&] { // a generator of it, from any non-residue
            pbt::Src q; E c; uint64_t st = 5;
            for (;;) { c = R.zero(); for (auto &x : c) { Z z; for (int i = 0; i < NQ + 1; i++) { st = pbt::mix64(st); z <<= 64; z += z_of_u64(st); } x = ref::zmod(z, R.p); } if (R.pow(c, (R.order - 1) / 2) != R.one()) break; }
            return R.pow(c, t); }();
        E h = g; const int k = s.draw(s2.get_ui()); for (int i = 0; i < k; i++) h = R.sqr(h); // order 2^(s-k)
        a = R.pow(h, z_of_u64(2 * s.draw(500) + 1)); if (s.coin()) a = R.mul(a, R.from(z_of_u64(1 + s.draw(5)))); break; }
    case 3: { a = R.zero(); a[0] = gen_mod(s, R.p, n); break; }
    case 4: { a = R.zero(); a[s.draw(R.deg - 1)] = gen_mod(s, R.p, n); break; }
    default: a = gen_elem(s, R, n);
    }
    const E sq = R.sqr(a); const F x = enc<F>(sq), x0 = x;
    if (!trivial_elem(R, sq)) s.nt(); s.say("root of " + R.str(sq));
    const F y = x.sqrt(); const E b = dec(y);
    CHECK(x == x0, "operand changed");
    CHECK(R.sqr(b) == sq, "sqrt(" << R.str(sq) << ") = " << R.str(b) << " which squares to " << R.str(R.sqr(b)));
    CHECK(b == a || b == R.neg(a), "not plus or minus the root");
    CHECK(y == enc<F>(b), "not canonical"); CHECK(y.squared() == x, "squared() of the root");
}
void all()
{
    pbt::reg(std::string(fname<Fr_>()) + "/sqrt", 3000, root<Fr_>); pbt::reg(std::string(fname<Fq_>()) + "/sqrt", 3000, root<Fq_>);
    pbt::reg(std::string(fname<Fe_>()) + "/sqrt", 600, root<Fe_>);
#ifdef HAS_FM
    pbt::reg(std::string(fname<Fm_>()) + "/sqrt", 120, root<Fm_>); pbt::reg(std::string(fname<Fk_>()) + "/sqrt", 60, root<Fk_>);
#else
    pbt::reg(std::string(fname<Fk_>()) + "/sqrt", 240, root<Fk_>);
#endif
}
PBT_REGISTER(all)
}
