// P18: membership, order, cofactor and the untwist-Frobenius endomorphism.
#include "group.hpp"
using namespace lf;
namespace {
// well-formedness of arbitrary coordinates
template<class G> void membership(Src &s)
{
    const Curve &C = cv<G>(); const Field &F = cf<G>(); typedef typename Grp<G>::CF CF; const int kind = s.cycle(6);
    static const char *names[] = {"curve point", "arbitrary coordinates", "curve point, y changed", "curve point, x changed", "point of another curve", "curve point, z changed"}; s.label(names[kind]);
    bool sub = true; Pt P = gen_pt<G>(s, &sub); const E l = gen_scale<G>(s); G a;
    if (P.inf) P = C.g;
    Pt Q = P; bool reenc = true;
    switch (kind) {
    case 0: break;
    case 1: Q.x = gen_elem(s, F, NQ); Q.y = gen_elem(s, F, NQ); break;
    case 2: { const E e = gen_elem(s, F, NQ); Q.y = s.coin() ? F.add(P.y, e) : e; break; }
    case 3: { const E e = gen_elem(s, F, NQ); Q.x = s.coin() ? F.add(P.x, e) : e; break; }
    case 4: { // satisfies the equation with another constant term (invalid-curve points)
        Q.x = gen_elem(s, F, NQ); Q.y = gen_elem(s, F, NQ);
        if (COORD != INVERTED) { const E t = gen_elem(s, F, NQ), u = F.add(F.mul(F.add(F.sqr(t), C.a), t), s.coin() ? F.neg(C.b) : F.add(C.b, F.from(s.draw(3)))); E r; if (!F.sqrt(u, r)) throw pbt::Discard(); Q.x = t; Q.y = r; }
        break; }
    default: reenc = false; a = enc_pt<G>(P, l); { const E z = gen_scale<G>(s); a.Z = enc<CF>(F.mul(dec(a.Z), z)); Q = P;
        if (COORD == JACOBIAN) { const E i = F.inv(z); Q.x = F.mul(P.x, F.sqr(i)); Q.y = F.mul(P.y, F.mul(i, F.sqr(i))); }
        else if (COORD == PROJECTIVE) { Q.x = F.mul(P.x, F.inv(z)); Q.y = F.mul(P.y, F.inv(z)); }
        else { Q.x = F.mul(P.x, z); Q.y = F.mul(P.y, z); } }
    }
    if (COORD == INVERTED && (F.is_zero(Q.x) || F.is_zero(Q.y))) throw pbt::Discard();
    if (reenc) a = enc_pt<G>(Q, l);
    const bool on = C.on(Q); s.nt(); s.label(on ? "on the curve" : "off the curve"); s.say(C.str(Q) + "*" + F.str(l));
    CHECK(a.is_well_formed() == on, "is_well_formed of " << C.str(Q) << " scaled by " << F.str(l) << (on ? ", a curve point" : ", not a curve point"));
}
template<class G> void orders(Src &s)
{
    const Curve &C = cv<G>(); s.cycle(1); bool sub; const Pt P = gen_pt<G>(s); const G a = enc_pt<G>(P, gen_scale<G>(s)); if (!P.inf) s.nt(); s.say(C.str(P));
    const bigint<NR> r = G::order(); CHECK(to_z(r) == MOD_R, "order() is " << to_z(r).get_str()); CHECK(to_z(G::field_char()) == MOD_Q, "field_char()");
    CHECK((r * a).is_zero(), "order times an element is not zero"); CHECK((r * G::one()).is_zero(), "order times one()");
    bigint<NR> r1 = to_bigint<NR>(MOD_R - 1); EXPECT_PT(G, r1 * a, C.neg(P), "(order - 1) P"); bigint<NR> r2 = to_bigint<NR>(MOD_R + 1); EXPECT_PT(G, r2 * a, P, "(order + 1) P");
    CHECK(G::size_in_bits() == (size_t)cf<G>().deg * ref::bits(MOD_Q) + 1, "size_in_bits is " << G::size_in_bits());
    CHECK(a.is_well_formed() && G::one().is_well_formed() && G::zero().is_well_formed(), "elements are well-formed");
    EXPECT_PT(G, G::one(), C.g, "one() is the published generator"); EXPECT_PT(G, G::zero(), Pt(), "zero()");
    const int n = s.draw(2); std::vector<G> v; for (int i = 0; i < n; i++) v.push_back(G::random_element());
    for (auto &x : v) { CHECK(x.is_well_formed(), "random element is well-formed"); CHECK((r * x).is_zero(), "random element has order dividing r"); const Pt X = dec_pt<G>(x); CHECK(C.on(X), "random element is on the curve"); }
}
#if CRV != 3
template<class G> void cofactor(Src &s)
{
    const GroupData &d = gd<G>(); const Curve &C = d.c; const Z h = to_z(G::h); Pt P; bool out = false;
    if (!d.outside.empty() && s.chance(3, 4)) {
        out = true; P = d.outside[s.draw(d.outside.size() - 1)]; if (s.coin()) P = C.add(P, d.outside[s.draw(d.outside.size() - 1)]); if (s.coin()) P = C.add(P, d.pool[s.draw(47)]); if (P.inf) P = d.outside[0]; }
    else P = gen_pt<G>(s);
    if (out) s.nt(); s.label(out ? "outside the subgroup" : "in the subgroup"); s.say(C.str(P)); if (d.outside.empty() && !P.inf) s.nt();
    const G a = enc_pt<G>(P, gen_scale<G>(s)), b = a.mul_by_cofactor(); const Pt W = C.mul(h, P);
    EXPECT_PT(G, b, W, "mul_by_cofactor of " << C.str(P)); CHECK((G::order() * b).is_zero(), "h P lies in the subgroup of order r, P=" << C.str(P)); CHECK(b.is_well_formed(), "h P is well-formed");
    if (d.outside.empty()) CHECK(h == 1, "cofactor of a prime-order curve is " << h.get_str());
    else { // Hasse: h is the only multiple count that fits #E = h r
        const Z q = C.F->order, N = h * MOD_R, t = q + 1 - N; CHECK(t * t <= 4 * q, "h r = " << N.get_str() << " is outside the Hasse interval"); CHECK(C.mul(N, P).inf, "h r P is not zero"); }
}
#endif
// the endomorphism psi = twist . Frobenius . untwist on the subgroup of order r
void endo(Src &s)
{
    const GroupData &d = gd<G2_>(); const Pt P = gen_pt<G2_>(s); const G2_ a = enc_pt<G2_>(P, gen_scale<G2_>(s)); if (!P.inf) s.nt(); s.say(d.c.str(P));
    const G2_ b = a.mul_by_q(); const Z q = ref::zmod(MOD_Q, MOD_R); const Pt W = d.c.mul(q, P);
    EXPECT_PT(G2_, b, W, "mul_by_q of " << d.c.str(P)); CHECK(b == G2_::field_char() * a, "mul_by_q and multiplication by q"); CHECK(b.is_well_formed(), "q P is well-formed");
    const Pt Q = gen_pt<G2_>(s); const G2_ c = enc_pt<G2_>(Q, gen_scale<G2_>(s)); CHECK((a + c).mul_by_q() == b + c.mul_by_q(), "mul_by_q is additive");
}
// mul_by_a / b / d helpers are products with the twist's coefficients
void coeffs(Src &s)
{
    const Curve &C = cv<G2_>(); const Field &F = *C.F; const E e = gen_elem(s, F, NQ); const Fe_ x = enc<Fe_>(e); if (!trivial_elem(F, e)) s.nt(); s.say(F.str(e));
#if CRV == 3
    EXPECT_ELEM(F, G2_::mul_by_a(x), F.mul(C.a, e), "mul_by_a"); EXPECT_ELEM(F, G2_::mul_by_d(x), F.mul(C.b, e), "mul_by_d");
#elif CRV == 4 || CRV == 5
    EXPECT_ELEM(F, G2_::mul_by_a(x), F.mul(C.a, e), "mul_by_a"); EXPECT_ELEM(F, G2_::mul_by_b(x), F.mul(C.b, e), "mul_by_b");
    EXPECT_ELEM(F, G2_::coeff_a, C.a, "G2::coeff_a"); EXPECT_ELEM(F, G2_::coeff_b, C.b, "G2::coeff_b"); EXPECT_ELEM(T().fq, G1_::coeff_a, cv<G1_>().a, "G1::coeff_a"); EXPECT_ELEM(T().fq, G1_::coeff_b, cv<G1_>().b, "G1::coeff_b");
#else
    EXPECT_ELEM(F, G2_::mul_by_b(x), F.mul(C.b, e), "mul_by_b");
#endif
}
template<class G> void fam(uint64_t n)
{
    const std::string g = Grp<G>::name();
    pbt::reg(g + "/membership", 4 * n, membership<G>); pbt::reg(g + "/orders", n / 2, orders<G>);
#if CRV != 3
    pbt::reg(g + "/cofactor", n / 10, cofactor<G>);
#endif
}
void all() { fam<G1_>(500); fam<G2_>(300); pbt::reg(std::string(Grp<G2_>::name()) + "/mul-by-q", 100, endo); pbt::reg(std::string(Grp<G2_>::name()) + "/coefficients", 500, coeffs); }
PBT_REGISTER(all)
}
