// P15: the different ways of computing a pairing agree.
#include "refpair.hpp"
using namespace lf;
namespace {
#if CRV == 1
#define CF(name) alt_bn128_##name
#elif CRV == 2
#define CF(name) bls12_381_##name
#elif CRV == 3
#define CF(name) edwards_##name
#elif CRV == 4
#define CF(name) mnt4_##name
#else
#define CF(name) mnt6_##name
#endif

template<class G> G gen_arg(Src &s, Z &e)
{
    const GroupData &d = gd<G>(); Pt P;
    switch (s.draw(5)) {
    case 0: e = 0; break;
    case 1: { const size_t i = s.draw(d.pool.size() - 1); e = d.pool_log[i]; P = d.pool[i]; break; }
    default: e = gen_mod(s, MOD_R, NR); P = d.fixed(e);
    }
    return enc_pt<G>(P, gen_scale<G>(s));
}
// a second argument beside P = p G: the same object, the same point in other
// coordinates, the opposite, or an unrelated one
template<class G> G gen_beside(Src &s, const G &P, const Z &p, Z &e)
{
    switch (s.draw(4)) {
    case 0: e = p; return P;
    case 1: e = p; return enc_pt<G>(dec_pt<G>(P), gen_scale<G>(s));
    case 2: e = p == 0 ? Z(0) : Z(MOD_R - p); return s.coin() ? -P : enc_pt<G>(gd<G>().c.neg(dec_pt<G>(P)), gen_scale<G>(s));
    default: return gen_arg<G>(s, e);
    }
}
std::string show(const Z &a, const Z &b) { return "a=" + a.get_str(16) + " b=" + b.get_str(16); }

void single(Src &s)
{
    const Field &F = T().fk; Z a, b; const G1_ P = gen_arg<G1_>(s, a); const G2_ Q = gen_arg<G2_>(s, b); s.cycle(1);
    if (a != 0 && b != 0) s.nt(); else s.label("an identity"); s.say(show(a, b));
    const E want = gt().pow(a * b);
    const auto pp = PP::precompute_G1(P); const auto pq = PP::precompute_G2(Q);
    const Fk_ f = PP::miller_loop(pp, pq), g = PP::pairing(P, Q);
    CHECK(f == g, "pairing(P, Q) differs from miller_loop(precompute_G1(P), precompute_G2(Q)), " << show(a, b));
    EXPECT_ELEM(F, PP::final_exponentiation(f), want, "final exponentiation of the Miller loop, " << show(a, b));
    EXPECT_ELEM(F, PP::reduced_pairing(P, Q), want, "reduced_pairing, " << show(a, b));
    // the curve's own functions
    CHECK(CF(miller_loop)(CF(precompute_G1)(P), CF(precompute_G2)(Q)) == f, "miller_loop of the curve, " << show(a, b));
    CHECK(CF(ate_miller_loop)(CF(ate_precompute_G1)(P), CF(ate_precompute_G2)(Q)) == f, "ate_miller_loop, " << show(a, b));
    CHECK(CF(ate_pairing)(P, Q) == f && CF(pairing)(P, Q) == f, "ate_pairing, " << show(a, b));
    switch (s.draw(3)) {
    case 0: EXPECT_ELEM(F, CF(reduced_pairing)(P, Q), want, "reduced_pairing of the curve, " << show(a, b)); break;
    case 1: EXPECT_ELEM(F, CF(ate_reduced_pairing)(P, Q), want, "ate_reduced_pairing, " << show(a, b)); break;
    default: EXPECT_ELEM(F, CF(final_exponentiation)(f), want, "final_exponentiation of the curve, " << show(a, b));
    }
    // precomputed arguments can be used again
    CHECK(PP::miller_loop(pp, pq) == f, "the Miller loop changed its arguments, " << show(a, b));
}
void doubled(Src &s)
{
    const Field &F = T().fk; Z a, b, c, d; const G1_ P = gen_arg<G1_>(s, a), R = gen_beside(s, P, a, c); const G2_ Q = gen_arg<G2_>(s, b), U = gen_beside(s, Q, b, d);
    s.label(std::string("G1 ") + (a == c ? "equal" : ref::zmod(a + c, MOD_R) == 0 ? "opposite" : "different") + ", G2 " + (b == d ? "equal" : ref::zmod(b + d, MOD_R) == 0 ? "opposite" : "different"));
    if (a != 0 && b != 0 && c != 0 && d != 0) s.nt(); else s.label("an identity"); s.say(show(a, b) + " and " + show(c, d));
    const auto p1 = PP::precompute_G1(P), p2 = PP::precompute_G1(R); const auto q1 = PP::precompute_G2(Q), q2 = PP::precompute_G2(U);
    const Fk_ f = PP::double_miller_loop(p1, q1, p2, q2);
    CHECK(f == PP::miller_loop(p1, q1) * PP::miller_loop(p2, q2), "double_miller_loop differs from the product of the two loops, " << show(a, b) << " and " << show(c, d));
    CHECK(f == CF(double_miller_loop)(p1, q1, p2, q2), "double_miller_loop of the curve, " << show(a, b) << " and " << show(c, d));
    CHECK(f == CF(ate_double_miller_loop)(CF(ate_precompute_G1)(P), q1, CF(ate_precompute_G1)(R), q2), "ate_double_miller_loop, " << show(a, b) << " and " << show(c, d));
    EXPECT_ELEM(F, PP::final_exponentiation(f), gt().pow(a * b + c * d), "final exponentiation of the double Miller loop, " << show(a, b) << " and " << show(c, d));
}
// the exponent, on arbitrary elements
void exponent(Src &s)
{
    const Field &F = T().fk; E a = gen_elem(s, F, NQ); s.cycle(1); if (F.is_zero(a)) a = F.gen();
    if (!trivial_elem(F, a)) s.nt(); s.say(F.str(a)); const Fk_ x = enc<Fk_>(a), x0 = x;
#if CRV == 2 || CRV >= 4
    // the published exponent is (q^k - 1)/r, whose power the result is (to the third for bls12_381)
    CHECK(to_z(CF(final_exponent)) * MOD_R == F.order - 1, "the final exponent constant");
    const Fk_ y = x ^ CF(final_exponent); CHECK((CRV == 2 ? y * y * y : y) == PP::final_exponentiation(x), "power by the final exponent constant of " << F.str(a));
#endif
    EXPECT_ELEM(F, PP::final_exponentiation(x), F.pow(a, rp().final_exponent), "final exponentiation of " << F.str(a)); CHECK(x == x0, "operand changed");
}
void homomorphism(Src &s)
{
    const Field &F = T().fk; E a = gen_elem(s, F, NQ), b = gen_elem(s, F, NQ); if (F.is_zero(a)) a = F.gen(); if (F.is_zero(b)) b = F.gen();
    if (!trivial_elem(F, a) && !trivial_elem(F, b)) s.nt(); s.say(F.str(a) + " and " + F.str(b)); const Fk_ x = enc<Fk_>(a), y = enc<Fk_>(b);
    const Fk_ ex = PP::final_exponentiation(x), ey = PP::final_exponentiation(y);
    CHECK(PP::final_exponentiation(x * y) == ex * ey, "final exponentiation of a product");
    CHECK((ex ^ Fr_::field_char()) == Fk_::one(), "order of the result");
    CHECK(ex.unitary_inverse() == PP::final_exponentiation(x.inverse()), "final exponentiation of an inverse");
#if CRV >= 3
    CHECK(CF(final_exponentiation_last_chunk)(CF(final_exponentiation_first_chunk)(x, x.inverse()), CF(final_exponentiation_first_chunk)(x.inverse(), x)) == ex, "the chunks of the final exponentiation");
#endif
    E c = gen_elem(s, T().fq, NQ); if (T().fq.is_zero(c)) c = T().fq.one(); CHECK(PP::final_exponentiation(enc<Fk_>(F.mul(a, F.embed(c)))) == ex, "final exponentiation of a multiple in the prime field");
}
void textbook(Src &s) // random points of full generality, not through known logarithms
{
    const Field &F = T().fk; Z a, b; const G1_ P = gen_arg<G1_>(s, a); const G2_ Q = gen_arg<G2_>(s, b); s.cycle(1);
    if (a != 0 && b != 0) s.nt(); s.say(show(a, b));
    EXPECT_ELEM(F, PP::reduced_pairing(P, Q), rp().reduced(dec_pt(P), dec_pt(Q)), "textbook ate pairing, " << show(a, b));
}
#if CRV == 3
void tate(Src &s)
{
    const Field &F = T().fk; Z a, b; const G1_ P = gen_arg<G1_>(s, a); const G2_ Q = gen_arg<G2_>(s, b);
    static const E base = rp().tate(cv<G1_>().g, cv<G2_>().g); s.cycle(1);
    if (a != 0 && b != 0) s.nt(); else s.label("an identity"); s.say(show(a, b));
    const Fk_ t = edwards_tate_reduced_pairing(P, Q); const Fk_ m = edwards_tate_miller_loop(edwards_tate_precompute_G1(P), edwards_tate_precompute_G2(Q));
    EXPECT_ELEM(F, t, F.pow(base, ref::zmod(a * b, MOD_R)), "Tate pairing, " << show(a, b));
    CHECK(m == edwards_tate_pairing(P, Q), "edwards_tate_pairing, " << show(a, b)); CHECK(edwards_final_exponentiation(m) == t, "the Tate Miller loop, " << show(a, b));
    if (s.chance(1, 10)) EXPECT_ELEM(F, t, rp().tate(dec_pt(P), dec_pt(Q)), "textbook Tate pairing, " << show(a, b));
    // additive in both arguments, as the ate pairing
    const Fr_ K = Fr_(to_bigint<NR>(gen_mod(s, MOD_R, NR))); CHECK(edwards_tate_reduced_pairing(K * P, Q) == (t ^ K.as_bigint()), "Tate pairing of a multiple in G1"); CHECK(edwards_tate_reduced_pairing(P, K * Q) == (t ^ K.as_bigint()), "Tate pairing of a multiple in G2");
}
#endif
#if CRV >= 4
void affine(Src &s)
{
    const Field &F = T().fk; Z a[3], b[3]; G1_ P[3]; G2_ Q[3]; bool nz = true; std::string d;
    for (int i = 0; i < 3; i++) { if (i) { const int j = s.draw(i - 1); P[i] = gen_beside(s, P[j], a[j], a[i]); Q[i] = gen_beside(s, Q[j], b[j], b[i]); } else { P[i] = gen_arg<G1_>(s, a[i]); Q[i] = gen_arg<G2_>(s, b[i]); } nz = nz && a[i] != 0 && b[i] != 0; d += show(a[i], b[i]) + "; "; }
    if (nz) s.nt(); else s.label("an identity"); s.say(d);
    typename std::decay<decltype(PP::affine_ate_precompute_G1(P[0]))>::type p[3]; typename std::decay<decltype(PP::affine_ate_precompute_G2(Q[0]))>::type q[3];
    for (int i = 0; i < 3; i++) { p[i] = PP::affine_ate_precompute_G1(P[i]); q[i] = PP::affine_ate_precompute_G2(Q[i]); }
    EXPECT_ELEM(F, PP::final_exponentiation(PP::affine_ate_miller_loop(p[0], q[0])), gt().pow(a[0] * b[0]), "affine Miller loop, " << d);
    EXPECT_ELEM(F, PP::affine_reduced_pairing(P[0], Q[0]), gt().pow(a[0] * b[0]), "affine_reduced_pairing, " << d);
    CHECK(CF(affine_reduced_pairing)(P[0], Q[0]) == PP::affine_reduced_pairing(P[0], Q[0]), "affine_reduced_pairing of the curve, " << d);
    EXPECT_ELEM(F, PP::final_exponentiation(PP::affine_ate_e_over_e_miller_loop(p[0], q[0], p[1], q[1])), gt().pow(a[0] * b[0] - a[1] * b[1]), "affine_ate_e_over_e_miller_loop, " << d);
    EXPECT_ELEM(F, PP::final_exponentiation(PP::affine_ate_e_times_e_over_e_miller_loop(p[0], q[0], p[1], q[1], p[2], q[2])), gt().pow(a[0] * b[0] + a[1] * b[1] - a[2] * b[2]), "affine_ate_e_times_e_over_e_miller_loop, " << d);
}
#endif
#if CRV != 2
// a first argument with special coordinates (its logarithm is not known)
void special(Src &s)
{
    const Field &F = T().fk; const GroupData &D = gd<G1_>(); Pt S = D.special[s.chance(1, 3) ? 0 : s.draw(D.special.size() - 1)]; if (s.coin()) S = D.c.neg(S); Z b, d, e; s.nt(); // the first one has the least coordinate
    const G1_ P = enc_pt<G1_>(S, gen_scale<G1_>(s)); const G2_ Q = gen_arg<G2_>(s, b), U = gen_beside(s, Q, b, d);
    Pt R_; const int rel = s.draw(4); switch (rel) { case 0: R_ = S; break; case 1: R_ = D.c.neg(S); break; case 2: R_ = D.special[s.draw(D.special.size() - 1)]; break; case 3: R_ = D.c.dbl(S); break; default: R_ = dec_pt(gen_arg<G1_>(s, e)); }
    const G1_ R = enc_pt<G1_>(R_, gen_scale<G1_>(s)); const std::string w = D.c.str(S) + D.c.str(R_) + " with " + show(b, d); s.say(w); s.label("relation " + std::to_string(rel));
    const E one = F.one(), x = b == 0 ? one : rp().reduced(S, dec_pt(Q)), y = R_.inf || d == 0 ? one : rp().reduced(R_, dec_pt(U));
    const auto p1 = PP::precompute_G1(P), p2 = PP::precompute_G1(R); const auto q1 = PP::precompute_G2(Q), q2 = PP::precompute_G2(U);
    EXPECT_ELEM(F, PP::final_exponentiation(PP::miller_loop(p1, q1)), x, "Miller loop, " << w); EXPECT_ELEM(F, PP::reduced_pairing(P, Q), x, "reduced pairing, " << w);
    EXPECT_ELEM(F, PP::final_exponentiation(PP::double_miller_loop(p1, q1, p2, q2)), F.mul(x, y), "double Miller loop, " << w);
#if CRV == 3
    EXPECT_ELEM(F, edwards_tate_reduced_pairing(P, Q), b == 0 ? one : rp().tate(S, dec_pt(Q)), "Tate pairing, " << w);
#endif
#if CRV >= 4
    const auto a1 = PP::affine_ate_precompute_G1(P), a2 = PP::affine_ate_precompute_G1(R); const auto b1 = PP::affine_ate_precompute_G2(Q), b2 = PP::affine_ate_precompute_G2(U);
    EXPECT_ELEM(F, PP::affine_reduced_pairing(P, Q), x, "affine reduced pairing, " << w);
    EXPECT_ELEM(F, PP::final_exponentiation(PP::affine_ate_e_over_e_miller_loop(a1, b1, a2, b2)), F.mul(x, F.inv(y)), "affine ratio, " << w);
    EXPECT_ELEM(F, PP::final_exponentiation(PP::affine_ate_e_times_e_over_e_miller_loop(a1, b1, a2, b2, a1, b1)), y, "affine triple, " << w);
#endif
}
#endif
void all()
{
#if CRV != 2
    pbt::reg(CNAME "/special", 60, special);
#endif
    pbt::reg(CNAME "/single", 400, single); pbt::reg(CNAME "/double", 400, doubled); pbt::reg(CNAME "/final-exponent", 80, exponent); pbt::reg(CNAME "/homomorphism", 200, homomorphism); pbt::reg(CNAME "/textbook", 40, textbook);
#if CRV == 3
    pbt::reg(CNAME "/tate", 300, tate);
#endif
#if CRV >= 4
    pbt::reg(CNAME "/affine", 300, affine);
#endif
}
PBT_REGISTER(all)
}
