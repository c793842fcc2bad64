// P14: the reduced pairing is e(G1, G2)^(ab), with e(G1, G2) computed by a
// textbook pairing.
#include "refpair.hpp"
using namespace lf;
namespace {
struct Arg { Z e; std::string d; };
template<class G> G gen_arg(Src &s, Z &e)
{
    const GroupData &d = gd<G>(); Pt P;
    switch (s.draw(4)) {
    case 0: e = 0; break;
    case 1: { const size_t i = s.draw(d.pool.size() - 1); e = d.pool_log[i]; P = d.pool[i]; break; }
    default: e = gen_mod(s, MOD_R, NR); P = d.fixed(e);
    }
    return enc_pt<G>(P, gen_scale<G>(s));
}
// a second argument beside P = p G: the same object, the same point in other
// coordinates, the opposite, or an unrelated one
template<class G> G gen_beside(Src &s, const G &P, const Z &p, Z &e)
{
    switch (s.draw(4)) {
    case 0: e = p; return P;
    case 1: e = p; return enc_pt<G>(dec_pt<G>(P), gen_scale<G>(s));
    case 2: e = p == 0 ? Z(0) : Z(MOD_R - p); return s.coin() ? -P : enc_pt<G>(gd<G>().c.neg(dec_pt<G>(P)), gen_scale<G>(s));
    default: return gen_arg<G>(s, e);
    }
}
void value(Src &s)
{
    const Field &F = T().fk; Z a, b; const G1_ P = gen_arg<G1_>(s, a); const G2_ Q = gen_arg<G2_>(s, b); s.cycle(1);
    if (a != 0 && b != 0) s.nt(); else s.label("an identity"); s.say("a=" + a.get_str(16) + " b=" + b.get_str(16));
    EXPECT_ELEM(F, PP::reduced_pairing(P, Q), gt().pow(a * b), "reduced pairing of " << a.get_str(16) << " G1 and " << b.get_str(16) << " G2");
#if CRV >= 4
    EXPECT_ELEM(F, PP::affine_reduced_pairing(P, Q), gt().pow(a * b), "affine reduced pairing of " << a.get_str(16) << " G1 and " << b.get_str(16) << " G2");
#endif
}
// the laws as users rely on them, libff values only
void laws(Src &s)
{
    const int kind = s.cycle(4); Z a, b, c; G1_ P = gen_arg<G1_>(s, a); const G2_ Q = gen_arg<G2_>(s, b); const Z k = gen_mod(s, MOD_R, NR);
    const auto &sp = gd<G1_>().special; if (!sp.empty() && s.chance(1, 5)) { a = 1; Pt S = sp[s.draw(sp.size() - 1)]; if (s.coin()) S = gd<G1_>().c.neg(S); P = enc_pt<G1_>(S, gen_scale<G1_>(s)); s.label("special coordinates"); } // (only whether a is zero matters below)
    const Fr_ K(to_bigint<NR>(k)); static const Fk_ one = Fk_::one();
    if (a != 0 && b != 0) s.nt(); s.say("law " + std::to_string(kind) + " a=" + a.get_str(16) + " b=" + b.get_str(16) + " k=" + k.get_str(16)); const Fk_ e = PP::reduced_pairing(P, Q);
    switch (kind) {
    case 0: { const Fk_ l = PP::reduced_pairing(K * P, Q); CHECK(l == (e ^ K.as_bigint()), "e(kP, Q) = e(P, Q)^k, k=" << k.get_str(16)); CHECK(l == PP::reduced_pairing(P, K * Q), "e(kP, Q) = e(P, kQ)"); break; }
    case 1: { const G1_ R = gen_beside(s, P, a, c); CHECK(PP::reduced_pairing(P + R, Q) == e * PP::reduced_pairing(R, Q), "e(P + R, Q) = e(P, Q) e(R, Q)"); CHECK(PP::reduced_pairing(-P, Q) * e == one, "e(-P, Q) = e(P, Q)^-1"); break; }
    case 2: { const G2_ R = gen_beside(s, Q, b, c); CHECK(PP::reduced_pairing(P, Q + R) == e * PP::reduced_pairing(P, R), "e(P, Q + R) = e(P, Q) e(P, R)"); CHECK(e.unitary_inverse() == PP::reduced_pairing(P, -Q), "e(P, -Q) = unitary inverse of e(P, Q)"); break; }
    default: {
        CHECK((e ^ Fr_::field_char()) == one, "e(P, Q)^r = 1"); CHECK((e == one) == (a == 0 || b == 0), "e(P, Q) = 1 exactly for an identity argument");
        G1_ Pn = P; G2_ Qn = Q; Pn.to_special(); Qn.to_special(); CHECK(PP::reduced_pairing(Pn, Qn) == e && PP::reduced_pairing(Pn, Q) == e && PP::reduced_pairing(P, Qn) == e, "the pairing depends on the representation of its arguments");
        CHECK(PP::reduced_pairing(G1_::zero(), Q) == one && PP::reduced_pairing(P, G2_::zero()) == one && PP::reduced_pairing(P - P, Q) == one && PP::reduced_pairing(P, Q - Q) == one, "the pairing with an identity"); }
    }
}
void all() { pbt::reg(CNAME "/pairing-value", 500, value); pbt::reg(CNAME "/laws", 150, laws); }
PBT_REGISTER(all)
}
