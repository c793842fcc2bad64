// P09: the group law in any representation, against affine arithmetic.
#include "group.hpp"
using namespace lf;
namespace {
static const char *rel_names[] = {"unrelated points", "equal points", "opposite points", "same y, other x", "double", "minus the double", "second is zero"};
template<class G> std::string show(const Pt &P, const E &l) { return cv<G>().str(P) + "*" + cf<G>().str(l); }
template<class G> bool bad_edwards(const Pt &P, const Pt &Q) { return COORD == INVERTED && (P.inf || Q.inf); }

template<class G> void binary(Src &s)
{
    const Curve &C = cv<G>(); const int rel = s.cycle(R_NREL); const int op = s.cycle2(R_NREL, 4);
    bool sub; const Pt P = gen_pt<G>(s, &sub); const E l = gen_scale<G>(s); const Pt Q = gen_rel<G>(s, rel, P, true); const E m = gen_scale2<G>(s, l);
    G a = enc_pt<G>(P, l), b = enc_pt<G>(Q, m);
    s.label(rel_names[rel]); if (!sub) s.label("outside the subgroup"); if (P.inf || Q.inf) s.label("an operand is zero"); if (!P.inf && !Q.inf) s.nt();
    switch (op) {
    case 0: { s.say("P=" + show<G>(P, l) + " + Q=" + show<G>(Q, m)); const G a0 = a, b0 = b; EXPECT_PT(G, a + b, C.add(P, Q), "P + Q"); EXPECT_PT(G, b + a, C.add(P, Q), "Q + P");
        CHECK(a.X == a0.X && a.Y == a0.Y && a.Z == a0.Z && b.X == b0.X && b.Y == b0.Y && b.Z == b0.Z, "operand changed"); break; }
    case 1: s.say("P=" + show<G>(P, l) + " - Q=" + show<G>(Q, m)); EXPECT_PT(G, a - b, C.add(P, C.neg(Q)), "P - Q"); break;
    case 2: if (bad_edwards<G>(P, Q)) break; s.say("P=" + show<G>(P, l) + " add Q=" + show<G>(Q, m)); EXPECT_PT(G, a.add(b), C.add(P, Q), "P.add(Q)"); break;
    default: { // the second operand in special form
        b.to_special(); CHECK(b.is_special(), "to_special gives a special point"); EXPECT_PT(G, b, Q, "to_special");
        s.say("P=" + show<G>(P, l) + " mixed_add Q=" + C.str(Q)); EXPECT_PT(G, a.mixed_add(b), C.add(P, Q), "P.mixed_add(Q)"); break; }
    }
}
template<class G> void unary(Src &s)
{
    const Curve &C = cv<G>(); bool sub; const Pt P = gen_pt<G>(s, &sub); const E l = gen_scale<G>(s); const G a = enc_pt<G>(P, l);
    if (!P.inf) s.nt(); s.say("P=" + show<G>(P, l)); if (!sub) s.label("outside the subgroup");
    EXPECT_PT(G, a.dbl(), C.dbl(P), "dbl"); EXPECT_PT(G, -a, C.neg(P), "negation"); EXPECT_PT(G, a + a, C.dbl(P), "P + P");
    EXPECT_PT(G, a - a, Pt(), "P - P"); EXPECT_PT(G, a + (-a), Pt(), "P + -P"); EXPECT_PT(G, a + G::zero(), P, "P + 0"); EXPECT_PT(G, G::zero() + a, P, "0 + P");
    EXPECT_PT(G, a.dbl() - a, P, "2P - P"); EXPECT_PT(G, a.dbl() + a, C.add(C.dbl(P), P), "2P + P");
}
// histories of operations on a few registers, each register checked against
// the model after every step: intermediate representations feed on
template<class G> void history(Src &s)
{
    const Curve &C = cv<G>(); const int N = 3; G v[N]; Pt m[N]; std::string h;
    for (int i = 0; i < N; i++) { m[i] = gen_pt<G>(s); v[i] = enc_pt<G>(m[i], i ? gen_scale<G>(s) : cf<G>().one()); }
    const int steps = 1 + s.draw(11); int used = 0;
    for (int k = 0; k < steps; k++) {
        const int op = s.draw(8), i = s.draw(N - 1), j = s.draw(N - 1), o = s.draw(N - 1);
        h += " " + std::to_string(o) + "=" + "+-dnamtsz"[op] + std::to_string(i) + std::to_string(j);
        switch (op) {
        case 0: v[o] = v[i] + v[j]; m[o] = C.add(m[i], m[j]); break;
        case 1: v[o] = v[i] - v[j]; m[o] = C.add(m[i], C.neg(m[j])); break;
        case 2: v[o] = v[i].dbl(); m[o] = C.dbl(m[i]); break;
        case 3: v[o] = -v[i]; m[o] = C.neg(m[i]); break;
        case 4: if (!bad_edwards<G>(m[i], m[j])) { v[o] = v[i].add(v[j]); m[o] = C.add(m[i], m[j]); } break;
        case 5: { v[j].to_special(); v[o] = v[i].mixed_add(v[j]); m[o] = C.add(m[i], m[j]); break; }
        case 6: if (COORD != INVERTED) v[i].to_affine_coordinates(); break;
        case 7: v[i].to_special(); break;
        default: v[o] = G::zero(); m[o] = Pt();
        }
        for (int q = 0; q < N; q++) {
            EXPECT_PT(G, v[q], m[q], "register " << q << " after" << h);
            CHECK(v[q].is_zero() == m[q].inf, "is_zero of register " << q << " after" << h);
            for (int p = 0; p < q; p++) CHECK((v[q] == v[p]) == C.eq(m[q], m[p]), "equality of registers " << p << "," << q << " after" << h);
        }
        if (!m[o].inf) used++;
    }
    if (used > 1) s.nt(); s.say("ops:" + h);
}
// aliasing: results assigned over operands, an operand being the result of the other
template<class G> void alias(Src &s)
{
    const Curve &C = cv<G>(); const Pt P = gen_pt<G>(s), Q = gen_pt<G>(s); G a = enc_pt<G>(P, gen_scale<G>(s)); const G b = enc_pt<G>(Q, gen_scale<G>(s));
    if (!P.inf && !Q.inf) s.nt(); s.say("P=" + C.str(P) + " Q=" + C.str(Q));
    a = a + b; EXPECT_PT(G, a, C.add(P, Q), "a = a + b"); a = a - b; EXPECT_PT(G, a, P, "a = a - b"); a = b + a; EXPECT_PT(G, a, C.add(P, Q), "a = b + a"); a = a - a; EXPECT_PT(G, a, Pt(), "a = a - a");
    a = a + b; a = a + a; EXPECT_PT(G, a, C.dbl(Q), "a = a + a"); a = a.dbl(); EXPECT_PT(G, a, C.dbl(C.dbl(Q)), "a = a.dbl()");
    a.to_special(); if (COORD != INVERTED || !a.is_zero()) { a = a.mixed_add(a); EXPECT_PT(G, a, C.dbl(C.dbl(C.dbl(Q))), "a = a.mixed_add(a)"); }
}
template<class G> void fam(uint64_t n)
{
    const std::string g = Grp<G>::name();
    pbt::reg(g + "/binary", 10 * n, binary<G>); pbt::reg(g + "/unary", 3 * n, unary<G>); pbt::reg(g + "/history", n, history<G>); pbt::reg(g + "/alias", n, alias<G>);
}
void all() { fam<G1_>(400); fam<G2_>(200); }
PBT_REGISTER(all)
}
