// P10: equality, zero tests, normal forms and batch normalisation do not
// depend on the representation.
#include "group.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace lf;
namespace {
template<class G> bool same_coords(const G &a, const G &b) { return a.X == b.X && a.Y == b.Y && a.Z == b.Z; }
template<class G> void affine_of(const Pt &P, const G &a, const char *what)
{
    typedef typename Grp<G>::CF CF; const Field &F = cf<G>();
    if (P.inf) { // the documented normal form of zero
        CHECK(a.X == CF::zero() && a.Y == CF::one() && a.Z == (COORD == INVERTED ? CF::one() : CF::zero()), what << " of zero is " << F.str(dec(a.X)) << F.str(dec(a.Y)) << F.str(dec(a.Z)));
        return;
    }
    CHECK(dec(a.X) == P.x && dec(a.Y) == P.y && a.Z == CF::one(), what << " of " << cv<G>().str(P) << " is " << F.str(dec(a.X)) << F.str(dec(a.Y)) << F.str(dec(a.Z)));
    CHECK(a.X == enc<CF>(P.x) && a.Y == enc<CF>(P.y), what << ": coordinates are not in canonical form");
}
template<class G> void normal_forms(Src &s)
{
    const Curve &C = cv<G>(); const Field &F = cf<G>(); bool sub; const Pt P = gen_pt<G>(s, &sub); const E l = gen_scale<G>(s); const G a = enc_pt<G>(P, l);
    if (!P.inf && l != F.one()) s.nt(); s.say(C.str(P) + " scaled by " + F.str(l)); if (P.inf) s.label("zero"); if (l == F.one()) s.label("scale one");
    CHECK(a.is_zero() == P.inf, "is_zero of " << C.str(P) << " scaled by " << F.str(l));
    CHECK(a.is_special() == (P.inf || l == F.one()), "is_special of " << C.str(P) << " scaled by " << F.str(l));
    G b = a; b.to_affine_coordinates(); affine_of<G>(P, b, "to_affine_coordinates");
    G c = a; c.to_special(); CHECK(c.is_special(), "to_special gives a special point"); EXPECT_PT(G, c, P, "to_special");
    CHECK(c == a && a == c && !(c != a), "to_special changes the element"); CHECK(c.is_zero() == P.inf, "to_special keeps zero-ness");
    if (!P.inf) CHECK(c.Z == (Grp<G>::CF::one()), "to_special leaves Z = " << F.str(dec(c.Z)));
    G d = c; d.to_special(); CHECK(same_coords(c, d), "to_special is idempotent");
    if (!P.inf) { G e = enc_pt<G>(P, gen_scale<G>(s)); e.to_special(); CHECK(same_coords(c, e), "to_special is the same for every representation"); }
}
template<class G> void equality(Src &s)
{
    const Curve &C = cv<G>(); const Field &F = cf<G>(); const int rel = s.cycle(R_NREL);
    static const char *names[] = {"unrelated", "same element", "opposite", "same y, other x", "double", "minus double", "against zero"}; s.label(names[rel]);
    bool sub; const Pt P = gen_pt<G>(s, &sub); const E l = gen_scale<G>(s); const Pt Q = gen_rel<G>(s, rel, P, true); const E m = gen_scale2<G>(s, l);
    const G a = enc_pt<G>(P, l), b = enc_pt<G>(Q, m); const bool eq = C.eq(P, Q);
    if (!P.inf && !Q.inf) s.nt(); s.say(C.str(P) + "*" + F.str(l) + " vs " + C.str(Q) + "*" + F.str(m));
    CHECK((a == b) == eq, "== of " << C.str(P) << " and " << C.str(Q) << " with scales " << F.str(l) << F.str(m)); CHECK((b == a) == eq, "== is symmetric"); CHECK((a != b) == !eq, "!= of " << C.str(P) << " and " << C.str(Q)); CHECK((b != a) == !eq, "!= is symmetric");
    CHECK(a == a && !(a != a), "== is reflexive");
    CHECK((a == G::zero()) == P.inf && (G::zero() == a) == P.inf, "comparison with zero()");
    CHECK((a - b).is_zero() == eq, "difference is zero iff equal");
    if (eq) { // operations take equal representations to equal results
        const Pt R = gen_pt<G>(s); const G c = enc_pt<G>(R, gen_scale<G>(s));
        CHECK(a + c == b + c, "a + c == b + c"); CHECK(c - a == c - b, "c - a == c - b"); CHECK(a.dbl() == b.dbl(), "dbl"); CHECK(-a == -b, "negation");
        { const Pt S = s.coin() ? R : s.coin() ? P : C.neg(P); G t = enc_pt<G>(S, F.one()); t.to_special(); const G u = a.mixed_add(t), v = b.mixed_add(t); CHECK(u == v, "mixed_add"); EXPECT_PT(G, v, C.add(Q, S), "mixed_add"); CHECK(a.mixed_add(t) == a + t, "mixed_add and +"); }
        if (!P.inf && !R.inf && !C.eq(P, R) && !C.eq(P, C.neg(R))) { CHECK(a.add(c) == b.add(c), "add"); CHECK(c.add(a) == c.add(b), "add"); }
        const bigint<1> k((unsigned long)s.draw(1000)); CHECK(k * a == k * b, "scalar multiples"); CHECK(a.is_well_formed() == b.is_well_formed(), "is_well_formed");
        G x = a, y = b; x.to_affine_coordinates(); y.to_affine_coordinates(); CHECK(same_coords(x, y), "affine coordinates of equal elements");
    }
}
template<class G> void batch_of(Src &s, int lng)
{
    const Curve &C = cv<G>(); const Field &F = cf<G>(); static const int lens[] = {0, 1, 2, 3, 5, 8, 13, 20};
    const int n = lng < 0 ? lens[s.draw(7)] : lng; const int zeros = s.draw(3); std::vector<G> v, v0; std::vector<Pt> p; std::string d; int nz = 0;
    for (int i = 0; i < n; i++) { // 0: none, 1: few, 2: many, 3: all but at most one zero
        Pt P = gen_pt<G>(s); if (i && s.chance(1, 5)) P = p[s.draw(i - 1)];
        const bool z = zeros == 0 ? false : zeros == 1 ? s.chance(1, 5) : zeros == 2 ? s.chance(2, 3) : s.chance(9, 10);
        if (z) P = Pt(); else if (zeros == 0 && P.inf) P = C.g;
        if (!P.inf) nz++; p.push_back(P); v.push_back(enc_pt<G>(P, gen_scale<G>(s))); d += P.inf ? "O" : "p";
    }
    v0 = v; if (n > 1 && nz) s.nt(); s.say("batch " + d); s.label(zeros == 0 ? "no zeros" : "with zeros");
    if (nz == n) {
        std::vector<G> w = v; G::batch_to_special_all_non_zeros(w); CHECK((int)w.size() == n, "size changed");
        for (int i = 0; i < n; i++) { EXPECT_PT(G, w[i], p[i], "batch_to_special_all_non_zeros, element " << i << " of " << d); CHECK(w[i].is_special(), "element " << i << " of " << d << " is not special"); G t = v0[i]; t.to_special(); CHECK(same_coords(t, w[i]), "batch and single normal form differ at " << i); }
    }
    batch_to_special<G>(v); CHECK((int)v.size() == n, "batch_to_special changed the size");
    for (int i = 0; i < n; i++) { EXPECT_PT(G, v[i], p[i], "batch_to_special, element " << i << " of " << d); CHECK(v[i].is_special() && v[i] == v0[i], "element " << i << " of " << d << " is not special, Z=" << F.str(dec(v[i].Z))); }
}
template<class G> void batch(Src &s) { batch_of<G>(s, -1); }
template<class G> void long_batch(Src &s)
{
    batch_of<G>(s, pbt::long_len(s, 600));
}
template<class G> void constants(Src &s)
{
    const Curve &C = cv<G>(); const G d, z = G::zero(), o = G::one(); s.nt(); const uint64_t k = s.draw(1000); const Pt P = gen_pt<G>(s); const G a = enc_pt<G>(P, gen_scale<G>(s)); s.say(std::to_string(k) + " " + C.str(P));
    CHECK(z.is_zero() && z == d && d.is_zero() && d.is_special() && z.is_special(), "default-constructed element is zero"); CHECK(!o.is_zero() && o != z, "one() is not zero");
    G c(a); CHECK(same_coords(c, a), "copy"); G e; e = a; CHECK(same_coords(e, a), "assignment"); e = e; CHECK(same_coords(e, a), "self-assignment");
    CHECK(bigint<1>(0ul) * a == z, "0 a = 0"); CHECK(bigint<1>((unsigned long)k) * z == z, "k 0 = 0"); CHECK(z + z == z && z - z == z && -z == z && z.dbl() == z, "zero arithmetic");
    std::vector<G> v(3); for (auto &x : v) CHECK(x.is_zero(), "elements of a vector<G>(n) are zero");
}
template<class G> void fam(uint64_t n)
{
    const std::string g = Grp<G>::name();
    pbt::reg(g + "/normal-forms", 3 * n, normal_forms<G>); pbt::reg(g + "/equality", 6 * n, equality<G>); pbt::reg(g + "/batch", n, batch<G>); pbt::reg(g + "/long-batch", 81, long_batch<G>); pbt::reg(g + "/constants", n / 2, constants<G>);
}
void all() { fam<G1_>(800); fam<G2_>(400); }
PBT_REGISTER(all)
}
