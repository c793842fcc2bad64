// P17: serialization of points, point vectors and pairing precomputations.
#include "serial.hpp"
using namespace lf;
namespace {
template<class G> G gen_point(Src &s)
{
    bool sub; Pt P = gen_pt<G>(s, &sub);
    return enc_pt<G>(P, gen_scale<G>(s));
}
template<class G> std::vector<G> gen_points(Src &s, size_t max) { std::vector<G> v(s.draw(max)); for (auto &x : v) x = gen_point<G>(s); return v; }
template<class G> Item point_item(Src &s) { const G x = gen_point<G>(s); return item(std::string("a ") + Grp<G>::name(), x, s.coin() ? G() : gen_point<G>(s), gen_sep(s, false)); }
template<class G> Item points_item(Src &s)
{
    switch (s.draw(3)) {
    case 0: case 1: { const auto v = gen_points<G>(s, 5); return item("a vector of " + std::to_string(v.size()) + " " + Grp<G>::name(), v, s.coin() ? std::vector<G>() : gen_points<G>(s, 2), gen_sep(s, true)); }
    case 2: { std::map<size_t, G> m, o; const int k = s.draw(4); for (int i = 0; i < k; i++) m[i * s.draw(5)] = gen_point<G>(s); if (s.coin()) o[1] = gen_point<G>(s); return item("a map of " + std::to_string(m.size()) + " integers to " + Grp<G>::name(), m, o, gen_sep(s, true)); }
    default: { std::vector<std::vector<G>> v(s.draw(3)); for (auto &x : v) x = gen_points<G>(s, 2); return item("a vector of " + std::to_string(v.size()) + " vectors of " + Grp<G>::name(), v, {}, gen_sep(s, true)); }
    }
}
template<class G> G in_subgroup(Src &s) { return enc_pt<G>(gen_pt<G>(s), gen_scale<G>(s)); }
Item precomp_item(Src &s)
{
    typedef typename std::decay<decltype(PP::precompute_G1(G1_::one()))>::type P1; typedef typename std::decay<decltype(PP::precompute_G2(G2_::one()))>::type P2;
    const int kinds = CRV == 3 ? 5 : 3; static const P1 old1 = PP::precompute_G1(G1_::one()); static const P2 old2 = PP::precompute_G2(G2_::one());
    switch (s.draw(kinds)) {
    case 0: case 1: { const bool o = s.coin(); const P1 p = PP::precompute_G1(in_subgroup<G1_>(s)); return item("a precomputed G1 argument", p, o ? old1 : p, ONL); }
    case 2: case 3: { const P2 p = PP::precompute_G2(in_subgroup<G2_>(s)); if (s.coin()) return item("a precomputed G2 argument", p, s.coin() ? old2 : P2(), ONL); const P1 q = PP::precompute_G1(in_subgroup<G1_>(s)); return item("a precomputed G1 argument", q, P1(), ONL); }
#if CRV == 3
    case 4: return item("a precomputed Tate G1 argument", edwards_tate_precompute_G1(in_subgroup<G1_>(s)), edwards_tate_G1_precomp(s.draw(3)), ONL);
    default: return item("a precomputed Tate G2 argument", edwards_tate_precompute_G2(in_subgroup<G2_>(s)), edwards_tate_G2_precomp(), ONL);
#else
    default: { const P2 p = PP::precompute_G2(in_subgroup<G2_>(s)); return item("a precomputed G2 argument", p, P2(), ONL); }
#endif
    }
}
void sequence(Src &s)
{
    const int n = 1 + s.draw(s.chance(1, 3) ? 7 : 2); std::vector<Item> v;
    for (int i = 0; i < n; i++) switch (s.draw(6)) { case 0: v.push_back(field_or_container(s)); break; case 1: case 2: v.push_back(point_item<G1_>(s)); break; case 3: v.push_back(point_item<G2_>(s)); break; case 4: v.push_back(points_item<G1_>(s)); break; case 5: v.push_back(points_item<G2_>(s)); break; default: v.push_back(precomp_item(s)); }
    s.nt(); s.label(n == 1 ? "single object" : "sequence"); run_items(s, v);
}
// one point: its bytes, its sign, its value
template<class G> void point(Src &s)
{
    const Curve &C = cv<G>(); bool sub; const Pt P = gen_pt<G>(s, &sub); const E l = gen_scale<G>(s), m = gen_scale2<G>(s, l); const G a = enc_pt<G>(P, l), b = enc_pt<G>(P, m);
    if (!P.inf) s.nt(); s.say(C.str(P)); if (!sub) s.label("outside the subgroup");
    const std::string w = bytes_of(a); CHECK(w == bytes_of(b), "the bytes of " << C.str(P) << " depend on its coordinates"); EXPECT_PT(G, a, P, "writing changed the point");
    G c = b; std::istringstream in(w); in >> c; CHECK(!in.fail(), "reading " << C.str(P) << " failed"); EXPECT_PT(G, c, P, "reading back"); CHECK(c.is_special() || P.inf || COORD == INVERTED, "the point read is not in special form"); CHECK(c == a, "the point read is not equal");
    EXPECT_PT(G, reserialize(a), P, "reserialize");
    const Pt N = C.neg(P); const std::string wn = bytes_of(enc_pt<G>(N, l)); CHECK((wn == w) == C.eq(N, P), "the bytes of a point and its negative, " << C.str(P)); G d; std::istringstream in2(wn); in2 >> d; EXPECT_PT(G, d, N, "reading back the negative");
}
void odd_sign(Src &s)
{
    static const std::vector<Pt> &odd = sparse_y(); CHECK(!odd.empty(), "the harness found no point with a sparse Y"); const Curve &C = cv<G2_>(); Pt P = odd[s.cycle(odd.size())]; if (s.coin()) P = C.neg(P);
    const G2_ a = enc_pt<G2_>(P, gen_scale<G2_>(s)); CHECK(a.is_well_formed(), "not well formed"); s.nt(); s.say(C.str(P));
    const std::string w = bytes_of(a); std::istringstream in(w); G2_ c; in >> c; CHECK(!in.fail(), "reading failed"); EXPECT_PT(G2_, c, P, "reading back a point whose Y is sparse");
    std::vector<G2_> v = {a, enc_pt<G2_>(C.neg(P), gen_scale<G2_>(s))}, x; std::stringstream st; st << v; st >> x; CHECK(!st.fail() && x.size() == 2 && bytes_of(x[0]) != bytes_of(x[1]), "a point and its negative were written alike"); EXPECT_PT(G2_, x[1], C.neg(P), "reading back the negative");
}
// precomputed arguments: equality, use after reading
void precomp(Src &s)
{
    const Pt P = gen_pt<G1_>(s), Q = gen_pt<G2_>(s); const E l = gen_scale<G1_>(s), m = gen_scale<G2_>(s); if (!P.inf && !Q.inf) s.nt(); s.say(cv<G1_>().str(P) + " " + cv<G2_>().str(Q));
    const G1_ p = enc_pt<G1_>(P, l); const G2_ q = enc_pt<G2_>(Q, m); const auto pp = PP::precompute_G1(p); const auto pq = PP::precompute_G2(q);
    CHECK(bytes_of(pp) == bytes_of(PP::precompute_G1(enc_pt<G1_>(P, cf<G1_>().one()))), "the precomputed G1 argument depends on the coordinates"); CHECK(bytes_of(pq) == bytes_of(PP::precompute_G2(enc_pt<G2_>(Q, cf<G2_>().one()))), "the precomputed G2 argument depends on the coordinates");
    const auto rp = reserialize(pp); const auto rq = reserialize(pq); CHECK(rp == pp && rq == pq, "a precomputed argument was not read back");
    const Fk_ f = PP::miller_loop(pp, pq); CHECK(PP::miller_loop(rp, rq) == f && PP::miller_loop(rp, pq) == f && PP::miller_loop(pp, rq) == f, "the Miller loop of precomputed arguments read back");
    const Pt P2 = gen_pt<G1_>(s), Q2 = gen_pt<G2_>(s); const auto op = PP::precompute_G1(enc_pt<G1_>(P2, l)); const auto oq = PP::precompute_G2(enc_pt<G2_>(Q2, m));
    CHECK((op == pp) == cv<G1_>().eq(P, P2), "equality of precomputed G1 arguments"); CHECK((oq == pq) == cv<G2_>().eq(Q, Q2), "equality of precomputed G2 arguments");
#if CRV == 3
    const auto t1 = edwards_tate_precompute_G1(p); const auto t2 = edwards_tate_precompute_G2(q); const auto r1 = reserialize(t1); const auto r2 = reserialize(t2);
    CHECK(r1 == t1 && r2 == t2, "a precomputed Tate argument was not read back"); CHECK(edwards_tate_miller_loop(r1, r2) == edwards_tate_miller_loop(t1, t2), "the Tate Miller loop of arguments read back");
#endif
}
template<class G> void longvec(Src &s)
{
    const GroupData &d = gd<G>(); std::vector<G> v(pbt::long_len(s, 300)); for (auto &x : v) x = enc_pt<G>(s.chance(1, 5) ? Pt() : d.pool[s.draw(d.pool.size() - 1)], gen_scale<G>(s)); s.nt(); s.say(std::to_string(v.size()) + " points of " + Grp<G>::name());
    run_items(s, {item("a long vector of points", v, std::vector<G>(2), gen_sep(s, true)), point_item<G>(s)});
}
template<class G> void group(int n) { const std::string g = Grp<G>::name(); pbt::reg(g + "/point", 3 * n, point<G>); pbt::reg(g + "/long-vector", 25, longvec<G>); }
void all() { group<G1_>(500); group<G2_>(300); pbt::reg(CNAME "/sequence", 800, sequence); pbt::reg(CNAME "/precomp", 150, precomp); pbt::reg(CNAME "/sparse-Y", 60, odd_sign); }
PBT_REGISTER(all)
}
