// P11: scalar multiples by every algorithm, and signed-digit recodings.
#include "group.hpp"
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
using namespace lf;
namespace {
template<class G> struct LogPt { Z e; Pt P; bool sub; };
template<class G> LogPt<G> gen_base(Src &s)
{
    const GroupData &d = gd<G>(); LogPt<G> b; b.sub = true;
    switch (s.draw(3)) {
    case 0: b.e = 1; b.P = d.c.g; break;
    case 1: { const size_t i = s.draw(d.pool.size() - 1); b.e = d.pool_log[i]; b.P = d.pool[i]; break; }
    case 2: b.e = gen_scalar(s, ref::bits(MOD_R), MOD_R); b.P = d.fixed(b.e); break;
    default: { const size_t i = s.draw(d.pool.size() - 1), j = s.draw(d.pool.size() - 1); b.e = d.pool_log[i] + d.pool_log[j]; b.P = d.c.add(d.pool[i], d.pool[j]); }
    }
    return b;
}
template<class G> Pt times(const Z &k, const LogPt<G> &b) { return gd<G>().fixed(k * b.e); }

template<class G, int M> void dbl_add(Src &s, const LogPt<G> &b, const G &a)
{
    const Z k = gen_scalar(s, 64 * M, MOD_R); const bigint<M> K = to_bigint<M>(k); if (k > 2) s.nt(); s.say("k=" + k.get_str(16) + " P=" + b.e.get_str(16) + "G");
    if (k >= MOD_R) s.label("scalar >= group order");
    const Pt W = times<G>(k, b); EXPECT_PT(G, K * a, W, "bigint<" << M << "> " << k.get_str(16) << " * " << b.e.get_str(16) << "G"); EXPECT_PT(G, (scalar_mul<G, M>(a, K)), W, "scalar_mul");
}
template<class G> void multiples(Src &s)
{
    const int kind = s.cycle(7); const LogPt<G> b = gen_base<G>(s); const G a = enc_pt<G>(b.P, gen_scale<G>(s));
    switch (kind) {
    case 0: dbl_add<G, NR>(s, b, a); break;
    case 1: dbl_add<G, 1>(s, b, a); break;
    case 2: dbl_add<G, NR + 1>(s, b, a); break;
    case 3: { const Z k = gen_mod(s, MOD_R, NR); if (k > 2) s.nt(); s.say("Fr " + k.get_str(16) + " P=" + b.e.get_str(16) + "G"); EXPECT_PT(G, Fr_(to_bigint<NR>(k)) * a, times<G>(k, b), "Fr element " << k.get_str(16) << " * P"); break; }
    case 4: { // an element of another field stands for its canonical value
        const Z k = gen_mod(s, MOD_Q, NQ); const Fq_ K(to_bigint<NQ>(k)); if (k > 2) s.nt(); s.say("Fq " + k.get_str(16) + " P=" + b.e.get_str(16) + "G"); s.label("Fq scalar"); const Pt W = times<G>(k, b);
        EXPECT_PT(G, K * a, W, "Fq element " << k.get_str(16) << " * P"); CHECK((-K) * a == (-K).as_bigint() * a, "Fq and bigint multiples"); break; }
    case 5: dbl_add<G, 2 * NR + 1>(s, b, a); break;
    default: { // additive homomorphism in both arguments, on libff values
        const Z k = gen_mod(s, MOD_R, NR), m = gen_mod(s, MOD_R, NR); const Fr_ K(to_bigint<NR>(k)), M(to_bigint<NR>(m)); const Pt Q = gen_pt<G>(s); const G q = enc_pt<G>(Q, gen_scale<G>(s));
        if (k > 1 && m > 1) s.nt(); s.say("k=" + k.get_str(16) + " m=" + m.get_str(16));
        CHECK((K + M) * a == K * a + M * a, "(k+m)P"); CHECK((K * M) * a == K * (M * a), "(km)P"); CHECK(K * (a + q) == K * a + K * q, "k(P+Q)"); CHECK((-K) * a == -(K * a), "(-k)P"); CHECK(K * a == K.as_bigint() * a, "Fr and bigint multiples"); break; }
    }
}
// points outside the prime-order subgroup (scalars must not be reduced), or with
// special coordinates
template<class G> void outside(Src &s)
{
    const Curve &C = cv<G>(); const auto &o = gd<G>().outside.empty() ? gd<G>().special : gd<G>().outside; if (o.empty()) throw pbt::Discard();
    Pt P = o[s.draw(o.size() - 1)]; if (s.coin()) P = C.add(P, gd<G>().pool[s.draw(47)]); const Z k = gen_scalar(s, s.coin() ? 64 : 64 * (NR + 1), MOD_R); const bigint<NR + 1> K = to_bigint<NR + 1>(k);
    const size_t w = 1 + s.draw(4); if (k > 2) s.nt(); s.say("k=" + k.get_str(16) + " P=" + C.str(P));
    const G a = enc_pt<G>(P, gen_scale<G>(s)); const Pt W = C.mul(k, P); EXPECT_PT(G, K * a, W, k.get_str(16) << " * P, P outside the subgroup"); EXPECT_PT(G, fixed_window_wnaf_exp<G>(w, a, K), W, "wNAF, P outside the subgroup");
}
template<class G, int M> void wnaf_one(Src &s)
{
    const LogPt<G> b = gen_base<G>(s); const G a = enc_pt<G>(b.P, gen_scale<G>(s)); const Z k = gen_scalar(s, s.coin() ? 64 * M : ref::bits(MOD_R), MOD_R); const bigint<M> K = to_bigint<M>(ref::zmod(k, Z(1) << (64 * M))); const Z kk = to_z(K);
    const Pt W = times<G>(kk, b); if (kk > 2) s.nt();
    if (s.coin()) { const size_t w = 1 + s.draw(6); s.label("window " + std::to_string(w)); s.say("fixed window " + std::to_string(w) + " k=" + kk.get_str(16) + " P=" + b.e.get_str(16) + "G"); EXPECT_PT(G, fixed_window_wnaf_exp<G>(w, a, K), W, "fixed_window_wnaf_exp window " << w << " k=" << kk.get_str(16) << " P=" << b.e.get_str(16) << "G"); }
    else { // the declared length selects the window; any value must give the same element
        const size_t bits = s.coin() ? K.num_bits() : s.draw(64 * M + 8); s.label("opt window"); s.say("opt bits=" + std::to_string(bits) + " k=" + kk.get_str(16)); EXPECT_PT(G, opt_window_wnaf_exp<G>(a, K, bits), W, "opt_window_wnaf_exp bits " << bits << " k=" << kk.get_str(16) << " P=" << b.e.get_str(16) << "G"); }
}
template<class G> void wnaf(Src &s) { switch (s.cycle(3)) { case 0: wnaf_one<G, 1>(s); break; case 1: wnaf_one<G, NR>(s); break; default: wnaf_one<G, NR + 1>(s); } }

template<int M> void digits_one(Src &s)
{
    const Z k = gen_scalar(s, 64 * M, MOD_R); const bigint<M> K = to_bigint<M>(k), K0 = K; const size_t w = 1 + s.draw(11); s.label("window " + std::to_string(w)); if (k > 2) s.nt(); s.say("w=" + std::to_string(w) + " k=" + k.get_str(16));
    const std::vector<long> d = find_wnaf(w, K); Z sum; long last = -1;
    CHECK(d.size() <= 64 * M + 1, "more digits than bits"); CHECK(K == K0, "scalar changed");
    for (long i = (long)d.size() - 1; i >= 0; i--) sum = 2 * sum + d[i];
    CHECK(sum == k, "window " << w << " digits of " << k.get_str(16) << " sum to " << sum.get_str(16));
    for (size_t i = 0; i < d.size(); i++) if (d[i]) {
        CHECK(d[i] % 2 != 0 && d[i] < (1l << w) && d[i] > -(1l << w), "digit " << d[i] << " at " << i << " for window " << w << " of " << k.get_str(16));
        CHECK(last < 0 || (long)i - last > (long)w, "non-zero digits " << last << " and " << i << " are within a window of " << w << ", scalar " << k.get_str(16)); last = i;
    }
}
void digits(Src &s) { switch (s.cycle(5)) { case 0: digits_one<1>(s); break; case 1: digits_one<NR>(s); break; case 2: digits_one<NR + 1>(s); break; case 3: digits_one<2>(s); break; default: digits_one<NQ>(s); } }
template<class G> void fam(uint64_t n)
{
    const std::string g = Grp<G>::name();
    pbt::reg(g + "/multiples", 4 * n, multiples<G>); pbt::reg(g + "/wnaf", 4 * n, wnaf<G>); if (CRV != 3 && !((CRV == 1 || CRV >= 4) && Grp<G>::id == 0)) pbt::reg(g + "/outside", n / 4, outside<G>);
}
void all() { fam<G1_>(300); fam<G2_>(150); pbt::reg(CNAME "/wnaf-digits", 10000, digits); }
PBT_REGISTER(all)
}
