// P13: fixed-base window tables and the exponentiations that use them.
#include "group.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#ifdef MULTICORE
#include <omp.h>
#endif
using namespace lf;
namespace {
const size_t RB = ref::bits(MOD_R);
template<class G> struct Tab { Z e; G base; size_t size, window; window_table<G> t; std::string d; };
template<class G> Tab<G> gen_tab(Src &s)
{
    Tab<G> t; const GroupData &d = gd<G>(); Pt P; s.cycle(1);
    t.window = s.chance(1, 15) ? 8 + s.draw(4) : 1 + s.draw(6); // the table has ceil(size/window) 2^window entries
    switch (s.draw(4)) { case 0: t.size = RB; break; case 1: t.size = 1 + s.draw(15); break; case 2: t.size = t.window * (1 + s.draw(6)) + (s.coin() ? 0 : s.coin() ? 1 : t.window - 1); break; case 3: t.size = RB - s.draw(3); break; default: t.size = 1 + s.draw(RB - 1); }
    if (t.window > 7) t.size = t.window + s.draw(t.window + 3);
    if (t.size > RB) t.size = RB;
    if (s.chance(1, 12)) t.e = 0; else { const size_t i = s.draw(d.pool.size() - 1); t.e = d.pool_log[i]; P = d.pool[i]; }
    if (t.e == 0) P = Pt();
    t.base = enc_pt<G>(P, gen_scale<G>(s)); t.t = get_window_table<G>(t.size, t.window, t.base);
    t.d = "scalar size " + std::to_string(t.size) + " window " + std::to_string(t.window) + " base " + t.e.get_str(16) + "G";
    s.label("window " + std::to_string(t.window)); s.label(t.size % t.window ? "window does not divide the size" : "window divides the size");
    return t;
}
// a scalar that fits the table and the field
inline Z gen_fit(Src &s, size_t size) { Z k = gen_scalar(s, size, MOD_R); if (k >= MOD_R) k -= MOD_R; return k; }
inline Fr_ fr(const Z &k) { return Fr_(to_bigint<NR>(k)); }

template<class G> void single(Src &s)
{
    const Tab<G> t = gen_tab<G>(s); const GroupData &d = gd<G>(); if (t.e != 0) s.nt(); std::string ks;
    const int n = 1 + s.draw(3);
    for (int i = 0; i < n; i++) { const Z k = gen_fit(s, t.size); ks += " " + k.get_str(16); EXPECT_PT(G, (windowed_exp<G, Fr_>(t.size, t.window, t.t, fr(k))), d.fixed(k * t.e), "windowed_exp of " << k.get_str(16) << ", " << t.d); }
    s.say(t.d + " scalars" + ks);
    // table entries: row i holds j 2^(window i) base
    const size_t rows = (t.size + t.window - 1) / t.window; CHECK(t.t.size() == rows, "table rows");
    for (int q = 0; q < 2; q++) { const size_t i = s.draw(rows - 1); const size_t lim = i == rows - 1 ? (1ul << (t.size - (rows - 1) * t.window)) : (1ul << t.window); const size_t j = s.draw(lim - 1); CHECK(t.t[i].size() >= lim, "table row " << i << " is too short"); EXPECT_PT(G, t.t[i][j], d.fixed(t.e * z_of_u64(j) * (Z(1) << (t.window * i))), "table entry " << i << "," << j << ", " << t.d); }
}
template<class G> void batch_of(Src &s, int n)
{
    const Tab<G> t = gen_tab<G>(s); const GroupData &d = gd<G>(); std::vector<Fr_> v; std::vector<Z> k;
    for (int i = 0; i < n; i++) { k.push_back(i && s.chance(1, 5) ? k[s.draw(i - 1)] : gen_fit(s, t.size)); v.push_back(fr(k[i])); }
    if (n > 1 && t.e != 0) s.nt(); s.say(t.d + ", " + std::to_string(n) + " scalars");
#ifdef MULTICORE
    omp_set_num_threads(1 + s.draw(5));
#endif
    const std::vector<G> r = batch_exp<G, Fr_>(t.size, t.window, t.t, v); CHECK((int)r.size() == n, "batch_exp returns " << r.size() << " of " << n);
    for (int i = 0; i < n; i++) EXPECT_PT(G, r[i], d.fixed(k[i] * t.e), "batch_exp element " << i << " scalar " << k[i].get_str(16) << ", " << t.d);
    // with a coefficient: the products must fit the table
    Z c = t.size == RB ? gen_mod(s, MOD_R, NR) : z_of_u64(s.draw(1)); const bool full = t.size == RB;
    if (full || c <= 1) {
        const std::vector<G> q = batch_exp_with_coeff<G, Fr_>(t.size, t.window, t.t, fr(c), v); CHECK((int)q.size() == n, "batch_exp_with_coeff returns " << q.size() << " of " << n);
        for (int i = 0; i < n; i++) EXPECT_PT(G, q[i], d.fixed(c * k[i] * t.e), "batch_exp_with_coeff element " << i << " scalar " << k[i].get_str(16) << " coefficient " << c.get_str(16) << ", " << t.d);
    }
}
template<class G> void batch(Src &s) { batch_of<G>(s, s.draw(9)); }
template<class G> void long_batch(Src &s) { batch_of<G>(s, pbt::long_len(s, 300)); }
// the chosen window is the largest whose table threshold is reached, and works
template<class G> void choose(Src &s)
{
    const auto &tab = G::fixed_base_exp_window_table; size_t n;
    switch (s.draw(3)) { case 0: n = s.draw(200); break; case 1: n = tab[s.draw(tab.size() - 1)]; n = n + s.draw(2) - (n ? 1 : 0); break; case 2: n = 1ull << s.draw(34); break; default: n = s.draw(1ull << 40); }
    const size_t w = get_exp_window_size<G>(n); size_t want = 1; for (size_t i = 0; i < tab.size(); i++) if (tab[i] != 0 && n >= tab[i]) want = i + 1;
#ifdef LOWMEM
    if (want > 14) want = 14;
#endif
    if (want > 1) s.nt(); s.say("window for " + std::to_string(n) + " scalars is " + std::to_string(w));
    CHECK(w == want, "window for " << n << " scalars is " << w << ", the table says " << want); CHECK(w >= 1, "window is positive");
    if (w <= 8) { const size_t size = 1 + s.draw(40); const Z k = gen_fit(s, size); const window_table<G> t = get_window_table<G>(size, w, G::one()); EXPECT_PT(G, (windowed_exp<G, Fr_>(size, w, t, fr(k))), gd<G>().fixed(k), "windowed_exp with the chosen window " << w << " size " << size << " scalar " << k.get_str(16)); }
}
template<class G> void fam(uint64_t n)
{
    const std::string g = Grp<G>::name();
    pbt::reg(g + "/windowed-exp", n, single<G>); pbt::reg(g + "/batch-exp", n / 2, batch<G>); pbt::reg(g + "/long-batch-exp", n < 100 ? 18 : 36, long_batch<G>); pbt::reg(g + "/window-size", n, choose<G>);
}
void all() { fam<G1_>(300); fam<G2_>(120); }
PBT_REGISTER(all)
}
