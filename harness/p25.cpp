// P25: computations of one curve that run after, before and beside each other.
#include "machine.hpp"
#include "jobs.hpp"
using namespace lf;
namespace {
// what the jobs of one case share (and only read); arguments that almost agree
struct Ctx {
    static const int N = 4;
    std::vector<G1_> a; std::vector<Z> la; std::vector<G2_> b; std::vector<Z> lb; std::vector<Fr_> k; std::vector<Z> mk; std::vector<Fq_> x; std::vector<E> mx; std::vector<Fk_> t; std::vector<Z> lt;
    std::vector<G1_> sa; std::vector<G2_> sb; // in special form
    size_t size[3], window[2]; uint64_t idx;
    std::vector<decltype(PP::precompute_G1(G1_()))> p; std::vector<decltype(PP::precompute_G2(G2_()))> q;
    template<class G> void points(Src &s, std::vector<G> &g, std::vector<Z> &l)
    {
        const GroupData &d = gd<G>(); const size_t i = s.draw(d.pool.size() - 1), j = s.draw(d.pool.size() - 1); const E sc = gen_scale<G>(s);
        const Z e[N] = {d.pool_log[i], ref::zmod(-d.pool_log[i], MOD_R), d.pool_log[i], s.coin() ? Z(0) : d.pool_log[j]};
        const E w[N] = {sc, sc, gen_scale<G>(s), sc};
        for (int c = 0; c < N; c++) { l.push_back(e[c]); g.push_back(enc_pt<G>(e[c] == 0 ? Pt() : c == 1 ? d.c.neg(d.pool[i]) : c == 3 ? d.pool[j] : d.pool[i], w[c])); }
    }
    explicit Ctx(Src &s)
    {
        points(s, a, la); points(s, b, lb); sa = a; sb = b; for (auto &g : sa) g.to_special(); for (auto &g : sb) g.to_special();
        const Z u = gen_mod(s, MOD_R, NR); for (const Z &z : {u, ref::zmod(u + 1, MOD_R), ref::zmod(-u, MOD_R), ref::zmod(u ^ (Z(1) << (64 * (NR - 1))), MOD_R)}) { mk.push_back(z); k.push_back(Fr_(to_bigint<NR>(z))); }
        const Z v = gen_mod(s, MOD_Q, NQ); for (const Z &z : {v, ref::zmod(v + 1, MOD_Q), ref::zmod(-v, MOD_Q), ref::zmod(v ^ (Z(1) << (64 * (NQ - 1))), MOD_Q)}) { mx.push_back({z}); x.push_back(Fq_(to_bigint<NQ>(z))); }
        for (int c = 0; c < N; c++) { lt.push_back(mk[c]); t.push_back(enc<Fk_>(gt().pow(mk[c]))); }
        size[0] = Fr_::ceil_size_in_bits(); size[1] = 1 + s.draw(30); size[2] = size[1] + 1 + s.draw(3); window[0] = 1 + s.draw(3); window[1] = window[0] + 1; idx = gen_limb(s);
        for (int c = 0; c < N; c++) { p.push_back(PP::precompute_G1(a[c])); q.push_back(PP::precompute_G2(b[c])); }
    }
};
template<class G> const std::vector<G> &pts(const Ctx &); template<> const std::vector<G1_> &pts<G1_>(const Ctx &c) { return c.a; } template<> const std::vector<G2_> &pts<G2_>(const Ctx &c) { return c.b; }
template<class G> const std::vector<G> &spc(const Ctx &); template<> const std::vector<G1_> &spc<G1_>(const Ctx &c) { return c.sa; } template<> const std::vector<G2_> &spc<G2_>(const Ctx &c) { return c.sb; }
template<class G> const std::vector<Z> &logs(const Ctx &); template<> const std::vector<Z> &logs<G1_>(const Ctx &c) { return c.la; } template<> const std::vector<Z> &logs<G2_>(const Ctx &c) { return c.lb; }
int pick(Src &s) { return s.draw(Ctx::N - 1); }

void program(const Ctx &, Src &s) { Machine m(s, true); const int n = 1 + s.draw(5); for (int i = 0; i < n; i++) m.step(); m.finish(); }
template<class G> void tables(const Ctx &c, Src &s)
{
    const int i = pick(s); const size_t size = c.size[s.draw(2)], w = c.window[s.draw(1)]; const G &g = pts<G>(c)[i]; const Z &l = logs<G>(c)[i]; const auto tab = get_window_table<G>(size, w, g);
    std::vector<Fr_> v; std::vector<Z> m; for (int n = s.draw(3); n >= 0; n--) { const Z z = c.mk[pick(s)] % (Z(1) << size) % MOD_R; m.push_back(z); v.push_back(Fr_(to_bigint<NR>(z))); }
    const std::string d = "size " + std::to_string(size) + " window " + std::to_string(w) + " base " + l.get_str(16);
    EXPECT_PT(G, (windowed_exp<G, Fr_>(size, w, tab, v[0])), gd<G>().fixed(l * m[0]), "windowed_exp " << d << " scalar " << m[0].get_str(16));
    const std::vector<G> r = batch_exp<G, Fr_>(size, w, tab, v); CHECK(r.size() == v.size(), "batch_exp size"); for (size_t j = 0; j < v.size(); j++) EXPECT_PT(G, r[j], gd<G>().fixed(l * m[j]), "batch_exp " << d << " scalar " << m[j].get_str(16));
    if (size == c.size[0]) { const int u = pick(s); const std::vector<G> t = batch_exp_with_coeff<G, Fr_>(size, w, tab, c.k[u], v); for (size_t j = 0; j < v.size(); j++) EXPECT_PT(G, t[j], gd<G>().fixed(l * c.mk[u] * m[j]), "batch_exp_with_coeff " << d); }
}
template<class G> void sums(const Ctx &c, Src &s)
{
    const size_t n = s.draw(8), ch = 1 + s.draw(4), m = s.draw(3); const bool special = m == 3 || s.coin(); std::vector<G> g; std::vector<Fr_> k; Z sum;
    for (size_t i = 0; i < n; i++) { const int u = pick(s), v = pick(s), o = s.draw(3); g.push_back(special ? spc<G>(c)[u] : pts<G>(c)[u]); const Z z = o == 0 ? Z(s.draw(1)) : c.mk[v]; k.push_back(o == 0 ? Fr_(z.get_ui()) : c.k[v]); sum += logs<G>(c)[u] * z; }
#ifdef MULTICORE
    omp_set_num_threads(1 + s.draw(3));
#endif
    G r; const auto gb = g.cbegin(), ge = g.cend(); const auto kb = k.cbegin(), ke = k.cend(); const bool mixed = special && s.coin();
    switch (m) {
    case 0: r = mixed ? multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_naive>(gb, ge, kb, ke, ch) : multi_exp<G, Fr_, multi_exp_method_naive>(gb, ge, kb, ke, ch); break;
    case 1: r = mixed ? multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_naive_plain>(gb, ge, kb, ke, ch) : multi_exp<G, Fr_, multi_exp_method_naive_plain>(gb, ge, kb, ke, ch); break;
    case 2: r = mixed ? multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_bos_coster>(gb, ge, kb, ke, ch) : multi_exp<G, Fr_, multi_exp_method_bos_coster>(gb, ge, kb, ke, ch); break;
    default: r = mixed ? multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_BDLO12>(gb, ge, kb, ke, ch) : multi_exp<G, Fr_, multi_exp_method_BDLO12>(gb, ge, kb, ke, ch);
    }
    EXPECT_PT(G, r, gd<G>().fixed(sum), "multi-exponentiation of " << n << " terms, method " << m << " chunks " << ch << (mixed ? " mixed" : ""));
}
void by_q(const G1_ &, const Z &) {}
void by_q(const G2_ &P, const Z &l) { EXPECT_PT(G2_, P.mul_by_q(), gd<G2_>().fixed(l * MOD_Q), "mul_by_q"); }
template<class G> void points(const Ctx &c, Src &s)
{
    const std::vector<G> &P = pts<G>(c); const std::vector<Z> &l = logs<G>(c); const int i = pick(s), j = pick(s), u = pick(s); const GroupData &d = gd<G>();
    switch (s.draw(11)) {
    case 9: { G x = P[i]; x.to_affine_coordinates(); s.digest(canon(dec(x.X)) + canon(dec(x.Y))); x = P[j]; x.to_special(); EXPECT_PT(G, x, d.fixed(l[j]), "to_special"); break; }
    case 10: EXPECT_PT(G, P[i].dbl() + P[j], d.fixed(2 * l[i] + l[j]), "2P+Q"); by_q(P[i], l[i]); break;
    case 0: EXPECT_PT(G, P[i] + P[j], d.fixed(l[i] + l[j]), "P+Q"); break;
    case 1: EXPECT_PT(G, P[i] - P[j], d.fixed(l[i] - l[j]), "P-Q"); break;
    case 2: EXPECT_PT(G, P[i].mixed_add(spc<G>(c)[j]), d.fixed(l[i] + l[j]), "mixed_add"); break;
    case 3: EXPECT_PT(G, c.k[u] * P[i], d.fixed(c.mk[u] * l[i]), "k*P"); break;
    case 4: EXPECT_PT(G, opt_window_wnaf_exp<G>(P[i], c.k[u].as_bigint(), c.k[u].as_bigint().num_bits()), d.fixed(c.mk[u] * l[i]), "wnaf"); break;
    case 5: { const size_t w = c.window[s.draw(1)]; EXPECT_PT(G, fixed_window_wnaf_exp<G>(w, P[i], c.k[u].as_bigint()), d.fixed(c.mk[u] * l[i]), "fixed wnaf window " << w); break; }
    case 6: { std::vector<G> v(P.begin(), P.end()); v.resize(1 + s.draw(3), P[i]); batch_to_special<G>(v); for (size_t z = 0; z < v.size(); z++) CHECK(v[z] == P[z], "batch_to_special"); break; }
    case 7: { const std::string y = bytes_of(P[i]); s.digest(y); std::istringstream in(y); G g; in >> g; CHECK(!in.fail() && g == P[i], "write and read"); break; }
    case 8: CHECK((P[i] == P[j]) == (l[i] == l[j]) && P[i].is_zero() == (l[i] == 0) && P[i].is_well_formed(), "predicates"); break;
    default: { const G g = G::random_element(); CHECK(g.is_well_formed() && (G::order() * g).is_zero(), "random element"); }
    }
}
void fields(const Ctx &c, Src &s)
{
    const Field &R = T().fr, &Q = T().fq; const int i = pick(s), j = pick(s); const E ki = {c.mk[i]}, kj = {c.mk[j]};
    switch (s.draw(15)) {
    case 14: { // an order that the field does not have, more than once
        const size_t lim = Fr_::s + 1, o = s.coin() && lim < 64 ? 1ul << lim : 3 * (1 + s.draw(3)); std::string y; for (int n = 0; n < 2; n++) { try { y += canon(dec(get_root_of_unity<Fr_>(o))); } catch (std::invalid_argument &) { y += "x"; } } CHECK(y == "xx", "roots of unity of order " << o << ", which the field does not have: " << y); break; }
    case 0: EXPECT_ELEM(R, c.k[i] * c.k[j] - c.k[i], R.sub(R.mul(ki, kj), ki), "ab-a"); EXPECT_ELEM(Q, c.x[i] * c.x[j] + c.x[j], Q.add(Q.mul(c.mx[i], c.mx[j]), c.mx[j]), "ab+b"); break;
    case 1: if (c.mk[i] != 0) EXPECT_ELEM(R, c.k[i].inverse(), R.inv(ki), "inverse"); if (!Q.is_zero(c.mx[i])) EXPECT_ELEM(Q, c.x[i].inverse(), Q.inv(c.mx[i]), "inverse"); break;
    case 2: { const Fr_ r = c.k[i].squared().sqrt(); CHECK(r == c.k[i] || r == -c.k[i], "sqrt"); const Fq_ y = c.x[i].squared().sqrt(); CHECK(y == c.x[i] || y == -c.x[i], "sqrt"); s.digest(canon(dec(r)) + canon(dec(y))); break; }
    case 3: EXPECT_ELEM(R, c.k[i] ^ c.k[j].as_bigint(), R.pow(ki, c.mk[j]), "power"); EXPECT_ELEM(Q, c.x[i] ^ c.idx, Q.pow(c.mx[i], z_of_u64(c.idx)), "power"); break;
    case 4: { const Fr_ r = SHA512_rng<Fr_>(c.idx + s.draw(2)); s.digest(canon(dec(r))); const Fq_ y = SHA512_rng<Fq_>(c.idx + s.draw(2)); s.digest(canon(dec(y))); break; }
    case 5: { const bit_vector b = convert_field_element_to_bit_vector<Fr_>(c.k[i]); CHECK(convert_bit_vector_to_field_element<Fr_>(b) == c.k[i], "bits"); const std::vector<Fr_> v = pack_bit_vector_into_field_element_vector<Fr_>(b, c.size[1]); for (auto &y : v) s.digest(canon(dec(y))); break; }
    case 6: { const size_t o = 1ul << s.draw(5); const Fr_ w = get_root_of_unity<Fr_>(o); CHECK((w ^ o) == Fr_::one() && (o == 1 || (w ^ (o / 2)) != Fr_::one()), "root of unity of order " << o); s.digest(canon(dec(w))); break; }
    case 7: { const unsigned n = s.draw(5); Fk_ y = c.t[i].Frobenius_map(n); EXPECT_ELEM(T().fk, y, T().fk.pow(dec(c.t[i]), ref::zpowi(MOD_Q, n)), "Frobenius " << n); break; }
    case 8: EXPECT_ELEM(T().fk, c.t[i].cyclotomic_exp(c.k[j].as_bigint()), gt().pow(c.lt[i] * c.mk[j]), "cyclotomic_exp"); EXPECT_ELEM(T().fk, c.t[i].unitary_inverse() * c.t[j], gt().pow(c.lt[j] - c.lt[i]), "unitary inverse"); break;
    case 9: { std::vector<Fq_> v(c.x.begin(), c.x.end()); v.resize(1 + s.draw(5), c.x[i]); for (auto &y : v) if (y.is_zero()) y = Fq_::one(); const std::vector<Fq_> o = v; batch_invert<Fq_>(v); for (size_t z = 0; z < v.size(); z++) CHECK(v[z] * o[z] == Fq_::one(), "batch_invert"); break; }
    case 10: { const std::string y = bytes_of(c.k) + bytes_of(c.x[i]) + bytes_of(c.t[j]); s.digest(y); std::istringstream in(y); std::vector<Fr_> v; Fq_ u; Fk_ w; in >> v >> u >> w; CHECK(!in.fail() && v == c.k && u == c.x[i] && w == c.t[j], "write and read"); break; }
    case 11: { const std::vector<uint64_t> w = c.k[i].to_words(); Fr_ y; CHECK(y.from_words(w) && y == c.k[i], "words"); EXPECT_ELEM(R, Fr_((long)(c.x[j].as_bigint().as_ulong() >> 1)), R.from(ref::zmod(c.mx[j][0], Z(1) << 64) / 2), "from a word"); break; }
    case 12: { std::set<std::string> seen; for (int n = 0; n < 3; n++) { const Fr_ y = Fr_::random_element(); CHECK(dec(y)[0] < MOD_R, "random element"); CHECK(seen.insert(canon(dec(y))).second, "the same random element twice"); } break; }
    case 13: EXPECT_ELEM(R, (inner_product<Fr_>(c.k.cbegin(), c.k.cend(), c.k.cbegin(), c.k.cend())), R.from(c.mk[0] * c.mk[0] + c.mk[1] * c.mk[1] + c.mk[2] * c.mk[2] + c.mk[3] * c.mk[3]), "inner_product"); break;
    default: { const size_t w = c.window[s.draw(1)]; std::string d; for (long z : find_wnaf(w, c.k[i].as_bigint())) d += std::to_string(z) + ","; s.digest(d); s.digest(std::to_string(get_exp_window_size<G1_>(c.idx)) + " " + std::to_string(get_exp_window_size<G2_>(c.size[1]))); break; }
    }
}
void pairings(const Ctx &c, Src &s)
{
    const int i = pick(s), j = pick(s), u = pick(s), v = pick(s); const Field &K = T().fk;
    switch (s.draw(5)) {
    case 3: { const Fk_ f = PP::pairing(c.a[i], c.b[j]); s.digest(canon(dec(f))); EXPECT_ELEM(K, PP::final_exponentiation(f), gt().pow(c.la[i] * c.lb[j]), "pairing"); break; }
#if CRV == 3
    case 4: { static const E tb = rp().tate(cv<G1_>().g, cv<G2_>().g); EXPECT_ELEM(K, edwards_tate_reduced_pairing(c.a[i], c.b[j]), K.pow(tb, ref::zmod(c.la[i] * c.lb[j], MOD_R)), "Tate pairing"); break; }
#elif CRV >= 4
    case 4: { EXPECT_ELEM(K, PP::affine_reduced_pairing(c.a[i], c.b[j]), gt().pow(c.la[i] * c.lb[j]), "affine_reduced_pairing"); const auto p = PP::affine_ate_precompute_G1(c.a[u]); const auto q = PP::affine_ate_precompute_G2(c.b[v]); EXPECT_ELEM(K, PP::final_exponentiation(PP::affine_ate_miller_loop(p, q)), gt().pow(c.la[u] * c.lb[v]), "affine Miller loop"); break; }
#endif
    case 0: EXPECT_ELEM(K, PP::reduced_pairing(c.a[i], c.b[j]), gt().pow(c.la[i] * c.lb[j]), "reduced_pairing"); break;
    case 1: { const Fk_ f = PP::miller_loop(c.p[i], c.q[j]); s.digest(canon(dec(f))); EXPECT_ELEM(K, PP::final_exponentiation(f), gt().pow(c.la[i] * c.lb[j]), "miller_loop of shared precomputations"); break; }
    case 2: EXPECT_ELEM(K, PP::final_exponentiation(PP::double_miller_loop(c.p[i], c.q[j], c.p[u], c.q[v])), gt().pow(c.la[i] * c.lb[j] + c.la[u] * c.lb[v]), "double_miller_loop of shared precomputations"); break;
    default: { const auto p = PP::precompute_G1(c.a[i]); const auto q = PP::precompute_G2(c.b[j]); CHECK(p == c.p[i] && q == c.q[j], "precomputation"); s.digest(bytes_of(p) + bytes_of(q)); }
    }
}
const Kind<Ctx> KINDS[] = {{"field operations", fields}, {"G1 operations", points<G1_>}, {"G2 operations", points<G2_>}, {"G1 tables", tables<G1_>}, {"G1 sums", sums<G1_>}, {"G2 tables", tables<G2_>}, {"G2 sums", sums<G2_>}, {"pairings", pairings}, {"program", program}};
void all()
{
    pbt::reg(CNAME "/jobs", 160, [](Src &s) { const Ctx c(s); run_jobs(s, c, KINDS); });
    // the parameters are set up again between the jobs
    pbt::reg(CNAME "/initialised again", 30, [](Src &s) {
        const Ctx c(s); const size_t k = s.draw(sizeof KINDS / sizeof *KINDS - 1); const size_t at = s.out.size(); s.dig = 0; KINDS[k].f(c, s); const uint64_t d = s.dig; const std::vector<uint64_t> ch(s.out.begin() + at, s.out.end()); s.nt(); s.sample = KINDS[k].name;
        PP::init_public_params(); const Done x = run_job(KINDS[k], c, ch); CHECK(x.ok, KINDS[k].name << " after initialising again: " << x.msg); CHECK(x.dig == d, KINDS[k].name << " computes something else after initialising again"); });
}
PBT_REGISTER(all)
}
