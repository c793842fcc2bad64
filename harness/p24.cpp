// P24: edge uses of every component of one curve in instrumented builds; the
// deciding observation is the absence of a sanitizer report, a failed internal
// assertion, an exception or a hang (results are compared as a by-product).
#if CRV >= 6
#include "serial.hpp"
#include <libff/common/rng.hpp>
#else
#include "machine.hpp"
#endif
#include "capture.hpp"
#include "place.hpp"
#include <libff/common/utils.hpp>
using namespace lf;
namespace {
#ifdef HAS_CURVE
template<class G> void group_edges(Src &s)
{
    const GroupData &d = gd<G>(); const int k = s.cycle(17); s.nt(); Z e; G g; { const size_t i = s.draw(d.pool.size() - 1); e = d.pool_log[i]; g = enc_pt<G>(d.pool[i], gen_scale<G>(s)); } if (s.chance(1, 5)) { e = 0; g = enc_pt<G>(Pt(), gen_scale<G>(s)); }
    auto elem = [&](int n) { std::vector<G> v; for (int i = 0; i < n; i++) v.push_back(enc_pt<G>(s.chance(1, 4) ? Pt() : d.pool[s.draw(d.pool.size() - 1)], gen_scale<G>(s))); return v; };
    switch (k) {
    case 0: { s.say("print"); Capture c; g.print(); g.print_coordinates(); (-g).print(); G::zero().print(); G::zero().print_coordinates(); std::vector<G> v = elem(s.draw(3)); std::cout << v; std::cout.flush(); break; }
    case 1: { s.say("empty vectors"); std::vector<G> v; batch_to_special<G>(v); CHECK(v.empty(), "empty batch"); G::batch_to_special_all_non_zeros(v); const std::vector<Fr_> f; CHECK((multi_exp<G, Fr_, multi_exp_method_naive>(v.cbegin(), v.cend(), f.cbegin(), f.cend(), 1 + s.draw(2)).is_zero()), "empty sum"); CHECK((multi_exp<G, Fr_, multi_exp_method_bos_coster>(v.cbegin(), v.cend(), f.cbegin(), f.cend(), 1 + s.draw(2)).is_zero()), "empty sum"); CHECK((multi_exp<G, Fr_, multi_exp_method_BDLO12>(v.cbegin(), v.cend(), f.cbegin(), f.cend(), 1 + s.draw(2)).is_zero()), "empty sum"); CHECK((multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_BDLO12>(v.cbegin(), v.cend(), f.cbegin(), f.cend(), 1 + s.draw(2)).is_zero()), "empty sum"); const auto t = get_window_table<G>(Fr_::ceil_size_in_bits(), 1 + s.draw(3), g); CHECK((batch_exp<G, Fr_>(Fr_::ceil_size_in_bits(), 1, get_window_table<G>(Fr_::ceil_size_in_bits(), 1, g), f).empty()), "empty batch"); (void)t; break; }
    case 2: { const size_t w = 1 + s.draw(9); s.say("wide wNAF window " + std::to_string(w)); const Z n = gen_limbs(s, NR + 1); EXPECT_PT(G, fixed_window_wnaf_exp<G>(w, g, to_bigint<NR + 1>(n)), d.fixed(n * e), "wNAF window " << w); find_wnaf(1 + s.draw(27), to_bigint<NR + 1>(n)); break; }
    case 3: { s.say("all-ones scalars"); bigint<NR + 2> n; for (int i = 0; i < NR + 2; i++) n.data[i] = ~0ul; EXPECT_PT(G, n * g, d.fixed(to_z(n) * e), "all-ones scalar"); EXPECT_PT(G, opt_window_wnaf_exp<G>(g, n, n.num_bits()), d.fixed(to_z(n) * e), "all-ones scalar"); bigint<1> z; EXPECT_PT(G, z * g, Pt(), "0"); EXPECT_PT(G, opt_window_wnaf_exp<G>(g, z, 0), Pt(), "0"); break; }
    case 4: { s.say("self-aliasing"); G a = g; a = a + a; a = a - a; a = g; a = a.dbl(); a = -a; a = a; a.to_special(); a = a.mixed_add(a); EXPECT_PT(G, a, d.fixed(-4 * e), "aliasing"); break; }
    case 5: { const int n = s.draw(60); s.say("long batch " + std::to_string(n)); std::vector<G> v = elem(n), o = v; batch_to_special<G>(v); for (int i = 0; i < n; i++) CHECK(v[i] == o[i], "batch element " << i); break; }
    case 6: { s.say("many chunks"); const int n = s.draw(12); std::vector<G> v = elem(n); for (auto &p : v) p.to_special(); std::vector<Fr_> f(n); for (auto &x : f) x = enc<Fr_>({gen_mod(s, MOD_R, NR)}); const G a = multi_exp<G, Fr_, multi_exp_method_BDLO12>(v.cbegin(), v.cend(), f.cbegin(), f.cend(), 1 + s.draw(30)), b = multi_exp<G, Fr_, multi_exp_method_bos_coster>(v.cbegin(), v.cend(), f.cbegin(), f.cend(), 1 + s.draw(30)); CHECK(a == b, "methods differ"); break; }
    case 7: { s.say("order and cofactor"); bigint<NR> r = G::order(); CHECK((r * g).is_zero(), "order"); G::field_char(); G::size_in_bits(); break; }
    case 8: { s.say("streams"); std::stringstream st; const std::vector<G> v = elem(s.draw(4)); st << g << OUTPUT_NEWLINE << v; G a; std::vector<G> w = elem(s.draw(2)); st >> a; consume_OUTPUT_NEWLINE(st); st >> w; CHECK(!st.fail() && a == g && w == v, "streams"); break; }
    case 9: { s.say("random elements"); for (int i = 0; i < 3; i++) { const G a = G::random_element(); CHECK(a.is_well_formed(), "random element"); } break; }
    case 10: { const size_t w = 1 + s.draw(11), size = 1 + s.draw(40); s.say("table of window " + std::to_string(w)); const auto t = get_window_table<G>(size, w, g); const Z n = gen_scalar(s, size, MOD_R); EXPECT_PT(G, (windowed_exp<G, Fr_>(size, w, t, enc<Fr_>({ref::zmod(n, MOD_R)}))), d.fixed(n * e), "window"); break; }
    case 11: { s.say("window sizes"); get_exp_window_size<G>(s.word()); get_exp_window_size<G>(0); get_exp_window_size<G>(s.draw(5)); break; }
    case 12: { s.say("comparison of identities"); const G z = enc_pt<G>(Pt(), gen_scale<G>(s)); CHECK(z == G::zero() && z.is_zero() && (g == z) == (e == 0) && !(z != z), "identity"); CHECK((z + z).is_zero() && z.dbl().is_zero() && (-z).is_zero() && (z - z).is_zero(), "identity arithmetic"); break; }
    case 13: { s.say("mixed addition of the identity"); G u = g; u.to_special(); const G z = enc_pt<G>(Pt(), gen_scale<G>(s)); EXPECT_PT(G, z.mixed_add(u), d.fixed(e), "O + P"); G o = z; o.to_special(); EXPECT_PT(G, g.mixed_add(o), d.fixed(e), "P + O"); EXPECT_PT(G, u.mixed_add(-u), Pt(), "P - P"); break; }
    case 14: { s.say("vector of scalars of one value"); const int n = 1 + s.draw(20); const std::vector<G> v(n, g); const Z c = s.coin() ? Z(s.draw(2)) : gen_mod(s, MOD_R, NR); const std::vector<Fr_> f(n, enc<Fr_>({c})); EXPECT_PT(G, (multi_exp<G, Fr_, multi_exp_method_bos_coster>(v.cbegin(), v.cend(), f.cbegin(), f.cend(), 1)), d.fixed(c * e * n), "equal terms"); break; }
    case 15: { s.say("initialisation again"); PP::init_public_params(); EXPECT_PT(G, G::one() + g, d.fixed(e + 1), "after initialisation"); break; }
    default: { s.say("affine conversion"); if (COORD == INVERTED && e == 0) break; G a = g; a.to_affine_coordinates(); a.print(); break; }
    }
}
#endif
template<class F> void field_edges(Src &s)
{
    const Field &R = field_of<F>(); const int k = s.cycle(9); const E m = gen_elem(s, R, limbs<F>()); const F x = enc<F>(m); s.nt();
    switch (k) {
    case 0: { s.say("print"); Capture c; x.print(); (-x).print(); std::cout << x << OUTPUT_NEWLINE << std::vector<F>(s.draw(3), x); std::cout.flush(); break; }
    case 1: { s.say("powers"); F y = x; y ^= (unsigned long)gen_limb(s); y ^= to_bigint<3>(gen_limbs(s, 3)); bigint<2> z; CHECK((x ^ z) == F::one() && (x ^ 0ul) == F::one() && (x ^ 1ul) == x, "powers 0 and 1"); break; }
    case 2: { s.say("words"); F y; std::vector<uint64_t> w = x.to_words(); CHECK(y.from_words(w) && y == x, "words"); for (auto &v : w) v = gen_limb(s); y.from_words(w); y.is_zero(); break; }
    case 3: { s.say("aliasing"); F y = x; y += y; y -= y; y = x; y *= y; y = y; y.square(); CHECK(y == (x ^ 4ul), "aliasing"); break; }
    case 4: { s.say("Frobenius"); const unsigned long n = gen_limb(s); CHECK(x.Frobenius_map(n) == x.Frobenius_map(n % R.deg), "Frobenius power " << n); break; }
    case 5: { s.say("random"); F y; y.randomize(); F z = F::random_element(); y += z; y.clear(); CHECK(y.is_zero(), "clear"); break; }
    case 6: { s.say("batch inversion"); std::vector<F> v; batch_invert<F>(v); v.assign(1 + s.draw(9), R.is_zero(m) ? F::one() : x); const std::vector<F> o = v; batch_invert<F>(v); for (size_t i = 0; i < v.size(); i++) CHECK(v[i] * o[i] == F::one(), "inverse"); break; }
    case 7: { s.say("inverse"); if (R.is_zero(m)) break; F y = x; y.invert(); CHECK(y * x == F::one() && x.inverse() == y, "inverse"); break; }
    default: { s.say("sizes"); F::ceil_size_in_bits(); F::floor_size_in_bits(); F::extension_degree(); F::field_char(); std::stringstream st; st << x; F y; st >> y; CHECK(y == x, "stream"); }
    }
}
template<class F> void prime_edges(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs_of<F>::value; const int k = s.cycle(10); s.nt(); const Z v = gen_mod(s, R.p, n); const F x = enc<F>({v});
    switch (k) {
    case 0: { const long a[] = {0, 1, -1, LONG_MAX, LONG_MIN + 1, LONG_MIN, (long)gen_limb(s)}; const long b = clamp_long(a[s.draw(6)], R.p); s.say("from " + std::to_string(b)); F y(b), z(b, true); EXPECT_ELEM(R, z, E{ref::zmod(z_of_u64((uint64_t)b), R.p)}, "from the unsigned word " << (uint64_t)b); EXPECT_ELEM(R, y, E{ref::zmod(Z(b), R.p)}, "from " << b); y.set_ulong(gen_limb(s)); break; }
    case 1: { s.say("roots of unity"); const size_t o = s.coin() ? 1ul << s.draw(63) : s.word(); try { const F w = get_root_of_unity<F>(o); CHECK((w ^ o) == F::one(), "root of unity of order " << o); } catch (const std::invalid_argument &) { } break; }
    case 2: { s.say("square root"); const F y = x.squared().sqrt(); CHECK(y == x || y == -x, "square root"); break; }
    case 3: { s.say("bits"); const bit_vector b = convert_field_element_to_bit_vector<F>(x); CHECK(convert_bit_vector_to_field_element<F>(b) == x, "bits"); convert_field_element_to_bit_vector<F>(x, s.draw(700)); convert_bit_vector_to_field_element<F>(bit_vector()); bit_vector c(s.draw(F::ceil_size_in_bits()), true); convert_bit_vector_to_field_element<F>(c); break; }
    case 4: { s.say("packing"); bit_vector b(s.draw(900)); for (size_t i = 0; i < b.size(); i++) b[i] = s.coin(); pack_bit_vector_into_field_element_vector<F>(b); pack_bit_vector_into_field_element_vector<F>(b, 1 + s.draw(F::floor_size_in_bits() - 1)); convert_bit_vector_to_field_element_vector<F>(b); break; }
    case 5: { s.say("packing integers"); std::vector<size_t> w(s.draw(9)); for (auto &y : w) y = s.word(); pack_int_vector_into_field_element_vector<F>(w, 1 + s.draw(63)); break; }
    case 6: { s.say("as_bigint"); const bigint<n> b = x.as_bigint(); CHECK(to_z(b) == v, "as_bigint"); x.as_ulong(); const F y(b); CHECK(y == x, "from bigint"); break; }
    case 7: { s.say("from any integer"); const Z w = gen_limbs(s, n); EXPECT_ELEM(R, F(to_bigint<n>(w)), E{ref::zmod(w, R.p)}, "from " << w.get_str(16)); F y = x; y.mul_reduce(to_bigint<n>(w % R.p)); break; }
    case 8: { s.say("generators"); F::geometric_generator(); F::arithmetic_generator(); coset_shift<F>(); get_field_type<F>(x); log_of_field_size_helper<F>(x); soundness_log_of_field_size_helper<F>(x); get_word_of_field_elem<F>(x, s.draw(n - 1)); break; }
    default: { s.say("hash"); SHA512_rng<F>(gen_limb(s)); }
    }
}
#ifdef HAS_CURVE
void pairing_edges(Src &s)
{
    const GroupData &d1 = gd<G1_>(), &d2 = gd<G2_>(); s.nt(); const bool z1 = s.chance(1, 3), z2 = s.chance(1, 3); const size_t i = s.draw(d1.pool.size() - 1), j = s.draw(d2.pool.size() - 1);
    const G1_ P = enc_pt<G1_>(z1 ? Pt() : d1.pool[i], gen_scale<G1_>(s)); const G2_ Q = enc_pt<G2_>(z2 ? Pt() : d2.pool[j], gen_scale<G2_>(s)); const E want = gt().pow(z1 || z2 ? Z(0) : Z(d1.pool_log[i] * d2.pool_log[j]));
    switch (s.cycle(4)) {
    case 0: { s.say("precomputations copied"); auto p = PP::precompute_G1(P); auto q = PP::precompute_G2(Q); decltype(p) p2; decltype(q) q2; p2 = p; q2 = q; p2 = p2; CHECK(p == p2 && q == q2, "copies"); EXPECT_ELEM(T().fk, PP::final_exponentiation(PP::miller_loop(p2, q2)), want, "copied precomputations"); break; }
    case 1: { s.say("precomputations written"); Capture c; std::cout << PP::precompute_G1(P) << PP::precompute_G2(Q); std::cout.flush(); break; }
    case 2: { s.say("double loop of one pair"); const auto p = PP::precompute_G1(P); const auto q = PP::precompute_G2(Q); EXPECT_ELEM(T().fk, PP::final_exponentiation(PP::double_miller_loop(p, q, p, q)), T().fk.sqr(want), "double loop"); break; }
    default: { s.say("profiled"); libff::inhibit_profiling_info = libff::inhibit_profiling_counters = false; { Capture c; const Fk_ x = PP::reduced_pairing(P, Q); libff::inhibit_profiling_info = libff::inhibit_profiling_counters = true; EXPECT_ELEM(T().fk, x, want, "profiled pairing"); } }
    }
}
#endif
template<class F> void place(Src &s)
{
    const Field &R = field_of<F>(); const E a = gen_elem(s, R, limbs<F>()), b = gen_elem(s, R, limbs<F>()); s.nt(); placed_field<F>(s, enc<F>(a), enc<F>(b));
}
#ifdef HAS_CURVE
template<class G> void place_pt(Src &s)
{
    const GroupData &d = gd<G>(); const G x = enc_pt<G>(d.pool[s.draw(d.pool.size() - 1)], gen_scale<G>(s)), y = enc_pt<G>(d.pool[s.draw(d.pool.size() - 1)], gen_scale<G>(s)); s.nt();
    placed(s, x, y, [&](G &p, G &q) {
        CHECK(p + q == x + y && p - q == x - y && -p == -x && p.dbl() == x.dbl(), "sum, difference, negative or double"); CHECK((p == q) == (x == y) && p == x, "comparison"); CHECK(p.is_well_formed() && p.is_zero() == x.is_zero(), "predicates");
        p = p + q; CHECK(p == x + y, "sum in place"); p.to_special(); CHECK(p == x + y, "special form"); q = x.mixed_add(p); CHECK(q == x + p, "mixed addition"); CHECK(Fr_(7l) * q == q + q + q + q + q + q + q, "multiple");
    });
}
#endif
template<class F> void reg_field(uint64_t n) { pbt::reg(std::string(fname<F>()) + "/edges", n, field_edges<F>); }
void all()
{
    pbt::reg(std::string(fname<Fq_>()) + "/place", 160, place<Fq_>); pbt::reg(std::string(fname<Fk_>()) + "/place", 80, place<Fk_>);
#ifdef HAS_CURVE
    pbt::reg(std::string(Grp<G1_>::name()) + "/place", 64, place_pt<G1_>); pbt::reg(std::string(Grp<G2_>::name()) + "/place", 64, place_pt<G2_>);
    pbt::reg(std::string(Grp<G1_>::name()) + "/edges", 340, group_edges<G1_>); pbt::reg(std::string(Grp<G2_>::name()) + "/edges", 170, group_edges<G2_>);
    pbt::reg(CNAME "/pairing edges", 60, pairing_edges);
    pbt::reg(CNAME "/programs", 80, [](Src &s) { Machine m(s, true); const int n = 1 + s.draw(15); s.nt(); for (int i = 0; i < n; i++) m.step(); m.finish(); });
#endif
    reg_field<Fe_>(450); reg_field<Fk_>(270); reg_field<Fr_>(900); reg_field<Fq_>(900);
#ifdef HAS_FM
    reg_field<Fm_>(270);
#endif
    pbt::reg(std::string(fname<Fr_>()) + "/conversions", 2000, prime_edges<Fr_>); pbt::reg(std::string(fname<Fq_>()) + "/conversions", 2000, prime_edges<Fq_>);
    pbt::reg(CNAME "/streams", 300, [](Src &s) { std::vector<Item> v; const int n = 1 + s.draw(5); for (int i = 0; i < n; i++) v.push_back(field_or_container(s)); s.nt(); run_items(s, v); });
}
PBT_REGISTER(all)
}
