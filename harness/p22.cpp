// P22: operation counters of every field and group; library calls under profiling.
#include "group.hpp"
#include "capture.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <sstream>
using namespace lf;
namespace {
#ifdef PROFILE_OP_COUNTS
// a straight-line program; the counters change by the number of operations of each kind
template<class F> void field_counts(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>(); std::vector<F> v; std::vector<E> e; long long add = 0, sub = 0, mul = 0, sqr = 0, inv = 0; std::string d;
    for (int i = 0; i < 3; i++) { e.push_back(gen_elem(s, R, n)); v.push_back(enc<F>(e.back())); }
    const long long a0 = F::add_cnt, s0 = F::sub_cnt, m0 = F::mul_cnt, q0 = F::sqr_cnt, i0 = F::inv_cnt;
    for (int k = 0, len = 1 + s.draw(11); k < len; k++) {
        const int i = s.draw(2), j = s.draw(2), o = s.draw(9); d += "+-*SI" [o / 2]; F &x = v[i]; const F y = v[j]; const E ex = e[i], ey = e[j];
        switch (o) {
        case 0: x = x + y; e[i] = R.add(ex, ey); add++; break;
        case 1: x += y; e[i] = R.add(ex, ey); add++; break;
        case 2: x = x - y; e[i] = R.sub(ex, ey); sub++; break;
        case 3: x -= y; e[i] = R.sub(ex, ey); sub++; break;
        case 4: x = x * y; e[i] = R.mul(ex, ey); mul++; break;
        case 5: x *= y; e[i] = R.mul(ex, ey); mul++; break;
        case 6: x = x.squared(); e[i] = R.sqr(ex); sqr++; break;
        case 7: x.square(); e[i] = R.sqr(ex); sqr++; break;
        case 8: if (!R.is_zero(ex)) { x = x.inverse(); e[i] = R.inv(ex); inv++; } break;
        default: if (!R.is_zero(ex)) { x.invert(); e[i] = R.inv(ex); inv++; }
        }
    }
    s.nt(); s.say(std::string(fname<F>()) + " " + d);
    CHECK(F::add_cnt - a0 == add, fname<F>() << " add_cnt changed by " << F::add_cnt - a0 << " in " << add << " additions"); CHECK(F::sub_cnt - s0 == sub, fname<F>() << " sub_cnt changed by " << F::sub_cnt - s0 << " in " << sub << " subtractions");
    CHECK(F::mul_cnt - m0 == mul, fname<F>() << " mul_cnt changed by " << F::mul_cnt - m0 << " in " << mul << " multiplications"); CHECK(F::sqr_cnt - q0 == sqr, fname<F>() << " sqr_cnt changed by " << F::sqr_cnt - q0 << " in " << sqr << " squarings");
    CHECK(F::inv_cnt - i0 == inv, fname<F>() << " inv_cnt changed by " << F::inv_cnt - i0 << " in " << inv << " inversions");
    for (int i = 0; i < 3; i++) EXPECT_ELEM(R, v[i], e[i], "value " << i);
}
template<class G> void group_counts(Src &s)
{
    const GroupData &D = gd<G>(); const Pt p = D.pool[s.draw(D.pool.size() - 1)]; const int rel = s.draw(2); Pt q = rel == 0 ? D.pool[s.draw(D.pool.size() - 1)] : rel == 1 ? p : D.c.add(p, D.pool[s.draw(D.pool.size() - 1)]);
    const G P = enc_pt<G>(p, gen_scale<G>(s)), Q = enc_pt<G>(q, gen_scale<G>(s)); if (q.inf || D.c.eq(p, D.c.neg(q))) throw pbt::Discard(); G S = Q; S.to_special();
    const long long a0 = G::add_cnt, d0 = G::dbl_cnt; const int o = s.draw(4); G r; Pt w = D.c.add(p, q); const char *name = "";
    switch (o) { case 0: r = P + Q; name = "+"; break; case 1: r = P - (-Q); name = "-"; break; case 2: r = P.add(Q); name = "add"; break; case 3: r = P.mixed_add(S); name = "mixed_add"; break; default: r = P.dbl(); w = D.c.dbl(p); name = "dbl"; }
    const long long a = G::add_cnt - a0, d = G::dbl_cnt - d0; s.nt(); s.say(std::string(Grp<G>::name()) + " " + name);
    if (o == 4) CHECK(d == 1 && a == 0, name << " counts " << a << " additions and " << d << " doublings"); else if (D.c.eq(p, q)) CHECK(a + d == 1, name << " of equal points counts " << a << " additions and " << d << " doublings"); else CHECK(a == 1 && d == 0, name << " counts " << a << " additions and " << d << " doublings");
    EXPECT_PT(G, r, w, name);
}
#endif
// the blocks that library functions enter and leave are well nested, and
// profiling changes no result
void brackets(const std::string &t, const char *what)
{
    std::istringstream in(t); std::string line; std::vector<std::string> st;
    while (std::getline(in, line)) {
        size_t i = line.find_first_not_of(' '); if (i == std::string::npos) continue;
        const bool en = line.compare(i, 8, "(enter) ") == 0, le = line.compare(i, 8, "(leave) ") == 0; if (!en && !le) continue;
        std::string name = line.substr(i + 8, line.find('\t') == std::string::npos ? std::string::npos : line.find('\t') - i - 8); while (!name.empty() && name.back() == ' ') name.pop_back();
        if (en) st.push_back(name); else { CHECK(!st.empty() && st.back() == name, what << " leaves the block \"" << name << "\", open is \"" << (st.empty() ? std::string() : st.back()) << "\""); st.pop_back(); }
    }
    CHECK(st.empty(), what << " does not leave the block \"" << st.back() << "\"");
}
#if CRV == 3
#define CF(name) edwards_##name
#endif
template<class Fn> void call(Src &s, const char *what, Fn f)
{
    (void)s; inhibit_profiling_info = inhibit_profiling_counters = true; const auto a = f();
    inhibit_profiling_counters = false; const auto b = f();
    std::string t, u; decltype(f()) c, d = a;
    {
        inhibit_profiling_info = false; Capture cap; c = f(); t = cap.text();
        enter_block("after"); leave_block("after"); u = cap.text().substr(t.size());
    }
    clear_profiling_counters(); inhibit_profiling_info = true; d = f(); inhibit_profiling_counters = true;
    CHECK(a == b && a == c && a == d, what << ": the result depends on profiling");
    brackets(t, what); size_t p = u.find("(enter) after"); CHECK(p == 0 || (p != std::string::npos && u[p - 1] == '\n'), what << " changes the indentation: " << u.substr(0, 60)); brackets(u, "a block");
}
void library(Src &s)
{
    const int k = s.cycle(12); Z a = gen_mod(s, MOD_R, NR), b = gen_mod(s, MOD_R, NR); if (s.chance(1, 8)) a = 0; const G1_ P = enc_pt<G1_>(gd<G1_>().fixed(a), gen_scale<G1_>(s)); const G2_ Q = enc_pt<G2_>(gd<G2_>().fixed(b), gen_scale<G2_>(s)); s.nt();
    const Fk_ x = enc<Fk_>(gen_elem(s, T().fk, NQ)) + Fk_::one(); std::vector<G1_> g; std::vector<Fr_> e; for (int i = 0, n = s.draw(9); i < n; i++) { g.push_back(enc_pt<G1_>(gen_pt<G1_>(s), cf<G1_>().one())); e.push_back(Fr_(to_bigint<NR>(gen_mod(s, MOD_R, NR)))); }
#define CALL(what, ...) do { s.say(what); call(s, what, [&] { return __VA_ARGS__; }); } while (0)
    switch (k) {
    case 0: CALL("reduced_pairing", PP::reduced_pairing(P, Q)); break;
    case 1: CALL("pairing", PP::pairing(P, Q)); break;
    case 2: CALL("precompute_G1", PP::precompute_G1(P)); break;
    case 3: CALL("precompute_G2", PP::precompute_G2(Q)); break;
    case 4: if (x.is_zero()) throw pbt::Discard(); CALL("final_exponentiation", PP::final_exponentiation(x)); break;
    case 5: { const auto p = PP::precompute_G1(P); const auto q = PP::precompute_G2(Q); CALL("miller_loop", PP::miller_loop(p, q)); CALL("double_miller_loop", PP::double_miller_loop(p, q, p, q)); break; }
    case 6: for (auto &p : g) p.to_special(); CALL("multi_exp (BDLO12)", multi_exp<G1_, Fr_, multi_exp_method_BDLO12>(g.cbegin(), g.cend(), e.cbegin(), e.cend(), 1 + e.size() % 3)); break;
    case 7: CALL("multi_exp (Bos-Coster)", multi_exp<G1_, Fr_, multi_exp_method_bos_coster>(g.cbegin(), g.cend(), e.cbegin(), e.cend(), 1)); break;
    case 8: for (auto &p : g) p.to_special(); CALL("multi_exp_with_mixed_addition", multi_exp_with_mixed_addition<G1_, Fr_, multi_exp_method_BDLO12>(g.cbegin(), g.cend(), e.cbegin(), e.cend(), 1)); break;
    case 9: { const size_t w = get_exp_window_size<G1_>(e.size() + 1); const auto t = get_window_table(Fr_::ceil_size_in_bits(), w, P); CALL("batch_exp", batch_exp(Fr_::ceil_size_in_bits(), w, t, e)); CALL("batch_exp_with_coeff", batch_exp_with_coeff(Fr_::ceil_size_in_bits(), w, t, e.empty() ? Fr_(7) : e[0], e)); break; }
#if CRV == 3
    case 10: CALL("tate_reduced_pairing", CF(tate_reduced_pairing)(P, Q)); break;
    case 11: CALL("tate_pairing", CF(tate_pairing)(P, Q)); CALL("tate_precompute_G2", CF(tate_precompute_G2)(Q)); break;
#elif CRV >= 4
    case 10: CALL("affine_reduced_pairing", PP::affine_reduced_pairing(P, Q)); break;
    case 11: CALL("affine precomputation and loop", PP::affine_ate_miller_loop(PP::affine_ate_precompute_G1(P), PP::affine_ate_precompute_G2(Q))); break;
#else
    case 10: CALL("scalar multiplication", to_bigint<NR>(b) * P); break;
    default: CALL("init_public_params", (PP::init_public_params(), P));
#endif
    }
}
template<class F> void field() {
#ifdef PROFILE_OP_COUNTS
    pbt::reg(std::string(fname<F>()) + "/counters", 600, field_counts<F>);
#endif
}
void all()
{
    field<Fr_>(); field<Fq_>(); field<Fe_>(); field<Fk_>();
#ifdef HAS_FM
    field<Fm_>();
#endif
#ifdef PROFILE_OP_COUNTS
    pbt::reg(std::string(Grp<G1_>::name()) + "/counters", 800, group_counts<G1_>); pbt::reg(std::string(Grp<G2_>::name()) + "/counters", 800, group_counts<G2_>);
#endif
    pbt::reg(CNAME "/library", 240, library);
}
PBT_REGISTER(all)
}
