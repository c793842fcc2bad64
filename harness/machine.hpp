// A register machine over the fields, groups and pairing of one curve: random
// programs run on libff next to a model that knows every register's value
// (residues, tower coefficients, discrete logarithms).
#pragma once
#include "refpair.hpp"
#include "serial.hpp"
#include <libff/algebra/curves/curve_utils.hpp>
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
#include <libff/common/rng.hpp>
#ifdef MULTICORE
#include <omp.h>
#endif

namespace lf { namespace {

inline std::string canon(const Z &z) { return z.get_str(16); }
inline std::string canon(const E &e) { std::string s; for (auto &c : e) s += c.get_str(16) + ","; return s; }

struct Machine {
    static const int N = 3;
    Src &s;
    std::string trace;
    Fr_ r[N]; E mr[N];
    Fq_ q[N]; E mq[N];
    Fe_ e[N]; E me[N];
    Fk_ k[N]; E mk[N];
    G1_ a[N]; Z la[N];
    G2_ b[N]; Z lb[N];
    Fk_ t[N]; Z lt[N];
    bool extra; // also call operations whose result no model predicts

    Machine(Src &src, bool ex) : s(src), extra(ex)
    {
        for (int i = 0; i < N; i++) {
            mr[i] = {gen_mod(s, MOD_R, NR)}; r[i] = enc<Fr_>(mr[i]);
            mq[i] = {gen_mod(s, MOD_Q, NQ)}; q[i] = enc<Fq_>(mq[i]);
            me[i] = gen_elem(s, T().fe, NQ); e[i] = enc<Fe_>(me[i]);
            mk[i] = gen_elem(s, T().fk, NQ); k[i] = enc<Fk_>(mk[i]);
            group<G1_>(a[i], la[i], i); group<G2_>(b[i], lb[i], i);
            lt[i] = i ? gen_mod(s, MOD_R, NR) : Z(1); t[i] = enc<Fk_>(gt().pow(lt[i]));
        }
    }
    template<class G> void group(G &g, Z &l, int i)
    {
        const GroupData &d = gd<G>(); const size_t j = s.draw(d.pool.size() - 1);
        if (i == 0 && s.coin()) { l = 0; g = enc_pt<G>(Pt(), gen_scale<G>(s)); return; }
        l = d.pool_log[j]; g = enc_pt<G>(d.pool[j], gen_scale<G>(s));
    }
    int reg() { return s.draw(N - 1); }
    void op(const char *f) { trace += trace.empty() ? f : std::string(" ") + f; }

    // ---- one instruction over a field ----------------------------------------
    template<class F> void field(F *x, E *m)
    {
        const Field &R = field_of<F>(); const int i = reg(), j = reg(), d = reg();
        switch (s.draw(15)) {
        case 0: op("+"); x[d] = x[i] + x[j]; m[d] = R.add(m[i], m[j]); break;
        case 1: op("+="); x[d] += x[j]; m[d] = R.add(m[d], m[j]); break;
        case 2: op("-"); x[d] = x[i] - x[j]; m[d] = R.sub(m[i], m[j]); break;
        case 3: op("-="); x[d] -= x[j]; m[d] = R.sub(m[d], m[j]); break;
        case 4: op("*"); x[d] = x[i] * x[j]; m[d] = R.mul(m[i], m[j]); break;
        case 5: op("*="); x[d] *= x[j]; m[d] = R.mul(m[d], m[j]); break;
        case 6: op("squared"); x[d] = x[i].squared(); m[d] = R.sqr(m[i]); break;
        case 7: op("square"); x[d].square(); m[d] = R.sqr(m[d]); break;
        case 8: op("neg"); x[d] = -x[i]; m[d] = R.neg(m[i]); break;
        case 9: if (R.is_zero(m[i])) break; op("inverse"); x[d] = x[i].inverse(); m[d] = R.inv(m[i]); break;
        case 10: if (R.is_zero(m[d])) break; op("invert"); x[d].invert(); m[d] = R.inv(m[d]); break;
        case 11: { op("pow"); const Z n = gen_limbs(s, 1 + s.draw(1)); x[d] = x[i] ^ to_bigint<2>(n); m[d] = R.pow(m[i], n); break; }
        case 12: { op("pow-word"); const unsigned long n = gen_limb(s); x[d] = x[i] ^ n; m[d] = R.pow(m[i], z_of_u64(n)); break; }
        case 13: { op("Frobenius"); const unsigned long n = s.draw(12); x[d] = x[i].Frobenius_map(n); m[d] = m[i]; const int w = n % R.deg; for (int c = 0; c < w; c++) m[d] = frob(R, m[d]); break; }
        case 14: { op("inner_product"); const std::vector<F> u(x, x + N), v = {x[j], x[d], x[i]}; x[d] = inner_product<F>(u.cbegin(), u.cend(), v.cbegin(), v.cend()); m[d] = R.add(R.add(R.mul(m[0], m[j]), R.mul(m[1], m[d])), R.mul(m[2], m[i])); break; }
        default: { // batch inversion
            op("batch-invert"); for (int c = 0; c < N; c++) if (R.is_zero(m[c])) { x[c] = F::one(); m[c] = R.one(); } std::vector<F> v(x, x + N); batch_invert<F>(v); for (int c = 0; c < N; c++) { x[c] = v[c]; m[c] = R.inv(m[c]); } }
        }
        const bool same = x[i] == x[j]; CHECK(same == (m[i] == m[j]) && same != (x[i] != x[j]), fname<F>() << " comparison after " << trace); CHECK(x[d].is_zero() == R.is_zero(m[d]), fname<F>() << " is_zero after " << trace);
    }
    static E frob(const Field &R, const E &x)
    { // the images of the basis are cached
        static std::map<const Field *, std::vector<E>> cache; std::vector<E> &c = cache[&R];
        if (c.empty()) for (int i = 0; i < R.deg; i++) { E u = R.zero(); u[i] = 1; c.push_back(R.pow(u, R.p)); }
        E y = R.zero(); for (int i = 0; i < R.deg; i++) y = R.add(y, R.scale(x[i], c[i])); return y;
    }
    // ---- one instruction over a group ----------------------------------------
    template<class G> void group(G *x, Z *m)
    {
        const int i = reg(), j = reg(), d = reg(); const Z &R = MOD_R;
        switch (s.draw(19)) {
        case 0: op("P+Q"); x[d] = x[i] + x[j]; m[d] = m[i] + m[j]; break;
        case 1: op("P-Q"); x[d] = x[i] - x[j]; m[d] = m[i] - m[j]; break;
        case 2: op("dbl"); x[d] = x[i].dbl(); m[d] = 2 * m[i]; break;
        case 3: op("-P"); x[d] = -x[i]; m[d] = -m[i]; break;
        case 4: { op("mixed_add"); G u = x[j]; u.to_special(); x[d] = x[i].mixed_add(u); m[d] = m[i] + m[j]; break; }
        case 5: op("to_special"); x[d].to_special(); break;
        case 6: { op("to_affine"); G u = x[i]; u.to_affine_coordinates(); if (COORD != INVERTED) x[i] = u; break; } // the affine form of the Edwards curves is for output only
        case 7: { op("k*P"); const int c = reg(); x[d] = r[c] * x[i]; m[d] = mr[c][0] * m[i]; break; }
        case 8: { op("n*P"); const Z n = gen_limbs(s, NR + 1); x[d] = to_bigint<NR + 1>(n) * x[i]; m[d] = n * m[i]; break; }
        case 9: { op("wnaf"); const int c = reg(); x[d] = opt_window_wnaf_exp<G>(x[i], r[c].as_bigint(), r[c].as_bigint().num_bits()); m[d] = mr[c][0] * m[i]; break; }
        case 10: { op("fixed-wnaf"); const int c = reg(); const size_t w = 1 + s.draw(5); x[d] = fixed_window_wnaf_exp<G>(w, x[i], r[c].as_bigint()); m[d] = mr[c][0] * m[i]; break; }
        case 11: { op("window"); const int c = reg(); const size_t w = 1 + s.draw(5), bits = Fr_::ceil_size_in_bits(); const auto tab = get_window_table<G>(bits, w, x[i]); if (s.coin()) { x[d] = windowed_exp<G, Fr_>(bits, w, tab, r[c]); m[d] = mr[c][0] * m[i]; } else { const Z o = m[i]; const std::vector<G> v = batch_exp<G, Fr_>(bits, w, tab, std::vector<Fr_>(r, r + N)); for (int z = 0; z < N; z++) { x[z] = v[z]; m[z] = ref::zmod(o * mr[z][0], R); } } break; }
        case 12: { // multi-exponentiation of all registers, repeated
            const int n = s.draw(9); std::vector<G> g; std::vector<Fr_> f; Z sum; for (int c = 0; c < n; c++) { const int u = reg(), v = reg(); g.push_back(x[u]); f.push_back(s.coin() ? r[v] : s.coin() ? Fr_::one() : Fr_::zero()); sum += m[u] * dec(f.back())[0]; }
            multi(g, f, x[d]); m[d] = sum; break; }
        case 13: { op("batch_to_special"); std::vector<G> v; std::vector<int> who; for (int c = 0; c < N; c++) if (m[c] != 0 || s.coin()) { v.push_back(x[c]); who.push_back(c); } batch_to_special<G>(v); for (size_t c = 0; c < who.size(); c++) x[who[c]] = v[c]; break; }
        case 14: { op("write-read"); x[d] = reserialize<G>(x[i]); m[d] = m[i]; break; }
        case 15: { op("write-read-vector"); std::stringstream st; std::vector<G> v(x, x + N), w; st << v; st >> w; CHECK(!st.fail() && w.size() == (size_t)N, "vector after " << trace); for (int c = 0; c < N; c++) x[c] = w[c]; break; }
        case 16: op("order*P"); x[d] = G::order() * x[i] + x[j]; m[d] = m[j]; break;
        case 17: { op("wnaf-digits"); const size_t w = 1 + s.draw(4); const int c = reg(); const std::vector<long> v = find_wnaf(w, r[c].as_bigint()); G y = G::zero(); for (size_t z = v.size(); z-- > 0;) { y = y.dbl(); for (long u = v[z]; u > 0; u--) y = y + x[i]; for (long u = v[z]; u < 0; u++) y = y - x[i]; } x[d] = y; m[d] = mr[c][0] * m[i]; break; }
        case 18: op("field_char*P"); x[d] = G::field_char() * x[i]; m[d] = MOD_Q * m[i]; break;
        default: op("add"); if (COORD == INVERTED && (m[i] == 0 || m[j] == 0)) break; x[d] = x[i].add(x[j]); m[d] = m[i] + m[j];
        }
        m[d] = ref::zmod(m[d], R);
        CHECK(x[d].is_zero() == (m[d] == 0), Grp<G>::name() << " is_zero after " << trace); CHECK((x[i] == x[j]) == (m[i] == m[j]), Grp<G>::name() << " comparison after " << trace); CHECK(x[d].is_well_formed(), Grp<G>::name() << " is_well_formed after " << trace);
    }
    template<class G> void multi(std::vector<G> &g, const std::vector<Fr_> &f, G &out)
    {
        const size_t ch = 1 + s.draw(3); const int how = s.draw(7);
#ifdef MULTICORE
        omp_set_num_threads(1 + g.size() % 4);
#endif
        const auto gb = [&] { return g.cbegin(); }; const auto ge = [&] { return g.cend(); };
        auto special = [&] { for (auto &p : g) p.to_special(); };
        switch (how) {
        case 0: op("naive"); out = multi_exp<G, Fr_, multi_exp_method_naive>(gb(), ge(), f.cbegin(), f.cend(), ch); break;
        case 1: op("naive_plain"); out = multi_exp<G, Fr_, multi_exp_method_naive_plain>(gb(), ge(), f.cbegin(), f.cend(), ch); break;
        case 2: op("bos_coster"); out = multi_exp<G, Fr_, multi_exp_method_bos_coster>(gb(), ge(), f.cbegin(), f.cend(), ch); break;
        case 3: op("BDLO12"); special(); out = multi_exp<G, Fr_, multi_exp_method_BDLO12>(gb(), ge(), f.cbegin(), f.cend(), ch); break;
        case 4: op("mixed-naive"); special(); out = multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_naive>(gb(), ge(), f.cbegin(), f.cend(), ch); break;
        case 5: op("mixed-naive_plain"); special(); out = multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_naive_plain>(gb(), ge(), f.cbegin(), f.cend(), ch); break;
        case 6: op("mixed-bos_coster"); special(); out = multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_bos_coster>(gb(), ge(), f.cbegin(), f.cend(), ch); break;
        default: op("mixed-BDLO12"); special(); out = multi_exp_with_mixed_addition<G, Fr_, multi_exp_method_BDLO12>(gb(), ge(), f.cbegin(), f.cend(), ch);
        }
    }
    // ---- pairings and the target group -----------------------------------------
    void target()
    {
        const int i = reg(), j = reg(), d = reg(); const Z &R = MOD_R;
        switch (s.draw(8)) {
        case 0: op("GT*"); t[d] = t[i] * t[j]; lt[d] = lt[i] + lt[j]; break;
        case 1: op("GT-inverse"); t[d] = s.coin() ? t[i].unitary_inverse() : t[i].inverse(); lt[d] = -lt[i]; break;
        case 2: op("GT-squared"); t[d] = t[i].squared(); lt[d] = 2 * lt[i]; break;
        case 3: { op("GT^k"); const int c = reg(); t[d] = t[i] ^ r[c]; lt[d] = mr[c][0] * lt[i]; break; }
        case 4: { op("GT-cyclotomic"); const int c = reg(); cyc(d, i, c); break; }
        case 5: { op("GT-Frobenius"); const unsigned n = s.draw(6); t[d] = t[i].Frobenius_map(n); lt[d] = ref::zpow(MOD_Q, Z(n), R) * lt[i]; break; }
        case 6: { op("GT-write-read"); t[d] = reserialize<Fk_>(t[i]); lt[d] = lt[i]; break; }
        default: pair(d, i, j);
        }
        lt[d] = ref::zmod(lt[d], R);
    }
    void cyc(int d, int i, int c)
    {
        t[d] = t[i].cyclotomic_exp(r[c].as_bigint()); lt[d] = mr[c][0] * lt[i];
    }
    void pair(int d, int i, int j)
    {
        switch (s.draw(4)) {
        case 0: op("reduced_pairing"); t[d] = PP::reduced_pairing(a[i], b[j]); lt[d] = la[i] * lb[j]; break;
        case 1: { op("miller_loop"); const Fk_ f = PP::miller_loop(PP::precompute_G1(a[i]), PP::precompute_G2(b[j])); if (extra) s.digest(canon(dec(f))); t[d] = PP::final_exponentiation(f); lt[d] = la[i] * lb[j]; break; }
        case 2: { op("double_miller_loop"); const int x = reg(), y = reg(); t[d] = PP::final_exponentiation(PP::double_miller_loop(PP::precompute_G1(a[i]), PP::precompute_G2(b[j]), PP::precompute_G1(a[x]), PP::precompute_G2(b[y]))); lt[d] = la[i] * lb[j] + la[x] * lb[y]; break; }
        case 3: { op("precomputation-write-read"); const auto p = reserialize(PP::precompute_G1(a[i])); const auto u = reserialize(PP::precompute_G2(b[j])); t[d] = PP::final_exponentiation(PP::miller_loop(p, u)); lt[d] = la[i] * lb[j]; break; }
#if CRV == 3
        default: { op("Tate"); const Fk_ x = edwards_tate_reduced_pairing(a[i], b[j]); if (extra) s.digest(canon(dec(x))); const bool one = la[i] == 0 || lb[j] == 0; CHECK((x == Fk_::one()) == one, "Tate pairing is one exactly on identities, after " << trace); break; }
#elif CRV >= 4
        default: { op("affine_reduced_pairing"); t[d] = PP::affine_reduced_pairing(a[i], b[j]); lt[d] = la[i] * lb[j]; break; }
#else
        default: { op("pairing"); t[d] = PP::final_exponentiation(PP::pairing(a[i], b[j])); lt[d] = la[i] * lb[j]; break; }
#endif
        }
    }
    // ---- moves between the components --------------------------------------------
    void move()
    {
        const int i = reg(), j = reg(), d = reg();
        switch (s.draw(9)) {
        case 0: { op("hash"); const uint64_t n = gen_limb(s); const Fr_ x = SHA512_rng<Fr_>(n); r[d] = x; mr[d] = dec(x); s.digest(canon(mr[d])); break; }
        case 1: { op("Fr(long)"); const long n = (long)gen_limb(s); if (n == LONG_MIN) break; r[d] = Fr_(n); mr[d] = {ref::zmod(Z(n), MOD_R)}; break; }
        case 2: { op("as_bigint"); r[d] = Fr_(q_to_r(mq[i][0])); mr[d] = {ref::zmod(mq[i][0] & ((Z(1) << (64 * NR)) - 1), MOD_R)}; break; }
        case 3: { op("Fk-embed"); k[d] = Fk_::one(); mk[d] = T().fk.one(); break; }
        case 4: { op("Fr-write-read"); r[d] = reserialize<Fr_>(r[i]); mr[d] = mr[i]; break; }
        case 5: { op("Fk-write-read"); k[d] = reserialize<Fk_>(k[i]); mk[d] = mk[i]; break; }
        case 6: { op("sqrt"); const Fq_ x = q[i].squared().sqrt(); const E m = dec(x); CHECK(m == mq[i] || m == T().fq.neg(mq[i]), "square root after " << trace); q[d] = x; mq[d] = m; s.digest(canon(m)); break; }
        case 7: { op("bits"); r[d] = convert_bit_vector_to_field_element<Fr_>(convert_field_element_to_bit_vector<Fr_>(r[i])); mr[d] = mr[i]; break; }
        case 8: { op("fold"); const Z n = mr[i][0]; const G1_ g = Fr_(to_bigint<NR>(n)) * G1_::one(); a[d] = g; la[d] = n; break; }
        default: { op("fold2"); const Z n = mr[j][0]; const G2_ g = r[j] * G2_::one(); b[d] = g; lb[d] = n; }
        }
    }
    bigint<NR> q_to_r(const Z &z) { return to_bigint<NR>(z & ((Z(1) << (64 * NR)) - 1)); }

    void step()
    {
        switch (s.draw(11)) {
        case 0: field<Fr_>(r, mr); break; case 1: field<Fq_>(q, mq); break; case 2: field<Fe_>(e, me); break; case 3: field<Fk_>(k, mk); break;
        case 4: case 5: case 6: group<G1_>(a, la); break; case 7: case 8: group<G2_>(b, lb); break; case 9: target(); break; default: move();
        }
    }
    void finish()
    {
        s.say(trace);
        for (int i = 0; i < N; i++) {
            EXPECT_ELEM(T().fr, r[i], mr[i], "Fr register " << i << " after " << trace); EXPECT_ELEM(T().fq, q[i], mq[i], "Fq register " << i << " after " << trace); EXPECT_ELEM(T().fe, e[i], me[i], "extension field register " << i << " after " << trace); EXPECT_ELEM(T().fk, k[i], mk[i], "target field register " << i << " after " << trace);
            EXPECT_PT(G1_, a[i], gd<G1_>().fixed(la[i]), "G1 register " << i << " after " << trace); EXPECT_PT(G2_, b[i], gd<G2_>().fixed(lb[i]), "G2 register " << i << " after " << trace);
            EXPECT_ELEM(T().fk, t[i], gt().pow(lt[i]), "GT register " << i << " after " << trace);
            s.digest(canon(mr[i]) + canon(mq[i]) + canon(me[i]) + canon(mk[i]) + canon(la[i]) + canon(lb[i]) + canon(lt[i]));
        }
    }
};
}} // namespace
