// One curve per translation unit, selected with -DCRV=<1..5>.
#pragma once
#include "lf.hpp"
#if CRV == 1
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#elif CRV == 2
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#elif CRV == 3
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#elif CRV == 4
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#elif CRV == 5
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#endif
#include <libff/common/profiling.hpp>
#if CRV >= 6
#include "fields.inc"
#endif

namespace lf { namespace {

enum Coord { JACOBIAN, PROJECTIVE, INVERTED };

#if CRV == 1
#define CNAME "alt_bn128"
typedef alt_bn128_pp PP; typedef alt_bn128_Fr Fr_; typedef alt_bn128_Fq Fq_; typedef alt_bn128_Fq2 Fe_; typedef alt_bn128_Fq6 Fm_; typedef alt_bn128_Fq12 Fk_;
typedef alt_bn128_G1 G1_; typedef alt_bn128_G2 G2_;
#define HAS_FM 1
const Z MOD_Q("21888242871839275222246405745257275088696311157297823662689037894645226208583");
const Z MOD_R("21888242871839275222246405745257275088548364400416034343698204186575808495617");
const Coord COORD = JACOBIAN;
#elif CRV == 2
#define CNAME "bls12_381"
typedef bls12_381_pp PP; typedef bls12_381_Fr Fr_; typedef bls12_381_Fq Fq_; typedef bls12_381_Fq2 Fe_; typedef bls12_381_Fq6 Fm_; typedef bls12_381_Fq12 Fk_;
typedef bls12_381_G1 G1_; typedef bls12_381_G2 G2_;
#define HAS_FM 1
const Z MOD_Q("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787");
const Z MOD_R("52435875175126190479447740508185965837690552500527637822603658699938581184513");
const Coord COORD = JACOBIAN;
#elif CRV == 3
#define CNAME "edwards"
typedef edwards_pp PP; typedef edwards_Fr Fr_; typedef edwards_Fq Fq_; typedef edwards_Fq3 Fe_; typedef edwards_Fq6 Fk_;
typedef edwards_G1 G1_; typedef edwards_G2 G2_;
const Z MOD_Q("6210044120409721004947206240885978274523751269793792001");
const Z MOD_R("1552511030102430251236801561344621993261920897571225601");
const Coord COORD = INVERTED;
#elif CRV == 4
#define CNAME "mnt4"
typedef mnt4_pp PP; typedef mnt4_Fr Fr_; typedef mnt4_Fq Fq_; typedef mnt4_Fq2 Fe_; typedef mnt4_Fq4 Fk_;
typedef mnt4_G1 G1_; typedef mnt4_G2 G2_;
const Z MOD_Q("475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081");
const Z MOD_R("475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137");
const Coord COORD = PROJECTIVE;
#elif CRV == 5
#define CNAME "mnt6"
typedef mnt6_pp PP; typedef mnt6_Fr Fr_; typedef mnt6_Fq Fq_; typedef mnt6_Fq3 Fe_; typedef mnt6_Fq6 Fk_;
typedef mnt6_G1 G1_; typedef mnt6_G2 G2_;
const Z MOD_Q("475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137");
const Z MOD_R("475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081");
const Coord COORD = PROJECTIVE;
#endif
#if CRV <= 5
#define HAS_CURVE 1
#endif

const int NR = limbs_of<Fr_>::value, NQ = limbs_of<Fq_>::value;

struct Towers {
    Field fr, fq, fe;
#ifdef HAS_FM
    Field fm;
#endif
    Field fk;
    static E small(const Field &f, std::vector<long> v) { E r = f.zero(); for (size_t i = 0; i < v.size(); i++) r[i] = ref::zmod(Z(v[i]), f.p); return r; }
#if CRV == 1
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 2, small(fq, {-1})), fm(&fe, 3, small(fe, {9, 1})), fk(&fm, 2, small(fm, {0, 0, 1})) {}
#elif CRV == 2
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 2, small(fq, {-1})), fm(&fe, 3, small(fe, {1, 1})), fk(&fm, 2, small(fm, {0, 0, 1})) {}
#elif CRV == 3
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 3, small(fq, {61})), fk(&fe, 2, small(fe, {0, 1})) {}
#elif CRV == 4
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 2, small(fq, {17})), fk(&fe, 2, small(fe, {0, 1})) {}
#elif CRV == 5
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 3, small(fq, {5})), fk(&fe, 2, small(fe, {0, 1})) {}
#elif TOWER == 232
    // the first non-residues, as somebody who defines a field would pick them
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 2, non_power(fq, {2})), fm(&fe, 3, non_power(fe, {2, 3})), fk(&fm, 2, small(fm, {0, 0, 1})) {}
#elif TOWER == 22
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 2, non_power(fq, {2})), fk(&fe, 2, small(fe, {0, 1})) {}
#elif TOWER == 32
    Towers() : fr(MOD_R), fq(MOD_Q), fe(&fq, 3, non_power(fq, {2, 3})), fk(&fe, 2, small(fe, {0, 1})) {}
#endif
    static E non_power(const Field &f, std::vector<int> ds)
    {
        for (long v = 2;; v++) {
            E e = f.deg == 1 ? small(f, {v}) : small(f, {v / 7 - 1, 1 + v % 7}); if (f.is_zero(e)) continue;
            bool ok = true; for (int d : ds) if (f.pow(e, (f.order - 1) / d) == f.one()) ok = false;
            if (ok) return e;
        }
    }
};
inline Towers &T() { static Towers t; return t; }
template<class F> const Field &field_of();
template<> inline const Field &field_of<Fr_>() { return T().fr; }
template<> inline const Field &field_of<Fq_>() { return T().fq; }
template<> inline const Field &field_of<Fe_>() { return T().fe; }
#ifdef HAS_FM
template<> inline const Field &field_of<Fm_>() { return T().fm; }
#endif
template<> inline const Field &field_of<Fk_>() { return T().fk; }
template<class F> int limbs() { return NQ; }
template<> inline int limbs<Fr_>() { return NR; }
template<class F> const char *fname();
template<> inline const char *fname<Fr_>() { return CNAME "_Fr"; }
template<> inline const char *fname<Fq_>() { return CNAME "_Fq"; }
template<> inline const char *fname<Fe_>() { return (T().fe.deg == 2) ? CNAME "_Fq2" : CNAME "_Fq3"; }
#ifdef HAS_FM
template<> inline const char *fname<Fm_>() { return CNAME "_Fq6"; }
#endif
template<> inline const char *fname<Fk_>() { return T().fk.deg == 12 ? CNAME "_Fq12" : T().fk.deg == 4 ? CNAME "_Fq4" : CNAME "_Fq6"; }

#ifndef HAS_CURVE
// ---- parameters of fields with a modulus of our own, from their definitions
template<mp_size_t n> void split_order(const Z &order, bigint<n> &euler, size_t &s, bigint<n> &t, bigint<n> &h)
{
    const Z m = order - 1; s = mpz_scan1(m.get_mpz_t(), 0); const Z tt = m >> s;
    euler = to_bigint<n>(m / 2); t = to_bigint<n>(tt); h = to_bigint<n>((tt - 1) / 2);
}
template<class F> void set_nqr(const Field &R)
{
    E g; uint64_t st = 1;
    for (long v = 2;; v++) { // a non-residue of the field itself
        g = R.zero(); if (R.deg == 1) g[0] = ref::zmod(Z(v), R.p); else for (auto &c : g) c = ref::zmod(z_of_u64(st = pbt::mix64(st)), R.p);
        if (!R.is_zero(g) && R.pow(g, (R.order - 1) / 2) != R.one()) break;
    }
    const Z m = R.order - 1; F::nqr = enc<F>(g); F::nqr_to_t = enc<F>(R.pow(g, m >> mpz_scan1(m.get_mpz_t(), 0)));
}
template<class F, mp_size_t n> void set_prime(bigint<n> &mod, const Field &R)
{
    const Z p = R.p, W = Z(1) << 64, RR = Z(1) << (64 * n); mod = to_bigint<n>(p); CHECK(F::modulus_is_valid() && p < RR / 2, "bad modulus");
    Z i; mpz_invert(i.get_mpz_t(), p.get_mpz_t(), W.get_mpz_t()); F::inv = u64_of_z(W - i);
    F::num_bits = ref::bits(p); split_order(p, F::euler, F::s, F::t, F::t_minus_1_over_2);
    F::Rsquared = to_bigint<n>(ref::zmod(RR * RR, p)); F::Rcubed = to_bigint<n>(ref::zmod(RR * RR * RR, p));
    set_nqr<F>(R); F::root_of_unity = F::nqr_to_t; F::multiplicative_generator = F::nqr;
}
template<class F> void set_ext(const Field &R) { split_order(R.order, F::euler, F::s, F::t, F::t_minus_1_over_2); set_nqr<F>(R); }
// (c * nr^((p^i - 1) / d)) for i = 0 .. k - 1
template<class B, class A> void set_frob(A &a, int k, const Field &R, const E &nr, int d, int c) { for (int i = 0; i < k; i++) a[i] = enc<B>(R.pow(nr, c * (ref::zpowi(R.p, i) - 1) / d)); }
inline void init_fields()
{
    set_prime<Fr_>(mod_r, T().fr); set_prime<Fq_>(mod_q, T().fq);
    const Field &q = T().fq, &e = T().fe; const E nr = e.nr;
    Fe_::non_residue = enc<Fq_>(nr); set_frob<Fq_>(Fe_::Frobenius_coeffs_c1, e.d, q, nr, e.d, 1); set_ext<Fe_>(e);
#if TOWER == 232
    const E xi = T().fm.nr;
    Fm_::non_residue = Fk_::non_residue = enc<Fe_>(xi); set_frob<Fe_>(Fm_::Frobenius_coeffs_c1, 6, e, xi, 3, 1); set_frob<Fe_>(Fm_::Frobenius_coeffs_c2, 6, e, xi, 3, 2);
    set_frob<Fe_>(Fk_::Frobenius_coeffs_c1, 12, e, xi, 6, 1); set_ext<Fm_>(T().fm);
#elif TOWER == 22
    Fk_::non_residue = enc<Fq_>(nr); set_frob<Fq_>(Fk_::Frobenius_coeffs_c1, 4, q, nr, 4, 1);
#else
    set_frob<Fq_>(Fe_::Frobenius_coeffs_c2, 3, q, nr, 3, 2);
    Fk_::non_residue = Fk_::my_Fp2::non_residue = enc<Fq_>(nr); set_frob<Fq_>(Fk_::Frobenius_coeffs_c1, 6, q, nr, 6, 1);
#endif
    set_ext<Fk_>(T().fk);
}
#endif
inline void init_curve()
{
    libff::inhibit_profiling_info = true;
    libff::inhibit_profiling_counters = true;
#ifdef HAS_CURVE
    PP::init_public_params();
#else
    init_fields();
#endif
}
static pbt::InitRegistrar init_registrar(init_curve);

}} // namespace
