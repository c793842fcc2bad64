// Glue between libff types and the reference models, and input generators.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <libff/algebra/field_utils/bigint.hpp>
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/field_utils/algorithms.hpp>
#include <libff/algebra/fields/prime_base/fp.hpp>
#include <libff/algebra/fields/prime_extension/fp2.hpp>
#include <libff/algebra/fields/prime_extension/fp3.hpp>
#include <libff/algebra/fields/prime_extension/fp4.hpp>
#include <libff/algebra/fields/prime_extension/fp6_2over3.hpp>
#include <libff/algebra/fields/prime_extension/fp6_3over2.hpp>
#include <libff/algebra/fields/prime_extension/fp12_2over3over2.hpp>

namespace lf {
using namespace libff;
using ref::E;
using ref::Z;
using ref::Field;
using pbt::Src;

// ---- integers --------------------------------------------------------------
template<mp_size_t n> Z to_z(const bigint<n> &b)
{
    Z r;
    mpz_import(r.get_mpz_t(), n, -1, sizeof(mp_limb_t), 0, 0, b.data);
    return r;
}
template<mp_size_t n> bigint<n> to_bigint(const Z &z) // z >= 0, fits
{
    bigint<n> b;
    for (mp_size_t i = 0; i < n; i++) b.data[i] = 0;
    mpz_export(b.data, nullptr, -1, sizeof(mp_limb_t), 0, 0, z.get_mpz_t());
    return b;
}
inline Z z_of_u64(uint64_t v) { Z r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &v); return r; }
inline uint64_t u64_of_z(const Z &z) { uint64_t v = 0; Z t = z & Z("18446744073709551615"); mpz_export(&v, nullptr, -1, 8, 0, 0, t.get_mpz_t()); return v; }

// a limb with interesting bit patterns
inline uint64_t gen_limb(Src &s)
{
    switch (s.draw(7)) {
    case 0: return 0;
    case 1: return s.draw(3);
    case 2: return ~0ull - s.draw(2);
    case 3: return 1ull << s.draw(63);
    case 4: return (1ull << s.draw(63)) - 1;
    case 5: return 0x8000000000000000ull + s.draw(2) - 1;
    default: return s.word();
    }
}
// a non-negative integer of at most n limbs, biased to carry-chain edges
inline Z gen_limbs(Src &s, int n)
{
    Z r;
    const bool uniform = s.chance(1, 3), related = n > 1 && s.chance(1, 6);
    const uint64_t w = related ? gen_limb(s) : 0;
    for (int i = 0; i < n; i++) {
        uint64_t v;
        if (related) { const uint64_t c = s.draw(4); v = c == 0 ? 0 : c == 1 ? 1 : c == 4 ? ~w : w; } // limbs that repeat or cancel
        else v = uniform ? s.word() : gen_limb(s);
        r <<= 64; r += z_of_u64(v);
    }
    return r;
}
// the library asserts that a negative number is not below minus the modulus
inline long clamp_long(long v, const Z &p) { return v < 0 && Z(v) < -p ? Z(-(-Z(v) % p)).get_si() : v; }
// an integer in [0, m), biased to the edges of the range, to limb edges and to
// edges of the Montgomery representation (R = 2^(64 n))
inline Z gen_mod(Src &s, const Z &m, int n)
{
    Z r;
    switch (s.draw(11)) {
    case 0: r = z_of_u64(s.draw(8)); break;
    case 1: r = m - 1 - z_of_u64(s.draw(8)); break;
    case 2: r = m / 2 + (long)s.draw(8) - 4; break;
    case 3: r = Z(1) << s.draw(ref::bits(m)); r += (long)s.draw(4) - 2; break;
    case 4: r = gen_limbs(s, n); break;
    case 5: { // edge pattern in Montgomery form
        Z R = Z(1) << (64 * n), Ri; mpz_invert(Ri.get_mpz_t(), R.get_mpz_t(), m.get_mpz_t());
        r = ref::zmod(gen_limbs(s, n), m) * Ri; break; }
    case 6: { // small or near-modulus in Montgomery form
        Z R = Z(1) << (64 * n), Ri; mpz_invert(Ri.get_mpz_t(), R.get_mpz_t(), m.get_mpz_t());
        Z t = s.coin() ? z_of_u64(gen_limb(s)) : m - 1 - z_of_u64(gen_limb(s));
        r = ref::zmod(t, m) * Ri; break; }
    case 7: { // shares high limbs with the modulus (as value or in Montgomery form)
        int k = 1 + s.draw(n - 1);
        Z lo = Z(1) << (64 * (n - k)); r = m - m % lo + (lo > 1 ? ref::zmod(gen_limbs(s, n), lo) : Z(0));
        if (r >= m && r > lo) r -= s.coin() ? lo : Z(1);
        if (s.coin()) { Z R = Z(1) << (64 * n), Ri; mpz_invert(Ri.get_mpz_t(), R.get_mpz_t(), m.get_mpz_t()); r = ref::zmod(r, m) * Ri; }
        break; }
    default: for (int i = 0; i <= n; i++) { r <<= 64; r += z_of_u64(s.word()); }
    }
    return ref::zmod(r, m);
}

// ---- field elements --------------------------------------------------------
template<mp_size_t n, const bigint<n> &m> void put(E &o, const Fp_model<n, m> &x) { o.push_back(to_z(x.as_bigint())); }
template<mp_size_t n, const bigint<n> &m> void put(E &o, const Fp2_model<n, m> &x) { put(o, x.c0); put(o, x.c1); }
template<mp_size_t n, const bigint<n> &m> void put(E &o, const Fp3_model<n, m> &x) { put(o, x.c0); put(o, x.c1); put(o, x.c2); }
template<mp_size_t n, const bigint<n> &m> void put(E &o, const Fp4_model<n, m> &x) { put(o, x.c0); put(o, x.c1); }
template<mp_size_t n, const bigint<n> &m> void put(E &o, const Fp6_3over2_model<n, m> &x) { put(o, x.c0); put(o, x.c1); put(o, x.c2); }
template<mp_size_t n, const bigint<n> &m> void put(E &o, const Fp6_2over3_model<n, m> &x) { put(o, x.c0); put(o, x.c1); }
template<mp_size_t n, const bigint<n> &m> void put(E &o, const Fp12_2over3over2_model<n, m> &x) { put(o, x.c0); put(o, x.c1); }
template<class F> E dec(const F &x) { E o; put(o, x); return o; }

template<mp_size_t n, const bigint<n> &m> void get(const Z *&i, Fp_model<n, m> &x) { x = Fp_model<n, m>(to_bigint<n>(*i++)); }
template<mp_size_t n, const bigint<n> &m> void get(const Z *&i, Fp2_model<n, m> &x) { get(i, x.c0); get(i, x.c1); }
template<mp_size_t n, const bigint<n> &m> void get(const Z *&i, Fp3_model<n, m> &x) { get(i, x.c0); get(i, x.c1); get(i, x.c2); }
template<mp_size_t n, const bigint<n> &m> void get(const Z *&i, Fp4_model<n, m> &x) { get(i, x.c0); get(i, x.c1); }
template<mp_size_t n, const bigint<n> &m> void get(const Z *&i, Fp6_3over2_model<n, m> &x) { get(i, x.c0); get(i, x.c1); get(i, x.c2); }
template<mp_size_t n, const bigint<n> &m> void get(const Z *&i, Fp6_2over3_model<n, m> &x) { get(i, x.c0); get(i, x.c1); }
template<mp_size_t n, const bigint<n> &m> void get(const Z *&i, Fp12_2over3over2_model<n, m> &x) { get(i, x.c0); get(i, x.c1); }
template<class F> F enc(const E &e) { F x; const Z *p = e.data(); get(p, x); return x; }

template<class F> struct limbs_of;
template<mp_size_t n, const bigint<n> &m> struct limbs_of<Fp_model<n, m>> { static const int value = n; };

// an element of a field, sparse / edge / uniform coefficients
inline E gen_elem(Src &s, const Field &F, int n)
{
    E r(F.deg);
    if (F.deg == 1) { r[0] = gen_mod(s, F.p, n); return r; }
    switch (s.draw(5)) {
    case 0: { // few non-zero coefficients
        int k = s.draw(2); while (k-- > 0) { int i = s.draw(F.deg - 1); r[i] = gen_mod(s, F.p, n); } break; }
    case 1: { // a coefficient subset
        for (int i = 0; i < F.deg; i++) if (s.coin()) r[i] = gen_mod(s, F.p, n); break; }
    case 2: { // lies in the base field of the tower
        for (int i = 0; i < F.deg / F.d; i++) r[i] = gen_mod(s, F.p, n); break; }
    case 3: { // all but one component of the tower zero
        int b = F.deg / F.d, k = s.draw(F.d - 1); for (int i = 0; i < b; i++) r[k * b + i] = gen_mod(s, F.p, n); break; }
    case 4: { // equal / opposite coefficients (differences and sums vanish)
        Z v = gen_mod(s, F.p, n);
        for (int i = 0; i < F.deg; i++) { int c = s.draw(3); r[i] = c == 0 ? v : c == 1 ? ref::zmod(-v, F.p) : c == 2 ? Z(0) : gen_mod(s, F.p, n); } break; }
    default: for (int i = 0; i < F.deg; i++) r[i] = gen_mod(s, F.p, n);
    }
    return r;
}
// an element related to a: the interesting second operands
inline E gen_related(Src &s, const Field &F, int n, const E &a)
{
    switch (s.draw(8)) {
    case 8: { // agrees in part: a conjugate, or some components replaced
        E r = a; const int b = F.deg > 1 ? F.deg / F.d : 1, k = s.draw(1);
        for (int i = 0; i < F.deg; i += b) { const uint64_t c = s.draw(4); for (int j = i; j < i + b; j++) r[j] = c <= 1 ? a[j] : c == 2 ? ref::zmod(-a[j], F.p) : c == 3 || k ? gen_mod(s, F.p, n) : Z(0); }
        return r; }
    case 0: return a;
    case 1: return F.neg(a);
    case 2: return F.add(F.neg(a), F.from(s.draw(2)));
    case 3: { // product is a chosen edge value
        if (F.is_zero(a)) return gen_elem(s, F, n);
        return F.mul(gen_elem(s, F, n), F.inv(a)); }
    case 4: { // sum is a chosen edge value
        return F.sub(gen_elem(s, F, n), a); }
    default: return gen_elem(s, F, n);
    }
}
inline bool trivial_elem(const Field &F, const E &a) { return F.is_zero(a) || a == F.one(); }

#define EXPECT_ELEM(F, got, want, what)                                                         \
    do {                                                                                        \
        const ref::E pbt_w = (want);                                                            \
        const auto pbt_g = (got);                                                               \
        const ref::E pbt_d = lf::dec(pbt_g);                                                    \
        CHECK(pbt_d == pbt_w, what << ": got " << (F).str(pbt_d) << " want " << (F).str(pbt_w)); \
        CHECK(pbt_g == lf::enc<typename std::decay<decltype(pbt_g)>::type>(pbt_w),              \
              what << ": result is not in canonical form, value " << (F).str(pbt_w));           \
    } while (0)

} // namespace lf
