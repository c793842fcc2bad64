// Binary fields: reference arithmetic on little-endian word vectors, glue and generators.
#pragma once
#include "lf.hpp"
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>

namespace gf2 {
using namespace libff;
using pbt::Src;
typedef std::vector<uint64_t> W;
typedef mpz_class Z;

inline Z zw(const W &w) { Z r; mpz_import(r.get_mpz_t(), w.size(), -1, 8, 0, 0, w.data()); return r; }
inline int deg(const Z &a) { return (int)ref::bits(a) - 1; }
// polynomials over GF(2) as bit strings in integers
inline Z pmul(const Z &a, const Z &b) // schoolbook
{
    Z r, s = a;
    int last = 0;
    for (mp_bitcnt_t i = mpz_scan1(b.get_mpz_t(), 0); i != ~(mp_bitcnt_t)0 && (int)i <= deg(b); i = mpz_scan1(b.get_mpz_t(), i + 1)) {
        s <<= (i - last); last = i; r ^= s;
    }
    return r;
}
inline Z pmod(Z a, const Z &m) { int d = deg(m); while (deg(a) >= d) a ^= m << (deg(a) - d); return a; }
inline Z pinv(const Z &a, const Z &m) // extended Euclid
{
    Z r0 = m, r1 = a, t0 = 0, t1 = 1;
    while (r1 != 0) {
        while (r0 != 0 && deg(r0) >= deg(r1)) { int s = deg(r0) - deg(r1); r0 ^= r1 << s; t0 ^= t1 << s; }
        swap(r0, r1); swap(t0, t1);
    }
    return pmod(t0, m); // r0 == 1 for irreducible m
}
struct Ref {
    int bits; Z m; // m includes x^bits
    Ref(int b, std::initializer_list<int> taps) : bits(b), m(0) { m = Z(1) << b; for (int t : taps) m ^= Z(1) << t; }
    Z mul(const Z &a, const Z &b) const { return pmod(pmul(a, b), m); }
    Z inv(const Z &a) const { return pinv(a, m); }
    Z pow(const Z &a, const Z &e) const
    {
        Z r = 1;
        for (long i = (long)ref::bits(e) - 1; i >= 0; i--) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, a); }
        return r;
    }
};
template<class F> const Ref &ref_of();
template<> inline const Ref &ref_of<gf32>() { static Ref r(32, {22, 2, 1, 0}); return r; }
template<> inline const Ref &ref_of<gf64>() { static Ref r(64, {4, 3, 1, 0}); return r; }
template<> inline const Ref &ref_of<gf128>() { static Ref r(128, {7, 2, 1, 0}); return r; }
template<> inline const Ref &ref_of<gf192>() { static Ref r(192, {7, 2, 1, 0}); return r; }
template<> inline const Ref &ref_of<gf256>() { static Ref r(256, {10, 5, 2, 0}); return r; }
template<class F> const char *gname();
template<> inline const char *gname<gf32>() { return "gf32"; }
template<> inline const char *gname<gf64>() { return "gf64"; }
template<> inline const char *gname<gf128>() { return "gf128"; }
template<> inline const char *gname<gf192>() { return "gf192"; }
template<> inline const char *gname<gf256>() { return "gf256"; }

inline W words(const Z &z, int bits)
{
    W w((bits + 63) / 64, 0);
    mpz_export(w.data(), nullptr, -1, 8, 0, 0, z.get_mpz_t());
    return w;
}
template<class F> Z dec(const F &x) { return zw(x.to_words()); }
// built with the explicit constructors, not with from_words
template<class F> F enc(const Z &z);
template<> inline gf32 enc<gf32>(const Z &z) { return gf32((uint32_t)words(z, 32)[0]); }
template<> inline gf64 enc<gf64>(const Z &z) { return gf64(words(z, 64)[0]); }
template<> inline gf128 enc<gf128>(const Z &z) { W w = words(z, 128); return gf128(w[1], w[0]); }
template<> inline gf192 enc<gf192>(const Z &z) { W w = words(z, 192); return gf192(w[2], w[1], w[0]); }
template<> inline gf256 enc<gf256>(const Z &z) { W w = words(z, 256); return gf256(w[3], w[2], w[1], w[0]); }

inline const Ref &ref_by_bits(int b) { switch (b) { case 32: return ref_of<gf32>(); case 64: return ref_of<gf64>(); case 128: return ref_of<gf128>(); case 192: return ref_of<gf192>(); default: return ref_of<gf256>(); } }
// bases of the proper subfields, and the images of x^i under the automorphism of order two
struct Sub { std::vector<std::vector<Z>> basis; std::vector<Z> conj; };
inline Sub make_sub(const Ref &R)
{
    Sub r; const Z all = (Z(1) << R.bits) - 1;
    for (int k = 2; k < R.bits; k++) if (R.bits % k == 0) {
        // x^e generates a subfield of GF(2^k); the whole of it unless the degree is smaller
        for (int c = 2;; c++) {
            const Z h = R.pow(Z(c), all / ((Z(1) << k) - 1)); bool whole = true; Z y = h;
            for (int j = 1; j < k; j++) { y = R.mul(y, y); if (y == h) whole = false; }
            if (!whole) continue;
            std::vector<Z> b(1, Z(1)); while ((int)b.size() < k) b.push_back(R.mul(b.back(), h));
            r.basis.push_back(b); break;
        }
    }
    Z y = 2; for (int i = 0; i < R.bits / 2; i++) y = R.mul(y, y);
    r.conj.push_back(1); while ((int)r.conj.size() < R.bits) r.conj.push_back(R.mul(r.conj.back(), y));
    return r;
}
inline const Sub &sub_of(int bits)
{
    switch (bits) {
    case 32: { static const Sub t = make_sub(ref_by_bits(32)); return t; }
    case 64: { static const Sub t = make_sub(ref_by_bits(64)); return t; }
    case 128: { static const Sub t = make_sub(ref_by_bits(128)); return t; }
    case 192: { static const Sub t = make_sub(ref_by_bits(192)); return t; }
    default: { static const Sub t = make_sub(ref_by_bits(256)); return t; }
    }
}
inline Z conj(const Ref &R, const Z &a) { const Sub &u = sub_of(R.bits); Z r; for (int i = 0; i < R.bits; i++) if (mpz_tstbit(a.get_mpz_t(), i)) r ^= u.conj[i]; return r; }
inline Z gen(Src &s, int bits)
{
    Z r;
    switch (s.draw(7)) {
    case 6: { // an element of a proper subfield
        const Sub &u = sub_of(bits); const std::vector<Z> &b = u.basis[s.draw(u.basis.size() - 1)]; uint64_t w = 0;
        for (size_t i = 0; i < b.size(); i++) { if (i % 64 == 0) w = s.word(); if (w >> (i % 64) & 1) r ^= b[i]; }
        break; }
    case 0: r = lf::z_of_u64(s.draw(8)); break;
    case 5: { // words that repeat or cancel
        const uint64_t w = s.coin() ? s.draw(30) : lf::gen_limb(s);
        for (int i = 0; i < bits; i += 64) { const uint64_t c = s.draw(4); r <<= 64; r += lf::z_of_u64(c == 0 ? 0 : c == 1 ? 1 : c == 4 ? ~w : w); }
        break; }
    case 1: { int k = 1 + s.draw(3); while (k--) r ^= Z(1) << s.draw(bits - 1); break; } // sparse
    case 2: { r = (Z(1) << bits) - 1; int k = s.draw(3); while (k--) r ^= Z(1) << s.draw(bits - 1); break; } // dense
    case 3: r = lf::gen_limbs(s, (bits + 63) / 64); break;
    case 4: r = lf::gen_limbs(s, (bits + 63) / 64) << s.draw(bits - 1); break; // high part only
    default: for (int i = 0; i < bits; i += 64) { r <<= 64; r += lf::z_of_u64(s.word()); }
    }
    Z mask = (Z(1) << bits) - 1;
    return r & mask;
}
inline Z gen_related(Src &s, const Ref &R, const Z &a)
{
    switch (s.draw(8)) {
    case 5: return conj(R, a);
    case 6: return R.mul(a, a);
    case 7: return a == 0 ? a : R.inv(a);
    case 0: return a;
    case 1: return a ^ 1;
    case 2: if (a != 0) return R.mul(gen(s, R.bits), R.inv(a)); return gen(s, R.bits); // chosen product
    case 3: return a ^ gen(s, R.bits);
    default: return gen(s, R.bits);
    }
}
inline std::string hex(const Z &z) { return "0x" + z.get_str(16); }
#define EXPECT_GF(F, got, want, what)                                                                   \
    do {                                                                                                \
        const F pbt_g = (got); const gf2::Z pbt_w = (want);                                             \
        CHECK(gf2::dec(pbt_g) == pbt_w, what << ": got " << gf2::hex(gf2::dec(pbt_g)) << " want " << gf2::hex(pbt_w)); \
    } while (0)
} // namespace gf2
