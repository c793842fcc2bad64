// Groups of the selected curve: affine reference curves, coordinate decoding
// and encoding, point generators.
#pragma once
#include "curve.hpp"
#include <libff/algebra/curves/curve_utils.hpp>

namespace lf { namespace {
using ref::Curve;
using ref::Pt;
#include "gens.inc"

template<class G> struct Grp;
template<> struct Grp<G1_> { typedef Fq_ CF; static const char *name() { return CNAME "_G1"; } static const int id = 0; static const char *const *gx() { return G1_X; } static const char *const *gy() { return G1_Y; } };
template<> struct Grp<G2_> { typedef Fe_ CF; static const char *name() { return CNAME "_G2"; } static const int id = 1; static const char *const *gx() { return G2_X; } static const char *const *gy() { return G2_Y; } };

struct GroupData {
    Curve c;
    std::vector<std::vector<Pt>> table; // table[i][j] = j 16^i G
    std::vector<Pt> pool;               // points of the subgroup
    std::vector<Z> pool_log;
    std::vector<Pt> special; // logarithms unknown
    std::vector<Pt> outside;            // curve points outside the subgroup (where they exist and are supported)
    size_t nsparse = 0;                 // where those with a sparse Y begin
    E beta;                             // a cube root of unity (curves with a = 0)
    // k G
    Pt fixed(const Z &k0) const
    {
        Z k = ref::zmod(k0, c.r); Pt R;
        for (size_t i = 0; k != 0; i++) { const unsigned long w = Z(k & 15).get_ui(); k >>= 4; if (w) R = c.add(R, table[i][w]); }
        return R;
    }
};
// points of the second curve (mostly outside the subgroup) whose Y has zero
// coefficients, often the first one: the sign of Y is in the others
inline std::vector<Pt> make_sparse_y(const Curve &C)
{
    const Field &F = *C.F; std::vector<Pt> out; uint64_t st = 17;
    for (int n = 0; out.size() < (F.deg > 2 ? 9 : 6) && n < 400; n++) {
        E y = F.zero(); const int masks2[] = {2, 2, 1}, masks3[] = {6, 4, 2, 6, 4, 5, 1, 3}, mask = COORD == JACOBIAN ? 2 : F.deg == 2 ? masks2[n % 3] : masks3[n % 8];
        for (int i = 0; i < F.deg; i++) if (mask >> i & 1) { Z z; for (int j = 0; j <= NQ; j++) { st = pbt::mix64(st); z <<= 64; z += z_of_u64(st); } y[i] = ref::zmod(z, F.p); }
        Pt P; P.inf = false;
        if (COORD == JACOBIAN) { // y = c1 i and x0 + x1 i with 3 x0^2 x1 - x1^3 + b1 = 0, i^2 = -1
            const Field &q = T().fq; const E x1 = {y[1]}, b0 = {C.b[0]}, b1 = {C.b[1]}, x12 = q.sqr(x1); E x0, c1;
            if (!q.sqrt(q.mul(q.sub(q.mul(x1, x12), b1), q.inv(q.scale(3, x1))), x0)) continue;
            const E yy = q.add(q.sub(q.mul(x0, q.sqr(x0)), q.scale(3, q.mul(x0, x12))), b0);
            P.x = {x0[0], x1[0]};
            if (q.sqrt(q.neg(yy), c1)) P.y = {Z(0), c1[0]}; else if (q.sqrt(yy, c1)) P.y = {c1[0], Z(0)}; else continue; if (C.on(P)) out.push_back(P); continue;
        }
        P.y = y; const E yy = F.sqr(y);
        if (C.edwards) { const E q = F.mul(F.sub(F.one(), yy), F.inv(F.sub(C.a, F.mul(C.b, yy)))); if (F.is_zero(q) || !F.sqrt(q, P.x)) continue; }
        else { // a root of x^3 + a x + c: gcd(x^Q - x, x^3 + a x + c) when it is linear
            const E c = F.sub(C.b, yy); E u[3] = {F.one(), F.zero(), F.zero()};
            auto reduce = [&](E *v) { /* v of degree 4 */ for (int k = 4; k >= 3; k--) { v[k - 2] = F.sub(v[k - 2], F.mul(v[k], C.a)); v[k - 3] = F.sub(v[k - 3], F.mul(v[k], c)); } };
            for (size_t i = ref::bits(F.order); i-- > 0;) {
                E v[5] = {F.zero(), F.zero(), F.zero(), F.zero(), F.zero()}; for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) v[j + k] = F.add(v[j + k], F.mul(u[j], u[k])); reduce(v);
                if (mpz_tstbit(F.order.get_mpz_t(), i)) { v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = F.zero(); v[4] = F.zero(); reduce(v); }
                for (int j = 0; j < 3; j++) u[j] = v[j];
            }
            u[1] = F.sub(u[1], F.one());
            // remainder of the cubic by u (degree 2), then u by that
            if (F.is_zero(u[2])) continue;
            const E i2 = F.inv(u[2]), b1 = F.mul(u[1], i2), b0 = F.mul(u[0], i2); // x^2 + b1 x + b0
            const E r1 = F.add(F.sub(C.a, b0), F.sqr(b1)), r0 = F.add(c, F.mul(b1, b0)); // x^3+ax+c = (x - b1)(x^2+b1x+b0) + r1 x + r0
            if (F.is_zero(r1)) continue;
            P.x = F.neg(F.mul(r0, F.inv(r1)));
        }
        if (C.on(P)) out.push_back(P);
    }
    return out;
}
inline GroupData make_group(int id)
{
    GroupData d; const Towers &t = T();
    const Field &F = id ? t.fe : t.fq;
    d.c.F = &F; d.c.r = MOD_R; d.c.edwards = COORD == INVERTED;
    const E xi = F.deg > 1 ? F.gen() : F.one(); (void)xi;
#if CRV == 1
    d.c.a = F.zero(); d.c.b = id ? F.mul(F.from(3), F.inv(F.add(F.from(9), xi))) : F.from(3);
#elif CRV == 2
    d.c.a = F.zero(); d.c.b = id ? F.add(F.from(4), F.scale(4, xi)) : F.from(4);
#elif CRV == 3
    const Z dd("600581931845324488256649384912508268813600056237543024");
    d.c.a = id ? xi : F.one(); d.c.b = id ? F.scale(dd, xi) : F.from(dd);
#elif CRV == 4
    const Z bb("423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685");
    d.c.a = id ? F.from(34) : F.from(2); d.c.b = id ? F.scale(17 * bb, xi) : F.from(bb);
#elif CRV == 5
    const Z bb("106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074");
    d.c.a = id ? F.scale(11, F.sqr(xi)) : F.from(11); d.c.b = id ? F.from(5 * bb) : F.from(bb);
#endif
    const char *const *gx = id ? G2_X : G1_X, *const *gy = id ? G2_Y : G1_Y;
    d.c.g.inf = false; d.c.g.x = d.c.g.y = F.zero();
    for (int i = 0; i < F.deg; i++) { d.c.g.x[i] = Z(gx[i]); d.c.g.y[i] = Z(gy[i]); }
    if (!d.c.on(d.c.g)) { fprintf(stderr, "reference generator is not on the reference curve\n"); exit(3); }
    Pt b = d.c.g;
    for (size_t i = 0; 4 * i < ref::bits(MOD_R) + 1; i++) {
        std::vector<Pt> row(16); for (int j = 1; j < 16; j++) row[j] = d.c.add(row[j - 1], b);
        b = d.c.add(row[15], b); d.table.push_back(row);
    }
    uint64_t st = 77 + id;
    for (int i = 0; i < 48; i++) {
        Z k; for (int j = 0; j <= NR; j++) { st = pbt::mix64(st); k <<= 64; k += z_of_u64(st); }
        k = i < 8 ? Z(i + 1) : i < 16 ? Z(MOD_R - (i - 7)) : i < 24 ? Z(Z(1) << (i - 12)) : ref::zmod(k, MOD_R);
        d.pool_log.push_back(k); d.pool.push_back(d.fixed(k));
    }
#if CRV != 3
    const bool prime = (CRV == 1 || CRV >= 4) && id == 0;
    for (int i = 0; !prime && d.outside.size() < 8; i++) {
        Pt P; P.inf = false; P.x = F.zero();
        if (i < 24) { P.x[0] = i / 2; if (F.deg > 1) P.x[1] = i % 2; }
        else for (auto &x : P.x) { Z z; for (int j = 0; j <= NQ; j++) { st = pbt::mix64(st); z <<= 64; z += z_of_u64(st); } x = ref::zmod(z, F.p); }
        E yy = F.add(F.mul(F.add(F.sqr(P.x), d.c.a), P.x), d.c.b);
        if (F.is_zero(yy) || !F.sqrt(yy, P.y)) continue;
        d.outside.push_back(P);
    }
#endif
    // points of the subgroup with special coordinates: small, negative, small in Montgomery form
    if (id == 0 && CRV != 2) {
        const Z mont = ref::zpow(Z(2), F.p - 1 - 64 * NQ, F.p);
        for (int i = 0; i < 60; i++) {
            const Z x = i < 24 ? Z(i) : i < 36 ? Z(F.p - (i - 23)) : i < 48 ? ref::zmod(mont * (i - 35), F.p) : Z(Z(1) << 8 * (i - 47));
            Pt P; P.inf = false; P.x = F.from(x);
            if (CRV == 3) {
                if (x == 0) continue;
                const E x2 = F.sqr(P.x), den = F.sub(F.one(), F.mul(d.c.b, x2)), yy = F.mul(F.sub(F.one(), x2), F.inv(den));
                if (F.is_zero(yy) || !F.sqrt(yy, P.y)) continue;
                bool found = false; // one of the eight points with these coordinates up to sign and order may lie in the subgroup
                for (int j = 0; j < 4 && !found; j++) { if (j % 2) std::swap(P.x, P.y); if (j >= 2) P.y = F.neg(P.y); found = d.c.mul(MOD_R, P).inf; }
                if (!found) continue;
            } else {
                const E yy = F.add(F.mul(F.add(F.sqr(P.x), d.c.a), P.x), d.c.b);
                if (F.is_zero(yy) || !F.sqrt(yy, P.y)) continue;
            }
            d.special.push_back(P);
        }
    }
#if CRV != 3
    if (id) { d.nsparse = d.outside.size(); for (auto &P : make_sparse_y(d.c)) d.outside.push_back(P); }
#endif
    d.beta = F.zero();
    if (COORD == JACOBIAN) for (int k = 2;; k++) { E w = F.from(ref::zpow(Z(k), (F.p - 1) / 3, F.p)); if (w != F.one()) { d.beta = w; break; } }
    return d;
}
template<class G> const GroupData &gd() { static const GroupData d = make_group(Grp<G>::id); return d; }
inline const std::vector<Pt> &sparse_y()
{
    const GroupData &d = gd<G2_>(); static const std::vector<Pt> v = d.c.edwards ? make_sparse_y(d.c) : std::vector<Pt>(d.outside.begin() + d.nsparse, d.outside.end()); return v;
}
template<class G> const Curve &cv() { return gd<G>().c; }
template<class G> const Field &cf() { return *gd<G>().c.F; }

// libff point -> affine reference point, by the coordinate system's definition
template<class G> Pt dec_pt(const G &g)
{
    const Field &F = cf<G>(); const E x = dec(g.X), y = dec(g.Y), z = dec(g.Z); Pt P;
    if (COORD == JACOBIAN) {
        if (F.is_zero(z)) return P;
        const E i = F.inv(z), i2 = F.sqr(i); P.x = F.mul(x, i2); P.y = F.mul(y, F.mul(i, i2));
    } else if (COORD == PROJECTIVE) {
        if (F.is_zero(z)) { CHECK(F.is_zero(x) && !F.is_zero(y), "coordinates " << F.str(x) << F.str(y) << F.str(z) << " represent no point"); return P; }
        const E i = F.inv(z); P.x = F.mul(x, i); P.y = F.mul(y, i);
    } else {
        if (F.is_zero(z) && F.is_zero(y)) { CHECK(!F.is_zero(x), "all coordinates are zero"); return P; }
        CHECK(!F.is_zero(x) && !F.is_zero(y) && !F.is_zero(z), "coordinates " << F.str(x) << F.str(y) << F.str(z) << " represent no point of the subgroup");
        P.x = F.mul(z, F.inv(x)); P.y = F.mul(z, F.inv(y));
    }
    P.inf = false;
    return P;
}
// affine point and a non-zero scale factor -> libff point
template<class G> G enc_pt(const Pt &P, const E &l)
{
    typedef typename Grp<G>::CF CF; const Field &F = cf<G>(); G g = G::zero(); E x, y, z;
    if (COORD == JACOBIAN) {
        const E l2 = F.sqr(l);
        if (P.inf) { x = l2; y = F.mul(l, l2); z = F.zero(); }
        else { x = F.mul(P.x, l2); y = F.mul(P.y, F.mul(l, l2)); z = l; }
    } else if (COORD == PROJECTIVE) {
        if (P.inf) { x = F.zero(); y = l; z = F.zero(); }
        else { x = F.mul(P.x, l); y = F.mul(P.y, l); z = l; }
    } else {
        if (P.inf) { x = l; y = F.zero(); z = F.zero(); }
        else { x = F.mul(l, F.inv(P.x)); y = F.mul(l, F.inv(P.y)); z = l; }
    }
    g.X = enc<CF>(x); g.Y = enc<CF>(y); g.Z = enc<CF>(z);
    return g;
}
template<class G> E gen_scale(Src &s)
{
    const Field &F = cf<G>(); E l;
    switch (s.draw(5)) {
    case 0: return F.one();
    case 1: return F.neg(F.one());
    case 2: l = F.from(z_of_u64(s.draw(6) + 2)); break;
    case 3: l = F.zero(); l[s.draw(F.deg - 1)] = gen_mod(s, F.p, NQ); break;
    default: l = gen_elem(s, F, NQ);
    }
    return F.is_zero(l) ? F.one() : l;
}
// a group element by its logarithm: edges of the scalar range, or arbitrary
template<class G> Pt gen_pt(Src &s, bool *in_subgroup = nullptr)
{
    const GroupData &d = gd<G>(); if (in_subgroup) *in_subgroup = true;
    auto pick = [&] { Pt P = !d.special.empty() && s.chance(1, 6) ? d.special[s.draw(d.special.size() - 1)] : d.pool[s.draw(d.pool.size() - 1)]; return s.coin() ? d.c.neg(P) : P; };
    switch (s.draw(6)) {
    case 0: return Pt();
    case 1: return pick();
    case 2: return d.c.dbl(pick());
    case 3: if (in_subgroup && !d.outside.empty()) { *in_subgroup = false; Pt P = d.outside[s.draw(d.outside.size() - 1)]; if (s.coin()) P = d.c.neg(P); return s.coin() ? P : d.c.add(P, pick()); } // fallthrough
    case 4: { const Pt P = pick(); return d.c.add(P, pick()); }
    default: { const Pt P = pick(), Q = pick(); return d.c.add(d.c.add(P, Q), pick()); }
    }
}
// a second point in a chosen relation to the first
enum Rel { R_ANY, R_SAME, R_NEG, R_ENDO, R_DBL, R_NEGDBL, R_ZERO, R_NREL };
template<class G> Pt gen_rel(Src &s, int rel, const Pt &P, bool outside)
{
    const GroupData &d = gd<G>(); bool sub;
    switch (rel) {
    case R_SAME: return P;
    case R_NEG: return d.c.neg(P);
    case R_ENDO: { Pt Q = P; if (COORD == JACOBIAN && !P.inf) { Q.x = d.c.F->mul(d.beta, P.x); if (s.coin()) Q.x = d.c.F->mul(d.beta, Q.x); if (s.coin()) Q = d.c.neg(Q); } return Q; } // same y, other x
    case R_DBL: return d.c.dbl(P);
    case R_NEGDBL: return d.c.neg(d.c.dbl(P));
    case R_ZERO: return Pt();
    default: return gen_pt<G>(s, outside ? &sub : nullptr);
    }
}
// the scale of a second representation, sometimes correlated with the first
template<class G> E gen_scale2(Src &s, const E &l1)
{
    switch (s.draw(6)) {
    case 0: return l1;
    case 1: return cf<G>().neg(l1);
    case 2: return cf<G>().inv(l1);
    case 3: return COORD == JACOBIAN ? cf<G>().mul(l1, gd<G>().beta) : cf<G>().sqr(l1); // the same cube
    case 4: return s.coin() ? cf<G>().sqr(l1) : cf<G>().add(l1, l1);
    default: return gen_scale<G>(s);
    }
}
#define EXPECT_PT(G, got, want, what)                                                             \
    do {                                                                                          \
        const ref::Pt pbt_w = (want);                                                             \
        const ref::Pt pbt_g = dec_pt<G>(got);                                                     \
        CHECK(cv<G>().eq(pbt_g, pbt_w), what << ": got " << cv<G>().str(pbt_g) << " want " << cv<G>().str(pbt_w)); \
    } while (0)

// a scalar below 2^bits: edges of the group order, sparse and dense patterns
inline Z gen_scalar(Src &s, unsigned long nbits, const Z &r)
{
    const Z top = Z(1) << nbits; Z k;
    switch (s.draw(9)) {
    case 0: k = z_of_u64(s.draw(40)); break;
    case 1: k = r + (long)s.draw(6) - 3; break;
    case 2: k = top - 1 - z_of_u64(s.draw(6)); break;
    case 3: k = Z(1) << s.draw(nbits - 1); k += (long)s.draw(2) - 1; break;
    case 4: { k = r * z_of_u64(s.draw(5)) + (long)s.draw(4) - 2; break; }
    case 5: { const int n = 1 + s.draw(3); k = 0; for (int i = 0; i < n; i++) { const Z t = Z(1) << s.draw(nbits - 1); k += s.coin() ? t : -t; } break; }
    case 6: { k = gen_limbs(s, (nbits + 63) / 64); break; }
    case 7: { k = 0; const int per = 1 + s.draw(20); for (unsigned long i = s.draw(per); i < nbits; i += per) k += Z(1) << i; break; } // periodic
    case 8: { const unsigned long len = 1 + s.draw(nbits - 1); k = 0; for (unsigned long i = 0; i < len; i += 64) { k <<= 64; k += z_of_u64(s.word()); } k = ref::zmod(k, Z(1) << len); break; }
    default: k = 0; for (unsigned long i = 0; i < nbits; i += 64) { k <<= 64; k += z_of_u64(s.word()); }
    }
    if (k < 0) k = -k;
    return ref::zmod(k, top);
}
inline void init_groups() { gd<G1_>(); gd<G2_>(); }
static pbt::InitRegistrar init_groups_registrar(init_groups, true);

}} // namespace
