// P20: random elements of fields and groups, hash-based generation.
#if CRV >= 6
#include "curve.hpp"
#else
#include "group.hpp"
#endif
#include "rnd.hpp"
#include <libff/common/rng.hpp>
#include <libff/common/utils.hpp>
#include <sodium.h>
using namespace lf;
namespace {
// ---- SHA512_rng --------------------------------------------------------------
Z sha_ref(uint64_t idx, const Z &p, int limbs, int &iters)
{
    for (uint64_t iter = 0;; iter++) {
        unsigned char in[16], h[64];
        for (int i = 0; i < 8; i++) { in[i] = idx >> (8 * i); in[8 + i] = iter >> (8 * i); }
        crypto_hash_sha512(h, in, 16);
        Z v; mpz_import(v.get_mpz_t(), 8 * limbs, -1, 1, 0, 0, h);
        v &= (Z(1) << ref::bits(p)) - 1; iters = (int)iter + 1;
        if (v < p) return v;
    }
}
template<class F> void sha(Src &s)
{
    const Field &R = field_of<F>(); uint64_t idx;
    switch (s.draw(4)) { case 0: idx = s.draw(1000); break; case 1: idx = ~0ull - s.draw(1000); break; case 2: idx = (1ull << s.draw(63)) + s.draw(2) - 1; break; default: idx = s.word(); }
    int it; const Z want = sha_ref(idx, R.p, limbs_of<F>::value, it);
    s.nt(); s.say("index " + std::to_string(idx)); s.label(it == 1 ? "first hash accepted" : it == 2 ? "one rejection" : "several rejections");
    EXPECT_ELEM(R, SHA512_rng<F>(idx), E{want}, "SHA512_rng(" << idx << ")");
}
// ---- random elements -----------------------------------------------------------
enum { STATIC, MEMBER };
template<class F> F draw_elem(Src &s, int how) { (void)s; if (how == STATIC) return F::random_element(); F x = F::one(); x.randomize(); return x; }

// histories of draws: in range, uniform in every coefficient, also in Montgomery form, no repetition
template<class F> void history(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>(), N = 1500; const int how = s.draw(1); rnd::script({}, s.word()); s.nt(); s.say(std::to_string(N) + " draws");
    const Z mont = Z(1) << (64 * n);
    std::vector<std::vector<Z>> c(R.deg), m(R.deg); std::set<std::string> seen;
    for (int i = 0; i < N; i++) {
        const F x = draw_elem<F>(s, how); const E e = dec(x);
        CHECK(x == enc<F>(e), "random element " << R.str(e) << " is not in canonical form");
        for (int j = 0; j < R.deg; j++) { c[j].push_back(e[j]); m[j].push_back(ref::zmod(e[j] * mont, R.p)); }
        if (ref::bits(R.p) > 60) for (int j = 0; j < R.deg; j++) { CHECK(seen.insert(e[j].get_str(62)).second, "a coefficient is repeated in " << N << " draws: " << e[j].get_str()); CHECK(!seen.count(ref::zmod(-e[j], R.p).get_str(62)) || e[j] == 0, "a coefficient and its opposite in " << N << " draws"); }
    }
    for (int j = 0; j < R.deg; j++) { const std::string t = "coefficient " + std::to_string(j); rnd::uniform(c[j], R.p, t); rnd::uniform(m[j], R.p, t + " in Montgomery form"); }
    // coefficients of one element are unrelated
    for (int j = 1; j < R.deg; j++) { std::vector<Z> d; for (int i = 0; i < N; i++) d.push_back(ref::zmod(c[j][i] - c[j - 1][i], R.p)); rnd::uniform(d, R.p, "difference of coefficients"); }
}
// whatever the source returns, the element is canonical: words at the edges of the rejection loop
template<class F> void edges(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>(); std::vector<uint32_t> h; const size_t nb = ref::bits(R.p);
    for (int k = 1 + s.draw(3); k > 0; k--) {
        Z v;
        switch (s.draw(6)) { case 0: v = R.p; break; case 1: v = R.p + 1 + z_of_u64(s.draw(3)); break; case 2: v = R.p - 1 - z_of_u64(s.draw(3)); break; case 3: v = (Z(1) << nb) - 1; break; case 4: v = gen_limbs(s, n); break; case 5: v = gen_mod(s, R.p, n); break; default: v = (R.p >> 64 << 64) + z_of_u64(gen_limb(s)); }
        v &= (Z(1) << (64 * n)) - 1; if (s.coin() && nb < (size_t)64 * n) v |= gen_limbs(s, n) >> nb << nb; v &= (Z(1) << (64 * n)) - 1;
        for (int i = 0; i < 2 * n; i++) h.push_back((uint32_t)Z(v >> (32 * i)).get_ui());
    }
    rnd::script(h, s.word()); s.nt(); s.say("scripted source"); const F x = draw_elem<F>(s, s.draw(1)); const E e = dec(x);
    for (const Z &z : e) CHECK(z >= 0 && z < R.p, "out of range");
    CHECK(x == enc<F>(e), "random element is not in canonical form, value " << R.str(e)); EXPECT_ELEM(R, x - x, R.zero(), "x - x of a random element"); EXPECT_ELEM(R, x + F::zero(), e, "x + 0 of a random element");
    rnd::reset();
}
// every word of the randomness that an element needs influences it
template<class T, class D> void influence(Src &s, int words, D draw, const char *what, int deg = 1, int stride = 0)
{
    const int w = s.cycle(words * deg), i = w % words + w / words * stride; // an extension element takes them coefficient by coefficient
    if (deg > 1) words = deg * stride; s.nt(); s.say(std::string(what) + ", word " + std::to_string(i) + " of the randomness");
    for (int k = 0; k < 24; k++) {
        std::vector<uint32_t> h; for (int j = 0; j < words; j++) h.push_back((uint32_t)s.word());
        const uint64_t seed = s.word(); rnd::script(h, seed); const T a = draw();
        h[i] ^= 1u << (k % 24); // a low bit of the word: above the modulus' top bit only the high ones are masked
        rnd::script(h, seed); const T b = draw();
        rnd::script(h, seed); CHECK(draw() == b, what << " is not a function of the source");
        if (!(a == b)) return;
    }
    throw pbt::Fail{std::string(what) + " does not depend on word " + std::to_string(i) + " of the source"};
}
template<class F> void influence_field(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>(), top = (ref::bits(R.p) + 31) / 32; // words with bits of the element
    influence<F>(s, top, [] { return F::random_element(); }, fname<F>(), R.deg, 2 * n);
}
#ifdef HAS_CURVE
template<class G> void influence_group(Src &s) { influence<G>(s, (ref::bits(MOD_R) + 31) / 32, [] { return G::random_element(); }, Grp<G>::name()); }
// every bit of the scalar that the randomness stands for (in Montgomery form)
template<class G> void influence_scalar(Src &s)
{
    const int nb = ref::bits(MOD_R), bit = s.cycle(nb - 1); s.nt(); s.say(std::string(Grp<G>::name()) + ", bit " + std::to_string(bit) + " of the scalar");
    auto point = [&](const Z &x, uint64_t seed) { const Z m = (x << (64 * NR)) % MOD_R; std::vector<uint32_t> h; for (int i = 0; i < 2 * NR; i++) h.push_back((uint32_t)Z((m >> (32 * i)) & 0xffffffffu).get_ui()); rnd::script(h, seed); const G P = G::random_element(); rnd::reset(); return P; };
    for (int k = 0; k < 8; k++) {
        const Z x = gen_mod(s, MOD_R >> 1, NR), y = x ^ (Z(1) << bit); const uint64_t seed = s.word(); if (y >= MOD_R || x == 0 || y == 0) continue; // x is below half the modulus
        if (!(point(x, seed) == point(y, seed))) return;
        if (k == 7) throw pbt::Fail{std::string(Grp<G>::name()) + "::random_element gives the same point for sources that differ in bit " + std::to_string(bit) + " of the scalar"};
    }
}

template<class G> void points(Src &s)
{
    const GroupData &D = gd<G>(); rnd::script({}, s.word()); s.nt(); std::set<std::string> seen; const int N = 6; s.say(std::to_string(N) + " points");
    for (int i = 0; i < N; i++) {
        const G P = G::random_element(); CHECK(P.is_well_formed(), "random point is not well formed"); const Pt p = dec_pt<G>(P); CHECK(p.inf || D.c.on(p), "random point is not on the curve");
        CHECK(!p.inf, "the identity in " << N << " draws"); CHECK(seen.insert(D.c.F->str(p.x)).second, "a point is repeated in " << N << " draws"); CHECK(p.inf || !D.c.eq(p, D.c.g), "the generator in " << N << " draws");
        CHECK(i || D.c.mul(MOD_R, p).inf || COORD == INVERTED, "random point is not in the subgroup");
        CHECK((G::order() * P).is_zero(), "order times a random point is not the identity");
    }
    rnd::reset();
}
#endif
template<class F> void field(uint64_t N)
{
    const std::string f = fname<F>(); pbt::reg(f + "/history", N, history<F>); pbt::reg(f + "/source-edges", 1500, edges<F>); pbt::reg(f + "/influence", 160, influence_field<F>);
}
#ifdef HAS_CURVE
template<class G> void group() { const std::string g = Grp<G>::name(); pbt::reg(g + "/points", 24, points<G>); pbt::reg(g + "/influence", 40, influence_group<G>); pbt::reg(g + "/influence of the scalar", 320, influence_scalar<G>); }
#endif
void all()
{
    pbt::reg(std::string(fname<Fr_>()) + "/SHA512_rng", 8000, sha<Fr_>); pbt::reg(std::string(fname<Fq_>()) + "/SHA512_rng", 8000, sha<Fq_>);
    field<Fr_>(16); field<Fq_>(16); field<Fe_>(8); field<Fk_>(8);
#ifdef HAS_FM
    field<Fm_>(8);
#endif
#ifdef HAS_CURVE
    group<G1_>(); group<G2_>();
#endif
}
PBT_REGISTER(all)
}
