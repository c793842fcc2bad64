// P12: multi-scalar multiplication against the sum of the logarithms.
#include "group.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#ifdef MULTICORE
#include <omp.h>
#endif
using namespace lf;
namespace {
template<class G> struct Inst { std::vector<G> g; std::vector<Fr_> k; Z sum; std::string d; };
// scalar vectors: shapes that steer Bos-Coster's heap, BDLO12's buckets and
// the 0/1 special cases
inline std::vector<Z> gen_scalars(Src &s, int n, std::string &d)
{
    std::vector<Z> k(n); const int shape = s.draw(11);
    static const char *names[] = {"small", "0/1", "equal", "one large", "powers of two", "near the order", "mixed sizes", "consecutive", "0/1 and large", "same top bits", "uniform", "edge"};
    d = names[shape]; s.label(std::string("scalars: ") + names[shape]);
    const Z base = gen_mod(s, MOD_R, NR);
    for (int i = 0; i < n; i++) switch (shape) {
    case 0: k[i] = z_of_u64(s.draw(20)); break;
    case 1: k[i] = s.draw(1); break;
    case 2: k[i] = base; break;
    case 3: k[i] = i == n / 2 ? base : z_of_u64(s.draw(3)); break;
    case 4: k[i] = Z(1) << (s.draw(ref::bits(MOD_R) - 2)); break;
    case 5: k[i] = MOD_R - 1 - z_of_u64(s.draw(5)); break;
    case 6: { Z t = gen_mod(s, MOD_R, NR); t >>= s.draw(ref::bits(MOD_R) - 1); k[i] = t; break; }
    case 7: k[i] = base + i; break;
    case 8: k[i] = s.coin() ? Z(s.draw(1)) : gen_mod(s, MOD_R, NR); break;
    case 9: k[i] = (base >> 40 << 40) + z_of_u64(s.draw((1ull << 40) - 1)); break;
    case 10: k[i] = 0; for (int j = 0; j <= NR; j++) { k[i] <<= 64; k[i] += z_of_u64(s.word()); } break;
    default: k[i] = gen_mod(s, MOD_R, NR);
    }
    for (auto &x : k) x = ref::zmod(x, MOD_R);
    if (n && s.chance(1, 4)) k[s.draw(n - 1)] = s.draw(1);
    return k;
}
template<class G> Inst<G> gen_inst(Src &s, int n, bool special)
{
    const GroupData &d = gd<G>(); Inst<G> r; r.sum = 0; std::string sd; const std::vector<Z> k = gen_scalars(s, n, sd);
    const int bases = s.draw(4); static const char *bn[] = {"few distinct bases", "one base", "with identities", "opposite pairs", "any"}; s.label(std::string("bases: ") + bn[bases]);
    const bool scaled = !special && s.coin();
    for (int i = 0; i < n; i++) {
        size_t j = bases == 0 ? 24 + s.draw(3) : bases == 1 ? 30 : bases == 3 ? (size_t)(20 + i / 2 % 28) : (size_t)s.draw(d.pool.size() - 1);
        Z e = d.pool_log[j]; Pt P = d.pool[j];
        if ((bases == 3 && i % 2) || (bases >= 4 && s.coin())) { e = -e; P = d.c.neg(P); }
        if (bases == 2 && s.chance(1, 3)) { e = 0; P = Pt(); }
        G g = enc_pt<G>(P, scaled ? gen_scale<G>(s) : cf<G>().one()); if (special) g.to_special();
        r.g.push_back(g); r.k.push_back(Fr_(to_bigint<NR>(k[i]))); r.sum += e * k[i];
    }
    r.d = std::to_string(n) + " terms, " + sd + " scalars, " + bn[bases]; if (n > 1) s.nt();
    return r;
}
#define METHODS(X) X(0, multi_exp_method_naive, "naive") X(1, multi_exp_method_naive_plain, "naive_plain") X(2, multi_exp_method_bos_coster, "bos_coster") X(3, multi_exp_method_BDLO12, "BDLO12")
template<class G> G run(int m, const std::vector<G> &g, const std::vector<Fr_> &k, size_t chunks, bool mixed)
{
    G r;
#define X(i, M, n) if (m == i) r = mixed ? multi_exp_with_mixed_addition<G, Fr_, M>(g.begin(), g.end(), k.begin(), k.end(), chunks) : multi_exp<G, Fr_, M>(g.begin(), g.end(), k.begin(), k.end(), chunks);
    METHODS(X)
#undef X
    return r;
}
static const char *mname[] = {
#define X(i, M, n) n,
    METHODS(X)
#undef X
};
template<class G> void one(Src &s, int maxlen)
{
    const int m = s.cycle(4); const bool mixed = s.cycle2(4, 3) == 1;
#ifdef USE_MIXED_ADDITION
    const bool special = m == 3 || mixed;
#else
    const bool special = mixed;
#endif
    int n; switch (s.draw(3)) { case 0: n = s.draw(3); break; case 1: n = s.draw(8); break; default: n = s.draw(maxlen); }
    size_t chunks = 1; if (!s.chance(1, 3)) chunks = 1 + s.draw(s.coin() ? 5 : n + 2);
    const Inst<G> I = gen_inst<G>(s, n, special); const std::vector<G> g0 = I.g;
    s.label(std::string(mname[m]) + (mixed ? "+mixed" : "")); s.say(std::string(mname[m]) + (mixed ? " mixed addition, " : ", ") + I.d + ", chunks " + std::to_string(chunks));
#ifdef MULTICORE
    omp_set_num_threads(1 + s.draw(3));
#endif
    const G r = run<G>(m, I.g, I.k, chunks, mixed);
    EXPECT_PT(G, r, gd<G>().fixed(I.sum), mname[m] << (mixed ? " with mixed addition, " : ", ") << I.d << ", chunks " << chunks);
    CHECK(r.is_well_formed(), "result is well-formed"); for (int i = 0; i < n; i++) CHECK(I.g[i].X == g0[i].X && I.g[i].Y == g0[i].Y && I.g[i].Z == g0[i].Z, "an input base changed");
}
template<class G> void small(Src &s) { one<G>(s, 24); }
template<class G> void large(Src &s)
{ // bucket widths grow with the length: lengths around powers of two and of eight
    static const int lens[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 700, 1025}; const int m = s.chance(1, 12) ? s.draw(1) : 2 + s.cycle(2); const int n = lens[s.draw(m < 2 ? 8 : 15)];
    const Inst<G> I = gen_inst<G>(s, n, true); const size_t chunks = 1 + s.draw(9); s.label("length " + std::to_string(n)); s.say(std::string(mname[m]) + ", " + I.d + ", chunks " + std::to_string(chunks));
#ifdef MULTICORE
    omp_set_num_threads(1 + s.draw(7));
#endif
    EXPECT_PT(G, run<G>(m, I.g, I.k, chunks, s.coin()), gd<G>().fixed(I.sum), mname[m] << ", " << I.d << ", chunks " << chunks);
}
// sub-ranges of vectors: nothing outside the ranges is used
template<class G> void ranges(Src &s)
{
    const int n = 1 + s.draw(9); const Inst<G> I = gen_inst<G>(s, n, true); const int a = s.draw(n), b = a + s.draw(n - a); const int off = s.draw(3); const size_t chunks = 1 + s.draw(3);
    std::vector<Fr_> k2(off, Fr_(-1l)); k2.insert(k2.end(), I.k.begin(), I.k.end()); k2.push_back(Fr_(7l));
    const Inst<G> J = I; G acc = G::zero(); for (int i = a; i < b; i++) acc = acc + I.k[i] * I.g[i];
    s.say(I.d + " range " + std::to_string(a) + ".." + std::to_string(b));
#define X(i, M, nm) CHECK((multi_exp<G, Fr_, M>(I.g.begin() + a, I.g.begin() + b, k2.begin() + off + a, k2.begin() + off + b, chunks)) == acc, nm << " over a sub-range " << a << ".." << b << " of " << n << ", chunks " << chunks); \
    CHECK((multi_exp_with_mixed_addition<G, Fr_, M>(I.g.begin() + a, I.g.begin() + b, k2.begin() + off + a, k2.begin() + off + b, chunks)) == acc, nm << " with mixed addition over a sub-range " << a << ".." << b);
    METHODS(X)
#undef X
}
void inner(Src &s)
{
    const int n = s.chance(1, 15) ? 13 + s.draw(600) : s.draw(12); const Field &R = T().fr; std::vector<Fr_> a, b; Z sum; for (int i = 0; i < n; i++) { const Z x = gen_mod(s, MOD_R, NR), y = gen_mod(s, MOD_R, NR); a.push_back(Fr_(to_bigint<NR>(x))); b.push_back(Fr_(to_bigint<NR>(y))); sum += x * y; }
    if (n > 1) s.nt(); s.say("inner product of length " + std::to_string(n) + " = " + sum.get_str(16)); EXPECT_ELEM(R, (inner_product<Fr_>(a.begin(), a.end(), b.begin(), b.end())), R.from(sum), "inner product of length " << n);
    const size_t ch = 1 + s.draw(4); EXPECT_ELEM(R, (multi_exp<Fr_, Fr_, multi_exp_method_naive_plain>(a.begin(), a.end(), b.begin(), b.end(), ch)), R.from(sum), "multi_exp over a field, chunks " << ch);
}
template<class G> void fam(uint64_t n)
{
    const std::string g = Grp<G>::name();
    pbt::reg(g + "/multi-exp", 6 * n, small<G>); pbt::reg(g + "/large", n / 10, large<G>); pbt::reg(g + "/ranges", n / 2, ranges<G>);
}
void all() { fam<G1_>(200); fam<G2_>(80); pbt::reg(CNAME "/inner-product", 3000, inner); }
PBT_REGISTER(all)
}
