// P07: field parameters, generators, roots of unity.
#include "curve.hpp"
using namespace lf;
namespace {

template<class F> bool order_divides(const Field &R, const E &a, const Z &e) { return R.pow(a, e) == R.one(); }

// constants every field has (sizes, 2-adic decomposition, non-residue)
template<class F> auto check_euler(const Field &R, int) -> decltype((void)F::euler)
{
    const Z N = R.order - 1; const unsigned long s2 = mpz_scan1(N.get_mpz_t(), 0); const Z t = N >> s2;
    CHECK(to_z(F::euler) == N / 2, "euler");
    CHECK(F::s == s2, "s = " << F::s << " want " << s2);
    CHECK(to_z(F::t) == t, "t"); CHECK(to_z(F::t_minus_1_over_2) == (t - 1) / 2, "t_minus_1_over_2");
    const E nqr = dec(F::nqr); CHECK(R.pow(nqr, N / 2) == R.neg(R.one()), "nqr is a square"); EXPECT_ELEM(R, F::nqr, nqr, "nqr");
    EXPECT_ELEM(R, F::nqr_to_t, R.pow(nqr, t), "nqr_to_t");
}

template<class F> void constants(Src &s)
{
    const Field &R = field_of<F>(); s.nt(); s.say("constants, random element");
    const size_t nb = ref::bits(R.p);
    CHECK(F::ceil_size_in_bits() == R.deg * nb, "ceil_size_in_bits"); CHECK(F::floor_size_in_bits() == R.deg * (nb - 1), "floor_size_in_bits");
    CHECK((int)F::extension_degree() == R.deg, "extension_degree"); CHECK(to_z(F::field_char()) == R.p, "field_char");
    check_euler<F>(R, 0);
    // a random non-zero element: its power by euler is its quadratic character
    E a = gen_elem(s, R, limbs<F>()); if (R.is_zero(a)) a = R.one();
    const F x = enc<F>(a), c = x ^ F::euler;
    CHECK(c == F::one() || c == -F::one(), "x^euler is neither 1 nor -1");
    EXPECT_ELEM(R, (x ^ F::t) ^ (1ul << F::s), R.one(), "x^(t 2^s)");
    const F sq = x.squared(); CHECK((sq ^ F::euler) == F::one(), "a square to the euler power"); CHECK(((sq * F::nqr) ^ F::euler) == -F::one(), "nqr times a square is not a non-residue");
}

std::vector<Z> factors(const Z &p)
{
    static const char *known[] = {"2", "3", "5", "7", "11", "13", "17", "19", "23", "29", "43", "47", "53", "67", "79", "113", "167", "229", "263", "311", "983", "1021", "10177", "11003", "125527", "237073", "859267", "906349", "2508409",
        "2529403", "52437899", "254760293", "405928799", "11465965001", "711890597413", "1682846480381357", "1670836401704629", "13818364434197438864469338081", "13427688667394608761327070753331941386769",
        "5679531856541001669394577", "832668823862928114206893884097921187"};
    std::vector<Z> r; Z rest = p - 1;
    for (auto k : known) { Z q(k); if (rest % q == 0) { r.push_back(q); while (rest % q == 0) rest /= q; } }
    if (rest != 1) r.push_back(rest);
    return r;
}

template<class F> void prime_constants(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs_of<F>::value; const Z N = R.p - 1;
    static const std::vector<Z> fs = factors(R.p);
    const Z q = fs[s.cycle(fs.size())]; s.nt(); s.say("generator order and prime factor " + q.get_str());
    CHECK(mpz_probab_prime_p(R.p.get_mpz_t(), 20) != 0, "modulus is not prime");
    CHECK(F::num_bits == ref::bits(R.p), "num_bits"); CHECK(F::modulus_is_valid(), "modulus_is_valid"); CHECK(F::num_limbs == (int)((ref::bits(R.p) + 63) / 64), "number of limbs");
    const Z W = Z(1) << 64, RR = Z(1) << (64 * n);
    CHECK(ref::zmod(z_of_u64(F::inv) * R.p, W) == W - 1, "inv is not -1/p mod 2^64"); CHECK(to_z(F::Rsquared) == ref::zmod(RR * RR, R.p), "Rsquared"); CHECK(to_z(F::Rcubed) == ref::zmod(RR * RR * RR, R.p), "Rcubed");
    const Z g = dec(F::multiplicative_generator)[0];
    CHECK(g != 0 && ref::zpow(g, N, R.p) == 1, "generator^(p-1)"); CHECK(ref::zpow(g, N / q, R.p) != 1, "generator has order dividing (p-1)/" << q);
    const Z w = dec(F::root_of_unity)[0]; const Z two = Z(1) << F::s;
    CHECK(ref::zpow(w, two, R.p) == 1 && ref::zpow(w, two / 2, R.p) == N, "root_of_unity does not have order 2^s");
    CHECK(w == ref::zpow(g, N >> F::s, R.p), "root_of_unity is not generator^((p-1)/2^s)");
    EXPECT_ELEM(R, F::geometric_generator(), R.from(2), "geometric_generator"); EXPECT_ELEM(R, F::arithmetic_generator(), R.from(1), "arithmetic_generator");
    EXPECT_ELEM(R, coset_shift<F>(), R.from(g * g), "coset_shift");
    CHECK(ref::zpow(g * g, two, R.p) != 1, "the coset of the shift is the subgroup itself");
}

template<class F> void roots(Src &s)
{
    const Field &R = field_of<F>(); const unsigned long S = mpz_scan1(Z(R.p - 1).get_mpz_t(), 0);
    size_t n;
    const uint64_t kind = s.cycle(5);
    switch (kind) {
    case 0: case 1: n = 1ull << s.cycle2(5, 64); break;
    case 2: n = (1ull << s.draw(63)) + (s.coin() ? 1 : -1); break;
    case 3: n = s.draw(70); break;
    default: n = gen_limb(s);
    }
    const bool pow2 = n && (n & (n - 1)) == 0, want = pow2 && (n >> S) <= 1;
    s.label(want ? "supported order" : "unsupported order"); s.say("root of unity of order " + std::to_string(n)); if (n > 2) s.nt();
    F w; bool threw = false;
    try { w = get_root_of_unity<F>(n); } catch (const std::invalid_argument &) { threw = true; }
    if (!want) { CHECK(threw, "get_root_of_unity(" << n << ") does not throw"); return; }
    CHECK(!threw, "get_root_of_unity(" << n << ") throws");
    const Z v = dec(w)[0];
    CHECK(ref::zpow(v, z_of_u64(n), R.p) == 1, "w^" << n << " != 1"); if (n > 1) CHECK(ref::zpow(v, z_of_u64(n / 2), R.p) == R.p - 1, "w^(" << n << "/2) != -1");
    if (n > 1) CHECK(get_root_of_unity<F>(n / 2) == w.squared(), "roots of order " << n << " and " << n / 2 << " are not consistent");
    CHECK(ref::zpow(dec(F::root_of_unity)[0], Z(1) << (S - (ref::bits(z_of_u64(n)) - 1)), R.p) == v, "not a power of root_of_unity");
}

// Frobenius coefficients: nr^((p^i-1)/k)
template<class C> E lift(const Field &B, const C &c) { E e = dec(c); e.resize(B.deg); return e; }
void frobcoeffs(Src &s)
{
    s.nt();
    struct Item { std::string name; std::function<void()> f; };
    static const std::vector<Item> items = [] {
        std::vector<Item> v; const Field &q = T().fq, &e = T().fe;
        auto expo = [](const Z &p, int i, int num, int den) { Z x = ref::zpowi(p, i) - 1; x *= num; CHECK(x % den == 0, "exponent"); return Z(x / den); };
        (void)q; (void)e; (void)expo;
#define CO(FLD, ARR, CNT, B, NR, num, den) for (int i = 0; i < CNT; i++) v.push_back({#FLD "::" #ARR "[" + std::to_string(i) + "]", [=] { const Field &b = B; CHECK(lift(b, FLD::ARR[i]) == b.pow(NR, expo(b.p, i, num, den)), "wrong value"); }})
#define NRQ(FLD) v.push_back({#FLD "::non_residue", [=] { CHECK(dec(FLD::non_residue) == NR_OF(FLD), "wrong non-residue"); }})
#if CRV == 1 || CRV == 2
        CO(Fe_, Frobenius_coeffs_c1, 2, T().fq, dec(Fe_::non_residue), 1, 2);
        CO(Fm_, Frobenius_coeffs_c1, 6, T().fe, dec(Fm_::non_residue), 1, 3); CO(Fm_, Frobenius_coeffs_c2, 6, T().fe, dec(Fm_::non_residue), 2, 3);
        CO(Fk_, Frobenius_coeffs_c1, 12, T().fe, dec(Fk_::non_residue), 1, 6);
        v.push_back({"Fq2::non_residue", [] { CHECK(dec(Fe_::non_residue) == T().fe.nr, "value"); }}); v.push_back({"Fq6::non_residue", [] { CHECK(dec(Fm_::non_residue) == T().fm.nr, "value"); }}); v.push_back({"Fq12::non_residue", [] { CHECK(dec(Fk_::non_residue) == T().fm.nr, "value"); }});
        v.push_back({"Fq6 irreducible", [] { const Field &b = T().fe; CHECK((b.order - 1) % 3 == 0 && b.pow(T().fm.nr, (b.order - 1) / 3) != b.one(), "non-residue is a cube"); CHECK(b.pow(T().fm.nr, (b.order - 1) / 2) != b.one(), "non-residue is a square"); }});
#elif CRV == 4
        CO(Fe_, Frobenius_coeffs_c1, 2, T().fq, dec(Fe_::non_residue), 1, 2); CO(Fk_, Frobenius_coeffs_c1, 4, T().fq, dec(Fk_::non_residue), 1, 4);
        v.push_back({"Fq2::non_residue", [] { CHECK(dec(Fe_::non_residue) == T().fe.nr, "value"); }}); v.push_back({"Fq4::non_residue", [] { CHECK(dec(Fk_::non_residue) == T().fe.nr, "value"); }});
#else
        CO(Fe_, Frobenius_coeffs_c1, 3, T().fq, dec(Fe_::non_residue), 1, 3); CO(Fe_, Frobenius_coeffs_c2, 3, T().fq, dec(Fe_::non_residue), 2, 3); CO(Fk_, Frobenius_coeffs_c1, 6, T().fq, dec(Fk_::non_residue), 1, 6);
        v.push_back({"Fq3::non_residue", [] { CHECK(dec(Fe_::non_residue) == T().fe.nr, "value"); }}); v.push_back({"Fq6::non_residue", [] { CHECK(dec(Fk_::non_residue) == T().fe.nr, "value"); }});
        v.push_back({"Fq3 irreducible", [] { const Field &b = T().fq; CHECK((b.order - 1) % 3 == 0 && b.pow(T().fe.nr, (b.order - 1) / 3) != b.one(), "non-residue is a cube"); CHECK(b.pow(T().fe.nr, (b.order - 1) / 2) != b.one(), "non-residue is a square"); }});
#endif
        return v;
    }();
    const Item &it = items[s.cycle(items.size())]; s.say(it.name);
    try { it.f(); } catch (pbt::Fail &f) { throw pbt::Fail{it.name + ": " + f.msg}; }
}

template<class F> void prime(uint64_t N)
{
    const std::string f = fname<F>();
    pbt::reg(f + "/prime-constants", 400, prime_constants<F>); pbt::reg(f + "/roots-of-unity", N, roots<F>);
}
void all()
{
    prime<Fr_>(4000); prime<Fq_>(4000);
    pbt::reg(std::string(fname<Fr_>()) + "/constants", 200, constants<Fr_>); pbt::reg(std::string(fname<Fq_>()) + "/constants", 200, constants<Fq_>); pbt::reg(std::string(fname<Fe_>()) + "/constants", 100, constants<Fe_>);
#ifdef HAS_FM
    pbt::reg(std::string(fname<Fm_>()) + "/constants", 24, constants<Fm_>);
#endif
    pbt::reg(std::string(fname<Fk_>()) + "/constants", 24, constants<Fk_>);
    pbt::reg(CNAME "/Frobenius-coefficients", 64, frobcoeffs);
}
PBT_REGISTER(all)
}
