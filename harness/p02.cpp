// P02: inversion, batch inversion and powers in prime and extension fields.
#include "curve.hpp"
using namespace lf;
namespace {

template<class F> E nonzero(Src &s)
{
    const Field &R = field_of<F>();
    for (int t = 0; t < 8; t++) { E a = gen_elem(s, R, limbs<F>()); if (!R.is_zero(a)) return a; }
    return R.one();
}

template<class F> void inverse(Src &s)
{
    const Field &R = field_of<F>();
    const E a = nonzero<F>(s);
    F x = enc<F>(a); const F x0 = x;
    if (a != R.one()) s.nt();
    s.say("inverse of " + R.str(a));
    const E want = R.inv(a);
    CHECK(R.mul(a, want) == R.one(), "reference inverse wrong");
    EXPECT_ELEM(R, x.inverse(), want, "inverse");
    CHECK(x == x0, "operand changed");
    EXPECT_ELEM(R, x * x.inverse(), R.one(), "a * a^-1");
    EXPECT_ELEM(R, x.inverse().inverse(), a, "(a^-1)^-1");
    F &r = x.invert(); CHECK(&r == &x, "invert() does not return *this");
    EXPECT_ELEM(R, x, want, "invert");
}

template<class F> void batch_of(Src &s, bool lng)
{
    const Field &R = field_of<F>();
    const int len = lng ? pbt::long_len(s, R.deg > 3 ? 70 : R.deg > 1 ? 300 : 600) : s.draw(R.deg > 3 ? 6 : 12);
    std::vector<E> a; std::vector<F> v;
    for (int i = 0; i < len; i++) { a.push_back(i > 0 && s.chance(1, 4) ? a[s.draw(i - 1)] : nonzero<F>(s)); v.push_back(enc<F>(a[i])); }
    if (len > 1) s.nt();
    s.label(len > 12 ? "long" : "length " + std::to_string(len)); s.say("batch of " + std::to_string(len));
    batch_invert<F>(v);
    CHECK((int)v.size() == len, "length changed");
    for (int i = 0; i < len; i++) EXPECT_ELEM(R, v[i], R.inv(a[i]), "element " << i << " of " << len);
}

template<class F> void batch(Src &s) { batch_of<F>(s, false); }
template<class F> void long_batch(Src &s) { batch_of<F>(s, true); }

// exponents: shape first, then value
Z gen_exp(Src &s, int limbs_, const Z &order)
{
    const Z lim = Z(1) << (64 * limbs_);
    Z e;
    switch (s.draw(8)) {
    case 0: e = z_of_u64(s.draw(20)); break;
    case 1: e = lim - 1 - z_of_u64(s.draw(3)); break;
    case 2: e = Z(1) << s.draw(64 * limbs_ - 1); break;
    case 3: e = (Z(1) << s.draw(64 * limbs_)) - 1; break;
    case 4: e = order - 1 + (long)s.draw(4) - 2; break;
    case 5: e = gen_limbs(s, 1); break;
    case 6: e = gen_limbs(s, limbs_) >> s.draw(64 * limbs_ - 1); break;
    default: e = gen_limbs(s, limbs_);
    }
    return ref::zmod(e, lim);
}

template<class F, int M> void pow_big(Src &s, const E &a, const F &x)
{
    const Field &R = field_of<F>();
    const Z e = gen_exp(s, M, R.order);
    if (e > 2) s.nt();
    s.say("e=" + e.get_str(16));
    const bigint<M> b = to_bigint<M>(e);
    const E w = R.pow(a, e);
    EXPECT_ELEM(R, x ^ b, w, "a^bigint<" << M << ">(" << e.get_str(16) << ")");
    F y = x; F &r = (y ^= b); CHECK(&r == &y, "^= does not return *this"); EXPECT_ELEM(R, y, w, "a^=bigint");
    EXPECT_ELEM(R, (power<F, M>(x, b)), w, "power(a, bigint)");
}

template<class F, int N> void pow_all(Src &s)
{
    const Field &R = field_of<F>();
    const uint64_t kind = s.cycle(6);
    const E a = s.chance(1, 12) ? R.zero() : gen_elem(s, R, limbs<F>());
    const F x = enc<F>(a);
    s.say("a=" + R.str(a));
    static const char *names[] = {"unsigned long", "bigint<1>", "bigint<field>", "bigint<field+2>", "unsigned long long", "vector of words"};
    s.label(names[kind]);
    switch (kind) {
    case 0: {
        const Z e = gen_exp(s, 1, Z(R.p)); if (e > 2) s.nt(); s.say("e=" + e.get_str());
        const unsigned long u = u64_of_z(e); const E w = R.pow(a, e);
        EXPECT_ELEM(R, x ^ u, w, "a^ulong " << u); F y = x; y ^= u; EXPECT_ELEM(R, y, w, "a^=ulong"); EXPECT_ELEM(R, power<F>(x, u), w, "power(a, ulong)"); break; }
    case 1: pow_big<F, 1>(s, a, x); break;
    case 2: pow_big<F, N>(s, a, x); break;
    case 3: pow_big<F, N + 2>(s, a, x); break;
    case 4: {
        const Z e = gen_exp(s, 1, Z(R.p)); if (e > 2) s.nt(); s.say("e=" + e.get_str());
        const unsigned long long u = u64_of_z(e);
        EXPECT_ELEM(R, power<F>(x, u), R.pow(a, e), "power(a, unsigned long long " << u << ")"); break; }
    default: {
        const int k = s.draw(N + 1); std::vector<unsigned long long> w; Z e;
        for (int i = 0; i < k; i++) { w.push_back(gen_limb(s)); e <<= 64; e += z_of_u64(w.back()); }
        if (e > 2) s.nt(); s.say("e=" + e.get_str(16) + " in " + std::to_string(k) + " words");
        EXPECT_ELEM(R, power<F>(x, w), R.pow(a, e), "power(a, words) e=" << e.get_str(16)); break; }
    }
}

// exponents given as elements of the scalar field
template<class F> void pow_field(Src &s)
{
    const Field &R = field_of<F>();
    const E a = gen_elem(s, R, limbs<F>());
    const Z e = gen_mod(s, MOD_R, NR);
    if (e > 2) s.nt();
    s.say("a=" + R.str(a) + " e=" + e.get_str(16));
    EXPECT_ELEM(R, enc<F>(a) ^ Fr_(to_bigint<NR>(e)), R.pow(a, e), "a^(field element " << e.get_str(16) << ")");
}

template<class F, int N> void fam(uint64_t inv, uint64_t pow)
{
    const std::string f = fname<F>();
    pbt::reg(f + "/inverse", inv, inverse<F>);
    pbt::reg(f + "/batch-inverse", inv / 4, batch<F>); pbt::reg(f + "/long-batch-inverse", F::extension_degree() > 3 ? 22 : 54, long_batch<F>);
    pbt::reg(f + "/power", pow, pow_all<F, N>);
}
void all()
{
    fam<Fr_, limbs_of<Fr_>::value>(8000, 1500);
    fam<Fq_, limbs_of<Fq_>::value>(8000, 1500);
    fam<Fe_, 2 * limbs_of<Fq_>::value>(4000, 240);
#ifdef HAS_FM
    fam<Fm_, 2>(800, 72);
#endif
    fam<Fk_, 3>(600, 72);
    pbt::reg(std::string(fname<Fk_>()) + "/power-by-field-element", 40, pow_field<Fk_>);
}
PBT_REGISTER(all)
}
