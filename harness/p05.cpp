// P05: arithmetic in the cyclotomic subgroup of the pairing target field.
#include "curve.hpp"
using namespace lf;
namespace {
#ifdef HAS_FM
const int CYC_K = 12;
#elif CRV == 4 || CRV == 6 || CRV == 10
const int CYC_K = 4;
#else
const int CYC_K = 6;
#endif

// a^((q^k - 1) / Phi_k(q)) lies in the subgroup of order Phi_k(q)
Z phi(const Z &q) { return CYC_K == 12 ? Z(q * q * q * q - q * q + 1) : CYC_K == 6 ? Z(q * q - q + 1) : Z(q * q + 1); }
struct Pool {
    std::vector<E> v; const Field &R = field_of<Fk_>(); Z ord = phi(MOD_Q), cof = (R.order - 1) / ord;
    Pool()
    {
        v.push_back(R.one()); v.push_back(R.neg(R.one()));
        if (ord % 2 != 0 && R.pow(v[1], ord) != R.one()) v.pop_back(); // -1 is in the subgroup only if its order is even
        pbt::Src s; s.replaying = true; s.in.clear();
        for (int i = 0; i < 40; i++) s.in.push_back(0);
        for (int k = 0; k < 5; k++) {
            E a(R.deg); uint64_t st = 99 + k;
            for (auto &c : a) { Z z; for (int i = 0; i < NQ + 1; i++) { st = pbt::mix64(st); z <<= 64; z += z_of_u64(st); } c = ref::zmod(z, R.p); }
            if (k == 3) for (int i = 1; i < R.deg; i++) if (i != R.deg / 2) a[i] = 0; // sparse base
            v.push_back(R.pow(a, cof));
        }
        // an element of the small part of the subgroup: kills the pairing order
        Z rest = ord; while (rest % MOD_R == 0) rest /= MOD_R;
        if (rest != 1) v.push_back(R.pow(v.back(), MOD_R));
        if (ord % MOD_R == 0) v.push_back(R.pow(v[2], ord / MOD_R));
        const size_t k0 = v.size();
        for (size_t i = 1; i < k0; i++) { E t = v[i]; for (int j = 0; j < 4; j++) { t = R.sqr(t); if (j & 1) t = R.mul(t, v[1 + (i + j) % (k0 - 1)]); v.push_back(t); } }
    }
};
const Pool &pool() { static Pool p; return p; }

E gen_cyc(Src &s)
{
    const Pool &P = pool(); const Field &R = P.R;
    switch (s.draw(9)) {
    case 0: return P.v[s.draw(P.v.size() - 1)];
    case 1: { // fresh: an arbitrary element raised into the subgroup
        if (!s.chance(1, 12)) break;
        E a = gen_elem(s, R, NQ); if (R.is_zero(a)) return R.one(); return R.pow(a, P.cof); }
    default: break;
    }
    E r = R.one();
    const int k = 1 + s.draw(2);
    for (int i = 0; i < k; i++) r = R.mul(r, P.v[s.draw(P.v.size() - 1)]);
    return r;
}

void squaring(Src &s)
{
    const Field &R = field_of<Fk_>(); const E a = gen_cyc(s); const Fk_ x = enc<Fk_>(a), x0 = x;
    if (!trivial_elem(R, a)) s.nt(); s.say("a=" + R.str(a));
    EXPECT_ELEM(R, x.cyclotomic_squared(), R.sqr(a), "cyclotomic_squared"); CHECK(x == x0, "operand changed");
    CHECK(x.cyclotomic_squared() == x.squared(), "cyclotomic_squared differs from squared");
    Fk_ y = x; E w = a; const int k = s.draw(6); for (int i = 0; i < k; i++) { y = y.cyclotomic_squared(); w = R.sqr(w); } EXPECT_ELEM(R, y, w, k << " cyclotomic squarings");
}
void inversion(Src &s)
{
    const Field &R = field_of<Fk_>(); const E a = gen_cyc(s); const Fk_ x = enc<Fk_>(a), x0 = x;
    if (!trivial_elem(R, a)) s.nt(); s.say("a=" + R.str(a));
    EXPECT_ELEM(R, x.unitary_inverse(), R.inv(a), "unitary_inverse"); CHECK(x == x0, "operand changed"); EXPECT_ELEM(R, x * x.unitary_inverse(), R.one(), "a * unitary_inverse(a)");
    CHECK(x.unitary_inverse() == x.inverse(), "unitary_inverse differs from inverse");
    // conjugation of any element is the Frobenius of half the degree
    const E g = gen_elem(s, R, NQ); E c = g; for (int i = R.deg / 2; i < R.deg; i++) c[i] = ref::zmod(-c[i], R.p);
    EXPECT_ELEM(R, enc<Fk_>(g).unitary_inverse(), c, "unitary_inverse of a general element is its conjugate");
}
template<int m> void expo(Src &s)
{
    const Field &R = field_of<Fk_>(); const E a = gen_cyc(s); const Fk_ x = enc<Fk_>(a), x0 = x;
    const Z lim = Z(1) << (64 * m); Z e;
    switch (s.draw(8)) {
    case 0: e = z_of_u64(s.draw(20)); break;
    case 1: e = lim - 1 - z_of_u64(s.draw(3)); break;
    case 2: e = Z(1) << s.draw(64 * m - 1); break;
    case 3: e = (Z(1) << s.draw(64 * m)) - 1; break;
    case 4: e = MOD_R + (long)s.draw(4) - 2; break;
    case 5: { e = 0; int k = 1 + s.draw(4); while (k--) { Z t = ((Z(1) << (1 + s.draw(40))) - 1) << s.draw(64 * m - 1); e ^= t; } break; } // runs of ones: signed digits
    case 6: e = gen_limbs(s, m) >> s.draw(64 * m - 1); break;
    default: e = gen_limbs(s, m);
    }
    e = ref::zmod(e, lim);
    if (e > 2 && !trivial_elem(R, a)) s.nt(); s.say("e=" + e.get_str(16) + " a=" + R.str(a));
    const bigint<m> b = to_bigint<m>(e);
    EXPECT_ELEM(R, x.cyclotomic_exp(b), R.pow(a, e), "cyclotomic_exp(" << e.get_str(16) << ")"); CHECK(x == x0, "operand changed");
    CHECK(x.cyclotomic_exp(b) == (x ^ b), "cyclotomic_exp differs from ^");
}
void all()
{
    const std::string f = fname<Fk_>(); const int w = CYC_K == 12 ? 1 : 3;
    pbt::reg(f + "/cyclotomic-squared", 1500 * w, squaring); pbt::reg(f + "/unitary-inverse", 1500 * w, inversion);
    pbt::reg(f + "/cyclotomic-exp<1>", 400 * w, expo<1>); pbt::reg(f + "/cyclotomic-exp<r>", 160 * w, expo<limbs_of<Fr_>::value>); pbt::reg(f + "/cyclotomic-exp<q+2>", 80 * w, expo<limbs_of<Fq_>::value + 2>);
}
PBT_REGISTER(all)
}
