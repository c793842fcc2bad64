// P04: extension-field arithmetic against schoolbook arithmetic in the tower.
#include "curve.hpp"
using namespace lf;
namespace {

// x -> x^(p^k), computed through the images of the basis (linear over Fp)
struct Frob {
    const Field &R; std::vector<std::vector<E>> img; // img[k][i] = basis_i^(p^k)
    explicit Frob(const Field &r) : R(r)
    {
        std::vector<E> cur(R.deg);
        for (int i = 0; i < R.deg; i++) { cur[i] = R.zero(); cur[i][i] = 1; }
        for (int k = 0; k < R.deg; k++) { img.push_back(cur); if (k == 0) { for (auto &e : cur) e = R.pow(e, R.p); first = cur; } else { std::vector<E> nx; for (auto &e : cur) nx.push_back(lin(first, e)); cur = nx; } }
    }
    std::vector<E> first;
    E lin(const std::vector<E> &m, const E &a) const { E r = R.zero(); for (int i = 0; i < R.deg; i++) r = R.add(r, R.scale(a[i], m[i])); return r; }
    E map(const E &a, unsigned long k) const { return lin(img[k % R.deg], a); }
};

template<class F> void binop(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>();
    const uint64_t op = s.cycle(9);
    const E a = gen_elem(s, R, n), b = gen_related(s, R, n, a);
    F x = enc<F>(a), y = enc<F>(b); const F x0 = x, y0 = y;
    if (!trivial_elem(R, a) && !trivial_elem(R, b)) s.nt();
    static const char *names[] = {"a+b", "a-b", "a*b", "a+=b", "a-=b", "a*=b", "compare", "(a+b)(a-b)", "aliased"};
    s.label(names[op]); s.say(std::string(names[op]) + " a=" + R.str(a) + " b=" + R.str(b));
    switch (op) {
    case 0: EXPECT_ELEM(R, x + y, R.add(a, b), "a+b"); break;
    case 1: EXPECT_ELEM(R, x - y, R.sub(a, b), "a-b"); break;
    case 2: EXPECT_ELEM(R, x * y, R.mul(a, b), "a*b"); break;
    case 3: { F &r = (x += y); CHECK(&r == &x, "+= result"); EXPECT_ELEM(R, x, R.add(a, b), "a+=b"); break; }
    case 4: { F &r = (x -= y); CHECK(&r == &x, "-= result"); EXPECT_ELEM(R, x, R.sub(a, b), "a-=b"); break; }
    case 5: { F &r = (x *= y); CHECK(&r == &x, "*= result"); EXPECT_ELEM(R, x, R.mul(a, b), "a*=b"); break; }
    case 6: { // differ in a single coefficient
        E c = a; const int i = s.draw(R.deg - 1); c[i] = s.coin() ? c[i] : gen_mod(s, R.p, n); const F z = enc<F>(c);
        CHECK((x == z) == (a == c) && (x != z) == (a != c), "equality with coefficient " << i << " replaced"); CHECK((x == y) == (a == b) && (x != y) == (a != b), "equality");
        CHECK(x.is_zero() == R.is_zero(a) && (x - z).is_zero() == (a == c), "is_zero"); break; }
    case 7: EXPECT_ELEM(R, (x + y) * (x - y), R.sub(R.sqr(a), R.sqr(b)), "(a+b)(a-b)"); break;
    default: { F t = x; t += t; EXPECT_ELEM(R, t, R.add(a, a), "a+=a"); t = x; t -= t; EXPECT_ELEM(R, t, R.zero(), "a-=a"); t = x; t *= t; EXPECT_ELEM(R, t, R.sqr(a), "a*=a"); t = x; t = t * y + t; EXPECT_ELEM(R, t, R.add(R.mul(a, b), a), "a=a*b+a"); }
    }
    CHECK(y == y0, "second operand changed"); if (op < 3 || op > 5) CHECK(x == x0, "first operand changed");
}

template<class F> auto kara(const F &x, int) -> decltype(x.squared_karatsuba()) { return x.squared_karatsuba(); }
template<class F> F kara(const F &x, long) { return x.squared(); }
template<class F> auto cplx(const F &x, int) -> decltype(x.squared_complex()) { return x.squared_complex(); }
template<class F> F cplx(const F &x, long) { return x.squared(); }

template<class F> void unop(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>();
    const uint64_t op = s.cycle(9);
    const E a = gen_elem(s, R, n); F x = enc<F>(a); const F x0 = x;
    if (!trivial_elem(R, a)) s.nt();
    static const char *names[] = {"-a", "squared", "square", "squared_karatsuba", "squared_complex", "inverse", "constants", "multiples by addition", "norm to base"};
    s.label(names[op]); s.say(std::string(names[op]) + " a=" + R.str(a));
    switch (op) {
    case 0: EXPECT_ELEM(R, -x, R.neg(a), "-a"); EXPECT_ELEM(R, x + (-x), R.zero(), "a+(-a)"); break;
    case 1: EXPECT_ELEM(R, x.squared(), R.sqr(a), "squared"); break;
    case 2: { F t = x; F &r = t.square(); CHECK(&r == &t, "square() result"); EXPECT_ELEM(R, t, R.sqr(a), "square"); break; }
    case 3: EXPECT_ELEM(R, kara(x, 0), R.sqr(a), "squared_karatsuba"); break;
    case 4: EXPECT_ELEM(R, cplx(x, 0), R.sqr(a), "squared_complex"); break;
    case 5: if (!R.is_zero(a)) { EXPECT_ELEM(R, x.inverse(), R.inv(a), "inverse"); F t = x; t.invert(); EXPECT_ELEM(R, t, R.inv(a), "invert"); } break;
    case 6: { EXPECT_ELEM(R, F::zero(), R.zero(), "zero"); EXPECT_ELEM(R, F::one(), R.one(), "one"); EXPECT_ELEM(R, F(), R.zero(), "default"); EXPECT_ELEM(R, x * F::one(), a, "a*1"); EXPECT_ELEM(R, x * F::zero(), R.zero(), "a*0"); F t = x; t.clear(); EXPECT_ELEM(R, t, R.zero(), "clear"); break; }
    case 7: { F t = F::zero(); E w = R.zero(); const int k = s.draw(9); for (int i = 0; i < k; i++) { t = t + x; w = R.add(w, a); } EXPECT_ELEM(R, t, w, k << "*a"); EXPECT_ELEM(R, x + x + x - x, R.add(a, a), "a+a+a-a"); break; }
    default: EXPECT_ELEM(R, (x * x) * x, R.mul(R.sqr(a), a), "a^3 left"); EXPECT_ELEM(R, x * (x * x), R.mul(a, R.sqr(a)), "a^3 right");
    }
    CHECK(x == x0, "operand changed");
}

template<class F> void frobenius(Src &s)
{
    const Field &R = field_of<F>(); static const Frob fr(R);
    uint64_t k = s.cycle(2 * R.deg + 6);
    const uint64_t special[] = {~0ull, ~0ull - 1, 1ull << 32, 1ull << 63, (1ull << 32) - 1, 12345678901ull};
    if (k >= 2u * R.deg) k = special[k - 2 * R.deg];
    const E a = gen_elem(s, R, limbs<F>()); const F x = enc<F>(a), x0 = x;
    if (!trivial_elem(R, a) && k % R.deg) s.nt();
    s.label("power mod degree " + std::to_string(k % R.deg)); s.say("p^" + std::to_string(k) + " of " + R.str(a));
    EXPECT_ELEM(R, x.Frobenius_map(k), fr.map(a, k), "Frobenius_map(" << k << ")");
    CHECK(x == x0, "operand changed");
    if (s.chance(1, 200)) CHECK(fr.map(a, 1) == R.pow(a, R.p), "reference Frobenius wrong");
}

// ---- products with sparse elements and elements of subfields
E embed_mul(const Field &R, const E &c, const E &a) { return R.mul(R.embed(c), a); }
#define SCALAR(SUB, what) do { const Field &B = field_of<SUB>(); const E c = gen_elem(s, B, n); s.say(std::string(what) + " c=" + B.str(c)); s.label(what); EXPECT_ELEM(R, enc<SUB>(c) * x, embed_mul(R, c, a), what); } while (0)

template<class F> void nonres(Src &s) // multiplication by the tower's non-residue
{
    const Field &R = field_of<F>(), &B = *R.base; typedef decltype(F().c0) Base; const int n = limbs<F>();
    const E c = gen_elem(s, B, n); if (!trivial_elem(B, c)) s.nt();
    s.say("non-residue times " + B.str(c));
    const Base x = enc<Base>(c), x0 = x;
    EXPECT_ELEM(B, F::mul_by_non_residue(x), B.mul(R.nr, c), "mul_by_non_residue"); CHECK(x == x0, "operand changed");
}

template<class F> void scalar_e(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>(); const E a = gen_elem(s, R, n); const F x = enc<F>(a), x0 = x;
    if (!trivial_elem(R, a)) s.nt(); s.say(R.str(a)); SCALAR(Fq_, "Fq * a"); CHECK(x == x0, "operand changed");
}
#ifdef HAS_FM
void scalar_m(Src &s)
{
    const Field &R = field_of<Fm_>(); const int n = NQ; const E a = gen_elem(s, R, n); const Fm_ x = enc<Fm_>(a), x0 = x;
    if (!trivial_elem(R, a)) s.nt(); s.say(R.str(a)); if (s.cycle(2)) SCALAR(Fq_, "Fq * a"); else SCALAR(Fe_, "Fq2 * a"); CHECK(x == x0, "operand changed");
}
void sparse_k(Src &s)
{
    const Field &R = field_of<Fk_>(), &Q2 = field_of<Fe_>(); const int n = NQ; const E a = gen_elem(s, R, n); const Fk_ x = enc<Fk_>(a), x0 = x;
    if (!trivial_elem(R, a)) s.nt(); s.say(R.str(a));
    switch (s.cycle(5)) {
    case 0: SCALAR(Fq_, "Fq * a"); break;
    case 1: SCALAR(Fe_, "Fq2 * a"); break;
    case 2: SCALAR(Fm_, "Fq6 * a"); break;
    default: {
        const bool is045 = s.coin();
        const E l0 = gen_elem(s, Q2, n), lvw = gen_elem(s, Q2, n), lvv = gen_elem(s, Q2, n);
        auto at = [&](E &e, int k, const E &v) { e[2 * k] = v[0]; e[2 * k + 1] = v[1]; };
        E o = R.zero(); s.label(is045 ? "mul_by_045" : "mul_by_024"); s.say("lines " + Q2.str(l0) + Q2.str(lvw) + Q2.str(lvv));
        if (is045) { at(o, 0, lvw); at(o, 4, l0); at(o, 5, lvv); EXPECT_ELEM(R, x.mul_by_045(enc<Fe_>(l0), enc<Fe_>(lvw), enc<Fe_>(lvv)), R.mul(a, o), "mul_by_045"); }
        else { at(o, 0, l0); at(o, 2, lvv); at(o, 4, lvw); EXPECT_ELEM(R, x.mul_by_024(enc<Fe_>(l0), enc<Fe_>(lvw), enc<Fe_>(lvv)), R.mul(a, o), "mul_by_024"); } }
    }
    CHECK(x == x0, "operand changed");
}
#else
void sparse_k(Src &s)
{
    const Field &R = field_of<Fk_>(); const int n = NQ; const E a = gen_elem(s, R, n); const Fk_ x = enc<Fk_>(a), x0 = x;
    if (!trivial_elem(R, a)) s.nt(); s.say(R.str(a));
    if (s.cycle(3) == 0) { SCALAR(Fq_, "Fq * a"); return; }
    E o = gen_elem(s, R, n);
#if CRV == 4 || CRV == 6 || CRV == 10
    if (s.coin()) { SCALAR(Fe_, "Fq2 * a"); return; }
    o[1] = 0; s.label("mul_by_023"); s.say("o=" + R.str(o)); const Fk_ y = enc<Fk_>(o), y0 = y;
    EXPECT_ELEM(R, x.mul_by_023(y), R.mul(a, o), "mul_by_023");
#else
    o[0] = 0; o[1] = 0; s.label("mul_by_2345"); s.say("o=" + R.str(o)); const Fk_ y = enc<Fk_>(o), y0 = y;
    EXPECT_ELEM(R, x.mul_by_2345(y), R.mul(a, o), "mul_by_2345");
#endif
    CHECK(x == x0 && y == y0, "operand changed");
}
#endif

template<class F> void program(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>(), K = 4, len = 3 + s.draw(R.deg > 4 ? 7 : 15);
    E m[K]; F x[K]; static const Frob fr(R);
    for (int i = 0; i < K; i++) { m[i] = gen_elem(s, R, n); x[i] = enc<F>(m[i]); }
    std::ostringstream os;
    for (int t = 0; t < len; t++) {
        const int d = s.draw(K - 1), a = s.draw(K - 1), b = s.draw(K - 1), op = s.draw(9);
        switch (op) {
        case 0: x[d] = x[a] + x[b]; m[d] = R.add(m[a], m[b]); break;
        case 1: x[d] = x[a] - x[b]; m[d] = R.sub(m[a], m[b]); break;
        case 2: x[d] = x[a] * x[b]; m[d] = R.mul(m[a], m[b]); break;
        case 3: x[d] *= x[a]; m[d] = R.mul(m[d], m[a]); break;
        case 4: x[d] = x[a].squared(); m[d] = R.sqr(m[a]); break;
        case 5: if (!R.is_zero(m[a])) { x[d] = x[a].inverse(); m[d] = R.inv(m[a]); } break;
        case 6: x[d] += x[a]; m[d] = R.add(m[d], m[a]); break;
        case 7: x[d] -= x[a]; m[d] = R.sub(m[d], m[a]); break;
        case 8: x[d] = -x[a]; m[d] = R.neg(m[a]); break;
        case 9: x[d] = x[a].Frobenius_map(b + 1); m[d] = fr.map(m[a], b + 1); break;
        }
        os << op << ":" << d << a << b << " ";
    }
    s.nt(); s.say("program " + os.str());
    for (int i = 0; i < K; i++) EXPECT_ELEM(R, x[i], m[i], "register " << i << " after " << os.str());
}

template<class F> void fam(uint64_t N)
{
    const std::string f = fname<F>();
    pbt::reg(f + "/binary-op", N, binop<F>); pbt::reg(f + "/unary-op", N, unop<F>); pbt::reg(f + "/frobenius", N / 2, frobenius<F>); pbt::reg(f + "/program", N / 8, program<F>);
}
void all()
{
    fam<Fe_>(16000);
    pbt::reg(std::string(fname<Fe_>()) + "/scalar", 4000, scalar_e<Fe_>);
#ifdef HAS_FM
    fam<Fm_>(4000);
    pbt::reg(std::string(fname<Fm_>()) + "/scalar", 2000, scalar_m);
    pbt::reg(std::string(fname<Fm_>()) + "/non-residue", 2000, nonres<Fm_>);
    fam<Fk_>(2400);
    pbt::reg(std::string(fname<Fk_>()) + "/sparse", 3000, sparse_k);
#else
    fam<Fk_>(6000);
    pbt::reg(std::string(fname<Fk_>()) + "/sparse", 6000, sparse_k);
#endif
    pbt::reg(std::string(fname<Fk_>()) + "/non-residue", 2000, nonres<Fk_>);
}
PBT_REGISTER(all)
}
