// P08: binary-field arithmetic against polynomial arithmetic over GF(2).
#include "gf2.hpp"
using namespace gf2;
namespace {

template<class F> void binop(Src &s)
{
    const Ref &R = ref_of<F>();
    const uint64_t op = s.cycle(8);
    const Z a = gen(s, R.bits), b = gen_related(s, R, a);
    F x = enc<F>(a), y = enc<F>(b);
    const F x0 = x, y0 = y;
    if (a > 1 && b > 1) s.nt();
    static const char *names[] = {"a+b", "a-b", "a*b", "a+=b", "a-=b", "a*=b", "a==b", "mixed"};
    s.label(names[op]); s.say(std::string(names[op]) + " a=" + hex(a) + " b=" + hex(b));
    switch (op) {
    case 0: EXPECT_GF(F, x + y, a ^ b, "a+b"); break;
    case 1: EXPECT_GF(F, x - y, a ^ b, "a-b"); break;
    case 2: EXPECT_GF(F, x * y, R.mul(a, b), "a*b"); break;
    case 3: { F &r = (x += y); CHECK(&r == &x, "+= does not return *this"); EXPECT_GF(F, x, a ^ b, "a+=b"); break; }
    case 4: { F &r = (x -= y); CHECK(&r == &x, "-= does not return *this"); EXPECT_GF(F, x, a ^ b, "a-=b"); break; }
    case 5: { F &r = (x *= y); CHECK(&r == &x, "*= does not return *this"); EXPECT_GF(F, x, R.mul(a, b), "a*=b"); break; }
    case 6: CHECK((x == y) == (a == b) && (x != y) == (a != b), "equality wrong"); CHECK((x - y).is_zero() == (a == b), "is_zero(a-b)"); break;
    default: EXPECT_GF(F, (x + y) * (x - y), R.mul(a, a) ^ R.mul(b, b), "(a+b)(a-b)"); EXPECT_GF(F, x * (y + F::one()) - x, R.mul(a, b), "a(b+1)-a");
    }
    CHECK(y == y0, "second operand changed");
    if (op < 3 || op > 5) CHECK(x == x0, "first operand changed");
}

template<class F> void unop(Src &s)
{
    const Ref &R = ref_of<F>();
    const uint64_t op = s.cycle(9);
    const Z a = gen(s, R.bits);
    F x = enc<F>(a); const F x0 = x;
    if (a > 1) s.nt();
    static const char *names[] = {"-a", "squared", "square", "a*=a", "inverse", "invert", "sqrt", "constants", "is_zero"};
    s.label(names[op]); s.say(std::string(names[op]) + " a=" + hex(a));
    switch (op) {
    case 0: EXPECT_GF(F, -x, a, "-a"); CHECK((x + (-x)).is_zero(), "a+(-a)"); break;
    case 1: EXPECT_GF(F, x.squared(), R.mul(a, a), "squared"); CHECK(x == x0, "operand changed"); break;
    case 2: { F &r = x.square(); CHECK(&r == &x, "square does not return *this"); EXPECT_GF(F, x, R.mul(a, a), "square"); break; }
    case 3: x *= x; EXPECT_GF(F, x, R.mul(a, a), "a*=a"); x = x0; x += x; CHECK(x.is_zero(), "a+=a"); x = x0; x -= x; CHECK(x.is_zero(), "a-=a"); break;
    case 4: if (a != 0) { EXPECT_GF(F, x.inverse(), R.inv(a), "inverse"); EXPECT_GF(F, x * x.inverse(), Z(1), "a*inverse(a)"); CHECK(x == x0, "operand changed"); } break;
    case 5: if (a != 0) { F &r = x.invert(); CHECK(&r == &x, "invert does not return *this"); EXPECT_GF(F, x, R.inv(a), "invert"); } break;
    case 6: EXPECT_GF(F, x.sqrt().squared(), a, "sqrt(a)^2"); EXPECT_GF(F, x.squared().sqrt(), a, "sqrt(a^2)"); break;
    case 7: EXPECT_GF(F, F::zero(), Z(0), "zero"); EXPECT_GF(F, F::one(), Z(1), "one"); EXPECT_GF(F, F(), Z(0), "default"); EXPECT_GF(F, x * F::one(), a, "a*1"); EXPECT_GF(F, x + F::zero(), a, "a+0"); EXPECT_GF(F, x * F::zero(), Z(0), "a*0"); break;
    default: CHECK(x.is_zero() == (a == 0), "is_zero"); x.clear(); CHECK(x.is_zero() && x == F::zero(), "clear"); break;
    }
}

template<class F> void program(Src &s)
{
    const Ref &R = ref_of<F>(); const int K = 4, len = 4 + s.draw(20);
    Z m[K]; F x[K];
    for (int i = 0; i < K; i++) { m[i] = gen(s, R.bits); x[i] = enc<F>(m[i]); }
    std::ostringstream os;
    for (int t = 0; t < len; t++) {
        const int d = s.draw(K - 1), a = s.draw(K - 1), b = s.draw(K - 1), op = s.draw(6);
        switch (op) {
        case 0: x[d] = x[a] + x[b]; m[d] = m[a] ^ m[b]; break;
        case 1: x[d] = x[a] * x[b]; m[d] = R.mul(m[a], m[b]); break;
        case 2: x[d] *= x[a]; m[d] = R.mul(m[d], m[a]); break;
        case 3: x[d] -= x[a]; m[d] ^= m[a]; break;
        case 4: x[d] = x[a].squared(); m[d] = R.mul(m[a], m[a]); break;
        case 5: if (m[a] != 0) { x[d] = x[a].inverse(); m[d] = R.inv(m[a]); } break;
        case 6: x[d] += x[a]; m[d] ^= m[a]; break;
        }
        os << op << ":" << d << a << b << " ";
    }
    s.nt(); s.say("program " + os.str());
    for (int i = 0; i < K; i++) EXPECT_GF(F, x[i], m[i], "register " << i << " after " << os.str());
}

// the published modulus word is the irreducible polynomial's low part, and the
// generator has full order (the factorisations of 2^k-1 are well known)
template<class F> void generator(Src &s)
{
    const Ref &R = ref_of<F>();
    Z low = R.m ^ (Z(1) << R.bits);
    const uint64_t mod = F::modulus_;
    CHECK(lf::z_of_u64(mod) == low, "modulus_ is not the published polynomial");
    CHECK((int)F::ceil_size_in_bits() == R.bits && (int)F::floor_size_in_bits() == R.bits && (int)F::extension_degree() == R.bits, "sizes");
    CHECK(F::template field_char<1>() == bigint<1>(2ul), "characteristic");
    const char *p64[] = {"3", "5", "17", "257", "641", "65537", "6700417"};
    std::vector<Z> ps;
    for (int i = 0; i < 7; i++) if (R.bits >= 64 || (i != 4 && i != 6)) ps.push_back(Z(p64[i]));
    if (R.bits >= 128 && R.bits != 192) { ps.push_back(Z("274177")); ps.push_back(Z("67280421310721")); }
    if (R.bits == 256) { ps.push_back(Z("59649589127497217")); ps.push_back(Z("5704689200685129054721")); }
    if (R.bits == 192) { ps.clear(); for (const char *t : {"3", "5", "7", "13", "17", "97", "193", "241", "257", "641", "673", "65537", "6700417", "18446744069414584321", "22253377"}) ps.push_back(Z(t)); }
    Z N = (Z(1) << R.bits) - 1, rest = N;
    std::vector<Z> use;
    for (auto &p : ps) if (N % p == 0) { use.push_back(p); while (rest % p == 0) rest /= p; }
    const Z q = use[s.cycle(use.size())];
    s.nt(); s.say("generator^((2^" + std::to_string(R.bits) + "-1)/" + q.get_str() + ") != 1");
    const Z g = dec(F::multiplicative_generator);
    CHECK(R.pow(g, N) == 1, "generator^(order) != 1");
    CHECK(R.pow(g, N / q) != 1, "generator has order dividing (2^k-1)/" << q);
    // and the library's own exponentiation of the generator agrees
    const Z e = N / q;
    EXPECT_GF(F, F::multiplicative_generator ^ lf::to_bigint<4>(e), R.pow(g, e), "generator^e");
}

template<class F> void fam(uint64_t N)
{
    const std::string f = gname<F>();
    pbt::reg(f + "/binary-op", N, binop<F>);
    pbt::reg(f + "/unary-op", N / 2, unop<F>);
    pbt::reg(f + "/program", N / 10, program<F>);
    pbt::reg(f + "/generator", 64, generator<F>);
}
void all() { fam<gf32>(30000); fam<gf64>(30000); fam<gf128>(30000); fam<gf192>(24000); fam<gf256>(20000); }
PBT_REGISTER(all)
}
