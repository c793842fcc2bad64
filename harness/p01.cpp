// P01: prime-field arithmetic is exact and canonical (against GMP residues).
#include "curve.hpp"
using namespace lf;
namespace {

template<class F> void binop(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>();
    const uint64_t op = s.cycle(8);
    const E a = gen_elem(s, R, n), b = gen_related(s, R, n, a);
    F x = enc<F>(a), y = enc<F>(b);
    const F x0 = x, y0 = y;
    if (!trivial_elem(R, a) && !trivial_elem(R, b)) s.nt();
    static const char *names[] = {"a+b", "a-b", "a*b", "a+=b", "a-=b", "a*=b", "a==b", "mixed"};
    s.label(names[op]);
    s.say(std::string(names[op]) + " a=" + R.str(a) + " b=" + R.str(b));
    switch (op) {
    case 0: EXPECT_ELEM(R, x + y, R.add(a, b), "a+b"); break;
    case 1: EXPECT_ELEM(R, x - y, R.sub(a, b), "a-b"); break;
    case 2: EXPECT_ELEM(R, x * y, R.mul(a, b), "a*b"); break;
    case 3: { F &r = (x += y); CHECK(&r == &x, "+= does not return *this"); EXPECT_ELEM(R, x, R.add(a, b), "a+=b"); break; }
    case 4: { F &r = (x -= y); CHECK(&r == &x, "-= does not return *this"); EXPECT_ELEM(R, x, R.sub(a, b), "a-=b"); break; }
    case 5: { F &r = (x *= y); CHECK(&r == &x, "*= does not return *this"); EXPECT_ELEM(R, x, R.mul(a, b), "a*=b"); break; }
    case 6:
        CHECK((x == y) == (a == b), "== disagrees: a=" << R.str(a) << " b=" << R.str(b));
        CHECK((x != y) == (a != b), "!= disagrees: a=" << R.str(a) << " b=" << R.str(b));
        CHECK((x - y).is_zero() == (a == b), "is_zero(a-b) wrong");
        break;
    default: // one expression mixing the operations; also distributivity
        EXPECT_ELEM(R, (x + y) * (x - y), R.sub(R.sqr(a), R.sqr(b)), "(a+b)(a-b)");
        EXPECT_ELEM(R, x * (y + F::one()) - x, R.mul(a, b), "a(b+1)-a");
    }
    CHECK(y == y0, "second operand changed");
    if (op < 3 || op > 5) CHECK(x == x0, "first operand changed");
}

template<class F> void unop(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>();
    const uint64_t op = s.cycle(8);
    const E a = gen_elem(s, R, n);
    F x = enc<F>(a); const F x0 = x;
    if (!trivial_elem(R, a)) s.nt();
    static const char *names[] = {"-a", "squared", "square", "a+=a", "a-=a", "a*=a", "is_zero", "constants"};
    s.label(names[op]);
    s.say(std::string(names[op]) + " a=" + R.str(a));
    switch (op) {
    case 0: EXPECT_ELEM(R, -x, R.neg(a), "-a"); EXPECT_ELEM(R, x + (-x), R.zero(), "a+(-a)"); EXPECT_ELEM(R, -(-x), a, "-(-a)"); break;
    case 1: EXPECT_ELEM(R, x.squared(), R.sqr(a), "squared"); CHECK(x == x0, "operand changed"); break;
    case 2: { F &r = x.square(); CHECK(&r == &x, "square() does not return *this"); EXPECT_ELEM(R, x, R.sqr(a), "square"); break; }
    case 3: x += x; EXPECT_ELEM(R, x, R.add(a, a), "a+=a"); break;
    case 4: x -= x; EXPECT_ELEM(R, x, R.zero(), "a-=a"); CHECK(x.is_zero() && x == F::zero(), "a-a is not zero"); break;
    case 5: x *= x; EXPECT_ELEM(R, x, R.sqr(a), "a*=a"); break;
    case 6: CHECK(x.is_zero() == R.is_zero(a), "is_zero wrong"); x.clear(); CHECK(x.is_zero(), "clear"); break;
    default:
        EXPECT_ELEM(R, F::zero(), R.zero(), "zero()"); EXPECT_ELEM(R, F::one(), R.one(), "one()");
        EXPECT_ELEM(R, x + F::zero(), a, "a+0"); EXPECT_ELEM(R, x * F::one(), a, "a*1");
        EXPECT_ELEM(R, x * F::zero(), R.zero(), "a*0"); EXPECT_ELEM(R, F::zero() - x, R.neg(a), "0-a");
    }
}

// a random straight-line program over a register file: histories of operations
template<class F> void program(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>();
    const int K = 4, len = 4 + s.draw(28);
    E m[K]; F x[K];
    for (int i = 0; i < K; i++) { m[i] = gen_elem(s, R, n); x[i] = enc<F>(m[i]); }
    std::ostringstream os;
    for (int t = 0; t < len; t++) {
        const int d = s.draw(K - 1), a = s.draw(K - 1), b = s.draw(K - 1), op = s.draw(8);
        switch (op) {
        case 0: x[d] = x[a] + x[b]; m[d] = R.add(m[a], m[b]); break;
        case 1: x[d] = x[a] - x[b]; m[d] = R.sub(m[a], m[b]); break;
        case 2: x[d] = x[a] * x[b]; m[d] = R.mul(m[a], m[b]); break;
        case 3: x[d] += x[a]; m[d] = R.add(m[d], m[a]); break;
        case 4: x[d] -= x[a]; m[d] = R.sub(m[d], m[a]); break;
        case 5: x[d] *= x[a]; m[d] = R.mul(m[d], m[a]); break;
        case 6: x[d] = -x[a]; m[d] = R.neg(m[a]); break;
        case 7: x[d] = x[a].squared(); m[d] = R.sqr(m[a]); break;
        case 8: x[d].square(); m[d] = R.sqr(m[d]); break;
        }
        os << op << ":" << d << a << b << " ";
    }
    s.nt(); s.say("program " + os.str());
    for (int i = 0; i < K; i++) EXPECT_ELEM(R, x[i], m[i], "register " << i << " after program " << os.str());
}

template<class F> void fam(uint64_t N)
{
    const std::string f = fname<F>();
    pbt::reg(f + "/binary-op", N, binop<F>);
    pbt::reg(f + "/unary-op", N / 2, unop<F>);
    pbt::reg(f + "/program", N / 20, program<F>);
}
void all() { fam<Fr_>(60000); fam<Fq_>(60000); }
PBT_REGISTER(all)
}
