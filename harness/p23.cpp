// P23: the complex-double stand-in for field elements.
#include "pbt.hpp"
#include "ref.hpp"
#include <cmath>
#include <complex>
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/common/double.hpp>
#include <libff/common/utils.hpp>
using namespace libff;
using pbt::Src;
namespace {
typedef std::complex<long double> C; // the reference: more precise than double
double gen_real(Src &s)
{
    switch (s.draw(5)) {
    case 0: return 0;
    case 1: return (double)s.draw(40) - 20;
    case 2: return ((double)s.draw(2000000) - 1000000) / 1000;
    case 3: return std::ldexp((double)s.draw(1 << 20) - (1 << 19), -(int)s.draw(30));
    case 4: return s.coin() ? 1 : -1;
    default: return ((double)(s.word() >> 11) / 9007199254740992.0 - 0.5) * 200;
    }
}
Double gen(Src &s)
{
    const double re = gen_real(s); const double im = s.chance(1, 3) ? 0 : gen_real(s);
    switch (s.draw(2)) { case 0: return Double(re, im); case 1: return im == 0 ? Double(re) : Double(std::complex<double>(re, im)); default: { Double d; d.val = std::complex<double>(re, im); return d; } }
}
C c(const Double &d) { return C(d.val.real(), d.val.imag()); }
std::string str(const C &z) { std::ostringstream o; o.precision(17); o << z; return o.str(); }
// equal up to rounding relative to the size of the operands
void near(const Double &got, const C &want, long double scale, const std::string &what)
{
    const long double tol = 1e-11L * (1 + scale);
    CHECK(std::abs(c(got) - want) <= tol, what << ": got " << str(c(got)) << " want " << str(want));
}
void arithmetic(Src &s)
{
    const Double a = gen(s), b = gen(s); const C x = c(a), y = c(b); s.say(str(x) + ", " + str(y)); if (std::abs(x) != 0 && std::abs(y) != 0) s.nt();
    const long double sc = std::abs(x) + std::abs(y) + std::abs(x) * std::abs(y);
    near(a + b, x + y, sc, "a + b"); near(a - b, x - y, sc, "a - b"); near(a * b, x * y, sc, "a * b"); near(-a, -x, sc, "-a"); near(a.squared(), x * x, sc + std::norm(x), "a.squared()");
    Double t = a; t += b; near(t, x + y, sc, "a += b"); t = a; t -= b; near(t, x - y, sc, "a -= b"); t = a; t *= b; near(t, x * y, sc, "a *= b"); t = a; t += t; near(t, x + x, sc, "a += a"); t = a; t *= t; near(t, x * x, sc + std::norm(x), "a *= a");
    near(a + Double::zero(), x, 0, "a + 0"); near(a * Double::one(), x, 0, "a * 1"); near(Double(), C(0), 0, "Double()"); near(Double::one(), C(1), 0, "one"); near(Double::zero(), C(0), 0, "zero");
    near(Double::multiplicative_generator, C(2), 0, "multiplicative_generator"); near(Double::geometric_generator(), C(2), 0, "geometric_generator"); near(Double::arithmetic_generator(), C(1), 0, "arithmetic_generator");
    if (std::abs(y) > 1e-4L) { near(b.inverse(), C(1) / y, 1 / std::abs(y), "inverse"); near(b * b.inverse(), C(1), 1, "b / b"); }
}
void powers(Src &s)
{
    const Double a = gen(s); const C x = c(a); const uint64_t e = s.draw(16); if (std::abs(x) > 0 && std::pow(std::abs(x), (long double)e) > 1e15L) throw pbt::Discard();
    C w(1); long double sc = 1; for (uint64_t i = 0; i < e; i++) { w *= x; sc *= std::abs(x); }
    s.say(str(x) + " ^ " + std::to_string(e)); if (e > 1 && std::abs(x) != 0) s.nt(); s.label(e == 0 ? "exponent 0" : "exponent above 0");
    near(a ^ (size_t)e, w, sc * 100, "power"); near(a ^ bigint<1>(e), w, sc * 100, "power by a bigint"); near((a ^ (size_t)e) * a, w * x, sc * std::abs(x) * 100 + sc, "a^(e+1)");
}
// high powers of numbers on the unit circle
void rotations(Src &s)
{
    const size_t n = 1 + s.draw(s.coin() ? 4095 : 63); const size_t k = s.draw(2 * n), m = s.draw(100000); const Double w = get_root_of_unity<Double>(n); const long double t = 2 * 3.14159265358979323846264338327950288L / n;
    s.say("root of unity of order " + std::to_string(n)); if (n > 2) s.nt();
    near(w, C(std::cos(t), std::sin(t)), 1, "get_root_of_unity"); near(w ^ k, C(std::cos(t * k), std::sin(t * k)), 100 + k, "power of a root of unity"); near(w ^ n, C(1), 100 + n, "w^n"); CHECK((w ^ (n * (m % 50))) == Double::one(), "w^(mn) != 1");
    for (size_t d = 1; d < n && d < 64; d++) CHECK(n > 4095 || std::abs(c(w ^ d) - C(1)) > 1e-4L || (w ^ d) != Double::one(), "w^" << d << " is one");
    // the sum over the powers vanishes
    if (n > 1 && n <= 256) { Double sum; for (size_t i = 0; i < n; i++) sum += w ^ i; CHECK(sum == Double::zero(), "sum of the powers of the root of unity of order " << n << " is " << str(c(sum))); }
}
void comparison(Src &s)
{
    const Double a = gen(s); Double b; const int k = s.cycle(6); const double tiny = (double)s.draw(999) / 1000 * 9.9e-7, big = 1.01e-6 + (double)s.draw(1000) / 100;
    const bool equal = k < 2;
    switch (k) {
    case 0: b = Double(a.val.real() + tiny * (s.coin() ? 1 : -1), a.val.imag() + tiny * (s.coin() ? 1 : -1)); break; // within the tolerance
    case 1: b = a; break;
    case 2: b = Double(a.val.real() + big, a.val.imag()); break;
    case 3: b = Double(a.val.real() - big, a.val.imag()); break;
    case 4: b = Double(a.val.real(), a.val.imag() + (s.coin() ? big : -big)); break;
    default: b = Double(a.val.real() + (s.coin() ? big : -big), a.val.imag() + (s.coin() ? big : -big));
    }
    s.nt(); s.say(str(c(a)) + ", " + str(c(b))); CHECK((a == b) == equal && (b == a) == equal, str(c(a)) << " == " << str(c(b)) << " is " << (a == b)); CHECK((a != b) == !equal && (b != a) == !equal, str(c(a)) << " != " << str(c(b)) << " is " << (a != b));
    CHECK((a < b) == (a.val.real() < b.val.real()) && (a > b) == (a.val.real() > b.val.real()) && (b < a) == (a > b), "order of " << str(c(a)) << " and " << str(c(b)));
}
void integers(Src &s)
{
    const uint64_t n = s.coin() ? s.draw(2000) : s.word() >> (11 + s.draw(40)); const Double d((double)n); if (n > 1) s.nt(); s.say(std::to_string(n));
    CHECK(d.as_ulong() == n, "as_ulong of " << n << " is " << d.as_ulong()); CHECK(d.as_bigint() == bigint<1>(n), "as_bigint of " << n << " is " << d.as_bigint().as_ulong()); CHECK(Double((double)n, 7.0).as_ulong() == n, "as_ulong ignores the imaginary part");
    const uint64_t m = s.draw(1000); if (n < (1ull << 40)) CHECK((d * Double((double)m) + Double::one()).as_ulong() == n * m + 1, "integer arithmetic");
}
// the polymorphic algorithms
void laws(Src &s)
{
    const Double a = gen(s), b = gen(s), d = gen(s); const long double sc = (1 + std::abs(c(a))) * (1 + std::abs(c(b))) * (1 + std::abs(c(d))); s.nt(); s.say(str(c(a)) + ", " + str(c(b)) + ", " + str(c(d)));
    near((a + b) * d, c(a * d + b * d), 10 * sc, "distributivity"); near((a * b) * d, c(a * (b * d)), 10 * sc, "associativity"); near(a + (-a), C(0), sc, "a + -a"); near(a - b, c(-(b - a)), sc, "a - b and b - a");
#ifdef NDEBUG // batch_invert asserts is_zero(), which Double does not have
    std::vector<Double> v, w; for (int i = 0, n = s.draw(8); i < n; i++) { Double x = gen(s); if (std::abs(c(x)) < 1e-2L || std::abs(c(x)) > 100) x = Double(1 + i, 2); v.push_back(x); } w = v; batch_invert<Double>(w);
    CHECK(w.size() == v.size(), "batch_invert changes the length"); for (size_t i = 0; i < v.size(); i++) CHECK(std::abs(c(w[i]) * c(v[i]) - C(1)) < 1e-9L, "batch_invert: " << str(c(v[i])) << " -> " << str(c(w[i])));
#endif
}
void all()
{
    pbt::reg("arithmetic", 60000, arithmetic); pbt::reg("powers", 60000, powers); pbt::reg("roots of unity", 4000, rotations); pbt::reg("comparison", 60000, comparison); pbt::reg("integers", 60000, integers); pbt::reg("laws", 30000, laws);
}
PBT_REGISTER(all)
}
