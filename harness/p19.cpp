// P19: common integer utilities.
#include "pbt.hpp"
#include "ref.hpp"
#include <climits>
#include <stdexcept>
#include <libff/common/utils.hpp>
using pbt::Src;
using ref::Z;
namespace {
// machine integers around every power of two, small, huge, uniform
uint64_t gen_n(Src &s)
{
    switch (s.draw(7)) {
    case 0: return s.draw(40);
    case 1: return 1ull << s.cycle(64);
    case 2: return (1ull << s.draw(63)) + 1 + s.draw(3);
    case 3: return (1ull << s.draw(63)) - 1 - s.draw(3);
    case 4: return ~0ull - s.draw(5);
    case 5: { const uint64_t b = s.draw(63); return s.word() >> b; }
    case 6: { uint64_t r = 0; for (int i = 0, k = 1 + (int)s.draw(3); i < k; i++) r |= 1ull << s.draw(63); return r; }
    default: return s.word();
    }
}
Z zu(uint64_t v) { Z r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &v); return r; }
Z zs(long long v) { return v < 0 ? Z(-zu(0 - (uint64_t)v)) : zu((uint64_t)v); }

void logs(Src &s)
{
    const uint64_t n = gen_n(s); s.say("n = " + std::to_string(n)); if (n > 2) s.nt();
    const size_t l = libff::log2(n); // the least l with 2^l >= n
    const Z two_l = Z(1) << l;
    CHECK(two_l >= zu(n) && (l == 0 || two_l / 2 < zu(n)), "log2(" << n << ") = " << l);
    const bool p2 = mpz_popcount(zu(n).get_mpz_t()) == 1;
    CHECK(libff::is_power_of_2(n) == p2, "is_power_of_2(" << n << ")");
    if (n <= 1ull << 63) {
        CHECK(zu(libff::round_to_next_power_of_2(n)) == two_l, "round_to_next_power_of_2(" << n << ") = " << libff::round_to_next_power_of_2(n));
        if (n) CHECK(zu(libff::get_power_of_two(n)) == two_l, "get_power_of_two(" << n << ") = " << libff::get_power_of_two(n));
    } else s.label("beyond 2^63");
    const size_t k = s.draw(63); CHECK(zu(libff::exp2(k)) == Z(1) << k, "exp2(" << k << ")");
}
void twos(Src &s)
{
    // i in [-2^(w-1), 2^(w-1))
    const size_t w = s.chance(1, 4) ? 1 + s.draw(7) : 1 + s.cycle(62);
    const Z half = Z(1) << (w - 1);
    Z i;
    switch (s.draw(4)) {
    case 0: i = (long)s.draw(8) - 4; break;
    case 1: i = half - 1 - (long)s.draw(3); break;
    case 2: i = -half + (long)s.draw(3); break;
    default: i = (int)(uint32_t)s.draw(0xffffffffull);
    }
    if (i >= half || i < -half || i < INT_MIN || i > INT_MAX) i = ref::zmod(i, half < Z(INT_MAX) ? half : Z(INT_MAX)) * (s.coin() ? -1 : 1);
    const int v = (int)i.get_si(); s.say("i = " + std::to_string(v) + ", w = " + std::to_string(w)); if (v > 1 || v < 0) s.nt();
    const Z want = i >= 0 ? i : Z(i + 2 * half);
    const size_t e = libff::to_twos_complement(v, w);
    CHECK(zu(e) == want, "to_twos_complement(" << v << ", " << w << ") = " << e);
    CHECK(libff::from_twos_complement(e, w) == v, "from_twos_complement(" << e << ", " << w << ") = " << libff::from_twos_complement(e, w) << ", want " << v);
}
void reverse(Src &s)
{
    const size_t l = s.cycle(65); const uint64_t n = s.coin() ? s.word() : gen_n(s); if (l > 1) s.nt(); s.say("n = " + std::to_string(n) + ", l = " + std::to_string(l));
    uint64_t want = 0; for (size_t k = 0; k < l; k++) if (n >> k & 1) want |= 1ull << (l - 1 - k);
    const size_t got = libff::bitreverse(n, l); CHECK(got == want, "bitreverse(" << n << ", " << l << ") = " << got << " want " << want);
    CHECK(libff::bitreverse(got, l) == (l == 64 ? n : n & ((1ull << l) - 1)), "bitreverse is not an involution for n = " << n << ", l = " << l);
}
void bits(Src &s)
{
    const size_t w = s.cycle(65); const uint64_t a = gen_n(s), b = gen_n(s), c = s.word(), d = gen_n(s); const int k = s.draw(4); s.nt();
    libff::bit_vector v; std::vector<uint64_t> in;
    switch (k) {
    case 0: v = libff::int_list_to_bits({}, w); break;
    case 1: v = libff::int_list_to_bits({a}, w); in = {a}; break;
    case 2: v = libff::int_list_to_bits({a, b}, w); in = {a, b}; break;
    case 3: v = libff::int_list_to_bits({c, a, b}, w); in = {c, a, b}; break;
    default: v = libff::int_list_to_bits({d, b, a, c, d}, w); in = {d, b, a, c, d};
    }
    s.say(std::to_string(in.size()) + " words of " + std::to_string(w) + " bits");
    CHECK(v.size() == w * in.size(), "int_list_to_bits: " << v.size() << " bits of " << in.size() << " words of size " << w);
    for (size_t i = 0; i < in.size(); i++) for (size_t j = 0; j < w; j++) CHECK(v[i * w + j] == (bool)(in[i] >> (w - 1 - j) & 1), "int_list_to_bits: word " << in[i] << " of size " << w << ", bit " << j << " from the top");
}
void ceiling(Src &s)
{
    auto num = [&]() -> long long {
        switch (s.draw(4)) {
        case 0: return (long long)s.draw(20) - 10;
        case 1: return LLONG_MAX - (long long)s.draw(3);
        case 2: return LLONG_MIN + (long long)s.draw(3);
        case 3: return (long long)gen_n(s);
        default: return (long long)s.word();
        }
    };
    long long x = num(), y = s.chance(1, 3) ? (long long)s.draw(70) : num();
    if (s.chance(1, 4) && y != 0) { // a near multiple
        const Z m = zs(y) * zs((long long)s.draw(1000) - 500) + (long)s.draw(2) - 1; if (m > zs(LLONG_MIN) && m < zs(LLONG_MAX)) x = (long long)m.get_si();
    }
    s.say("x = " + std::to_string(x) + ", y = " + std::to_string(y));
    if (y == 0) { bool t = false; try { libff::div_ceil(x, y); } catch (const std::invalid_argument &) { t = true; } CHECK(t, "div_ceil(" << x << ", 0) does not throw std::invalid_argument"); s.label("division by zero"); return; }
    if (x == LLONG_MIN && y == -1) throw pbt::Discard();
    if (x != 0 && y != 1) s.nt();
    Z want; mpz_cdiv_q(want.get_mpz_t(), zs(x).get_mpz_t(), zs(y).get_mpz_t());
    const long long got = libff::div_ceil(x, y); CHECK(zs(got) == want, "div_ceil(" << x << ", " << y << ") = " << got << " want " << want.get_str());
    s.label(x % y == 0 ? "exact" : (x < 0) == (y < 0) ? "positive quotient rounded" : "negative quotient rounded");
}
void format(Src &s)
{
    std::string p, a; for (int i = 0, n = s.draw(40); i < n; i++) p += (char)s.range(32, 126); for (int i = 0, n = s.draw(200); i < n; i++) a += (char)s.range(32, 126);
    const long v = (long)gen_n(s); const unsigned u = (unsigned)s.draw(0xffffffffull); if (!a.empty()) s.nt(); s.say("FORMAT of a string of " + std::to_string(a.size()) + " characters");
    CHECK(libff::FORMAT(p, "%s_%ld(%u)", a.c_str(), v, u) == p + a + "_" + std::to_string(v) + "(" + std::to_string(u) + ")", "FORMAT with \"%s_%ld(%u)\" of \"" << a << "\", " << v << ", " << u << " = " << libff::FORMAT(p, "%s_%ld(%u)", a.c_str(), v, u));
    CHECK(libff::FORMAT(p, "plain") == p + "plain", "FORMAT without arguments"); CHECK(libff::is_little_endian(), "is_little_endian on x86-64");
}
struct Sized { static size_t bits; static size_t size_in_bits() { return bits; } };
size_t Sized::bits;
void sized(Src &s)
{
    Sized::bits = s.draw(2000); const size_t n = s.draw(500); if (n > 1) s.nt(); s.say(std::to_string(n) + " elements of " + std::to_string(Sized::bits) + " bits");
    CHECK(libff::curve_size_in_bits(std::vector<Sized>(n)) == n * Sized::bits, "curve_size_in_bits of " << n << " elements of " << Sized::bits << " bits");
}
// exhaustive over small arguments: block k of 1024 integers, all widths
void exhaustive(Src &s)
{
    const uint64_t blk = s.cycle(64); s.nt(); s.say("all n in [" + std::to_string(1024 * blk) + ", " + std::to_string(1024 * blk + 1023) + "]");
    for (uint64_t n = 1024 * blk; n < 1024 * (blk + 1); n++) {
        size_t l = 0; while ((1ull << l) < n) l++;
        CHECK(libff::log2(n) == l, "log2(" << n << ") = " << libff::log2(n)); CHECK(libff::round_to_next_power_of_2(n) == 1ull << l, "round_to_next_power_of_2(" << n << ")");
        CHECK(n == 0 || libff::get_power_of_two(n) == 1ull << l, "get_power_of_two(" << n << ")"); CHECK(libff::is_power_of_2(n) == (n != 0 && 1ull << l == n), "is_power_of_2(" << n << ")");
        const int i = (int)n - 32768; size_t w = 1; while (!(i >= -(1l << (w - 1)) && i < (1l << (w - 1)))) w++;
        for (; w <= 20; w++) { const size_t e = libff::to_twos_complement(i, w); CHECK(e < (1ul << w) && ((long)e - i) % (1l << w) == 0, "to_twos_complement(" << i << ", " << w << ") = " << e); CHECK(libff::from_twos_complement(e, w) == i, "from_twos_complement(" << e << ", " << w << ")"); }
        for (long y = -9; y <= 9; y++) if (y) { long q = i / y; if (q * y != i && (i < 0) == (y < 0)) q++; CHECK(libff::div_ceil(i, y) == q, "div_ceil(" << i << ", " << y << ")"); }
    }
}
void all()
{
    pbt::reg("log2 and powers of two", 40000, logs); pbt::reg("two's complement", 40000, twos); pbt::reg("bitreverse", 40000, reverse);
    pbt::reg("int_list_to_bits", 20000, bits); pbt::reg("div_ceil", 60000, ceiling); pbt::reg("FORMAT", 6000, format); pbt::reg("curve_size_in_bits", 2000, sized); pbt::reg("exhaustive", 64, exhaustive);
}
PBT_REGISTER(all)
}
