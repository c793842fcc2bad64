// P24: edge uses of binary fields, big integers, utilities, the profiler and
// the floating-point stand-in.
#include "gf2.hpp"
#include "capture.hpp"
#include "place.hpp"
#include <libff/common/double.hpp>
#include <libff/common/profiling.hpp>
#include <libff/common/rng.hpp>
#include <libff/common/utils.hpp>
using namespace gf2;
namespace {
template<class F> void binary(Src &s)
{
    const Ref &R = ref_of<F>(); const Z a = gen(s, R.bits), b = gen_related(s, R, a); const F x = enc<F>(a), y = enc<F>(b); s.nt();
    switch (s.cycle(7)) {
    case 0: { s.say("print"); Capture c; x.print(); std::cout << x << y; std::cout.flush(); break; }
    case 1: { s.say("words"); F z; z.from_words(x.to_words()); CHECK(z == x, "words"); break; }
    case 2: { s.say("stream"); std::stringstream st; st << x << OUTPUT_NEWLINE << y; F z, w; st >> z; libff::consume_OUTPUT_NEWLINE(st); st >> w; CHECK(z == x && w == y, "stream"); break; }
    case 3: { s.say("aliasing"); F z = x; z += z; CHECK(z.is_zero(), "x + x"); z = x; z *= z; z = z; z -= z; z = x; z.square(); if (a != 0) { z.invert(); CHECK(z * x * x == F::one(), "inverse"); } break; }
    case 4: { s.say("powers"); F z = x ^ (unsigned long)lf::gen_limb(s); z ^= lf::to_bigint<3>(lf::gen_limbs(s, 3)); z ^= 0ul; CHECK(z == F::one(), "power 0"); break; }
    case 5: { s.say("random and sizes"); F z; z.randomize(); z = F::random_element(); z.clear(); F::ceil_size_in_bits(); F::floor_size_in_bits(); F::extension_degree(); F::template field_char<1>(); break; }
    default: { s.say("square root"); CHECK(x.sqrt().squared() == x && x.squared().sqrt() == x, "square root"); }
    }
}
template<mp_size_t n> void ints(Src &s)
{
    const Z a = lf::gen_limbs(s, n), b = lf::gen_limbs(s, n); const libff::bigint<n> x = lf::to_bigint<n>(a), y = lf::to_bigint<n>(b); s.nt();
    switch (s.cycle(6)) {
    case 0: { s.say("print"); Capture c; x.print(); x.print_hex(); libff::bigint<n>().print(); break; }
    case 1: { s.say("mpz"); mpz_t r; mpz_init(r); x.to_mpz(r); const libff::bigint<n> z(r); mpz_clear(r); CHECK(z == x, "mpz"); break; }
    case 2: { s.say("decimal"); const libff::bigint<n> z(("000" + a.get_str()).c_str()); CHECK(z == x, "decimal"); break; }
    case 3: { s.say("bits"); for (int i = 0; i < 8; i++) x.test_bit(s.draw(64 * n - 1)); x.test_bit(64 * n); x.test_bit(64 * n + s.draw(100)); x.num_bits(); x.max_bits(); x.is_even(); x.is_zero(); x.as_ulong(); break; }
    case 4: { s.say("random"); libff::bigint<n> z; z.randomize(); z.clear(); CHECK(z.is_zero() && z.num_bits() == 0, "clear"); CHECK(libff::bigint<n>::one().num_bits() == 1, "one"); break; }
    default: { s.say("comparison"); CHECK((x < y) == (a < b) && !(x < x) && (x == y) == (a == b), "comparison"); }
    }
}
void utilities(Src &s)
{
    const uint64_t n = lf::gen_limb(s); s.nt();
    switch (s.cycle(7)) {
    case 0: libff::log2(n); libff::is_power_of_2(n); if (n <= (1ull << 63) && n) libff::round_to_next_power_of_2(n); if (n <= (1ull << 63)) libff::get_power_of_two(n); s.say("powers of two of " + std::to_string(n)); break;
    case 1: { const size_t w = 1 + s.draw(31); const int i = (int)((long)(s.word() % (1ull << w)) - (1l << (w - 1))); s.say("two's complement"); CHECK(libff::from_twos_complement(libff::to_twos_complement(i, w), w) == i, "two's complement of " << i << " with " << w << " bits"); break; }
    case 2: libff::bitreverse(n, s.draw(64)); s.say("bitreverse"); break;
    case 3: libff::int_list_to_bits({n, s.word()}, s.draw(64)); s.say("int_list_to_bits"); break;
    case 4: { const long long x = (long long)n, y = (long long)lf::gen_limb(s); s.say("div_ceil"); try { if (!(x == LLONG_MIN && y == -1)) libff::div_ceil(x, y); } catch (const std::invalid_argument &) { CHECK(y == 0, "div_ceil"); } break; }
    case 5: { const std::string t = std::string(s.draw(300), 'x') + (s.coin() ? "%s%n%d" : ""), a(s.coin() ? s.draw(200) : 240 + s.draw(1000), 'y'), full = t + a + " 7"; s.say("FORMAT of " + std::to_string(a.size()) + " characters"); const std::string r = libff::FORMAT(t, "%s %d", a.c_str(), 7); CHECK(r.size() >= t.size() && full.compare(0, r.size(), r) == 0, "FORMAT gave \"" << r << "\""); libff::FORMAT("", ""); break; }
    default: { s.say("print_vector"); Capture c; libff::print_vector<long>(std::vector<long>(s.draw(4), 3)); break; }
    }
}
void profiler(Src &s)
{
    Capture c; libff::inhibit_profiling_info = libff::inhibit_profiling_counters = false; libff::start_profiling(); std::vector<std::string> open; s.nt(); s.say("profiler calls"); static uint64_t serial;
    const int len = s.draw(25);
    for (int i = 0; i < len; i++) switch (s.draw(8)) {
    case 0: case 1: { std::string n = std::string(s.draw(s.chance(1, 4) ? 400 : 60), 'n') + (s.coin() ? "%s%n " : "") + std::to_string(serial++ % 64); bool dup = false; for (auto &o : open) dup |= o == n; if (dup) break; libff::enter_block(n, true); open.push_back(n); break; }
    case 2: if (!open.empty()) { libff::leave_block(open.back(), true); open.pop_back(); } break;
    case 3: libff::print_mem(s.coin() ? "" : "x%s%n"); break;
    case 4: libff::print_cumulative_times(1 + s.draw(9)); libff::print_cumulative_op_counts(s.coin()); break;
    case 5: libff::print_compilation_info(); libff::print_header("h%s%n"); libff::print_separator(); libff::print_indent(); break;
    case 6: libff::print_time("t%s%n"); libff::get_nsec_time(); break;
    case 7: if (open.empty()) libff::clear_profiling_counters(); break;
    default: try { libff::print_cumulative_time_entry("missing " + std::to_string(s.draw(3)), 1 + s.draw(3)); } catch (const std::out_of_range &) { }
    }
    while (!open.empty()) { libff::leave_block(open.back(), true); open.pop_back(); }
    libff::inhibit_profiling_info = libff::inhibit_profiling_counters = true;
}
void doubles(Src &s)
{
    auto num = [&] { return ((double)s.draw(2000000) - 1000000) / 1024; }; const libff::Double a(num(), num()), b(num(), num()); s.nt(); s.say("Double");
    libff::Double c = a + b; c += a; c = a * b; c *= c; c = a - b; c -= a; c = -c; c = a.squared(); if (!(a == libff::Double(0.0, 0.0))) c = a.inverse(); (void)(a == b); (void)(a != b); (void)(a < b); c = libff::Double((double)s.draw(99)) ^ (unsigned long)s.draw(5); libff::get_root_of_unity<libff::Double>(1 + s.draw(40)); const libff::Double n((double)s.draw(1000000)); n.as_ulong(); n.as_bigint(); libff::Double::random_element();
}
template<class F> void place(Src &s)
{
    const Ref &R = ref_of<F>(); const Z a = gen(s, R.bits), b = gen_related(s, R, a); s.nt(); placed_field<F>(s, enc<F>(a), enc<F>(b));
}
void all()
{
    pbt::reg("gf32/place", 320, place<libff::gf32>); pbt::reg("gf64/place", 320, place<libff::gf64>); pbt::reg("gf128/place", 320, place<libff::gf128>); pbt::reg("gf192/place", 320, place<libff::gf192>); pbt::reg("gf256/place", 320, place<libff::gf256>);
    pbt::reg("gf32/edges", 1400, binary<libff::gf32>); pbt::reg("gf64/edges", 1400, binary<libff::gf64>); pbt::reg("gf128/edges", 1400, binary<libff::gf128>); pbt::reg("gf192/edges", 1400, binary<libff::gf192>); pbt::reg("gf256/edges", 1400, binary<libff::gf256>);
    pbt::reg("bigint-1/edges", 1200, ints<1>); pbt::reg("bigint-5/edges", 1200, ints<5>); pbt::reg("bigint-12/edges", 1200, ints<12>); pbt::reg("utilities/edges", 7000, utilities); pbt::reg("profiler/edges", 400, profiler); pbt::reg("Double/edges", 3000, doubles);
}
PBT_REGISTER(all)
}
