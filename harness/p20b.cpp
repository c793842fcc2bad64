// P20: random elements of the binary fields and integers, excluded-value samplers, Double.
#include "gf2.hpp"
#include "rnd.hpp"
#include <libff/common/double.hpp>
#include <libff/common/utils.hpp>
using namespace gf2;
namespace {
template<class F> F draw_gf(int how) { if (how == 0) return F::random_element(); F x = F::one(); x.randomize(); return x; }
template<class F> void history(Src &s)
{
    const Ref &R = ref_of<F>(); const int N = 1500, how = s.draw(1); rnd::script({}, s.word()); s.nt(); s.say(std::to_string(N) + " draws of " + gname<F>());
    std::vector<Z> v; std::set<Z> seen;
    for (int i = 0; i < N; i++) { const Z z = dec(draw_gf<F>(how)); CHECK(seen.insert(z).second || R.bits == 32, "a value is repeated in " << N << " draws"); v.push_back(z); }
    CHECK(seen.size() + 3 >= (size_t)N, "repetitions in " << N << " draws"); rnd::uniform(v, Z(1) << R.bits, gname<F>());
    // words of one element are unrelated
    for (int k = 32; k < R.bits; k += 32) { std::vector<Z> d; for (const Z &z : v) d.push_back(Z((z >> k) ^ z) & 0xffffffffu); rnd::uniform(d, Z(1) << 32, "difference of words"); }
    rnd::reset();
}
template<class F> void influence(Src &s)
{
    const Ref &R = ref_of<F>(); const int words = R.bits / 32, i = s.cycle(words); s.nt(); s.say(std::string(gname<F>()) + ", word " + std::to_string(i));
    for (int k = 0; k < 8; k++) {
        std::vector<uint32_t> h; for (int j = 0; j < words; j++) h.push_back((uint32_t)s.word());
        const uint64_t seed = s.word(); rnd::script(h, seed); const F a = F::random_element(); h[i] ^= 1u << s.draw(31); rnd::script(h, seed); const F b = F::random_element();
        if (a != b) { rnd::reset(); return; }
    }
    throw pbt::Fail{std::string(gname<F>()) + "::random_element does not depend on word " + std::to_string(i) + " of the source"};
}
template<int n> void big(Src &s)
{
    const int N = 1500; rnd::script({}, s.word()); s.nt(); s.say(std::to_string(N) + " random integers of " + std::to_string(n) + " limbs"); std::vector<Z> v; std::set<Z> seen;
    for (int i = 0; i < N; i++) { bigint<n> b; b.randomize(); const Z z = lf::to_z(b); CHECK(seen.insert(z).second, "repetition"); v.push_back(z); }
    rnd::uniform(v, Z(1) << (64 * n), "bigint"); rnd::reset();
}
// a type whose random elements are scripted
struct Mock {
    int v; static std::vector<int> *script; static size_t pos, total; static int id, unit;
    static Mock random_element() { ++total; if (total > 100000) throw pbt::Fail{"the sampler does not terminate"}; if (pos < script->size()) return Mock{(*script)[pos++]}; return Mock{(int)(total % 7)}; }
    static Mock one() { return Mock{unit}; } static Mock zero() { return Mock{id}; }
    bool is_zero() const { return v == id; } bool operator==(const Mock &o) const { return v == o.v; } bool operator!=(const Mock &o) const { return v != o.v; }
};
std::vector<int> *Mock::script; size_t Mock::pos, Mock::total; int Mock::id, Mock::unit;
void samplers(Src &s)
{
    std::vector<int> sc; Mock::id = s.draw(4); Mock::unit = (Mock::id + 1 + s.draw(3)) % 5; const int ex = s.draw(6);
    for (int i = 0, n = s.draw(12); i < n; i++) sc.push_back(s.coin() ? (s.coin() ? Mock::id : Mock::unit) : s.coin() ? ex : (int)s.draw(6));
    Mock::script = &sc; Mock::pos = Mock::total = 0; const int kind = s.cycle(3); if (!sc.empty()) s.nt(); std::string t; for (int v : sc) t += std::to_string(v) + " "; s.say("source " + t + ", zero " + std::to_string(Mock::id) + ", one " + std::to_string(Mock::unit) + ", excluded " + std::to_string(ex));
    Mock r;
    switch (kind) {
    case 0: r = random_element_non_zero_one<Mock>(); CHECK(r.v != Mock::id && r.v != Mock::unit, "random_element_non_zero_one returns " << r.v); break;
    case 1: r = random_element_non_zero<Mock>(); CHECK(r.v != Mock::id, "random_element_non_zero returns zero"); break;
    default: r = random_element_exclude<Mock>(Mock{ex}); CHECK(r.v != ex, "random_element_exclude returns the excluded value");
    }
    CHECK(r.v >= 0 && r.v < 7, "the sampler returns a value that the source did not");
}
// every permitted value is returned, about equally often
void coverage(Src &s)
{
    Mock::id = s.draw(4); Mock::unit = (Mock::id + 1 + s.draw(3)) % 5; const int ex = s.draw(4), kind = s.cycle(3); s.nt(); s.say("3000 draws out of 5 values");
    std::vector<int> sc; uint64_t st = s.word(); for (int i = 0; i < 12000; i++) { st = pbt::mix64(st); sc.push_back((st >> 20) % 5); } Mock::script = &sc; Mock::pos = Mock::total = 0; int cnt[7] = {};
    for (int i = 0; i < 3000; i++) ++cnt[(kind == 0 ? random_element_non_zero_one<Mock>() : kind == 1 ? random_element_non_zero<Mock>() : random_element_exclude<Mock>(Mock{ex})).v];
    int allowed = 0; auto ok = [&](int v) { return kind == 0 ? v != Mock::id && v != Mock::unit : kind == 1 ? v != Mock::id : v != ex; }; for (int v = 0; v < 5; v++) allowed += ok(v);
    for (int v = 0; v < 5; v++) { const double q = ok(v) ? 1.0 / allowed : 0; CHECK(std::fabs(cnt[v] - 3000 * q) <= 9 * std::sqrt(3000 * q * (1 - q)), "value " << v << " in " << cnt[v] << " of 3000 draws, expected " << 3000 * q); }
}
template<class F> void real(Src &s)
{
    rnd::script({0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0}, s.word()); const Z e = gen(s, ref_of<F>().bits); s.nt(); s.say("excluded " + hex(e)); std::vector<uint32_t> h; for (int i = 0; i < ref_of<F>().bits; i += 32) h.push_back((uint32_t)Z(e >> i).get_ui());
    F x = random_element_non_zero<F>(); CHECK(dec(x) != 0, "zero"); rnd::script({0, 0, 0, 0, 0, 0, 0, 0}, s.word()); x = random_element_non_zero_one<F>(); CHECK(dec(x) > 1, "zero or one"); rnd::script(h, s.word()); x = random_element_exclude<F>(enc<F>(e)); CHECK(dec(x) != e, "excluded value"); rnd::reset();
}
void dbl(Src &s)
{
    srand((unsigned)s.word()); s.nt(); s.say("2000 draws of Double"); double sum = 0; std::set<double> seen;
    for (int i = 0; i < 2000; i++) { const Double d = Double::random_element(); const double r = d.val.real(); CHECK(d.val.imag() == 0 && r >= 0 && r <= 1000 && r == std::floor(r), "Double::random_element " << r); sum += r; seen.insert(r); }
    CHECK(std::fabs(sum / 2000 - 500) < 9 * 289 / std::sqrt(2000) && seen.size() > 700, "2000 draws have the mean " << sum / 2000 << " and " << seen.size() << " values");
}
template<class F> void field() { const std::string f = gname<F>(); pbt::reg(f + "/history", 24, history<F>); pbt::reg(f + "/influence", 64, influence<F>); pbt::reg(f + "/samplers", 300, real<F>); }
void all()
{
    field<gf32>(); field<gf64>(); field<gf128>(); field<gf192>(); field<gf256>();
    pbt::reg("bigint<1>/randomize", 24, big<1>); pbt::reg("bigint<3>/randomize", 24, big<3>); pbt::reg("bigint<5>/randomize", 24, big<5>);
    pbt::reg("samplers", 20000, samplers); pbt::reg("sampler coverage", 60, coverage); pbt::reg("Double/random_element", 60, dbl);
}
PBT_REGISTER(all)
}
