// P16: serialization of numbers, field elements and containers.
#include "serial.hpp"
using namespace lf;
namespace {
void sequence(Src &s)
{
    const int n = 1 + s.draw(s.chance(1, 3) ? 11 : 2); std::vector<Item> v; for (int i = 0; i < n; i++) v.push_back(field_or_container(s));
    s.nt(); s.label(n == 1 ? "single object" : "sequence"); run_items(s, v);
}
// equal values, however computed, have the same bytes; reserialize is the identity
template<class F> void bytes(Src &s)
{
    const Field &R = field_of<F>(); const E a = dec(gen_ser<F>(s)), b = dec(gen_ser<F>(s)); if (!trivial_elem(R, a)) s.nt(); s.say(R.str(a));
    const F x = enc<F>(a), y = enc<F>(b); const std::string w = bytes_of(x);
    CHECK(bytes_of((x + y) - y) == w, "bytes of (a + b) - b differ from those of a = " << R.str(a)); if (!R.is_zero(b)) CHECK(bytes_of(x * y * y.inverse()) == w, "bytes of a b b^-1 differ from those of a = " << R.str(a));
    CHECK((x == y) == (w == bytes_of(y)), "different elements with the same bytes"); EXPECT_ELEM(R, reserialize(x), a, "reserialize");
    const std::vector<F> v = {x, y, x}; CHECK(reserialize(v) == v, "reserialize of a vector");
    // the last object of a stream, without anything after it
    std::istringstream in(w); F t = y; in >> t; CHECK(!in.fail(), "reading the last object of a stream failed"); EXPECT_ELEM(R, t, a, "the last object of a stream");
#if defined(BINARY_OUTPUT)
    CHECK(w.size() == (size_t)R.deg * limbs<F>() * 8, "binary size of an element");
#elif !defined(MONTGOMERY_OUTPUT)
    // decimal output of the canonical values
    std::istringstream dec_in(w); for (int i = 0; i < R.deg; i++) { std::string tok; dec_in >> tok; CHECK(tok == a[i].get_str(), "decimal output of " << R.str(a) << " is " << w); }
#endif
}
void bignum(Src &s)
{
    const bigint<NQ> b = gen_big<NQ>(s); const Z z = to_z(b); if (z > 1) s.nt(); s.say(z.get_str(16)); std::istringstream in(bytes_of(b)); bigint<NQ> c; in >> c; CHECK(!in.fail() && c == b, "last bigint of a stream");
#ifndef BINARY_OUTPUT
    CHECK(bytes_of(b) == z.get_str(), "decimal output of the bigint " << z.get_str());
#endif
}
// long vectors
template<class F> void longvec(Src &s)
{
    std::vector<F> v(pbt::long_len(s, 600)); F x = gen_ser<F>(s); const F d = gen_ser<F>(s); for (auto &y : v) { y = x; x = x.squared() + d; } s.nt(); s.say(std::to_string(v.size()) + " elements of " + fname<F>());
    run_items(s, {item("a long vector", v, std::vector<F>(3), gen_sep(s, true)), field_item<F>(s)});
}
// long containers of everything else
void longplain(Src &s)
{
    const size_t n = 100 + s.draw(s.chance(1, 4) ? 6000 : 600); std::vector<Item> v; s.nt(); s.say(std::to_string(n) + " entries");
    switch (s.cycle(5)) {
    case 0: { std::vector<bool> b(n); for (size_t i = 0; i < n; i += 60) { const uint64_t w = s.word(); for (size_t j = 0; j < 60 && i + j < n; j++) b[i + j] = w >> j & 1; }
        Item i; i.what = "a long bool vector"; i.w = [b](std::ostream &o) { output_bool_vector(o, b); }; i.r = [b](std::istream &in) { std::vector<bool> c; input_bool_vector(in, c); CHECK(!in.fail() && c == b, "a bool vector of " << b.size() << " was not read back"); }; v.push_back(i);
        i.what = "a long bit vector"; i.w = [b](std::ostream &o) { serialize_bit_vector(o, b); }; i.r = [b](std::istream &in) { bit_vector c(3, true); deserialize_bit_vector(in, c); CHECK(!in.fail() && c == b, "a bit vector of " << b.size() << " was not read back"); }; v.push_back(i); break; }
    case 1: { std::set<size_t> a; const uint64_t w = s.word(); for (size_t i = 0; i < n / 8; i++) a.insert(pbt::mix64(w + i) >> (i % 64)); v.push_back(item<std::set<size_t>>("a large set", a, {5}, gen_sep(s, true))); break; }
    case 2: { std::vector<gf256> a(n); const uint64_t w = s.word(); for (size_t i = 0; i < n; i++) a[i] = gf256(pbt::mix64(w + i), i, w, ~i); v.push_back(item("a long gf256 vector", a, std::vector<gf256>(4), gen_sep(s, true))); break; }
    case 3: { std::vector<gf32> a(n); const uint64_t w = s.word(); for (size_t i = 0; i < n; i++) a[i] = gf32((uint32_t)pbt::mix64(w + i)); v.push_back(item("a long gf32 vector", a, std::vector<gf32>(4), gen_sep(s, true))); break; }
    default: { std::map<size_t, Fr_> a; Fr_ x = gen_ser<Fr_>(s); const uint64_t w = s.word(); for (size_t i = 0; i < n / 8; i++) { a[pbt::mix64(w + i)] = x; x = x.squared() + Fr_::one(); } v.push_back(item("a large map", a, std::map<size_t, Fr_>(), gen_sep(s, true))); }
    }
    v.push_back(plain_item(s)); run_items(s, v);
}
template<class F> void field()
{
    const std::string f = fname<F>(); pbt::reg(f + "/bytes", 400, bytes<F>); pbt::reg(f + "/long-vector", 30, longvec<F>);
}
void all()
{
    pbt::reg(CNAME "/long-containers", 60, longplain); pbt::reg(CNAME "/sequence", 4000, sequence); pbt::reg(CNAME "/bigint", 500, bignum);
    field<Fr_>(); field<Fq_>(); field<Fe_>(); field<Fk_>();
#ifdef HAS_FM
    field<Fm_>();
#endif
}
PBT_REGISTER(all)
}
