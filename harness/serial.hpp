// Heterogeneous sequences of objects on one stream.
#pragma once
#if CRV >= 6
#include "curve.hpp"
#else
#include "group.hpp"
#endif
#include <libff/common/serialization.hpp>
#include <libff/common/utils.hpp>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>

namespace lf { namespace {
struct Item { std::string what; std::function<void(std::ostream &)> w; std::function<void(std::istream &)> r; };
enum Sep { NONE, ONL, NL, OSEP };
inline void put_sep(std::ostream &o, Sep s) { switch (s) { case NONE: break; case ONL: o << OUTPUT_NEWLINE; break; case NL: o << "\n"; break; case OSEP: o << OUTPUT_SEPARATOR; break; } }
inline void eat_sep(std::istream &i, Sep s) { switch (s) { case NONE: break; case ONL: consume_OUTPUT_NEWLINE(i); break; case NL: consume_newline(i); break; case OSEP: consume_OUTPUT_SEPARATOR(i); break; } }
template<class X> bool equal(const X &a, const X &b) { return a == b; }
// stale: what the object read into holds before
template<class X> Item item(const std::string &what, const X &x, const X &stale, Sep sep)
{
    Item i; i.what = what;
    i.w = [x, sep](std::ostream &o) { o << x; put_sep(o, sep); };
    i.r = [x, stale, sep, what](std::istream &in) { X t = stale; in >> t; CHECK(!in.fail(), "reading " << what << " failed"); eat_sep(in, sep); CHECK(equal(t, x), what << " was not read back"); };
    return i;
}
// what a separator after an object may be: objects that end themselves need none
inline Sep gen_sep(Src &s, bool self_delimiting) { const Sep a[] = {ONL, NL, OSEP, NONE}; return a[s.draw(self_delimiting ? 3 : 2)]; }

// bytes that look like white space, digits or the end of a file
inline Z gen_bytes(Src &s, int n)
{
    static const unsigned char b[] = {0x20, 0x0a, 0x0d, 0x09, 0x30, 0x31, 0x39, 0x00, 0xff, 0x1a, 0x0b, 0x2d, 0x22};
    Z r; const int kind = s.draw(2); const unsigned one = b[s.draw(12)];
    for (int i = 0; i < 8 * n; i++) { r <<= 8; r += kind == 0 ? one : kind == 1 ? b[s.draw(12)] : s.coin() ? one : (unsigned)s.draw(255); }
    return r;
}
inline Z gen_coord(Src &s, const Z &p, int n)
{
    switch (s.draw(3)) {
    case 0: return gen_mod(s, p, n);
    case 1: return ref::zmod(gen_bytes(s, n), p);
    case 2: { Z R = Z(1) << (64 * n), i; mpz_invert(i.get_mpz_t(), R.get_mpz_t(), p.get_mpz_t()); return ref::zmod(ref::zmod(gen_bytes(s, n), p) * i, p); }
    default: return z_of_u64(s.draw(9));
    }
}
template<class F> F gen_ser(Src &s)
{
    const Field &R = field_of<F>(); E e = R.zero();
    if (s.coin()) for (auto &c : e) c = gen_coord(s, R.p, limbs<F>()); else e = gen_elem(s, R, limbs<F>());
    return enc<F>(e);
}
template<class F> std::vector<F> gen_vec(Src &s, size_t max) { std::vector<F> v(s.draw(max)); for (auto &x : v) x = gen_ser<F>(s); return v; }
template<mp_size_t n> bigint<n> gen_big(Src &s) { return to_bigint<n>(s.coin() ? gen_bytes(s, n) : gen_limbs(s, n)); }
template<class F> Item field_item(Src &s) { const F x = gen_ser<F>(s); return item(std::string("a ") + fname<F>(), x, s.coin() ? F() : gen_ser<F>(s), gen_sep(s, false)); }
template<class F> Item vec_item(Src &s)
{
    const auto v = gen_vec<F>(s, 6); return item(std::string("a vector of ") + std::to_string(v.size()) + " " + fname<F>(), v, s.coin() ? std::vector<F>() : gen_vec<F>(s, 3), gen_sep(s, true));
}
template<mp_size_t n> Item big_item(Src &s) { const bigint<n> b = gen_big<n>(s); return item("a bigint<" + std::to_string(n) + ">", b, s.coin() ? bigint<n>() : gen_big<n>(s), gen_sep(s, false)); }
template<class F> F gen_gf(Src &s) { std::vector<uint64_t> w((F::extension_degree() + 63) / 64); for (auto &x : w) x = u64_of_z(s.coin() ? gen_bytes(s, 1) : gen_limbs(s, 1)); if (F::extension_degree() == 32) w[0] &= 0xffffffff; F f; f.from_words(w); return f; }
template<class F> Item gf_item(Src &s)
{
    const std::string n = "gf" + std::to_string(F::extension_degree());
    if (s.coin()) { const F x = gen_gf<F>(s); return item("a " + n, x, s.coin() ? F() : gen_gf<F>(s), gen_sep(s, false)); }
    std::vector<F> v(s.draw(5)); for (auto &x : v) x = gen_gf<F>(s); return item("a vector of " + std::to_string(v.size()) + " " + n, v, std::vector<F>(s.draw(2)), gen_sep(s, true));
}
template<class F> Item map_item(Src &s)
{
    const size_t k = s.draw(4);
    switch (s.draw(3)) {
    case 0: { std::map<size_t, F> m, o; for (size_t i = 0; i < k; i++) m[s.draw(3) ? i : s.word()] = gen_ser<F>(s); if (s.coin()) o[s.draw(5)] = gen_ser<F>(s); return item("a map of " + std::to_string(m.size()) + " integers to " + fname<F>(), m, o, gen_sep(s, true)); }
    case 1: { std::map<bigint<NR>, F> m, o; for (size_t i = 0; i < k; i++) m[gen_big<NR>(s)] = gen_ser<F>(s); if (s.coin()) o[gen_big<NR>(s)] = gen_ser<F>(s); return item("a map of " + std::to_string(m.size()) + " bigints to " + fname<F>(), m, o, gen_sep(s, true)); }
    case 2: { std::map<size_t, std::vector<F>> m, o; for (size_t i = 0; i < k; i++) m[i * s.draw(9)] = gen_vec<F>(s, 3); if (s.coin()) o[3] = gen_vec<F>(s, 2); return item("a map of " + std::to_string(m.size()) + " integers to vectors of " + fname<F>(), m, o, gen_sep(s, true)); }
    default: { std::vector<std::vector<F>> v(k), o(s.draw(2)); for (auto &x : v) x = gen_vec<F>(s, 3); return item("a vector of " + std::to_string(k) + " vectors of " + fname<F>(), v, o, gen_sep(s, true)); }
    }
}
inline Item plain_item(Src &s)
{
    switch (s.draw(6)) {
    case 0: { const size_t v = gen_limb(s); return item<size_t>("the integer " + std::to_string(v), v, 0, NL); }
    case 1: { const long v = (long)gen_limb(s); return item<long>("the integer " + std::to_string(v), v, 0, NL); }
    case 2: { const bool b = s.coin(); Item i; i.what = "a bool"; i.w = [b](std::ostream &o) { output_bool(o, b); }; i.r = [b](std::istream &in) { bool c = !b; input_bool(in, c); CHECK(!in.fail() && c == b, "a bool was not read back"); }; return i; }
    case 3: case 4: {
        std::vector<bool> v(s.draw(s.coin() ? 70 : 5)); for (size_t i = 0; i < v.size(); i++) v[i] = s.coin(); const std::vector<bool> old(s.draw(9), true);
        const bool other = s.coin(); Item i; i.what = std::string(other ? "a bit vector" : "a bool vector") + " of " + std::to_string(v.size());
        if (other) { i.w = [v](std::ostream &o) { serialize_bit_vector(o, v); }; i.r = [v, old](std::istream &in) { bit_vector c = old; deserialize_bit_vector(in, c); CHECK(!in.fail() && c == v, "a bit vector of " << v.size() << " was not read back"); }; }
        else { i.w = [v](std::ostream &o) { output_bool_vector(o, v); }; i.r = [v, old](std::istream &in) { std::vector<bool> c = old; input_bool_vector(in, c); CHECK(!in.fail() && c == v, "a bool vector of " << v.size() << " was not read back"); }; }
        return i; }
    case 5: { std::set<size_t> v, o; const int k = s.draw(5); for (int i = 0; i < k; i++) v.insert(s.coin() ? s.draw(99) : s.word()); if (s.coin()) o.insert(s.draw(200)); return item("a set of " + std::to_string(v.size()) + " integers", v, o, gen_sep(s, true)); }
    default: { std::set<bigint<NQ>> v, o; const int k = s.draw(5); for (int i = 0; i < k; i++) v.insert(gen_big<NQ>(s)); if (s.coin()) o.insert(gen_big<NQ>(s)); return item("a set of " + std::to_string(v.size()) + " bigints", v, o, gen_sep(s, true)); }
    }
}
inline Item field_or_container(Src &s)
{
#define FIELDS(f) switch (s.draw(4)) { case 0: return f<Fr_>(s); case 1: return f<Fq_>(s); case 2: return f<Fe_>(s); case 3: return f<MID>(s); default: return f<Fk_>(s); }
#ifdef HAS_FM
    typedef Fm_ MID;
#else
    typedef Fe_ MID;
#endif
    switch (s.draw(6)) {
    case 0: return plain_item(s);
    case 1: FIELDS(field_item)
    case 2: FIELDS(vec_item)
    case 3: FIELDS(map_item)
    case 4: switch (s.draw(3)) { case 0: return big_item<1>(s); case 1: return big_item<NR>(s); case 2: return big_item<NQ>(s); default: return big_item<12>(s); }
    case 5: switch (s.draw(4)) { case 0: return gf_item<gf32>(s); case 1: return gf_item<gf64>(s); case 2: return gf_item<gf128>(s); case 3: return gf_item<gf192>(s); default: return gf_item<gf256>(s); }
    default: FIELDS(field_item)
    }
}
// writes all items to one stream and reads them back
// a stream without random access that hands over few bytes at a time, as a pipe does
struct Pipe : std::streambuf {
    std::string data, buf; size_t at = 0, step;
    Pipe(const std::string &d, size_t n) : data(d), step(n) {}
    int_type underflow() override { if (gptr() != egptr()) return traits_type::to_int_type(*gptr()); if (at >= data.size()) return traits_type::eof(); buf = data.substr(at, step); at += buf.size(); setg(&buf[0], &buf[0], &buf[0] + buf.size()); return traits_type::to_int_type(buf[0]); }
    int_type overflow(int_type c) override { if (c != traits_type::eof()) data.push_back((char)c); return traits_type::not_eof(c); }
};
inline std::string format_of(const std::ios &o) { std::ostringstream r; r << o.flags() << "/" << o.precision() << "/" << o.width() << "/" << (int)o.fill(); return r.str(); }
inline void run_items(Src &s, const std::vector<Item> &v)
{
    std::stringstream st; std::vector<std::string::size_type> at; std::string d;
    for (const Item &i : v) { i.w(st); CHECK(!st.fail(), "writing " << i.what << " failed"); at.push_back(st.str().size()); d += (d.empty() ? "" : ", ") + i.what; }
    const std::string tail = "end of the sequence\n"; st << tail; s.say(d);
    // reading never depends on what follows, and the copy is byte-identical
    const std::string bytes = st.str(); std::stringstream again; for (const Item &i : v) i.w(again); again << tail; CHECK(again.str() == bytes, "writing the same objects twice gave different bytes: " << d);
    std::istringstream in(bytes);
    for (size_t i = 0; i < v.size(); i++) { v[i].r(in); CHECK(!in.fail(), "stream failed after " << v[i].what << ", item " << i << " of " << d); CHECK((size_t)in.tellg() == at[i], "after reading " << v[i].what << ", item " << i << " of " << d << ", the stream is at " << in.tellg() << " instead of " << at[i]); }
    std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); CHECK(rest == tail, "what follows the sequence changed: " << d);
    const std::string fmt = format_of(std::stringstream()); CHECK(format_of(st) == fmt && format_of(in) == fmt, "the format of the stream was changed: " << d);
    if (bytes.size() > 4000 || s.chance(2, 3)) return;
    Pipe sink("", 1); std::ostream po(&sink); for (const Item &i : v) { i.w(po); CHECK(!po.fail(), "writing " << i.what << " to a pipe failed"); }
    po << tail; CHECK(sink.data == bytes, "a stream without random access receives other bytes: " << d);
    const size_t step = 1 + s.draw(40); Pipe src(bytes, step); std::istream pi(&src); if (s.coin()) pi.exceptions(std::ios::failbit | std::ios::badbit);
    try { for (const Item &i : v) { i.r(pi); CHECK(!pi.fail(), "reading " << i.what << " from a pipe in pieces of " << step << " bytes failed: " << d); } } catch (const std::ios_base::failure &) { CHECK(false, "reading from a stream that throws on failure threw: " << d); }
    std::string left((std::istreambuf_iterator<char>(pi)), std::istreambuf_iterator<char>()); CHECK(left == tail, "what follows the sequence in a pipe changed: " << d);
}
template<class X> std::string bytes_of(const X &x) { std::ostringstream o; o << x; return o.str(); }
}} // namespace
