// P26: what is printed is the true value.
#include "group.hpp"
#include "capture.hpp"
#include <libff/common/utils.hpp>
using namespace lf;
namespace {

// the decimal (or hexadecimal) numbers on lines of their own
bool numbers_by_line(const std::string &t, std::vector<Z> &out)
{
    if (t.empty() || t.back() != '\n') return false;
    std::istringstream is(t); std::string l;
    while (std::getline(is, l)) {
        if (l.empty()) return false;
        if (l.find_first_not_of("0123456789") == std::string::npos) out.push_back(Z(l));
        else if (l != "c0/c1:" && l != "c0/c1/c2:") return false;
    }
    return true;
}
template<class F> void print_elem(Src &s)
{
    const Field &R = field_of<F>(); const E a = gen_elem(s, R, limbs<F>()); const F x = enc<F>(a), x0 = x; F y = enc<F>(gen_elem(s, R, limbs<F>()));
    if (!trivial_elem(R, a)) s.nt();
    s.say("print " + R.str(a));
    std::string t; { Capture c; x.print(); t = c.text(); }
    std::vector<Z> v; CHECK(numbers_by_line(t, v), "print() of " << R.str(a) << " is not lines of numbers: " << t);
    CHECK(v == a, "print() of " << R.str(a) << " shows " << t);
    CHECK(x == x0, "print() changed the element");
    // printing a result, not a constructed value
    y *= x; const E b = dec(y); { Capture c; y.print(); t = c.text(); }
    v.clear(); CHECK(numbers_by_line(t, v) && v == b, "print() of the product " << R.str(b) << " shows " << t);
}
template<mp_size_t n> void print_bigint(Src &s)
{
    const Z a = gen_limbs(s, n) >> (s.coin() ? s.draw(64 * n - 1) : 0); const bigint<n> b = to_bigint<n>(a);
    if (a > 1) s.nt();
    s.say("print " + a.get_str(16));
    std::string t; { Capture c; b.print(); t = c.text(); }
    CHECK(t == a.get_str() + "\n", "print() of " << a << " shows " << t);
    { Capture c; b.print_hex(); t = c.text(); }
    const size_t z = t.find_first_not_of('0');
    CHECK(t.size() > 1 && t.back() == '\n' && (a == 0 ? t.find_first_not_of("0\n") == std::string::npos : t.substr(z) == a.get_str(16) + "\n"), "print_hex() of " << a.get_str(16) << " shows " << t);
    CHECK(to_z(b) == a, "printing changed the integer");
}

// "(a*z + b , c*z + d)\n": the coefficients of each coordinate, the highest first
bool coordinates(const std::string &t, int deg, size_t count, char sep, std::vector<E> &out)
{
    if (t.size() < 3 || t[0] != '(' || t.substr(t.size() - 2) != ")\n") return false;
    std::vector<std::string> parts(1);
    for (char c : t.substr(1, t.size() - 3)) { if (c == sep) parts.emplace_back(); else if (c != ' ') parts.back() += c; }
    if (parts.size() != count) return false;
    for (auto &p : parts) {
        E e(deg); size_t i = 0; std::vector<bool> seen(deg);
        for (;;) {
            const size_t j = p.find_first_not_of("0123456789", i); const std::string num = p.substr(i, j == std::string::npos ? j : j - i);
            if (num.empty()) return false;
            int k = 0; size_t q = j;
            if (q != std::string::npos && p.compare(q, 2, "*z") == 0) { k = 1; q += 2; if (p.compare(q, 1, "^") == 0) { if (q + 1 >= p.size()) return false; k = p[q + 1] - '0'; q += 2; } if (q >= p.size()) q = std::string::npos; }
            if (k < 0 || k >= deg || seen[k]) return false;
            seen[k] = true; e[k] = Z(num);
            if (q == std::string::npos) break;
            if (p[q] != '+') return false;
            i = q + 1;
        }
        for (bool b : seen) if (!b) return false;
        out.push_back(e);
    }
    return true;
}
template<class G> void print_point(Src &s)
{
    const Field &F = cf<G>(); bool sub; const Pt P = gen_pt<G>(s, &sub); const E l = gen_scale<G>(s); const G g = enc_pt<G>(P, l);
    if (!P.inf) s.nt(); if (!sub) s.label("outside the subgroup");
    s.label(P.inf ? "identity" : l == F.one() ? "affine" : "scaled"); s.say("print " + cv<G>().str(P) + " with scale " + F.str(l));
    const E x = dec(g.X), y = dec(g.Y), z = dec(g.Z);
    std::string t, u; { Capture c; g.print(); t = c.text(); } { Capture c; g.print_coordinates(); u = c.text(); }
    CHECK(dec(g.X) == x && dec(g.Y) == y && dec(g.Z) == z, "printing changed the point");
    if (P.inf) { CHECK(t == "O\n", "print() of the identity shows " << t); CHECK(u == "O\n", "print_coordinates() of the identity shows " << u); return; }
    std::vector<E> v; CHECK(coordinates(t, F.deg, 2, ',', v), "print() is not a pair of coordinates: " << t);
    CHECK(v[0] == P.x && v[1] == P.y, "print() of " << cv<G>().str(P) << " shows " << t);
    v.clear(); CHECK(coordinates(u, F.deg, 3, ':', v), "print_coordinates() is not a triple of coordinates: " << u);
    CHECK(v[0] == x && v[1] == y && v[2] == z, "print_coordinates() of " << F.str(x) << F.str(y) << F.str(z) << " shows " << u);
}
// what the type helpers say about a prime field
template<class F> void helpers(Src &s)
{
    const Field &R = field_of<F>(); const E a = gen_elem(s, R, limbs<F>()); const F x = enc<F>(a); const size_t nb = ref::bits(R.p);
    if (!trivial_elem(R, a)) s.nt();
    s.say("helpers for " + R.str(a));
    CHECK(get_field_type<F>(x) == multiplicative_field_type, "get_field_type"); CHECK(log_of_field_size_helper<F>(x) == nb, "log_of_field_size_helper"); CHECK(soundness_log_of_field_size_helper<F>(x) == nb - 1, "soundness_log_of_field_size_helper");
    for (int i = 0; i < limbs_of<F>::value; i++) { const Z w = a[0] >> (64 * i); CHECK(get_word_of_field_elem<F>(x, i) == u64_of_z(w), "word " << i << " of " << R.str(a)); }
}
template<class F> void elem(uint64_t n) { pbt::reg(std::string(fname<F>()) + "/print", n, print_elem<F>); }
template<class G> void point(uint64_t n) { pbt::reg(std::string(Grp<G>::name()) + "/print", n, print_point<G>); }
void reg_all()
{
    elem<Fr_>(600); elem<Fq_>(600); elem<Fe_>(300); elem<Fk_>(150);
#ifdef HAS_FM
    elem<Fm_>(200);
#endif
    point<G1_>(300); point<G2_>(300);
    pbt::reg(std::string(fname<Fr_>()) + "/helpers", 200, helpers<Fr_>); pbt::reg(std::string(fname<Fq_>()) + "/helpers", 200, helpers<Fq_>);
#if CRV == 1
    pbt::reg("bigint1/print", 400, print_bigint<1>); pbt::reg("bigint2/print", 400, print_bigint<2>); pbt::reg("bigint4/print", 400, print_bigint<4>); pbt::reg("bigint5/print", 400, print_bigint<5>); pbt::reg("bigint12/print", 400, print_bigint<12>);
#endif
}
PBT_REGISTER(reg_all)
} // namespace
