// P26: printing and type helpers of the binary fields and of vectors.
#include "gf2.hpp"
#include "capture.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/common/utils.hpp>
#include <libff/common/profiling.hpp>
using namespace gf2;
namespace {
template<class F> void print_elem(Src &s)
{
    const Ref &R = ref_of<F>(); const Z a = gen(s, R.bits); const F x = enc<F>(a);
    if (a > 1) s.nt();
    s.say("print " + hex(a));
    std::string t; { Capture c; x.print(); t = c.text(); }
    // the 32-bit field prints a decimal number, the others all their hexadecimal digits
    std::string want = R.bits == 32 ? a.get_str() : a.get_str(16);
    if (R.bits > 32) want = std::string(R.bits / 4 - want.size(), '0') + want;
    CHECK(t == want + "\n", "print() of " << hex(a) << " shows " << t);
    EXPECT_GF(F, x, a, "the element after printing");
}
template<class F> void helpers(Src &s)
{
    const Ref &R = ref_of<F>(); const Z a = gen(s, R.bits); const F x = enc<F>(a);
    if (a > 1) s.nt();
    s.say("helpers for " + hex(a));
    CHECK(libff::get_field_type<F>(x) == libff::additive_field_type, "get_field_type"); CHECK(libff::log_of_field_size_helper<F>(x) == (size_t)R.bits, "log_of_field_size_helper"); CHECK(libff::soundness_log_of_field_size_helper<F>(x) == (size_t)R.bits, "soundness_log_of_field_size_helper");
    for (int i = 0; i < R.bits / 64; i++) { const Z w = (a >> (64 * i)) & Z("18446744073709551615"); CHECK(Z(std::to_string(libff::get_word_of_field_elem<F>(x, i))) == w, "word " << i << " of " << hex(a)); }
}
void vectors(Src &s)
{
    const size_t n = s.draw(9); const uint64_t kind = s.cycle(3); std::string want = "{ ", t;
    s.nt(); s.say("print_vector of " + std::to_string(n) + " elements");
    if (kind == 0) {
        std::vector<size_t> v; for (size_t i = 0; i < n; i++) { v.push_back(s.word() >> s.draw(63)); want += std::to_string(v[i]) + " "; }
        Capture c; libff::print_vector(std::vector<size_t>(v)); std::cout.flush(); t = c.text();
    } else if (kind == 1) {
        std::vector<long> v; for (size_t i = 0; i < n; i++) { v.push_back((long)s.word() >> s.draw(63)); want += std::to_string(v[i]) + " "; }
        const std::vector<long> w = v; Capture c; libff::print_vector(w); std::cout.flush(); t = c.text();
    } else {
        std::vector<std::string> v; for (size_t i = 0; i < n; i++) { v.push_back(std::string(s.draw(5), 'a' + s.draw(25))); want += v[i] + " "; }
        Capture c; libff::print_vector(std::vector<std::string>(v)); std::cout.flush(); t = c.text();
    }
    CHECK(t == want + "}\n", "print_vector shows " << t << " for " << want << "}");
}
template<class F> void field(const char *name)
{
    pbt::reg(std::string(name) + "/print", 400, print_elem<F>); pbt::reg(std::string(name) + "/helpers", 200, helpers<F>);
}
void reg_all()
{
    pbt::reg("gf32/print", 400, print_elem<libff::gf32>);
    field<libff::gf64>("gf64"); field<libff::gf128>("gf128"); field<libff::gf192>("gf192"); field<libff::gf256>("gf256");
    pbt::reg("print_vector", 300, vectors);
}
PBT_REGISTER(reg_all)
} // namespace
