// P21: random programs over one curve; every build configuration computes what
// the model computes, and all configurations the same values.
#include "machine.hpp"
#ifndef P24
#include <libff/common/default_types/ec_pp.hpp>
static_assert(std::is_same<libff::default_ec_pp, lf::PP>::value, "the CURVE flag selects the curve");
#endif
using namespace lf;
namespace {
void program(Src &s)
{
    Machine m(s, true); const int n = 1 + s.draw(s.chance(1, 3) ? 23 : 7); s.nt();
    for (int i = 0; i < n; i++) m.step();
    m.finish(); s.label(n > 8 ? "long program" : "short program");
}
void groups(Src &s)
{
    Machine m(s, false); const int n = 1 + s.draw(11); s.nt();
    for (int i = 0; i < n; i++) if (s.coin()) m.group<G1_>(m.a, m.la); else m.group<G2_>(m.b, m.lb);
    m.finish();
}
void fields(Src &s)
{
    Machine m(s, false); const int n = 1 + s.draw(15); s.nt();
    for (int i = 0; i < n; i++) switch (s.draw(3)) { case 0: m.field<Fr_>(m.r, m.mr); break; case 1: m.field<Fq_>(m.q, m.mq); break; case 2: m.field<Fe_>(m.e, m.me); break; default: m.field<Fk_>(m.k, m.mk); }
    m.finish();
}
void pairings(Src &s)
{
    Machine m(s, true); const int n = 1 + s.draw(3); s.nt(); for (int i = 0; i < n; i++) m.target(); m.finish();
}
void all() { pbt::reg(CNAME "/programs", 240, program); pbt::reg(CNAME "/group programs", 120, groups); pbt::reg(CNAME "/field programs", 200, fields); pbt::reg(CNAME "/pairing programs", 60, pairings); }
PBT_REGISTER(all)
}
