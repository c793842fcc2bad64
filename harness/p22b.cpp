// P22: histories of blocks against a model; counters of the binary fields.
#include "gf2.hpp"
#include <set>
#include "capture.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/common/profiling.hpp>
using namespace gf2;
namespace {
#ifdef PROFILE_OP_COUNTS
template<class F> void gf_counts(Src &s)
{
    const Ref &R = ref_of<F>(); std::vector<F> v; std::vector<Z> e; long long add = 0, sub = 0, mul = 0, sqr = 0, inv = 0;
    for (int i = 0; i < 3; i++) { e.push_back(gen(s, R.bits)); v.push_back(enc<F>(e.back())); }
    const long long a0 = F::add_cnt, s0 = F::sub_cnt, m0 = F::mul_cnt, q0 = F::sqr_cnt, i0 = F::inv_cnt; std::string d;
    for (int k = 0, len = 1 + s.draw(9); k < len; k++) {
        const int i = s.draw(2), j = s.draw(2), o = s.draw(9); d += "+-*SI"[o / 2]; F &x = v[i]; const F y = v[j]; const Z ex = e[i], ey = e[j];
        switch (o) {
        case 0: x = x + y; e[i] = ex ^ ey; add++; break;
        case 1: x += y; e[i] = ex ^ ey; add++; break;
        case 2: x = x - y; e[i] = ex ^ ey; sub++; break;
        case 3: x -= y; e[i] = ex ^ ey; sub++; break;
        case 4: x = x * y; e[i] = R.mul(ex, ey); mul++; break;
        case 5: x *= y; e[i] = R.mul(ex, ey); mul++; break;
        case 6: x = x.squared(); e[i] = R.mul(ex, ex); sqr++; break;
        case 7: x.square(); e[i] = R.mul(ex, ex); sqr++; break;
        case 8: if (ex != 0) { x = x.inverse(); e[i] = R.inv(ex); inv++; } break;
        default: if (ex != 0) { x.invert(); e[i] = R.inv(ex); inv++; }
        }
    }
    s.nt(); s.say(std::string(gname<F>()) + " " + d);
    CHECK(F::add_cnt - a0 == add, gname<F>() << " add_cnt changed by " << F::add_cnt - a0 << " in " << add << " additions"); CHECK(F::sub_cnt - s0 == sub, gname<F>() << " sub_cnt changed by " << F::sub_cnt - s0 << " in " << sub << " subtractions");
    CHECK(F::mul_cnt - m0 == mul, gname<F>() << " mul_cnt changed by " << F::mul_cnt - m0 << " in " << mul << " multiplications"); CHECK(F::sqr_cnt - q0 == sqr, gname<F>() << " sqr_cnt changed by " << F::sqr_cnt - q0 << " in " << sqr << " squarings");
    CHECK(F::inv_cnt - i0 == inv, gname<F>() << " inv_cnt changed by " << F::inv_cnt - i0 << " in " << inv << " inversions");
    for (int i = 0; i < 3; i++) EXPECT_GF(F, v[i], e[i], "value " << i);
}
#endif
typedef alt_bn128_Fr Fr_; typedef alt_bn128_Fq Fq_; typedef alt_bn128_G1 G1_; typedef alt_bn128_G2 G2_;
// the counters that the profiler reports
struct Snap { long long v[12]; };
const char *const POINT[12] = {"Fradd", "Frsub", "Frmul", "Frinv", "Fqadd", "Fqsub", "Fqmul", "Fqinv", "G1add", "G1dbl", "G2add", "G2dbl"};
Snap snap()
{
#ifdef PROFILE_OP_COUNTS
    return {{Fr_::add_cnt, Fr_::sub_cnt, Fr_::mul_cnt, Fr_::inv_cnt, Fq_::add_cnt, Fq_::sub_cnt, Fq_::mul_cnt, Fq_::inv_cnt, G1_::add_cnt, G1_::dbl_cnt, G2_::add_cnt, G2_::dbl_cnt}};
#else
    return {};
#endif
}
// Times.  What the profiler records lies between readings that the test takes itself
// just outside and just inside of the profiler's own: no assumption on speed.
struct Clock { long long wall, cpu; };
Clock clock_now() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return {get_nsec_time(), t.tv_sec * 1000000000LL + t.tv_nsec}; }
struct Span { Clock lo, hi; }; // before and after one reading of the profiler
Span start_at, last_at;
bool within(long long v, long long from_lo, long long from_hi, long long to_lo, long long to_hi, long long slack) { return v + slack >= to_lo - from_hi && v - slack <= to_hi - from_lo; }
// the "[seconds xparallelism]" at t
void shown_time(const std::string &t, const Span &from, const Span &to, const char *what)
{
    if (to.hi.wall < to.lo.wall || to.lo.wall < from.hi.wall || from.hi.wall < from.lo.wall) return; // the wall clock was set
    double sec = 0, par = 0; char c = 0;
    if (t.compare(0, 6, "[     ") == 0) sec = 0; else if (sscanf(t.c_str(), "%c%lfs x%lf", &c, &sec, &par) != 3) throw pbt::Fail{std::string("no time for ") + what + " in: " + t};
    if (!within((long long)(sec * 1e9), from.lo.wall, from.hi.wall, to.lo.wall, to.hi.wall, 60000)) throw pbt::Fail{std::string("time for ") + what + " outside " + std::to_string(to.lo.wall - from.hi.wall) + ".." + std::to_string(to.hi.wall - from.lo.wall) + " ns: " + t};
    if (sec < 0.0005) return;
    const double pmin = (double)(to.lo.cpu - from.hi.cpu) / (double)(to.hi.wall - from.lo.wall), pmax = (double)(to.hi.cpu - from.lo.cpu) / (double)std::max(1LL, to.lo.wall - from.hi.wall);
    if (par < pmin - 0.006 || par > pmax + 0.006) throw pbt::Fail{std::string("parallelism for ") + what + " outside " + std::to_string(pmin) + ".." + std::to_string(pmax) + ": " + t};
}
struct Frame { std::string name; bool indent, counted, shown; Snap at; Span time; };
struct Model { size_t n = 0; long long cum[12] = {}; long long last = 0, total = 0; size_t since = 0; };

// the profiler's maps only grow; every history works with names of its own
static uint64_t serial;
void history(Src &s)
{
    const std::string prefix = "h" + std::to_string(serial++) + "_"; std::map<std::string, Model> M; std::set<std::string> again; /* blocks entered again before they were left: their inner times and operations are not specified */ std::vector<Frame> st; std::string d;
    clear_profiling_counters(); inhibit_profiling_info = s.coin(); inhibit_profiling_counters = false;
    Fr_ r = Fr_(3); Fq_ q = Fq_(5); G1_ g = G1_::one(); G2_ h = G2_::one(); Z zr = 3, zq = 5; const Z pr = lf::to_z(Fr_::field_char()), pq = lf::to_z(Fq_::field_char());
    Capture cap; size_t indentation = 0;
    auto out_since = [&](size_t from) { return cap.text().substr(from); };
    const int len = 4 + s.draw(30); bool fail = false; std::string msg;
    // toggles nest with the blocks: a block is entered and left in the same mode
    auto may_toggle_counters = [&] { for (auto &f : st) if (f.counted == inhibit_profiling_counters && inhibit_profiling_counters == false) { } (void)0; return st.empty() || !inhibit_profiling_counters ? true : st.back().counted; };
    auto line = [&](const std::string &text, const char *what, const std::string &name, size_t ind) {
        const std::string want = std::string(2 * ind, ' ') + "(" + what + ") " + name;
        size_t p = text.find("(" + std::string(what) + ") " + name); if (p == std::string::npos) throw pbt::Fail{"no line for " + std::string(what) + " " + name + " in: " + text};
        size_t b = text.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; if (text.substr(b, want.size()) != want) throw pbt::Fail{"indentation of \"" + text.substr(b, want.size()) + "\", expected \"" + want + "\""};
    };
    try {
    for (int k = 0; k < len || !st.empty(); k++) {
        const size_t mark = cap.text().size(); int o = k < len ? (int)s.draw(14) : 3; if (o >= 3 && o <= 5 && st.empty()) o = 0;
        Span step; step.lo = clock_now();
        switch (o) {
        case 0: case 1: case 2: { // enter
            std::string name; do { name = prefix + (char)('a' + s.draw(4)); bool open = false; for (auto &f : st) open = open || f.name == name; if (open) { if (s.coin()) name += std::to_string(st.size()); else again.insert(name); } } while (0);
            const bool ind = !s.chance(1, 4); Frame f{name, ind, !inhibit_profiling_counters, !inhibit_profiling_counters && !inhibit_profiling_info, snap(), {}};
            enter_block(name, ind); step.hi = clock_now(); f.time = step; d += "(" + name.substr(prefix.size()); const std::string t = out_since(mark);
            if (f.shown) { line(t, "enter", name, indentation); if (ind) ++indentation; } else if (!t.empty()) throw pbt::Fail{"entering a block prints \"" + t + "\" although inhibited"};
            st.push_back(f); break; }
        case 3: case 4: case 5: { // leave
            const Frame f = st.back();
            // back to the mode in which it was entered
            inhibit_profiling_counters = !f.counted; if (f.counted) inhibit_profiling_info = !f.shown;
            const Snap now = snap(); leave_block(f.name, f.indent); step.hi = clock_now(); st.pop_back(); d += ")"; const std::string t = out_since(mark);
            if (!f.counted) { if (!t.empty()) throw pbt::Fail{"leaving a block prints although inhibited: " + t}; break; }
            Model &m = M[f.name]; ++m.n; ++m.since;
            for (int i = 0; i < 12; i++) m.cum[i] += now.v[i] - f.at.v[i];
            if (last_times.count(f.name) != 1 || last_times[f.name] < 0) throw pbt::Fail{"no last time of " + f.name};
            const bool plain = !again.count(f.name);
            if (plain && step.lo.wall >= f.time.hi.wall && step.hi.wall >= step.lo.wall && f.time.hi.wall >= f.time.lo.wall && !within(last_times[f.name], f.time.lo.wall, f.time.hi.wall, step.lo.wall, step.hi.wall, 0)) throw pbt::Fail{"time of " + f.name + " is " + std::to_string(last_times[f.name]) + " ns, but lies in " + std::to_string(step.lo.wall - f.time.hi.wall) + ".." + std::to_string(step.hi.wall - f.time.lo.wall)};
            m.total = (m.since == 1 ? 0 : m.total) + last_times[f.name];
            if (f.shown) {
                if (f.indent) --indentation; line(t, "leave", f.name, indentation);
                { // the time shown is the time recorded
                    const size_t p = t.find('[', t.find(f.name)); double sec = 0; const double want = (double)last_times[f.name] * 1e-9;
                    if (p == std::string::npos || (sscanf(t.c_str() + p, "[%lfs", &sec) != 1 && last_times[f.name] != 0) || sec - want > 0.000051 || want - sec > 0.000051) throw pbt::Fail{"time of " + f.name + ", recorded as " + std::to_string(last_times[f.name]) + " ns, in: " + t};
                    if (plain) shown_time(t.substr(p), f.time, step, "a block");
                    const size_t b = t.find('(', p); if (b != std::string::npos && t.find("from start", b) != std::string::npos) shown_time(t.substr(b), start_at, step, "the time from the start");
                }
#ifdef PROFILE_OP_COUNTS
                if (plain) for (int i = 0; i < 12; i++) { const std::string w = std::string(POINT[i]) + "=" + std::to_string(now.v[i] - f.at.v[i]); const size_t p = t.find(w); if (p == std::string::npos || (p + w.size() < t.size() && isdigit(t[p + w.size()]))) throw pbt::Fail{"operations inside " + f.name + ": expected " + w + " in: " + t}; }
#endif
            } else if (!t.empty()) throw pbt::Fail{"leaving a block prints although inhibited: " + t};
            break; }
        case 6: { const int c = 1 + s.draw(3); for (int i = 0; i < c; i++) { r = r * r + Fr_(7); zr = ref::zmod(zr * zr + 7, pr); } d += "r"; break; }
        case 7: { q = q.inverse() - q; Z i; mpz_invert(i.get_mpz_t(), zq.get_mpz_t(), pq.get_mpz_t()); zq = ref::zmod(i - zq, pq); if (zq == 0) { zq = 5; q = Fq_(5); } d += "q"; break; }
        case 8: g = g + G1_::one(); g = g.dbl(); d += "g"; break;
        case 9: h = h.dbl() + h; d += "h"; break;
        case 10: if (st.empty() || st.back().counted) { inhibit_profiling_info = !inhibit_profiling_info; d += "i"; } break;
        case 11: if (!inhibit_profiling_counters || st.empty() || st.back().counted) { inhibit_profiling_counters = !inhibit_profiling_counters; d += "c"; } break;
        case 12: // clearing, also inside a block
            clear_profiling_counters(); M.clear(); d += "C";
            if (!invocation_counts.empty() || !cumulative_times.empty() || !last_times.empty()) throw pbt::Fail{"counters remain after clear_profiling_counters"};
            break;
        case 14: start_profiling(); step.hi = clock_now(); start_at = last_at = step; d += "S"; break;
        default: {
            const long long factor = 1 + s.draw(3); print_time("a step"); step.hi = clock_now(); std::string t = out_since(mark);
            if (inhibit_profiling_info ? !t.empty() : t.find("a step") == std::string::npos) throw pbt::Fail{"print_time shows: " + t};
            if (!inhibit_profiling_info) {
                const size_t p = t.find('['), b = t.find('(', p); if (p == std::string::npos) throw pbt::Fail{"print_time shows: " + t};
                shown_time(t.substr(p), last_at, step, "the time from the last step"); if (b != std::string::npos && t.find("from start", b) != std::string::npos) shown_time(t.substr(b), start_at, step, "the time from the start"); last_at = step;
            }
            const size_t m1 = cap.text().size(); print_cumulative_times(factor); t = out_since(m1); d += "p";
            for (auto &kv : M) { // total, average per invocation, both also divided by the factor
                size_t p = t.find(" " + kv.first + " "); if (p == std::string::npos) throw pbt::Fail{"no cumulative time of " + kv.first + " in: " + t};
                const std::string l = t.substr(p, t.find('\n', p) - p); p = l.find(':'); double a = 0, b = 0, c = 0, e = 0; long long f1 = 0, f2 = 0; unsigned long cnt = 0;
                if (p == std::string::npos || sscanf(l.c_str() + p, ": %lfms = %lld * %lfms (%lu invocations, %lfms = %lld * %lfms per invocation)", &a, &f1, &b, &cnt, &c, &f2, &e) != 7) throw pbt::Fail{"cumulative time of " + kv.first + ": " + l};
                const double ms = (double)kv.second.total * 1e-6; auto off = [](double x, double y) { return !(x - y < 0.0000051 && y - x < 0.0000051); };
                if (f1 != factor || f2 != factor || cnt != kv.second.n || off(a, ms) || off(b, ms / factor) || off(c, ms / kv.second.n) || off(e, ms / kv.second.n / factor)) throw pbt::Fail{"cumulative time of " + kv.first + " (" + std::to_string(kv.second.total) + " ns, " + std::to_string(kv.second.n) + " invocations, factor " + std::to_string(factor) + "): " + l};
            }
            const size_t m2 = cap.text().size(); print_mem("x"); print_header("heading"); print_separator(); t = out_since(m2);
            if (t.find("heading") == std::string::npos) throw pbt::Fail{"print_header shows: " + t};
            }
        }
        // the public counters after every step
        if (invocation_counts.size() != M.size()) throw pbt::Fail{"invocation counts of " + std::to_string(invocation_counts.size()) + " blocks, expected " + std::to_string(M.size())};
        for (auto &kv : M) {
            if (invocation_counts.count(kv.first) != 1 || invocation_counts[kv.first] != kv.second.n) throw pbt::Fail{"invocation count of " + kv.first + " is " + std::to_string(invocation_counts[kv.first]) + ", expected " + std::to_string(kv.second.n)};
            if (cumulative_times.count(kv.first) != 1 || cumulative_times[kv.first] != kv.second.total) throw pbt::Fail{"cumulative time of " + kv.first + " is " + std::to_string(cumulative_times[kv.first]) + ", the sum of its times is " + std::to_string(kv.second.total)};
        }
    }
    } catch (pbt::Fail &f) { fail = true; msg = f.msg; }
    if (fail) { inhibit_profiling_info = true; inhibit_profiling_counters = true; throw pbt::Fail{msg + "; history " + d}; }
    s.nt(); s.say(d);
    const bool only_fq = s.coin(); const size_t mark = cap.text().size(); print_cumulative_op_counts(only_fq); const std::string t = out_since(mark);
#ifdef PROFILE_OP_COUNTS
    // averages per block
    for (auto &kv : M) {
        size_t p = t.find(" " + kv.first + " "); if (p == std::string::npos) p = t.find(kv.first); CHECK(p != std::string::npos, "no operation counts of " << kv.first << " in: " << t); const std::string l = t.substr(p, t.find('\n', p) - p);
        for (int i = 0; i < 12 && !again.count(kv.first); i++) {
            size_t c = l.find(std::string(POINT[i]) + " "); if (c == std::string::npos) c = l.find(std::string(POINT[i]) + "="); if (c == std::string::npos) { CHECK(only_fq && std::string(POINT[i]).substr(0, 2) != "Fq", "no counter " << POINT[i] << " in: " << l); continue; } CHECK(!only_fq || std::string(POINT[i]).substr(0, 2) == "Fq", POINT[i] << " is shown: " << l); c = l.find('=', c); double avg; unsigned long cnt;
            CHECK(sscanf(l.c_str() + c, "= %lf (%lu)", &avg, &cnt) == 2, "operation counts of " << kv.first << ": " << l);
            CHECK(cnt == kv.second.n, "number of invocations of " << kv.first << " in: " << l << ", expected " << kv.second.n);
            CHECK(avg - 1.0 * kv.second.cum[i] / kv.second.n <= 0.5001 && avg - 1.0 * kv.second.cum[i] / kv.second.n >= -0.5001, "average " << POINT[i] << " of " << kv.first << " in: " << l << ", expected " << kv.second.cum[i] << "/" << kv.second.n << "; history " << d);
        }
        CHECK(l.find("Fqmul") != std::string::npos, "no field operations in: " << l);
    }
#endif
    (void)may_toggle_counters; inhibit_profiling_info = inhibit_profiling_counters = true;
    CHECK(lf::to_z(r.as_bigint()) == zr && lf::to_z(q.as_bigint()) == zq, "values computed under profiling");
}
void all()
{
#ifdef PROFILE_OP_COUNTS
    pbt::reg("gf32/counters", 800, gf_counts<gf32>); pbt::reg("gf64/counters", 800, gf_counts<gf64>); pbt::reg("gf128/counters", 800, gf_counts<gf128>); pbt::reg("gf192/counters", 800, gf_counts<gf192>); pbt::reg("gf256/counters", 800, gf_counts<gf256>);
#endif
    pbt::reg("blocks", 6000, history);
}
PBT_REGISTER(all)
static void init() { inhibit_profiling_info = true; inhibit_profiling_counters = true; alt_bn128_pp::init_public_params(); Capture c; start_at.lo = clock_now(); start_profiling(); start_at.hi = clock_now(); last_at = start_at; }
static pbt::InitRegistrar init_r(init);
}
