// Jobs that must not influence each other: the same generated jobs run one
// after the other, at the same time in threads of their own, and again in the
// reverse order; each has to compute the same every time (and to agree with
// the reference model every time).
#pragma once
#include "pbt.hpp"
#include <libff/common/profiling.hpp>
#include <atomic>
#include <thread>

namespace {
template<class C> struct Kind { const char *name; void (*f)(const C &, pbt::Src &); };
struct Done { bool ok = true; std::string msg; uint64_t dig = 0; };
template<class C> Done run_job(const Kind<C> &k, const C &c, const std::vector<uint64_t> &choices)
{
    Done d; pbt::Src t; t.replaying = true; t.quiet = true; t.in = choices;
    try { k.f(c, t); d.dig = t.dig; }
    catch (pbt::Fail &f) { d.ok = false; d.msg = f.msg; }
    catch (pbt::Discard &) {}
    catch (std::exception &e) { d.ok = false; d.msg = std::string("unexpected exception: ") + e.what(); }
    return d;
}
template<class C, size_t K> void run_jobs(pbt::Src &s, const C &c, const Kind<C> (&kinds)[K])
{
    const size_t n = 2 + s.draw(3), rounds = 1 + s.draw(1); const bool counters = s.coin(); (void)counters;
    const bool same = s.chance(1, 3); const size_t first = s.draw(K - 1); // all jobs of one kind are more likely to meet
    std::vector<size_t> kind(n); std::vector<std::vector<uint64_t>> choices(n); std::vector<uint64_t> dig(n); std::string d;
    for (size_t i = 0; i < n; i++) {
        kind[i] = same ? first : s.draw(K - 1); const size_t at = s.out.size(); s.dig = 0; d += (i ? ", " : "") + std::string(kinds[kind[i]].name);
        try { kinds[kind[i]].f(c, s); dig[i] = s.dig; } catch (pbt::Fail &f) { throw pbt::Fail{std::string(kinds[kind[i]].name) + ", run number " + std::to_string(i) + " of " + d + ": " + f.msg}; } catch (pbt::Discard &) {}
        choices[i].assign(s.out.begin() + at, s.out.end()); s.label(kinds[kind[i]].name);
    }
    s.nt(); s.sample = d; s.label(std::to_string(n) + " jobs");
    // at the same time
    std::vector<Done> got(n); std::atomic<size_t> ready(0); std::vector<std::thread> th;
#ifdef MULTICORE
    if (counters) { libff::inhibit_profiling_counters = false; s.label("profiled"); }
#endif
    for (size_t i = 0; i < n; i++) th.emplace_back([&, i] {
        ready++; while (ready.load() < n) std::this_thread::yield();
        for (size_t r = 0; r < rounds && got[i].ok; r++) { const Done x = run_job(kinds[kind[i]], c, choices[i]); if (x.ok && x.dig != dig[i]) { got[i].ok = false; got[i].msg = "another result than when it ran alone"; } else if (!x.ok) got[i] = x; }
    });
    for (auto &t : th) t.join();
#ifdef MULTICORE
    libff::inhibit_profiling_counters = true;
#endif
    for (size_t i = 0; i < n; i++) CHECK(got[i].ok, kinds[kind[i]].name << ", running at the same time as " << n - 1 << " other jobs (" << d << "): " << got[i].msg);
    // in the reverse order
    for (size_t i = n; i-- > 0;) { const Done x = run_job(kinds[kind[i]], c, choices[i]); CHECK(x.ok, kinds[kind[i]].name << ", in reverse order (" << d << "): " << x.msg); CHECK(x.dig == dig[i], kinds[kind[i]].name << " computes something else in reverse order (" << d << ")"); }
}
}
