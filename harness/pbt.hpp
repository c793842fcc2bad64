// Small property-based testing core: every test case is a deterministic
// function of a recorded sequence of bounded integer choices.  Choices come
// either from a PRNG seeded with hash(VERIF_SEED, test name, case index) or
// from a replay file; the recorded sequence is what gets shrunk and replayed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
struct Discard {};

inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix64(h);
}

// The record survives a crash: it lives in a shared file mapping.
struct Record {
    uint64_t magic, test, index, status, n;
    uint64_t v[1 << 16];
};
extern Record *record;

class Src {
public:
    bool replaying = false;
    std::vector<uint64_t> in;
    size_t pos = 0;
    uint64_t case_index = 0;
    uint64_t state = 0;
    std::vector<uint64_t> out;
    std::map<std::string, uint64_t> *labels = nullptr;
    bool nontrivial = false;
    bool verbose = false;
    bool quiet = false; // runs beside another source: leaves the shared record alone
    std::string sample;

    // a value in [0, max]; 0 is the simplest
    uint64_t draw(uint64_t max)
    {
        uint64_t v;
        if (replaying) {
            v = pos < in.size() ? in[pos] : 0;
            if (v > max) v = (max == ~0ull) ? v : v % (max + 1);
        } else {
            v = next();
            if (max != ~0ull) v = (uint64_t)(((unsigned __int128)v * (max + 1)) >> 64);
        }
        return push(v);
    }
    // in generation mode: enumerates 0..n-1 over the case index
    uint64_t cycle(uint64_t n)
    {
        if (replaying) return draw(n - 1);
        return push(case_index % n);
    }
    // like cycle, for a second dimension enumerated more slowly
    uint64_t cycle2(uint64_t skip, uint64_t n)
    {
        if (replaying) return draw(n - 1);
        return push((case_index / skip) % n);
    }
    uint64_t word() { return draw(~0ull); }
    uint64_t below(uint64_t n) { return draw(n - 1); }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    // true with probability num/den; false is the simplest
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool coin() { return draw(1) == 1; }

    void label(const std::string &l) { if (labels) ++(*labels)[l]; }
    void nt() { nontrivial = true; }
    // what the case computed, in a form that does not depend on the build
    // configuration: the runner compares it between configurations
    uint64_t dig = 0;
    void digest(const std::string &v) { dig = mix64(dig ^ hash_str(v)); if (verbose && digest_text.size() < 4000) digest_text += v + "|"; }
    std::string digest_text;
    void say(const std::string &s)
    {
        if (sample.size() < 600) sample += (sample.empty() ? "" : "; ") + s;
    }

private:
    uint64_t next() { state += 0x9e3779b97f4a7c15ull; return mix64(state); }
    uint64_t push(uint64_t v)
    {
        ++pos;
        out.push_back(v);
        if (!quiet && record && record->n < sizeof(record->v) / 8) record->v[record->n++] = v;
        return v;
    }
};

// lengths about which something may be done in pieces: enumerated over the cases
inline int long_len(Src &s, int cap)
{
    static const int l[] = {16, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129, 150, 192, 200, 255, 256, 257, 300, 400, 500, 512, 513};
    int n = 0; while (n < 25 && l[n] <= cap) n++;
    const uint64_t k = s.cycle(n + 2); return k < (uint64_t)n ? l[k] : 13 + (int)s.draw(k == (uint64_t)n ? 90 : cap);
}

struct Test {
    std::string name;
    uint64_t quick;      // cases in the quick tier (before --scale)
    std::function<void(Src &)> fn;
};
std::vector<Test> &tests();
inline void reg(const std::string &name, uint64_t quick, std::function<void(Src &)> fn)
{
    tests().push_back({name, quick, fn});
}
struct Registrar { explicit Registrar(void (*f)()) { f(); } };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_REGISTER(f) static pbt::Registrar PBT_CAT(registrar_, __LINE__)(f);

// initialisation functions run once before the first test
// (tables made on first use anyway are left to that when one case is run)
struct Init { void (*f)(); bool table; };
std::vector<Init> &inits();
struct InitRegistrar { explicit InitRegistrar(void (*f)(), bool table = false) { inits().push_back({f, table}); } };

inline void check(bool ok, const std::string &msg) { if (!ok) throw Fail{msg}; }
#define CHECK(cond, msg)                                                    \
    do {                                                                    \
        if (!(cond)) {                                                      \
            std::ostringstream pbt_os;                                      \
            pbt_os << msg;                                                  \
            throw pbt::Fail{pbt_os.str()};                                  \
        }                                                                   \
    } while (0)

} // namespace pbt
