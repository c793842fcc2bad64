#include "rnd.hpp"
#include <random>
#include <sodium.h>

static std::vector<uint32_t> head; static size_t pos; static uint64_t state, count;
static uint32_t next32()
{
    ++count;
    if (pos < head.size()) return head[pos++];
    state += 0x9e3779b97f4a7c15ull; return (uint32_t)(pbt::mix64(state) >> 32);
}
namespace rnd {
void script(const std::vector<uint32_t> &h, uint64_t seed) { head = h; pos = 0; state = seed; count = 0; srand((unsigned)seed); }
void reset() { script({}, 0x1234567); }
uint64_t used() { return count; }
}
// takes precedence over libstdc++'s
std::random_device::result_type std::random_device::_M_getval() { return next32(); }

static void fill(void *const buf, const size_t size)
{
    unsigned char *p = (unsigned char *)buf;
    for (size_t i = 0; i < size; i += 4) { const uint32_t w = next32(); memcpy(p + i, &w, size - i < 4 ? size - i : 4); }
}
static const char *name() { return "scripted"; }
static struct randombytes_implementation impl = {name, next32, nullptr, nullptr, fill, nullptr};
static void init() { randombytes_set_implementation(&impl); if (sodium_init() < 0) abort(); rnd::reset(); }
static pbt::InitRegistrar init_r(init);
