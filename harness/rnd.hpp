// The sources of randomness libff draws from, under the control of the test:
// a script of 32-bit words followed by a pseudo-random stream.
#pragma once
#include "pbt.hpp"
#include "ref.hpp"
#include <cmath>

namespace rnd {
void script(const std::vector<uint32_t> &head, uint64_t seed); // from now on
void reset();                                                  // also clears what used() counts
uint64_t used();                                               // words drawn
using ref::Z;

// P(bit j of x) for x uniform in [0, p)
inline double bit_prob(const Z &p, size_t j)
{
    const Z full = (p >> (j + 1)) << j; Z rem = p & ((Z(1) << (j + 1)) - 1); rem -= Z(1) << j;
    const Z c = full + (rem > 0 ? rem : Z(0)); mpf_class q(c, 256); q /= mpf_class(p, 256); return q.get_d();
}
// draws v from [0, p) look uniform: no bit or sixteenth of the range is off by more than nine standard deviations
inline void uniform(const std::vector<Z> &v, const Z &p, const std::string &what)
{
    const double N = v.size();
    for (const Z &x : v) CHECK(x >= 0 && x < p, what << ": value " << x.get_str() << " out of range");
    auto test = [&](double cnt, double q, const std::string &w) {
        const double sd = std::sqrt(N * q * (1 - q)); if (sd < 3) return;
        CHECK(std::fabs(cnt - N * q) <= 9 * sd, what << ": " << w << " in " << cnt << " of " << N << " draws, expected " << N * q);
    };
    const size_t nb = ref::bits(p);
    for (size_t j = 0; j < nb; j++) { size_t c = 0; for (const Z &x : v) c += mpz_tstbit(x.get_mpz_t(), j); test(c, bit_prob(p, j), "bit " + std::to_string(j) + " set"); }
    size_t b[16] = {}; for (const Z &x : v) ++b[Z(16 * x / p).get_ui()]; for (int i = 0; i < 16; i++) { const Z lo = (i * p + 15) / 16, hi = ((i + 1) * p + 15) / 16; test(b[i], mpf_class(mpf_class(Z(hi - lo), 256) / mpf_class(p, 256)).get_d(), "sixteenth " + std::to_string(i) + " of the range"); }
    // bits of successive draws are unrelated
    for (size_t j = 0; j < nb; j++) { const double q = bit_prob(p, j); size_t c = 0; for (size_t i = 1; i < v.size(); i++) c += mpz_tstbit(v[i].get_mpz_t(), j) == mpz_tstbit(v[i - 1].get_mpz_t(), j); if (N * q * (1 - q) > 9) test(c, q * q + (1 - q) * (1 - q), "bit " + std::to_string(j) + " unchanged"); }
}
} // namespace rnd
