// Objects at every address their type allows, next to others in a structure,
// as members of packed-together records are.
#pragma once
#include "pbt.hpp"
#include <new>
#include <utility>
// calls f(a, b) with copies of x and y at generated addresses; the bytes around
// them must not change
template<class F, class Fn> void placed(pbt::Src &s, const F &x, const F &y, Fn f)
{
    const size_t steps = 64 / alignof(F), room = 64 + sizeof(F) + 64;
    alignas(64) static thread_local unsigned char buf[2][64 + sizeof(F) + 64];
    const size_t at[2] = {64 - 64 / steps * s.cycle(steps), 64 - 64 / steps * s.draw(steps - 1)}; // before or at the boundary
    for (auto &b : buf) for (size_t i = 0; i < room; i++) b[i] = 0xa5;
    F *const p = new (buf[0] + at[0]) F(x), *const q = new (buf[1] + at[1]) F(y);
    s.say("objects at " + std::to_string(at[0] % 64) + " and " + std::to_string(at[1] % 64) + " modulo 64");
    f(*p, *q);
    p->~F(); q->~F();
    for (int k = 0; k < 2; k++) for (size_t i = 0; i < room; i++) if (i < at[k] || i >= at[k] + sizeof(F)) CHECK(buf[k][i] == 0xa5, "a byte " << (long)i - (long)at[k] << " from the beginning of an object of " << sizeof(F) << " bytes was changed");
}
// the operations of a field on such objects give what they give elsewhere
template<class F> void placed_field(pbt::Src &s, const F &x, const F &y)
{
    placed(s, x, y, [&](F &p, F &q) {
        F r = x; r *= y; CHECK(p * q == r, "product"); CHECK(p.squared() == x * x, "square"); CHECK(p + q == x + y && p - q == x - y && -p == -x, "sum, difference or negative"); CHECK((p == q) == (x == y) && p == x && q == y, "comparison");
        p *= q; CHECK(p == r, "product in place"); p += q; CHECK(p == r + y, "sum in place"); p -= q; CHECK(p == r, "difference in place"); p.square(); CHECK(p == r * r, "square in place"); p = x; p ^= 5ul; CHECK(p == (x ^ 5ul), "power in place"); q *= q; CHECK(q == y * y, "q *= q"); q = y;
        if (!y.is_zero()) { CHECK(q.inverse() == y.inverse(), "inverse"); q.invert(); CHECK(q * y == F::one(), "inverse in place"); }
    });
}
