// Compiled once, without sanitizers, for all configurations.
#include "ref.hpp"
namespace ref {

E Field::add(const E &a, const E &b) const { E r(deg); for (int i = 0; i < deg; i++) { r[i] = a[i] + b[i]; if (r[i] >= p) r[i] -= p; } return r; }
E Field::sub(const E &a, const E &b) const { E r(deg); for (int i = 0; i < deg; i++) { r[i] = a[i] - b[i]; if (r[i] < 0) r[i] += p; } return r; }
E Field::neg(const E &a) const { return sub(zero(), a); }
E Field::scale(const Z &c, const E &a) const { E r(deg); for (int i = 0; i < deg; i++) r[i] = zmod(c * a[i], p); return r; }
E Field::mul_tower(const E &a, const E &b) const
{
    if (!base) { E r(1); r[0] = zmod(a[0] * b[0], p); return r; }
    const int m = base->deg;
    std::vector<E> acc(2 * d - 1, base->zero());
    std::vector<E> A(d), B(d);
    for (int i = 0; i < d; i++) { A[i] = E(a.begin() + i * m, a.begin() + (i + 1) * m); B[i] = E(b.begin() + i * m, b.begin() + (i + 1) * m); }
    for (int i = 0; i < d; i++) if (!base->is_zero(A[i]))
        for (int j = 0; j < d; j++) acc[i + j] = base->add(acc[i + j], base->mul_tower(A[i], B[j]));
    for (int i = 2 * d - 2; i >= d; i--) acc[i - d] = base->add(acc[i - d], base->mul_tower(nr, acc[i]));
    E r; r.reserve(deg);
    for (int i = 0; i < d; i++) r.insert(r.end(), acc[i].begin(), acc[i].end());
    return r;
}
void Field::table()
{
    tab.assign(deg * deg, {});
    for (int i = 0; i < deg; i++) for (int j = 0; j < deg; j++) {
        E x = zero(), y = zero(); x[i] = 1; y[j] = 1;
        const E z = mul_tower(x, y);
        for (int k = 0; k < deg; k++) if (z[k] != 0) tab[i * deg + j].push_back({k, z[k] > p / 2 ? Z(z[k] - p) : z[k]});
    }
}
E Field::mul(const E &a, const E &b) const
{
    E r(deg); Z t;
    for (int i = 0; i < deg; i++) if (a[i] != 0)
        for (int j = 0; j < deg; j++) {
            mpz_mul(t.get_mpz_t(), a[i].get_mpz_t(), b[j].get_mpz_t());
            for (auto &kc : tab[i * deg + j]) {
                mpz_ptr o = r[kc.first].get_mpz_t();
                if (kc.second == 1) mpz_add(o, o, t.get_mpz_t());
                else mpz_addmul(o, kc.second.get_mpz_t(), t.get_mpz_t());
            }
        }
    for (auto &x : r) mpz_mod(x.get_mpz_t(), x.get_mpz_t(), p.get_mpz_t());
    return r;
}
E Field::pow(const E &a, const Z &e) const
{
    E r = one();
    for (long i = (long)bits(e) - 1; i >= 0; i--) { r = mul(r, r); if (mpz_tstbit(e.get_mpz_t(), i)) r = mul(r, a); }
    return r;
}
E Field::inv(const E &a) const
{
    if (!base) { E r(1); if (!mpz_invert(r[0].get_mpz_t(), a[0].get_mpz_t(), p.get_mpz_t())) r[0] = 0; return r; }
    const int m = base->deg;
    std::vector<E> A(d);
    for (int i = 0; i < d; i++) A[i] = E(a.begin() + i * m, a.begin() + (i + 1) * m);
    std::vector<E> R(d);
    if (d == 2) { // (a0 - a1 x) / (a0^2 - nr a1^2)
        E n = base->inv(base->sub(base->sqr(A[0]), base->mul(nr, base->sqr(A[1]))));
        R[0] = base->mul(A[0], n); R[1] = base->neg(base->mul(A[1], n));
    } else { // d == 3
        E c0 = base->sub(base->sqr(A[0]), base->mul(nr, base->mul(A[1], A[2])));
        E c1 = base->sub(base->mul(nr, base->sqr(A[2])), base->mul(A[0], A[1]));
        E c2 = base->sub(base->sqr(A[1]), base->mul(A[0], A[2]));
        E n = base->add(base->mul(A[0], c0), base->mul(nr, base->add(base->mul(A[2], c1), base->mul(A[1], c2))));
        n = base->inv(n);
        R[0] = base->mul(c0, n); R[1] = base->mul(c1, n); R[2] = base->mul(c2, n);
    }
    E r;
    for (auto &x : R) r.insert(r.end(), x.begin(), x.end());
    return r;
}
bool Field::sqrt(const E &a, E &root) const
{
    if (is_zero(a)) { root = a; return true; }
    const Z h = (order - 1) / 2;
    if (pow(a, h) != one()) return false;
    const Z om = order - 1;
    unsigned long s = mpz_scan1(om.get_mpz_t(), 0);
    Z t = (order - 1) >> s;
    E c; // a non-residue
    for (long k = 1;; k++) {
        c = from(Z(k + 1));
        if (deg > 1) c = add(c, gen());
        if (deg > d) { E y = zero(); y[1] = k * k + 3; if (base->deg > 1) c = add(c, y); }
        if (pow(c, h) == neg(one())) break;
    }
    c = pow(c, t);
    E x = pow(a, (t + 1) / 2), b = pow(a, t);
    while (b != one()) {
        unsigned long m = 0;
        E v = b;
        while (v != one()) { v = sqr(v); m++; }
        E g = c;
        for (unsigned long i = 0; i + m + 1 < s; i++) g = sqr(g);
        x = mul(x, g); c = sqr(g); b = mul(b, c); s = m;
    }
    root = x;
    return true;
}
bool Curve::on(const Pt &P) const
{
    if (P.inf) return true;
    const E xx = F->sqr(P.x), yy = F->sqr(P.y);
    if (edwards) return F->add(F->mul(a, xx), yy) == F->add(F->one(), F->mul(b, F->mul(xx, yy)));
    return yy == F->add(F->mul(xx, P.x), F->add(F->mul(a, P.x), b));
}
Pt Curve::neg(const Pt &P) const
{
    if (P.inf) return P;
    Pt r = P;
    if (edwards) r.x = F->neg(P.x); else r.y = F->neg(P.y);
    return r;
}
Pt Curve::add(const Pt &P, const Pt &Q) const
{
    if (P.inf) return Q;
    if (Q.inf) return P;
    Pt R; R.inf = false;
    if (edwards) {
        const E x1y2 = F->mul(P.x, Q.y), y1x2 = F->mul(P.y, Q.x), yy = F->mul(P.y, Q.y), xx = F->mul(P.x, Q.x);
        const E t = F->mul(b, F->mul(xx, yy));
        R.x = F->mul(F->add(x1y2, y1x2), F->inv(F->add(F->one(), t)));
        R.y = F->mul(F->sub(yy, F->mul(a, xx)), F->inv(F->sub(F->one(), t)));
        if (F->is_zero(R.x) && R.y == F->one()) return Pt();
        return R;
    }
    E l;
    if (P.x == Q.x) {
        if (P.y != Q.y || F->is_zero(P.y)) return Pt();
        const E xx = F->sqr(P.x);
        l = F->mul(F->add(F->add(F->add(xx, xx), xx), a), F->inv(F->add(P.y, P.y)));
    } else
        l = F->mul(F->sub(Q.y, P.y), F->inv(F->sub(Q.x, P.x)));
    R.x = F->sub(F->sqr(l), F->add(P.x, Q.x));
    R.y = F->sub(F->mul(l, F->sub(P.x, R.x)), P.y);
    return R;
}
Pt Curve::mul(const Z &k, const Pt &P) const
{
    if (k < 0) return mul(-k, neg(P));
    Pt R;
    for (long i = (long)bits(k) - 1; i >= 0; i--) { R = dbl(R); if (mpz_tstbit(k.get_mpz_t(), i)) R = add(R, P); }
    return R;
}

} // namespace ref
