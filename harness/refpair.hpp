// Textbook pairings over the reference towers: affine Miller loops on the
// untwisted curve over Fq^k, final exponentiation by one big power.
#pragma once
#include "group.hpp"

namespace lf { namespace {

// B y^2 = x^3 + A x^2 + C x + D over Fq^k, affine
struct RefPairing {
    const Field &F;
    E A, B, C;
    Z final_exponent;
    RefPairing() : F(T().fk)
    {
        A = C = F.zero(); B = F.one();
        const Z q = MOD_Q, r = MOD_R;
#if CRV == 1
        const Z z("4965661367192848881"); final_exponent = (ref::zpowi(q, 12) - 1) / r * (2 * z * (6 * z * z + 3 * z + 1));
#elif CRV == 2
        final_exponent = (ref::zpowi(q, 12) - 1) / r * 3;
#elif CRV == 3
        // a x^2 + y^2 = 1 + d x^2 y^2 is B v^2 = u^3 + A u^2 + u with A = 2(a+d)/(a-d), B = 4/(a-d)
        const E a = cv<G1_>().a, d = cv<G1_>().b; const Field &f = T().fq; const E i = f.inv(f.sub(a, d));
        A = F.embed(f.mul(f.scale(2, f.add(a, d)), i)); B = F.embed(f.scale(4, i)); C = F.one();
        final_exponent = (ref::zpowi(q, 6) - 1) / r;
#elif CRV == 4
        C = F.from(2); final_exponent = (ref::zpowi(q, 4) - 1) / r;
#elif CRV == 5
        C = F.from(11); final_exponent = (ref::zpowi(q, 6) - 1) / r;
#endif
    }
    Pt model(Pt P) const // coordinates of E(Fq^k) in the form above
    {
        if (COORD == INVERTED && !P.inf) { Pt R; R.inf = false; R.x = F.mul(F.add(F.one(), P.y), F.inv(F.sub(F.one(), P.y))); R.y = F.mul(R.x, F.inv(P.x)); return R; }
        return P;
    }
    Pt from_g1(const Pt &P) const { Pt R; R.inf = P.inf; if (P.inf) return R; R.x = F.embed(P.x); R.y = F.embed(P.y); return model(R); }
    Pt from_g2(const Pt &Q) const
    {
        Pt R; R.inf = Q.inf; if (Q.inf) return R;
        const E x = F.embed(Q.x), y = F.embed(Q.y), w = F.gen(), w2 = F.sqr(w);
#if CRV == 1
        R.x = F.mul(x, w2); R.y = F.mul(y, F.mul(w, w2));
#elif CRV == 2
        R.x = F.mul(x, F.inv(w2)); R.y = F.mul(y, F.inv(F.mul(w, w2)));
#elif CRV == 3
        R.x = F.mul(x, w); R.y = y;
#else
        R.x = F.mul(x, F.inv(w2)); R.y = F.mul(y, F.inv(F.mul(w, w2)));
#endif
        return model(R);
    }
    bool on(const Pt &P, const E &D) const { return F.mul(B, F.sqr(P.y)) == F.add(F.mul(F.add(F.mul(F.add(P.x, A), P.x), C), P.x), D); }
    // R <- R + S; returns the line (or vertical) through them at P
    E step(Pt &R, const Pt &S, const Pt &P) const
    {
        if (R.inf || S.inf) { if (R.inf) R = S; return F.one(); }
        E l;
        if (R.x == S.x) {
            if (R.y != S.y || F.is_zero(R.y)) { const E v = F.sub(P.x, R.x); R = Pt(); return v; }
            const E n = F.add(F.mul(F.add(F.scale(3, R.x), F.scale(2, A)), R.x), C); l = F.mul(n, F.inv(F.scale(2, F.mul(B, R.y))));
        } else l = F.mul(F.sub(S.y, R.y), F.inv(F.sub(S.x, R.x)));
        const E v = F.sub(F.sub(P.y, R.y), F.mul(l, F.sub(P.x, R.x)));
        Pt N; N.inf = false; N.x = F.sub(F.sub(F.mul(B, F.sqr(l)), A), F.add(R.x, S.x)); N.y = F.sub(F.mul(l, F.sub(R.x, N.x)), R.y); R = N;
        return v;
    }
    // f_{n,Q}(P) without the vertical lines (they lie in a subfield when one argument is in Fq or the twist)
    E miller(const Z &n, const Pt &Q, const Pt &P, Pt *end = nullptr) const
    {
        E f = F.one(); Pt R = Q;
        for (long i = (long)ref::bits(n) - 2; i >= 0; i--) { f = F.sqr(f); f = F.mul(f, step(R, R, P)); if (mpz_tstbit(n.get_mpz_t(), i)) f = F.mul(f, step(R, Q, P)); }
        if (end) *end = R;
        return f;
    }
    Pt frob(const Pt &Q, int k) const { Pt R = Q; if (!Q.inf) { const Z e = ref::zpowi(MOD_Q, k); R.x = F.pow(Q.x, e); R.y = F.pow(Q.y, e); } return R; }
    Pt neg(const Pt &Q) const { Pt R = Q; if (!Q.inf) R.y = F.neg(R.y); return R; }
    // before the final exponentiation
    E ate(const Pt &P0, const Pt &Q0) const
    {
        if (P0.inf || Q0.inf) return F.one();
        const Pt P = from_g1(P0), Q = from_g2(Q0); E f;
#if CRV == 1
        Pt R; f = miller(Z("29793968203157093288"), Q, P, &R); const Pt Q1 = frob(Q, 1), Q2 = neg(frob(Q, 2)); f = F.mul(f, step(R, Q1, P)); f = F.mul(f, step(R, Q2, P));
#elif CRV == 2
        f = F.inv(miller(Z("15132376222941642752"), Q, P));
#elif CRV == 3
        f = miller(4 * MOD_R - MOD_Q, Q, P);
#elif CRV == 4
        f = miller(MOD_Q - MOD_R, Q, P);
#elif CRV == 5
        f = F.inv(miller(MOD_R - MOD_Q, Q, P));
#endif
        return f;
    }
    E reduced(const Pt &P, const Pt &Q) const { return F.pow(ate(P, Q), final_exponent); }
    E tate(const Pt &P0, const Pt &Q0) const // f_{r,P}(Q)
    {
        if (P0.inf || Q0.inf) return F.one();
        return F.pow(miller(MOD_R, from_g1(P0), from_g2(Q0)), final_exponent);
    }
};
inline const RefPairing &rp() { static const RefPairing r; return r; }
// e(G1, G2)^k from a table
struct GtTable {
    E gt; std::vector<std::vector<E>> t;
    GtTable()
    {
        const Field &F = T().fk; gt = rp().reduced(cv<G1_>().g, cv<G2_>().g); E b = gt;
        if (gt == F.one() || F.pow(gt, MOD_R) != F.one()) { fprintf(stderr, "reference pairing is degenerate\n"); exit(3); }
        for (size_t i = 0; 4 * i < ref::bits(MOD_R) + 1; i++) { std::vector<E> row(16); row[0] = F.one(); for (int j = 1; j < 16; j++) row[j] = F.mul(row[j - 1], b); b = F.mul(row[15], b); t.push_back(row); }
    }
    E pow(const Z &k0) const
    {
        const Field &F = T().fk; Z k = ref::zmod(k0, MOD_R); E r = F.one();
        for (size_t i = 0; k != 0; i++) { const unsigned long w = Z(k & 15).get_ui(); k >>= 4; if (w) r = F.mul(r, t[i][w]); }
        return r;
    }
};
inline const GtTable &gt() { static const GtTable g; return g; }
static pbt::InitRegistrar gt_registrar([] { gt(); }, true);

}} // namespace
