// Reference models, independent of libff: residues as GMP integers, extension
// towers with schoolbook multiplication, affine curve arithmetic.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>

namespace ref {

typedef mpz_class Z;
typedef std::vector<Z> E; // coefficients of an element, lowest level first

inline Z zpow(const Z &b, const Z &e, const Z &m) { Z r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z zmod(const Z &a, const Z &m) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z zpowi(const Z &b, unsigned long e) { Z r; mpz_pow_ui(r.get_mpz_t(), b.get_mpz_t(), e); return r; }
inline size_t bits(const Z &a) { return a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2); }

struct Field {
    Z p;
    const Field *base = nullptr; // null: the prime field
    int d = 1;                   // degree over base: base[x]/(x^d - nr)
    E nr;
    int deg = 1;
    Z order;

    explicit Field(const Z &p_) : p(p_), order(p_) { table(); }
    Field(const Field *b, int d_, const E &nr_) : p(b->p), base(b), d(d_), nr(nr_), deg(b->deg * d_), order(zpowi(b->p, b->deg * d_)) { table(); }

    E zero() const { return E(deg); }
    E one() const { E r(deg); r[0] = 1; return r; }
    E from(const Z &a) const { E r(deg); r[0] = zmod(a, p); return r; }
    bool is_zero(const E &a) const { for (auto &x : a) if (x != 0) return false; return true; }
    E add(const E &a, const E &b) const;
    E sub(const E &a, const E &b) const;
    E neg(const E &a) const;
    E scale(const Z &c, const E &a) const;
    E mul(const E &a, const E &b) const;      // through the structure constants
    E mul_tower(const E &a, const E &b) const; // schoolbook in base[x]/(x^d - nr)
    E sqr(const E &a) const { return mul(a, a); }
    E pow(const E &a, const Z &e) const;
    E inv(const E &a) const; // of a non-zero element
    bool sqrt(const E &a, E &root) const; // false when a is not a square
    // products of basis elements: tab[i * deg + j] = {(k, c)}: e_i e_j = sum c e_k
    std::vector<std::vector<std::pair<int, Z>>> tab;
    void table();
    // the element x of base[x]/(x^d - nr)
    E gen() const { E r(deg); r[base ? base->deg : 0] = 1; return r; }
    E embed(const E &a) const { E r(deg); for (size_t i = 0; i < a.size(); i++) r[i] = a[i]; return r; }
    std::string str(const E &a) const
    {
        std::string s = "(";
        for (size_t i = 0; i < a.size(); i++) s += (i ? "," : "") + a[i].get_str(16);
        return s + ")";
    }
};

// ---- affine points --------------------------------------------------------
struct Pt {
    bool inf = true;
    E x, y;
};

struct Curve {
    const Field *F = nullptr;
    bool edwards = false; // a x^2 + y^2 = 1 + d x^2 y^2, else y^2 = x^3 + a x + b
    E a, b;               // b is d for the Edwards form
    Z r;                  // order of the prime subgroup
    Pt g;

    Pt zero() const { return Pt(); }
    bool eq(const Pt &P, const Pt &Q) const { return P.inf == Q.inf && (P.inf || (P.x == Q.x && P.y == Q.y)); }
    bool on(const Pt &P) const;
    Pt neg(const Pt &P) const;
    // in the Edwards form the identity (0,1) is represented by inf as well
    Pt add(const Pt &P, const Pt &Q) const;
    Pt dbl(const Pt &P) const { return add(P, P); }
    Pt mul(const Z &k, const Pt &P) const;
    std::string str(const Pt &P) const { return P.inf ? std::string("O") : F->str(P.x) + F->str(P.y); }
};

} // namespace ref
