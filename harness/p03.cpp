// P03 (fields): conversions between field elements and integers, words, bits.
#include "curve.hpp"
using namespace lf;
namespace {

// an integer of up to n limbs, not reduced: edges around multiples of the modulus too
Z gen_any(Src &s, const Z &m, int n)
{
    const Z lim = Z(1) << (64 * n);
    Z r;
    switch (s.draw(5)) {
    case 0: r = gen_limbs(s, n); break;
    case 1: r = gen_mod(s, m, n); break;
    case 2: r = m * z_of_u64(s.draw(5)) + (long)s.draw(4) - 2; break;          // around small multiples
    case 3: r = m * ((lim - 1) / m) + (long)s.draw(4) - 2; break;              // around the largest multiple
    case 4: r = lim - 1 - z_of_u64(gen_limb(s)); break;
    default: r = gen_mod(s, m, n) + m * z_of_u64(s.draw(8)); break;
    }
    return ref::zmod(r, lim);
}

template<class F> void integers(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs_of<F>::value;
    const uint64_t op = s.cycle(7);
    static const char *names[] = {"from bigint", "from long", "from unsigned", "set_ulong", "from decimal string", "assignment chain", "field constants"};
    s.label(names[op]); s.say(names[op]);
    switch (op) {
    case 0: {
        const Z z = gen_any(s, R.p, n); if (z >= R.p || z > 1) s.nt(); s.say(z.get_str(16));
        if (z >= R.p) s.label("at or above the modulus");
        const F x(to_bigint<limbs_of<F>::value>(z)); const Z w = ref::zmod(z, R.p);
        CHECK(to_z(x.as_bigint()) == w, "F(bigint 0x" << z.get_str(16) << ").as_bigint() = 0x" << to_z(x.as_bigint()).get_str(16) << " want 0x" << w.get_str(16));
        CHECK(x.as_ulong() == u64_of_z(w), "as_ulong");
        CHECK(x == F(to_bigint<limbs_of<F>::value>(w)), "not canonical");
        CHECK(F(x.as_bigint()) == x, "conversion back");
        CHECK(x.is_zero() == (w == 0) && (x == F::one()) == (w == 1), "zero / one test");
        break; }
    case 1: {
        const long v = clamp_long((long)gen_limb(s), R.p); if (v > 1 || v < 0) s.nt(); s.say(std::to_string(v));
        const Z w = ref::zmod(Z(v), R.p);
        EXPECT_ELEM(R, F(v), R.from(w), "F(" << v << ")"); EXPECT_ELEM(R, F(v, false), R.from(w), "F(" << v << ",false)");
        F y = v; EXPECT_ELEM(R, y, R.from(w), "F y = " << v);
        const int iv = (int)clamp_long((int)v, R.p); F yi = iv; EXPECT_ELEM(R, yi, R.from(ref::zmod(Z((long)iv), R.p)), "F y = int " << iv);
        break; }
    case 2: {
        const uint64_t v = gen_limb(s); if (v > 1) s.nt(); s.say(std::to_string(v));
        EXPECT_ELEM(R, F((long)v, true), R.from(z_of_u64(v)), "F(" << v << ",true)"); break; }
    case 3: {
        const uint64_t v = gen_limb(s); if (v > 1) s.nt(); s.say(std::to_string(v));
        F x = enc<F>(gen_elem(s, R, n)); x.set_ulong(v);
        EXPECT_ELEM(R, x, R.from(z_of_u64(v)), "set_ulong(" << v << ")"); CHECK(z_of_u64(x.as_ulong()) == (R.p >> 64 == 0 ? Z(z_of_u64(v) % R.p) : z_of_u64(v)), "as_ulong after set_ulong(" << v << ")"); break; }
    case 4: {
        const Z z = gen_any(s, R.p, n); if (z > 1) s.nt(); s.say(z.get_str());
        const std::string t = z.get_str();
        EXPECT_ELEM(R, F(t.c_str()), R.from(ref::zmod(z, R.p)), "F(\"" << t << "\")"); break; }
    case 5: {
        const E a = gen_elem(s, R, n); if (a[0] > 1) s.nt(); s.say(R.str(a));
        F x = enc<F>(a), y = x, z; z = y; x.clear(); CHECK(x.is_zero() && x == F::zero(), "clear"); EXPECT_ELEM(R, z, a, "copy"); CHECK(z == y && !(z != y), "copies differ"); break; }
    default:
        EXPECT_ELEM(R, F(), R.zero(), "default"); EXPECT_ELEM(R, F::zero(), R.zero(), "zero()"); EXPECT_ELEM(R, F::one(), R.one(), "one()");
        CHECK(to_z(F::field_char()) == R.p && to_z(F::mod) == R.p, "field_char"); break;
    }
}

Z mont(const Z &x, const Z &p, int n)
{
#ifdef MONTGOMERY_OUTPUT
    return ref::zmod(x << (64 * n), p);
#else
    (void)p; (void)n; return x;
#endif
}

template<class F> void words(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs<F>();
    const bool mal = s.cycle(2);
    if (!mal) {
        const E a = gen_elem(s, R, n); const F x = enc<F>(a); const F x0 = x;
        if (!trivial_elem(R, a)) s.nt();
        s.say("to_words of " + R.str(a)); s.label("to_words");
        const std::vector<uint64_t> w = x.to_words();
        CHECK(x == x0, "operand changed");
        CHECK((int)w.size() == R.deg * n, "number of words " << w.size());
        for (int i = 0; i < R.deg; i++) { Z v; mpz_import(v.get_mpz_t(), n, -1, 8, 0, 0, w.data() + i * n); CHECK(v == mont(a[i], R.p, n), "coefficient " << i << " word value 0x" << v.get_str(16)); }
        F y = enc<F>(gen_elem(s, R, n));
        CHECK(y.from_words(w), "from_words rejects a canonical value");
        EXPECT_ELEM(R, y, a, "from_words(to_words(a))");
    } else { // arbitrary words: valid exactly if below the modulus after masking
        std::vector<uint64_t> w; bool valid = true; std::vector<Z> vals;
        const Z mask = (Z(1) << ref::bits(R.p)) - 1;
        for (int i = 0; i < R.deg; i++) {
            Z v = s.chance(1, 3) ? gen_any(s, R.p, n) : s.chance(1, 3) ? R.p + (long)s.draw(4) - 2 : mont(gen_mod(s, R.p, n), R.p, n);
            std::vector<uint64_t> c(n, 0); mpz_export(c.data(), nullptr, -1, 8, 0, 0, v.get_mpz_t());
            if (s.chance(1, 3)) { c[n - 1] |= s.word() << (ref::bits(R.p) % 64) * (ref::bits(R.p) % 64 ? 1 : 0); if (ref::bits(R.p) % 64 == 0) c[n - 1] = c[n - 1]; }
            mpz_import(v.get_mpz_t(), n, -1, 8, 0, 0, c.data());
            v &= mask; vals.push_back(v); if (v >= R.p) valid = false;
            w.insert(w.end(), c.begin(), c.end());
        }
        std::vector<uint64_t> orig = w;
        if (R.deg == 1) { int k = s.draw(2); while (k-- > 0) w.insert(w.begin(), s.word()); } // only the last bits count
        s.nt(); s.label(valid ? "from_words valid" : "from_words invalid"); s.say("from_words " + vals[0].get_str(16));
        F y = enc<F>(gen_elem(s, R, n));
        const bool got = y.from_words(w);
        CHECK(got == valid, "from_words returned " << got << " for first coefficient 0x" << vals[0].get_str(16));
        if (valid) {
            const std::vector<uint64_t> back = y.to_words();
            E want(R.deg);
            Z Ri = 1;
#ifdef MONTGOMERY_OUTPUT
            Z RR = Z(1) << (64 * n); mpz_invert(Ri.get_mpz_t(), RR.get_mpz_t(), R.p.get_mpz_t());
#endif
            for (int i = 0; i < R.deg; i++) want[i] = ref::zmod(vals[i] * Ri, R.p);
            EXPECT_ELEM(R, y, want, "from_words value");
            for (int i = 0; i < R.deg; i++) { Z v; mpz_import(v.get_mpz_t(), n, -1, 8, 0, 0, back.data() + i * n); CHECK(v == vals[i], "to_words(from_words) differs"); }
        }
    }
}

template<class F> void bits(Src &s)
{
    const Field &R = field_of<F>(); const int n = limbs_of<F>::value;
    const size_t nb = ref::bits(R.p);
    const uint64_t op = s.cycle(7);
    static const char *names[] = {"element to bits", "element to k bits", "bits to element", "pack bits", "pack ints", "bits to 0/1 elements", "vector to bits"};
    s.label(names[op]); s.say(names[op]);
    switch (op) {
    case 0: case 1: {
        const E a = gen_elem(s, R, n); if (a[0] > 1) s.nt(); s.say(R.str(a));
        const F x = enc<F>(a); size_t k = nb;
        bit_vector b;
        if (op == 0) b = convert_field_element_to_bit_vector(x); else { k = s.draw(nb + 70); b = convert_field_element_to_bit_vector(x, k); }
        CHECK(b.size() == k, "length " << b.size() << " want " << k);
        for (size_t i = 0; i < k; i++) CHECK(b[i] == (bool)mpz_tstbit(a[0].get_mpz_t(), i), "bit " << i << " of 0x" << a[0].get_str(16));
        if (op == 0) { EXPECT_ELEM(R, convert_bit_vector_to_field_element<F>(b), a, "bits back to element"); }
        break; }
    case 2: {
        const size_t k = s.chance(1, 3) ? nb : s.draw(nb); bit_vector b; Z v;
        const int mode = s.draw(2);
        for (size_t i = 0; i < k; i++) { bool t = mode == 0 ? s.coin() : mode == 1 ? true : s.draw(7) == 0; b.push_back(t); if (t) mpz_setbit(v.get_mpz_t(), i); }
        if (v >= R.p) s.label("bits above the modulus");
        s.nt(); s.say(v.get_str(16));
        EXPECT_ELEM(R, convert_bit_vector_to_field_element<F>(b), R.from(ref::zmod(v, R.p)), "bits 0x" << v.get_str(16)); break; }
    case 3: {
        size_t chunk = s.chance(1, 3) ? nb - 1 : 1 + s.draw(nb - 2); const size_t len = s.draw(3 * nb);
        bit_vector b; for (size_t i = 0; i < len; i++) b.push_back(s.coin());
        const bool dflt = s.coin(); if (dflt) chunk = nb - 1;
        if (len > chunk) s.nt();
        s.say(std::to_string(len) + " bits in chunks of " + std::to_string(chunk));
        const std::vector<F> v = dflt ? pack_bit_vector_into_field_element_vector<F>(b) : pack_bit_vector_into_field_element_vector<F>(b, chunk);
        CHECK(v.size() == (len + chunk - 1) / chunk, "number of elements " << v.size());
        for (size_t i = 0; i < v.size(); i++) { Z w; for (size_t j = 0; j < chunk; j++) if (i * chunk + j < len && b[i * chunk + j]) mpz_setbit(w.get_mpz_t(), j); EXPECT_ELEM(R, v[i], R.from(w), "element " << i << " of " << len << " bits in chunks of " << chunk); }
        break; }
    case 4: {
        const size_t w = 1 + s.draw(63), len = s.draw(20); std::vector<size_t> in; bit_vector b;
        for (size_t i = 0; i < len; i++) { in.push_back(gen_limb(s)); for (size_t j = 0; j < w; j++) b.push_back((in[i] >> j) & 1); }
        if (len * w > nb) s.nt();
        s.say(std::to_string(len) + " integers of " + std::to_string(w) + " bits");
        const std::vector<F> v = pack_int_vector_into_field_element_vector<F>(in, w);
        const size_t chunk = nb - 1;
        CHECK(v.size() == (len * w + chunk - 1) / chunk, "number of elements " << v.size());
        for (size_t i = 0; i < v.size(); i++) { Z e; for (size_t j = 0; j < chunk; j++) if (i * chunk + j < b.size() && b[i * chunk + j]) mpz_setbit(e.get_mpz_t(), j); EXPECT_ELEM(R, v[i], R.from(e), "element " << i << " of " << len << " integers of " << w << " bits"); }
        break; }
    case 5: {
        const size_t len = s.draw(40); bit_vector b; for (size_t i = 0; i < len; i++) b.push_back(s.coin()); if (len) s.nt();
        const std::vector<F> v = convert_bit_vector_to_field_element_vector<F>(b); CHECK(v.size() == len, "length");
        for (size_t i = 0; i < len; i++) EXPECT_ELEM(R, v[i], b[i] ? R.one() : R.zero(), "element " << i); break; }
    default: {
        const size_t len = s.draw(4); std::vector<F> v; std::vector<E> es; for (size_t i = 0; i < len; i++) { es.push_back(gen_elem(s, R, n)); v.push_back(enc<F>(es[i])); } if (len) s.nt();
        const bit_vector b = convert_field_element_vector_to_bit_vector<F>(v); CHECK(b.size() == len * nb, "length");
        for (size_t i = 0; i < len; i++) for (size_t j = 0; j < nb; j++) CHECK(b[i * nb + j] == (bool)mpz_tstbit(es[i][0].get_mpz_t(), j), "bit " << j << " of element " << i);
        if (len) { // helpers
            const size_t k = s.draw(n - 1);
            CHECK(get_word_of_field_elem<F>(v[0], k) == u64_of_z(es[0][0] >> (64 * k)), "get_word_of_field_elem " << k);
            CHECK(log_of_field_size_helper<F>(v[0]) == nb && soundness_log_of_field_size_helper<F>(v[0]) == nb - 1 && get_field_type<F>(v[0]) == multiplicative_field_type, "field size helpers");
        }
        break; }
    }
}

template<class F> void prime(uint64_t N)
{
    const std::string f = fname<F>();
    pbt::reg(f + "/integers", 2 * N, integers<F>);
    pbt::reg(f + "/bits", N / 8, bits<F>);
    pbt::reg(f + "/words", N, words<F>);
}
void all()
{
    prime<Fr_>(24000); prime<Fq_>(24000);
    pbt::reg(std::string(fname<Fe_>()) + "/words", 8000, words<Fe_>);
#ifdef HAS_FM
    pbt::reg(std::string(fname<Fm_>()) + "/words", 3000, words<Fm_>);
#endif
    pbt::reg(std::string(fname<Fk_>()) + "/words", 3000, words<Fk_>);
}
PBT_REGISTER(all)
}
