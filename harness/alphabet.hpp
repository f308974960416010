// Alphabets shared by the C-level harnesses.
#pragma once
#include "common.hpp"
inline vector<string> field_coeffs(bool thorough) {
    vector<string> v = { "-1 1", "-2 1", "7 3", "0 1", "-1 2", "-2^70 3",
        "-2 0 1", "-1 -1 1", "-3 0 4", "-4 0 2", "-1/3 0 1/2", "1 -4 1", "-3 0 2^90", "-2^91 0 1",
        "-2 0 0 1", "1 -3 0 1", "-1 1/2 0 3", "-4 0 0 0 2", "1 0 -10 0 1", "-1 -1 0 0 0 1", "-2 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 1", "-3 0 5 0 0 0 0 0 0 0 0 0 0 0 0 0 1/2 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 2/3" };
    if (thorough) for (auto s : { "5 0 -5 0 1", "-2 0 0 0 0 0 0 1", "1 -2 -1 1", "-2^200 0 0 1", "-5/7 3 0 2/9", "2 -4 0 0 0 1", "2 -2^40 0 1", "-7 2^62 1", "-9 2^64 3", "2 0 -4 0 0 0 0 0 1" }) v.push_back(s);
    if (thorough && g_thorough > 1) for (auto s : { "-2 0 0 0 0 0 0 0 0 1", "-1 -1 0 0 0 0 0 0 0 0 0 0 1", "6 -12 0 0 0 0 1", "-2^130 2^65 0 1", "1 -2^64 1", "-2^61 -2^62 -2^63 1", "3 -5 2/7 0 -1/9 1/11", "-2 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 1", "-15 7 21" }) v.push_back(s);
    return v;
}
// every real embedding of every catalogue polynomial (all=true) or a spread of them
inline vector<Spec> fields(bool thorough, bool all = false) {
    vector<Spec> r; for (auto& s : field_coeffs(thorough)) { size_t n = nroots(s); if (all || thorough) for (size_t i = 0; i < n; i++) r.push_back(mkfield(s, i)); else { r.push_back(mkfield(s, -1)); if (n > 2) r.push_back(mkfield(s, 1)); } }
    return r;
}
inline mpz_class p2(unsigned long k) { return mpz_class(1) << k; }
// elements with small coefficients and with wide coefficients, in a fixed order (simplest first)
inline vector<ref::Elem> elements(const ref::F& F, bool thorough, int level = 1) {
    vector<ref::Elem> r; std::set<string> seen; size_t d = F->d;
    auto put = [&](ref::Poly p) { ref::trim(p); if (p.size() > d) return; ref::Elem e(F, p); if (seen.insert(e.s()).second) r.push_back(e); };
    vector<mpq_class> small = { 0, 1, -1, mpq_class(1, 2), mpq_class(-5, 3), 7 };
    for (auto& c : small) put({ c });
    if (d == 1) for (auto& c : { mpq_class(-1, 2), mpq_class(4, 3), mpq_class(3, 4), mpq_class(-3, 1), mpq_class(2, 3), mpq_class(6, 5) }) put({ c });
    vector<mpq_class> t = { 0, 1, -1, 2, mpq_class(1, 3) };
    if (d == 2) for (auto& b : t) for (auto& a : t) put({ a, b });
    if (d >= 3) { for (auto& b : { mpq_class(0), mpq_class(1), mpq_class(-1), mpq_class(1, 2) }) for (auto& a : { mpq_class(0), mpq_class(1), mpq_class(-2, 3) }) for (auto& c : { mpq_class(0), mpq_class(1), mpq_class(-1) }) put({ a, b, c });
        ref::Poly top(d); top[d - 1] = 1; put(top); top[0] = mpq_class(-2, 3); put(top); for (auto& x : top) x = 1; put(top); for (size_t i = 0; i < d; i++) top[i] = mpq_class((i % 2) ? -3 : 2, (unsigned long)(i + 1)), top[i].canonicalize(); put(top); }
    // wide: around FLINT's small/large boundary (2^62), the word boundary, beyond
    vector<mpq_class> w = { mpq_class(p2(62) - 1), mpq_class(-p2(62)), mpq_class(p2(63)), mpq_class(-p2(63)), mpq_class(p2(64) - 1), mpq_class(p2(100) + 1), mpq_class(mpz_class(1), p2(62)), mpq_class(p2(65) + 1, p2(64)), mpq_class(mpz_class(-3), p2(64) + 13) };
    for (auto& x : w) { x.canonicalize(); put({ x }); if (d >= 2) { put({ 0, x }); put({ x, -x }); put({ 1, x }); put({ x, mpq_class(1, 3) }); } if (d >= 3) { ref::Poly p(d); p[d - 1] = x; put(p); p[0] = 1; p[1] = -x; put(p); } }
    if (d > 12) { vector<ref::Elem> q; for (size_t i = 0; i < r.size(); i++) if (i == 1 || i % (level ? 5 : 9) == 4 || i == 42 || i + 3 > r.size()) q.push_back(r[i]); return q; }
    if (level == 0) { // reduced list
        vector<ref::Elem> q; for (size_t i = 0; i < r.size(); i++) if (i < 12 || i % 4 == 0) q.push_back(r[i]); r = q; }
    // many words
    mpz_class h3; mpz_ui_pow_ui(h3.get_mpz_t(), 3, 200); mpq_class huge(p2(1500) + 1, h3); huge.canonicalize(); if (d == 1) { put({ huge }); put({ mpq_class(-h3) }); } else { put({ 0, mpq_class(p2(300)) }); put({ huge, mpq_class(mpz_class(-1), h3) }); if (d > 2) { ref::Poly p(d); p[d - 1] = mpq_class(-h3, p2(90)); p[0] = mpq_class(1, 3); put(p); } }
    return r;
}
inline const vector<mpz_class>& wide_ints() { static const vector<mpz_class> v = { 0, 1, -1, 2, -7, 10, p2(31), -p2(31), p2(32) - 1, p2(62) - 1, p2(62), -p2(62) + 1, -p2(62), p2(63) - 1, p2(63), -p2(63), -p2(63) - 1, p2(64) - 1, p2(64), p2(100) + 1, -p2(127) }; return v; }
inline vector<mpq_class> wide_rats() { vector<mpq_class> v; for (auto& z : wide_ints()) v.push_back(z); for (auto s : { "1/2", "-3/7", "22/7", "4611686018427387904/3", "-1/4611686018427387904", "18446744073709551615/18446744073709551616", "-9223372036854775808/9223372036854775809", "1/1267650600228229401496703205377" }) v.push_back(mpq_class(s)); return v; }
inline bool is_si(const mpz_class& z) { return z.fits_slong_p(); }
inline bool is_ui(const mpz_class& z) { return z.fits_ulong_p(); }
