// Enumeration of polynomials: all irreducible ones with small coefficients plus hard special ones
#pragma once

#include "alphabet.hpp"
inline string cstr(const vector<long>& c) { string s; for (long x : c) s += (s.empty() ? "" : " ") + std::to_string(x); return s; }
// all integer polynomials of exact degree d, coefficients in [-b,b], positive leading coefficient
inline void allpolys(int d, long b, const std::function<void(const vector<long>&)>& f) {
    vector<long> c(d + 1, -b); c[d] = 1; while (true) { f(c); int i = 0; for (; i <= d; i++) { if (++c[i] <= b) break; c[i] = i == d ? 1 : -b; } if (i > d) return; }
}
inline vector<string> irreducibles(int d, long b, bool realroot = true) {
    vector<string> r; allpolys(d, b, [&](const vector<long>& c) { string s = cstr(c); ref::Poly p = parsepoly(s); if (!irreducible(p)) return; if (realroot && d > 1 && ref::Sturm(p).count_all() == 0) return; long g = 0; for (long x : c) g = std::__gcd(g, x < 0 ? -x : x); if (g > 1 && c[d] > 2) return; r.push_back(s); }); return r;
}
inline vector<string> hardpolys(bool thorough) {
    vector<string> v = { "-2 2000 -500000 1", "-2 0 0 0 -512 65536 -2097152 1", "-2^70 3", "-2^91 0 1", "-3 0 2^90", "1 0 -10 0 1", "5 0 -20 0 16", "-1 -1 0 0 0 1", "-2 0 0 0 0 0 0 1", "-7 2^62 1", "-9 2^64 3", "2 -4 0 0 0 1", "-1 5 -10 10 -5 3", "-1/3 0 1/2", "-5/7 3 0 2/9", "-2^64 0 0 1", "-3 0 0 2^64" };
    if (thorough) for (auto s : { "2 0 -4 0 0 0 0 0 1", "-2^200 0 0 1", "-3 0 0 2^200", "-1 0 0 0 0 0 0 0 0 0 0 2", "1 -3 -6 4 5 -1 -1", "-1 2^100 1", "-2 2^30 -2^57 1", "-2 2^802 -2^1601 1", "-2^5001 0 1", "-3 0 2^5000" }) if (irreducible(parsepoly(s))) v.push_back(s);
    vector<string> r; for (auto& s : v) if (irreducible(parsepoly(s))) r.push_back(s); return r;
}
// minimal polynomials of 2cos(2 pi/(2n+1)), 2n+1 prime: n real roots
inline string cospoly(int n) { vector<mpz_class> a = { 1 }, b = { 0, 1 }; for (int k = 1; k < n; k++) { vector<mpz_class> c(b.size() + 1); for (size_t i = 0; i < b.size(); i++) c[i + 1] = b[i]; for (size_t i = 0; i < a.size(); i++) c[i] -= a[i]; a = b; b = c; } a.resize(b.size()); string s; for (size_t i = 0; i < b.size(); i++) { mpz_class z = b[i] + a[i]; s += (i ? " " : "") + z.get_str(); } return s; }
struct Roots { ref::Poly p; vector<ref::F> F; explicit Roots(const string& s) : p(parsepoly(s)) { size_t n = nroots(s); for (size_t i = 0; i < n; i++) F.push_back(mkfield(s, i).F); }
    ref::Elem root(size_t i) const { return F[i]->d == 1 ? ref::Elem(F[i], F[i]->lo) : ref::Elem(F[i], ref::Poly{ 0, 1 }); }
    // roots in the closed interval
    vector<size_t> in(const mpq_class& a, const mpq_class& b) const { vector<size_t> r; for (size_t i = 0; i < F.size(); i++) { auto e = root(i); if (e.cmp(a) >= 0 && e.cmp(b) <= 0) r.push_back(i); } return r; } };
inline void setarf(arf_t r, const mpq_class& q) { Z n(q.get_num()); long k = mpz_sizeinbase(q.get_den_mpz_t(), 2) - 1; arf_set_fmpz(r, n); arf_mul_2exp_si(r, r, -k); } // dyadic
// exact dyadic ball with given endpoints if representable; false otherwise
inline bool setball(arb_t x, const mpq_class& a, const mpq_class& b) { mpq_class m = (a + b) / 2, r = (b - a) / 2; setarf(arb_midref(x), m); if (r == 0) { mag_zero(arb_radref(x)); return true; } long nb = mpz_sizeinbase(r.get_num_mpz_t(), 2), k = mpz_sizeinbase(r.get_den_mpz_t(), 2) - 1; if (nb > 30) return false; mag_ptr g = arb_radref(x); MAG_MAN(g) = r.get_num().get_ui() << (30 - nb); fmpz_set_si(MAG_EXPREF(g), nb - k); return mag2q(g) == r; }
// a finite ball that contains root i and no other root
inline string isolates(const arb_t b, const Roots& R, size_t i) { if (!arb_is_finite(b)) return "enclosure of the generator is not finite"; mpq_class m = arf2q(arb_midref(b)), r = mag2q(arb_radref(b)); auto v = R.in(m - r, m + r); if (v.empty()) return "enclosure " + balls(b) + " contains no root"; if (v.size() > 1) return "enclosure " + balls(b) + " contains several roots"; if (v[0] != i) return "enclosure " + balls(b) + " contains root number " + std::to_string(v[0]) + " instead of " + std::to_string(i); return ""; }
