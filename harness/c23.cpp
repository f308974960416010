// C23: ball evaluation of polynomials and polynomial helpers
#include "polys.hpp"
#include <flint/fmpz_vec.h>
using ref::Poly;
static bool has(const arb_t b, const mpq_class& v) { if (!arb_is_finite(b)) return arf_is_nan(arb_midref(b)) || mag_is_inf(arb_radref(b)); mpq_class m = arf2q(arb_midref(b)), r = mag2q(arb_radref(b)); return m - r <= v && v <= m + r; }
static const long PRECS[] = { 2, 3, 10, 53, 64, 200 };
static void ball(const Poly& p, const mpq_class& m, const mpq_class& r) {
    B a; if (!setball(a, m - r, m + r)) return; string nm = ref::str(p) + " at " + m.get_str() + " +/- " + r.get_str(); STATE(nm); PQ f(p); bool in = true; for (auto& c : p) if (c.get_den() != 1) in = false; PZ z; if (in) fmpq_poly_get_numerator(z, f);
    vector<mpq_class> xs; if (r == 0) xs = { m }; else for (int i = -4; i <= 4; i++) xs.push_back(m + r * i / 4); vector<mpq_class> ys; for (auto& x : xs) ys.push_back(ref::eval(p, x)); mpq_class ym = ref::eval(p, m);
    for (long prec : PRECS) { if (!g_thorough && (prec == 3 || prec == 64)) continue; TRACE();
        auto chk = [&](const char* what, const arb_t res) { for (size_t i = 0; i < xs.size(); i++) if (!has(res, ys[i])) { FAIL("%s: %s does not contain the value %s at %s", what, balls(res).c_str(), ys[i].get_str().c_str(), xs[i].get_str().c_str()); return; } 
            if (r == 0 && prec >= 53 && ym != 0) { /* usefulness: an exact argument must give a finite ball */ if (!arb_is_finite(res)) FAIL("%s: not finite", what); } };
        CASE("evaluate_arb %s prec %ld", nm.c_str(), prec); TRANS(2); B x; arb_set_si(x, 99); fmpq_poly_evaluate_arb(x, f, a, prec); chk("fmpq", x); arb_set(x, a); fmpq_poly_evaluate_arb(x, f, x, prec); chk("fmpq aliased", x); 
        if (in) { TRANS(3); fmpz_poly_evaluate_arb(x, z, a, prec); chk("fmpz", x); arb_set(x, a); fmpz_poly_evaluate_arb(x, z, x, prec); chk("fmpz aliased", x); _fmpz_poly_evaluate_arb(x, z.v->coeffs, z.v->length, a, prec); chk("_fmpz", x);
            // condition number: |a_0| + |a_1 t| + ... <= 2^cond for t in the ball
            if (p.size()) { CASE("relative_condition_number %s prec %ld", nm.c_str(), prec); TRANS(); slong cond = 77; if (!fmpz_poly_relative_condition_number_2exp(&cond, z, a, std::max(prec, 16L))) { for (auto& t : xs) { mpq_class s = 0, pw = 1; for (auto& c : p) { s += abs(c) * pw; pw *= abs(t); } if (s > ref::pow2q(cond)) { FAIL("2^%ld is below the condition number at %s", (long)cond, t.get_str().c_str()); break; } } } } }
        if (r == 0) { // floating point evaluation: exact when the precision suffices for every intermediate result
            CASE("evaluate_arf %s prec %ld", nm.c_str(), prec); TRANS(2); arf_t u, v; arf_init(u); arf_init(v); arf_set(u, arb_midref(a.v)); auto bits = [](const mpq_class& q) { mpz_class n = abs(q.get_num()); while (n != 0 && mpz_even_p(n.get_mpz_t())) n /= 2; return n == 0 ? 0L : (long)mpz_sizeinbase(n.get_mpz_t(), 2); }; long need = 0; mpq_class acc = 0; for (size_t i = p.size(); i--;) { acc *= m; need = std::max(need, bits(acc)); acc += p[i]; need = std::max(need, bits(acc)); }
            if (in) { fmpz_poly_evaluate_arf(v, z, u, prec); if (need <= prec && arf2q(v) != ym) FAIL("fmpz: got %s, exact %s", arf2q(v).get_str().c_str(), ym.get_str().c_str()); arf_set(v, u); fmpz_poly_evaluate_arf(v, z, v, prec); if (need <= prec && arf2q(v) != ym) FAIL("fmpz aliased: got %s, exact %s", arf2q(v).get_str().c_str(), ym.get_str().c_str()); }
            mpz_class D = 1; for (auto& c : p) D = lcm(D, c.get_den()); bool dyd = mpz_popcount(D.get_mpz_t()) == 1; if (dyd && need + (long)mpz_sizeinbase(D.get_mpz_t(), 2) <= prec) { fmpq_poly_evaluate_arf(v, f, u, prec); if (arf2q(v) != ym) FAIL("fmpq: got %s, exact %s", arf2q(v).get_str().c_str(), ym.get_str().c_str()); arf_set(v, u); fmpq_poly_evaluate_arf(v, f, v, prec); if (arf2q(v) != ym) FAIL("fmpq aliased"); }
            arf_clear(u); arf_clear(v); }
    }
}
static Poly compose(const Poly& p, const mpq_class& a, const mpq_class& b) { Poly r, l = { a, b - a }; ref::trim(l); for (size_t i = p.size(); i--;) { r = ref::mul(r, l); r = ref::add(r, Poly{ p[i] }); ref::trim(r); } return r; }
static Poly prim(Poly p) { ref::trim(p); if (p.empty()) return p; mpz_class D = 1, g = 0; for (auto& c : p) D = lcm(D, c.get_den()); for (auto& c : p) { c *= D; g = gcd(g, c.get_num()); } for (auto& c : p) c /= g; return p; }
static void helpers(const Poly& p) { // integer polynomials
    vector<mpz_class> c; for (auto& x : p) c.push_back(x.get_num()); string nm = ref::str(p); PZ z(c); TRACE(); STATE("h" + nm);
    { CASE("abs %s", nm.c_str()); TRANS(2); vector<mpz_class> e; for (auto& x : c) e.push_back(abs(x)); for (int g = 0; g < 2; g++) { PZ r(g ? vector<mpz_class>{ 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9 } : vector<mpz_class>{}); fmpz_poly_abs(r, z); if (frompolyz(r) != e) FAIL("wrong result"); } PZ r(c); fmpz_poly_abs(r, r); if (frompolyz(r) != e) FAIL("aliased: wrong result"); if (frompolyz(z) != c) FAIL("modified"); }
    { CASE("evaluate_at_one %s", nm.c_str()); TRANS(); Z v(mpz_class(-3)); fmpz_poly_evaluate_at_one(v, z.v->coeffs, z.v->length); if (mpq_class(toz(v)) != ref::eval(p, 1)) FAIL("got %s", toz(v).get_str().c_str()); }
    { CASE("squarefree_part %s", nm.c_str()); TRANS(); PZ r(vector<mpz_class>{ 9, 9, 9 }); fmpz_poly_squarefree_part(r, z); if (frompolyz(z) != c) FAIL("modified"); Poly got; for (auto& x : frompolyz(r)) got.push_back(x); if (p.empty()) { if (!got.empty()) FAIL("squarefree part of zero"); } else if (p.size() == 1) { if (got.size() != 1) FAIL("squarefree part of a constant"); } else { Poly g = ref::gcd(p, ref::deriv(p)), q, rm; ref::divrem(p, g, q, rm); if (prim(got) != prim(q) && prim(got) != prim(ref::neg(q))) FAIL("got %s expected %s up to constants", ref::str(got).c_str(), ref::str(prim(q)).c_str()); if (got.size() && got.back() < 0) FAIL("negative leading coefficient"); }
      PZ r2(c); fmpz_poly_squarefree_part(r2, r2); if (frompolyz(r2) != frompolyz(r)) FAIL("aliased call differs"); }
    if (p.size() > 1) for (auto ab : vector<std::pair<const char*, const char*>>{ { "0", "1" }, { "-1", "1" }, { "1/2", "3/4" }, { "-7/3", "22/7" }, { "1/6", "5/4" }, { "2", "18446744073709551617/2" }, { "-3/1024", "-1/1024" } }) { mpq_class a(ab.first), b(ab.second); CASE("scale_0_1 %s from [%s, %s]", nm.c_str(), ab.first, ab.second); TRANS(); PZ w(c); Q qa(a), qb(b); slong len = w.v->length; _fmpz_poly_scale_0_1_fmpq(w.v->coeffs, len, qa, qb); Poly got; for (slong i = 0; i < len; i++) got.push_back(toz(w.v->coeffs + i)); ref::trim(got); Poly e = compose(p, a, b); if (prim(got) != prim(e) && prim(got) != prim(ref::neg(e))) FAIL("got %s, composition is %s", ref::str(got).c_str(), ref::str(e).c_str()); if (toq(qa) != a || toq(qb) != b) FAIL("endpoint modified"); }
}
int main(int argc, char** argv) {
    init(argc, argv); bool th = g_thorough; unsigned long cnt = 0; auto my = [&] { return (cnt++ % g_nshards) == (unsigned)g_shard; };
    vector<Poly> P = { {}, { 1 }, { -7 } }; for (int d = 1; d <= (th ? 4 : 3); d++) allpolys(d, d < 3 ? 2 : 1, [&](const vector<long>& c) { Poly p(c.begin(), c.end()); P.push_back(p); P.push_back(ref::neg(p)); });
    for (auto s : { "1/2 -3/4", "-1/3 0 2/7", "5/7 1 -1/2 2/9", "2^70 -1 3", "1 2^64 0 -2^66", "1/3 2^80 -2^62/7", "-2 2000 -500000 1", "0 0 0 0 0 0 0 1", "1 1 1 1 1 1 1 1 1 1", "2^62 2^62", "-2^63 1/2^63", "1/2 1/4 1/8", "3/8 -5/16 0 7/2" }) P.push_back(parsepoly(s));
    vector<mpq_class> M; for (auto s : { "0", "1", "-1", "1/2", "3", "-5/4", "1024", "-1/1024", "4611686018427387905", "-1/18446744073709551616", "10000001/8388608" }) M.push_back(mpq_class(s)); vector<mpq_class> R; for (auto s : { "0", "1", "1/2", "3/1024", "1/1125899906842624", "100", "1073741823/4" }) R.push_back(mpq_class(s));
    for (auto& p : P) { if (!my()) continue; for (auto& m : M) for (auto& r : R) ball(p, m, r); }
    auto H = [&](const Poly& p) { if (my()) helpers(p); }; H({}); H({ 1 }); H({ -5 });
    for (int d = 1; d <= (th ? 5 : 4); d++) allpolys(d, d < 3 ? 5 : d == 3 ? 3 : d == 4 ? (th ? 2 : 1) : 1, [&](const vector<long>& c) { Poly p(c.begin(), c.end()); if (my()) { helpers(p); helpers(ref::neg(p)); } });
    vector<Poly> fct = { { -1, 1 }, { 1, 1 }, { 0, 1 }, { -1, 2 }, { -2, 0, 1 }, { 1, 1, 1 }, { 6 }, { -3, 0, mpq_class(p2(64)) } }; for (size_t a = 0; a < fct.size(); a++) for (size_t b = 0; b < fct.size(); b++) for (size_t c = 0; c < fct.size(); c++) for (size_t d = 0; d < fct.size(); d++) if (my()) helpers(ref::mul(ref::mul(fct[a], fct[b]), ref::mul(fct[c], fct[d])));
    // long polynomials, high multiplicities, very long coefficients
    for (int d : { 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200 }) for (int k = 0; k < 8; k++) { if (!my()) continue; Poly p(d + 1); for (int i = 0; i <= d; i++) { p[i] = k == 0 ? mpq_class(1) : k == 1 ? mpq_class(i % 2 ? -1 : 1) : k == 2 ? mpq_class((i * 7) % 11 - 5) : k == 3 ? mpq_class(i % 3 - 1, i + 1) : k == 4 ? mpq_class(i == 0 || i == d ? 1 : 0) : k == 5 ? mpq_class(i == d ? 1 : i == d / 2 ? -3 : i == 1 ? 2 : 0) : k == 6 ? mpq_class(p2(i * 5) * (i % 2 ? -1 : 1)) : mpq_class(p2(400) - i, i % 4 + 1); p[i].canonicalize(); } ref::trim(p); if (p.empty()) continue;
        for (auto& m : M) for (auto& r : R) { if (d > 20 && (abs(m) > 2000 || r > 50 || (d > 70 && (&m - &M[0] + (&r - &R[0])) % 2))) continue; ball(p, m, r); } bool in = true; for (auto& c : p) if (c.get_den() != 1) in = false; if (in) helpers(p); }
    for (int e : { 5, 6, 7, 8, 9, 16, 17, 33 }) for (size_t a = 0; a < fct.size(); a++) for (size_t b = 0; b < fct.size(); b++) if (a != b && my()) { Poly p = { 1 }; for (int i = 0; i < e; i++) p = ref::mul(p, fct[a]); helpers(p); helpers(ref::mul(p, fct[b])); helpers(ref::mul(ref::mul(p, fct[b]), ref::mul(fct[b], fct[b]))); }
    finish(); return g_nfail ? 1 : 0;
}
