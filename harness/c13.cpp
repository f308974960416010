// C13: real root isolation, counts and bounds
#include "polys.hpp"
#include <flint/fmpz_vec.h>
#include <flint/fmpq_vec.h>
using ref::Poly; using ref::Sturm;
static mpq_class dy(const mpz_class& c, long k) { return mpq_class(c) * ref::pow2q(k); }
static bool squarefree(const Poly& p) { return ref::gcd(p, ref::deriv(p)).size() <= 1; }
static void one(const Poly& p0) {
    Poly p = p0; ref::trim(p); if (p.empty() || !squarefree(p)) return; vector<mpz_class> c; for (auto& x : p) c.push_back(x.get_num()); string nm = ref::str(p); CASE("%s", nm.c_str()); STATE(nm); TRACE();
    Sturm S(p); int n = p.size() == 1 ? 0 : S.count_all(); PZ z(c); 
    auto at = [&](const mpq_class& x) { return sgn(ref::eval(p, x)); };
    auto open = [&](const mpq_class& a, const mpq_class& b) { return p.size() == 1 ? 0 : S.count(a, b) - (at(b) == 0); }; // roots in (a,b)
    mpq_class Bd = ref::ceil_root_bound(p);
    // isolation
    { CASE("isolate_real_roots %s", nm.c_str()); TRANS(); fmpz* ca = _fmpz_vec_init(p.size() + 2); vector<slong> k(p.size() + 2, 99); fmpq* ex = _fmpq_vec_init(p.size() + 2); slong ne = 77, ni = 77; fmpz_poly_isolate_real_roots(ex, &ne, ca, k.data(), &ni, z);
      if (frompolyz(z) != c) FAIL("polynomial was modified"); OUTCOME(nm + std::to_string(ne) + "," + std::to_string(ni));
      if (ne < 0 || ni < 0 || ne + ni != n) FAIL("found %ld exact roots and %ld intervals; the polynomial has %d real roots", (long)ne, (long)ni, n);
      else { vector<std::pair<mpq_class, mpq_class>> I; for (slong i = 0; i < ni; i++) I.push_back({ dy(toz(ca + i), k[i]), dy(toz(ca + i) + 1, k[i]) });
        std::set<string> e; for (slong i = 0; i < ne; i++) { mpq_class q = toq(ex + i); if (at(q) != 0) FAIL("%s is not a root", q.get_str().c_str()); if (!e.insert(q.get_str()).second) FAIL("exact root %s reported twice", q.get_str().c_str()); for (auto& J : I) if (J.first < q && q < J.second) FAIL("exact root %s lies in an isolating interval", q.get_str().c_str()); }
        for (size_t i = 0; i < I.size(); i++) { if (open(I[i].first, I[i].second) != 1) FAIL("interval (%s, %s) contains %d roots", I[i].first.get_str().c_str(), I[i].second.get_str().c_str(), open(I[i].first, I[i].second)); if (i && I[i].first < I[i - 1].second) FAIL("intervals overlap or are not in increasing order"); }
        for (slong i = 1; i < ne; i++) if (toq(ex + i) <= toq(ex + i - 1)) FAIL("exact roots not in increasing order"); }
      _fmpz_vec_clear(ca, p.size() + 2); _fmpq_vec_clear(ex, p.size() + 2);
      slong ne2 = 5, ni2 = 5; fmpz_poly_isolate_real_roots(NULL, &ne2, NULL, NULL, &ni2, z); TRANS(); if (ne2 != ne || ni2 != ni) FAIL("count only mode gives %ld,%ld", (long)ne2, (long)ni2); }
    { CASE("num_real_roots_vca %s", nm.c_str()); TRANS(); slong g = fmpz_poly_num_real_roots_vca(z); if (g != n) FAIL("returned %ld, exact %d", (long)g, n); }
    { CASE("num_real_roots_upper_bound %s", nm.c_str()); TRANS(); slong g = fmpz_poly_num_real_roots_upper_bound(z); if (g < n) FAIL("returned %ld, but there are %d roots", (long)g, n); }
    if (p.size() > 1) { CASE("has_real_root %s", nm.c_str()); TRANS(); int g = fmpz_poly_has_real_root(z); if (!!g != (n > 0)) FAIL("returned %d, there are %d real roots", g, n); }
    { int o = open(0, 1), cl = o + (at(0) == 0) + (at(1) == 0);
      CASE("num_real_roots_0_1 %s", nm.c_str()); TRANS(3); slong g = fmpz_poly_num_real_roots_0_1(z); if (g < o || g > cl) FAIL("returned %ld, exact %d (open) %d (closed)", (long)g, o, cl);
      CASE("num_real_roots_0_1_vca %s", nm.c_str()); g = fmpz_poly_num_real_roots_0_1_vca(z); if (g < o || g > cl) FAIL("returned %ld, exact %d (open) %d (closed)", (long)g, o, cl);
      CASE("num_real_roots_0_1_sturm %s", nm.c_str()); g = fmpz_poly_num_real_roots_0_1_sturm(z); if (g < o || g > cl) FAIL("returned %ld, exact %d (open) %d (closed)", (long)g, o, cl);
      if (p.size() > 1) for (slong b = 0; b <= (slong)p.size(); b++) { CASE("descartes_bound_0_1 %s bound %ld", nm.c_str(), (long)b); TRANS(); slong d = _fmpz_poly_descartes_bound_0_1(z.v->coeffs, z.v->length, b); if (d < o) FAIL("returned %ld but there are %d roots in (0,1)", (long)d, o); if (d != WORD_MAX && d > b) FAIL("returned %ld above the bound", (long)d); if (d == WORD_MAX && b >= (slong)p.size()) FAIL("returned infinity although the bound exceeds the degree"); if (d == 1 && o != 1) FAIL("returned 1 but there are %d roots", o); if (frompolyz(z) != c) FAIL("modified"); }
      if (p.size() > 1) { fmpz* ca = _fmpz_vec_init(p.size() + 2); vector<slong> k(p.size() + 2, 99); fmpq* ex = _fmpq_vec_init(p.size() + 2); slong ne = 0, ni = 0; CASE("isolate_real_roots_0_1_vca %s", nm.c_str()); TRANS(); _fmpz_poly_isolate_real_roots_0_1_vca(ex, &ne, ca, k.data(), &ni, z.v->coeffs, z.v->length); slong tot = ne + ni; if (tot < o || tot > cl) FAIL("found %ld roots, exact %d (open) %d (closed)", (long)tot, o, cl); for (slong i = 0; i < ne; i++) if (at(toq(ex + i)) != 0) FAIL("wrong exact root"); for (slong i = 0; i < ni; i++) { mpq_class a = dy(toz(ca + i), k[i]), b = dy(toz(ca + i) + 1, k[i]); if (a < 0 || b > 1 || open(a, b) != 1) FAIL("interval (%s, %s)", a.get_str().c_str(), b.get_str().c_str()); } _fmpz_vec_clear(ca, p.size() + 2); _fmpq_vec_clear(ex, p.size() + 2); } }
    if (p.size() > 1) { CASE("positive_root_upper_bound_2exp %s", nm.c_str()); TRANS(); slong b = fmpz_poly_positive_root_upper_bound_2exp(z); int pos = open(0, Bd + 1); if (b == WORD_MIN) { if (pos) FAIL("claims that there is no positive root"); } else if (b < -100000 || b > 100000) FAIL("absurd bound %ld", (long)b); else if (mpq_class lim = ref::pow2q(b); open(lim, std::max<mpq_class>(lim, Bd) + 1)) FAIL("a root exceeds 2^%ld", (long)b); }
}
static Poly lin(const mpq_class& r) { return { -r.get_num(), r.get_den() }; }
int main(int argc, char** argv) {
    init(argc, argv); g_hang_cpu = 40; int th = g_thorough; unsigned long cnt = 0;
    auto all = [&](int d, long b) { allpolys(d, b, [&](const vector<long>& c) { if ((cnt++ % g_nshards) != (unsigned)g_shard) return; Poly p(c.begin(), c.end()); one(p); one(ref::neg(p)); }); };
    all(0, 3); all(1, 9); all(2, th > 1 ? 40 : th ? 12 : 6); all(3, th > 1 ? 12 : th ? 6 : 4); all(4, th > 1 ? 6 : th ? 4 : 2); all(5, th > 1 ? 3 : th ? 2 : 1); all(6, th ? 2 : 1); if (th) all(7, 1); if (th > 1) { all(8, 1); all(9, 1); }
    // products of distinct dyadic and rational linear factors (exact roots), with and without irrational factors
    vector<mpq_class> R; for (auto s : { "0", "1", "-1", "2", "-2", "1/2", "-1/2", "3/4", "1/3", "4", "-8", "5/8", "1/1024", "1023/1024", "-7/3", "1048576" }) R.push_back(mpq_class(s));
    vector<Poly> ir = { { 1 }, { -2, 0, 1 }, { -1, -1, 1 }, { 1, 0, 1 }, { -1, 0, 2 }, { 1, -3, 0, 1 }, { -1, 4, -5, 3 }, parsepoly("-2 2000 -500000 1"), parsepoly("1 -2^20 2^38 1") };
    for (unsigned m = 0; m < (1u << R.size()); m++) { int pc = __builtin_popcount(m); if (pc < 1 || pc > (th > 1 ? 5 : th ? 4 : 3)) continue; if ((cnt++ % g_nshards) != (unsigned)g_shard) continue; Poly p = { 1 }; for (size_t i = 0; i < R.size(); i++) if (m >> i & 1) p = ref::mul(p, lin(R[i])); for (auto& q : ir) { one(ref::mul(p, q)); one(ref::neg(ref::mul(p, q))); } }
    // hard ones, scaled, reversed and reflected
    vector<Poly> H; for (auto& s : hardpolys(true)) { Poly p = parsepoly(s); mpz_class D = 1; for (auto& c : p) D *= c.get_den(); H.push_back(ref::scal(p, mpq_class(D))); }
    for (int d = 3; d <= (th > 1 ? 40 : th ? 14 : 9); d++) for (long a : { 3L, 10L, 1000L }) { Poly m(d + 1); m[d] = 1; Poly l = ref::mul({ -1, a }, { -1, a }); H.push_back(ref::sub(m, ref::scal(l, 2))); H.push_back(ref::add(m, ref::scal(l, 2))); }
    { Poly t0 = { 1 }, t1 = { 0, 1 }; for (int d = 2; d <= (th > 1 ? 40 : th ? 20 : 12); d++) { Poly t2 = ref::sub(ref::mul({ 0, 2 }, t1), t0); t0 = t1; t1 = t2; H.push_back(t1); } Poly w = { 1 }; for (int i = 1; i <= (th > 1 ? 25 : th ? 15 : 10); i++) { w = ref::mul(w, { -i, 1 }); H.push_back(w); H.push_back(ref::add(w, Poly{ 1 })); H.push_back(ref::sub(w, Poly{ 1 })); } }
    // sparse polynomials of high degree
    for (int d : { 16, 17, 25, 31, 32, 33, 40, 63, 64, 65, 100 }) for (long a : { 2L, -2L, 3L, 1L }) { if ((cnt++ % g_nshards) != (unsigned)g_shard) continue; Poly p(d + 1); p[d] = 1; p[0] = -a; one(p); one(ref::neg(p)); p[0] = mpq_class(-p2(200) * a); one(p); p[d] = mpq_class(p2(301)); one(p); p[0] = -a; p[d] = 1; one(ref::mul(p, { 0, 1 })); if (d < 41) { p[d / 2] = -3; one(p); p[d / 2] = 0; p[1] = -1; one(p); p[1] = mpq_class(-p2(70)); one(p); } }
    for (int n : { 9, 11, 14, 15, 18, 20 }) H.push_back(parsepoly(cospoly(n)));
    // clusters of roots much closer than a machine word resolves, and roots of very different sizes
    for (int k : { 61, 62, 63, 64, 65, 70, 127, 128, 130, 200, 500 }) { mpq_class P(p2(k));
        for (auto& ab : { std::pair<long, long>(1, 1), { 1, 3 }, { 5, 8 }, { 7, 1 }, { -2, 5 } }) { Poly l = { -ab.first, ab.second }, q = ref::sub(ref::scal(ref::mul(l, l), P), Poly{ 1 }); H.push_back(q); H.push_back(ref::mul(q, { -2, 0, 1 })); H.push_back(ref::mul(q, l)); H.push_back(ref::sub(ref::scal(ref::mul(l, l), P), Poly{ 2 })); H.push_back(ref::mul(ref::mul(l, Poly{ -P * ab.first - 1, P * ab.second }), { -3, 1, 1 })); }
        H.push_back(ref::mul(ref::mul({ -P, 1 }, { -1, 1 }), { -1, P })); H.push_back(ref::mul(ref::mul({ -2 * P, 0, 1 }, { -2, 0, 1 }), { -1, 0, 3 * P })); H.push_back(ref::mul({ -3 * P, 1, 1 }, { -1, 5, 7 * P })); H.push_back(ref::sub(ref::mul(ref::mul({ -P, 1 }, { -1, 1 }), { 1, P }), Poly{ 1 })); }
    for (auto& h : H) for (auto& sc : { mpq_class(1), mpq_class(3), mpq_class(2), mpq_class(p2(40)), mpq_class(mpz_class(1), p2(40)), mpq_class(mpz_class(1), p2(100)) }) { if ((cnt++ % g_nshards) != (unsigned)g_shard) continue; Poly q = h; mpq_class t = 1; mpz_class D = 1; for (auto& c : q) { c *= t; t /= sc; } for (auto& c : q) { mpz_class g; mpz_lcm(g.get_mpz_t(), D.get_mpz_t(), c.get_den().get_mpz_t()); D = g; } q = ref::scal(q, mpq_class(D)); one(q); one(ref::neg(q)); Poly r(q.rbegin(), q.rend()); ref::trim(r); one(r); Poly m = q; for (size_t i = 1; i < m.size(); i += 2) m[i] = -m[i]; one(m); one(ref::mul(q, { -1, 1 })); one(ref::mul(q, { 0, 1 })); }
    g_stat["families"] = cnt * (g_shard == 0); finish(); return g_nfail ? 1 : 0;
}
