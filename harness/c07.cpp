// C07: continued fractions
#include "near.hpp"
#include <flint/fmpz_vec.h>
using ref::Elem;
static void one(CField& K, const Elem& x, int v, long n, bool shared, bool alias) {
    // oracle
    vector<mpz_class> q; Elem r = x; bool ended = false;
    if (x.zero()) ended = true; else for (long i = 0; i < n; i++) { mpz_class f = r.floor(); q.push_back(f); r = r - Elem(x.K, mpq_class(f)); if (r.zero()) { ended = true; break; } r = r.inv(); }
    Elem zero(x.K, mpq_class(0)); CASE("field %s prec %ld cfrac(%s [%s], %ld terms) %s field%s", K.s.name.c_str(), K.prec, x.s().c_str(), varname(v), n, shared ? "shared" : "fresh", alias ? " remainder aliases input" : ""); TRACE(); TRANS(); STATE(K.s.name + x.s());
    Work w(K, x, v, zero, FRESH, shared); fmpz* c = _fmpz_vec_init(n + 2); for (long i = 0; i < n + 2; i++) fmpz_set_si(c + i, -424242);
    slong k = renf_elem_get_cfrac(c, alias ? w.a : w.b, w.a, n, w.f());
    if (k != (slong)q.size()) FAIL("returned count %ld, exact %zu", (long)k, q.size()); else { for (long i = 0; i < k; i++) if (toz(c + i) != q[i]) { FAIL("term %ld is %s, exact %s", i, toz(c + i).get_str().c_str(), q[i].get_str().c_str()); break; } }
    for (long i = std::max(k, 0L); i < n + 2; i++) if (toz(c + i) != -424242) { FAIL("wrote beyond the returned count at %ld", i); break; }
    OUTCOME(K.s.name + x.s() + std::to_string(n)); check_elem("remainder", alias ? w.a : w.b, r, w.f()); if (!alias) check_elem("input", w.a, x, w.f());
    _fmpz_vec_clear(c, n + 2);
}
static void run(const Spec& S, long prec, bool shared) {
    CField K(S, prec); auto E = order_elements(S.F, g_thorough); auto T = tinies(S.F, g_thorough); size_t m = E.size();
    for (auto& t : T) { E.push_back(t); E.push_back(t + Elem(S.F, mpq_class(355, 113))); E.push_back(Elem(S.F, mpq_class(-7)) - t); }
    for (auto s : { "355/113", "-355/113", "4/3", "1/1000000007", "4611686018427387905/4611686018427387904", "-1/2", "13/8", "-13/8" }) E.push_back(Elem(S.F, mpq_class(s)));
    vector<int> vs = g_thorough ? vector<int>{ FRESH, BLUR1, BLUR2, COARSE } : vector<int>{ FRESH, BLUR2 };
    size_t ix = 0; for (auto& x : E) { ix++; for (int v : vs) for (long n0 : g_thorough ? vector<long>{ 0, 1, 2, 3, 5, 12, 40 } : vector<long>{ 0, 1, 2, 12 }) { long n = n0; if (!g_thorough && v == BLUR2 && n != 12) continue; if (n > 12 && !(S.F->d <= 3 && ix <= m)) continue; if (n == 12 && S.F->d > 4 && ix > m) continue; if (n > 5 && S.F->d > 12) n = 4; one(K, x, v, n, shared, false); if (n == 12 || n == 1) one(K, x, v, n, shared, true); } }
}
// long expansions: hundreds of terms of small-degree elements, complete expansions of rationals
static void longs(const Spec& S, long prec) {
    CField K(S, prec); mpz_class f0 = 1, f1 = 1; for (int i = 0; i < 300; i++) { mpz_class t = f0 + f1; f0 = f1; f1 = t; } for (int sg : { 1, -1 }) for (long n : { 100L, 400L }) one(K, Elem(S.F, mpq_class(sg * f1, f0)), FRESH, n, true, n == 400);
    if (S.F->d > (g_thorough ? 4 : 3)) return; Elem g(S.F, ref::Poly{ 0, 1 }); if (S.F->d == 1) g = Elem(S.F, mpq_class(f0, f1 - 2)); for (long n : S.F->d == 2 ? vector<long>{ 65, 300 } : vector<long>{ 65, g_thorough ? 200 : 100 }) one(K, g, FRESH, n, n > 100, false);
}
int main(int argc, char** argv) {
    init(argc, argv); vector<long> precs = g_thorough ? vector<long>{ 64, 5, 128 } : vector<long>{ 64, 9 };
    for (auto& S : order_fields(g_thorough)) for (long p : precs) for (int sh = 0; sh < 2; sh++) if (mine()) run(S, p, sh);
    for (auto& S : order_fields(g_thorough)) if (mine()) longs(S, 64);
    finish(); return g_nfail ? 1 : 0;
}
