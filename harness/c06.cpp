// C06: renf_elem_get_arb delivers the accuracy asked for, for every sequence of requested precisions
#include "near.hpp"
using ref::Elem;
// number of accurate bits as the library documents it: radius at most |mid| 2^-prec
static bool accurate(const arb_t b, long prec) { if (!arb_is_finite(b)) return false; mpq_class m = abs(arf2q(arb_midref(b))), r = mag2q(arb_radref(b)); return r == 0 || r * ref::pow2q(prec) <= m; }
static void seq(CField& K, const Elem& x, int v, const vector<long>& ps, bool shared) {
    Elem zero(x.K, mpq_class(0)); string sq; for (long p : ps) sq += std::to_string(p) + " "; Work w(K, x, v, zero, FRESH, shared); TRACE(); B out;
    for (size_t i = 0; i < ps.size(); i++) { CASE("field %s prec %ld get_arb(%s [%s]) at step %zu of precisions %s, %s field", K.s.name.c_str(), K.prec, x.s().c_str(), varname(v), i, sq.c_str(), shared ? "shared" : "fresh"); TRANS(); STATE(K.s.name + x.s() + std::to_string(ps[i])); 
        renf_elem_get_arb(out, w.a, w.f(), ps[i]); OUTCOME(x.s() + sq);
        if (!contains(out, x)) FAIL("ball %s does not contain the value", balls(out).c_str()); else if (!accurate(out, ps[i])) FAIL("ball %s is not accurate to %ld bits", balls(out).c_str(), ps[i]); if (x.zero() && !arb_is_zero(out)) FAIL("zero not exact");
        check_elem("operand", w.a, x, w.f()); }
}
static void run(const Spec& S, long prec, bool shared, size_t chunk, size_t chunks) { // the elements are split into chunks, explored with a field each
    CField K(S, prec); auto E = order_elements(S.F, g_thorough); auto T = tinies(S.F, g_thorough);
    for (auto& t : T) { E.push_back(t); E.push_back(t + Elem(S.F, mpq_class(-3, 7))); E.push_back(t * mpq_class(p2(200))); E.push_back(t * mpq_class(1, p2(300))); }
    if (S.F->d > 1) { Elem g(S.F, ref::Poly{ 0, 1 }), y = g; for (int i = 0; i < 6; i++) { y = y - Elem(S.F, mpq_class(y.floor())); y = y * mpq_class(1000) ; } E.push_back(y); }
    vector<vector<long>> seqs = { { 2 }, { 64 }, { 53, 10 }, { 10, 200, 30 }, { 500 }, { 300, 64, 301 } }; if (g_thorough) { seqs = {}; for (long a : { 2, 17, 64, 130, 700 }) { for (long b : { 2, 64, 65, 300 }) for (long c : { 10, 700 }) seqs.push_back({ a, b, c }); } }
    vector<int> vs = g_thorough ? vector<int>{ FRESH, BLUR1, BLUR2, TIGHT, COARSE } : vector<int>{ FRESH, BLUR2, COARSE };
    for (auto& t : abyss(S.F, 5000)) { E.push_back(t); }
    { vector<Elem> mineE; for (size_t i = chunk; i < E.size(); i += chunks) mineE.push_back(E[i]); E = mineE; }
    { size_t j = 0; for (auto& x : E) if (j++ % 8 == 0) { seq(K, x, FRESH, { 10, 5000, 64 }, shared); seq(K, x, BLUR2, g_thorough > 1 ? vector<long>{ 3000, 20000 } : vector<long>{ 3000, 9000 }, shared); } }
    if (chunk == 1) for (auto& x : abyss(S.F)) { seq(K, x, FRESH, { 64, 300, 10 }, shared); seq(K, x, BLUR2, { 64 }, shared); seq(K, x + Elem(S.F, mpq_class(1)), FRESH, { 64 }, shared); }
    size_t i = 0; for (auto& x : E) for (int v : vs) for (auto& s : seqs) { if (!g_thorough && v != FRESH && (i++ % 3)) continue; seq(K, x, v, s, shared); }
}
int main(int argc, char** argv) {
    init(argc, argv); vector<long> precs = g_thorough ? vector<long>{ 64, 5, 128 } : vector<long>{ 64, 9 };
    for (auto& S : order_fields(g_thorough)) for (long p : precs) for (int sh = 0; sh < 2; sh++) for (size_t c = 0; c < 8; c++) if (mine()) run(S, p, sh, c, 8);
    SAMPLE("field x^2-2: precisions 300 64 301 of 1-x/2^200"); finish(); return g_nfail ? 1 : 0;
}
