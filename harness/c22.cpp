// C22: refinement of roots: soundness, progress, termination; elementary steps
#include "polys.hpp"
using ref::Elem;
static bool inside(const arb_t in, const arb_t out) { mpq_class m = arf2q(arb_midref(in)), r = mag2q(arb_radref(in)), M = arf2q(arb_midref(out)), Rr = mag2q(arb_radref(out)); return m - r >= M - Rr && m + r <= M + Rr; }
static long accuracy(const arb_t b) { if (mag_is_zero(arb_radref(b))) return 1L << 40; return arb_rel_accuracy_bits(b); }
static vector<std::pair<mpq_class, mpq_class>> starts(const Roots& R, size_t i) {
    vector<std::pair<mpq_class, mpq_class>> v; vector<mpq_class> pts; for (int k = -12; k <= 12; k++) { mpq_class q(k, g_thorough ? 2 : 1); q.canonicalize(); pts.push_back(q); } for (auto e : { 5, 40, 92, 110 }) { pts.push_back(mpq_class(p2(e))); pts.push_back(mpq_class(-p2(e))); }
    for (auto& k : { 8L, 25L }) { auto r = R.F[i]->root(k); for (auto& z : { mpz_class(r.first - 1), mpz_class(r.first), mpz_class(r.second), mpz_class(r.second + 3) }) { mpq_class q(z, p2(k)); q.canonicalize(); pts.push_back(q); } }
    // very close to the root on one side, far on the other
    { auto r = R.F[i]->root(120); mpq_class q(r.first, p2(120)); q.canonicalize(); for (long e : { 3L, 27L }) { v.push_back({ q, q + ref::pow2q(-e) }); mpq_class q2(r.second, p2(120)); q2.canonicalize(); v.push_back({ q2 - ref::pow2q(-e), q2 }); v.push_back({ q - ref::pow2q(-100), q + ref::pow2q(-100) }); } }
    std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    for (auto& a : pts) for (auto& b : pts) if (a < b) v.push_back({ a, b });
    vector<std::pair<mpq_class, mpq_class>> r; for (auto& p : v) { auto in = R.in(p.first, p.second); if (in.size() == 1 && in[0] == i) r.push_back(p); } return r;
}
static void refine(const string& s, const Roots& R, size_t i, const std::pair<mpq_class, mpq_class>& I, const vector<long>& ps) {
    B x; if (!setball(x, I.first, I.second)) return; PQ f(R.p); string sq; for (long p : ps) sq += std::to_string(p) + " "; STATE(s + I.first.get_str() + "," + I.second.get_str()); TRACE();
    CASE("renf_init {%s} from [%s, %s] prec %ld", s.c_str(), I.first.get_str().c_str(), I.second.get_str().c_str(), ps[0]); renf_t nf; renf_init(nf, f, x, ps[0]); TRANS();
    B old; arb_set(old, x); 
    for (size_t j = 0; j < ps.size(); j++) { CASE("{%s} from [%s, %s] refined to %s step %zu", s.c_str(), I.first.get_str().c_str(), I.second.get_str().c_str(), sq.c_str(), j); TRANS(); if (j) renf_refine_embedding(nf, ps[j]);
        string e = isolates(nf->emb, R, i); if (!e.empty()) { FAIL("%s", e.c_str()); break; } if (!inside(nf->emb, old)) FAIL("new enclosure %s is not inside the old one %s", balls(nf->emb).c_str(), balls(old).c_str());
        if (R.p.size() > 2 || j) if (accuracy(nf->emb) < ps[j]) FAIL("accuracy %ld below the requested %ld", accuracy(nf->emb), ps[j]);
        if (renf_set_immutable(nf, 0)) FAIL("field became immutable"); if (nf->prec != ps[0]) FAIL("precision changed"); arb_set(old, nf->emb); OUTCOME(s + std::to_string(i) + sq + balls(nf->emb)); }
    renf_clear(nf);
}
static void steps(const string& s, const Roots& R, size_t i, const std::pair<mpq_class, mpq_class>& I) {
    B x; if (!setball(x, I.first, I.second)) return; PQ f(R.p); PZ z; fmpq_poly_get_numerator(z, f); PZ d; fmpz_poly_derivative(d, z); auto g = R.root(i);
    for (long prec : { 2L, 5L, 17L, 64L, 200L }) { TRANS(3); B y;
        CASE("newton step {%s} on [%s, %s] prec %ld", s.c_str(), I.first.get_str().c_str(), I.second.get_str().c_str(), prec);
        for (int it = 0; it < 4; it++) { B a; if (it == 0) arb_set(a, x); else arb_set(a, y); B y2; if (!fmpz_poly_newton_step_arb(y2, z, d, a, prec)) break; arb_set(y, y2); if (!contains(y, g)) FAIL("result %s of iteration %d does not contain the root", balls(y).c_str(), it); if (!inside(y, a) || arb_equal(y, a)) FAIL("step %d reported success without shrinking the ball", it); }
        CASE("bisection step {%s} on [%s, %s] prec %ld", s.c_str(), I.first.get_str().c_str(), I.second.get_str().c_str(), prec);
        arb_set(y, x); for (int it = 0; it < 6; it++) { B a, y2; arb_set(a, y); if (!fmpz_poly_bisection_step_arb(y2, z, a, prec)) break; arb_set(y, y2); if (!contains(y, g)) FAIL("result %s of iteration %d does not contain the root", balls(y).c_str(), it); if (!inside(y, a) || arb_equal(y, a)) FAIL("step %d reported success without shrinking the ball", it); }
        if (R.p.size() > 2) { CASE("bisection step of endpoints {%s} on [%s, %s] prec %ld", s.c_str(), I.first.get_str().c_str(), I.second.get_str().c_str(), prec); arf_t l, r; arf_init(l); arf_init(r); setarf(l, I.first); setarf(r, I.second); ref::Poly zp = R.p; int sl = sgn(ref::eval(zp, I.first)), sr = sgn(ref::eval(zp, I.second)); 
            if (sl * sr < 0) for (int it = 0; it < 5; it++) { mpq_class ol = arf2q(l), o2 = arf2q(r); _fmpz_poly_bisection_step_arf(l, r, z.v->coeffs, z.v->length, sl, sr, prec); mpq_class nl = arf2q(l), nr = arf2q(r); if (nl < ol || nr > o2) FAIL("interval grew"); if (g.cmp(nl) < 0 || g.cmp(nr) > 0) FAIL("interval [%s, %s] lost the root", nl.get_str().c_str(), nr.get_str().c_str()); }
            arf_clear(l); arf_clear(r); } }
}
int main(int argc, char** argv) {
    init(argc, argv); g_hang_cpu = 60;
    vector<string> P; for (auto& s : irreducibles(1, 3)) P.push_back(s); for (auto& s : irreducibles(2, g_thorough ? 4 : 2)) P.push_back(s); for (auto& s : irreducibles(3, g_thorough ? 3 : 2)) P.push_back(s); for (auto& s : irreducibles(4, g_thorough ? 2 : 1)) P.push_back(s); auto H = hardpolys(g_thorough); for (auto& s : H) P.push_back(s);
    vector<vector<long>> seqs = { { 64, 128, 100, 500 }, { 4, 8, 9, 70 }, { 2, 300 } }; if (g_thorough) { seqs.push_back({ 1000 }); seqs.push_back({ 2, 3, 4, 5, 6, 7, 8 }); seqs.push_back({ 64, 64, 65, 3000 }); }
    g_stat["polynomials"] = g_shard == 0 ? P.size() : 0; size_t k = 0;
    for (auto& s : P) { k++; if (!mine()) continue; Roots R(s); for (size_t i = 0; i < R.F.size(); i++) { auto S = starts(R, i); size_t n = 0; if (!S.empty() && (g_thorough || k % 4 == 0 || k > P.size() - H.size())) refine(s, R, i, S[S.size() / 2], g_thorough ? vector<long>{ 64, 5000, 4000, 12000, 20000 } : vector<long>{ 64, 3000, 2500, 6000 }); for (auto& I : S) { steps(s, R, i, I); n++; for (size_t q = 0; q < seqs.size(); q++) if (g_thorough || q == n % seqs.size() || n < 8) refine(s, R, i, I, seqs[q]); } } }
    SAMPLE("polynomials " + P[0] + " ... " + P.back());
    finish(); return g_nfail ? 1 : 0;
}
