// C24: enumeration of embeddings, n-th roots, copying and comparing fields
#include "polys.hpp"
static void embed(const string& s, long prec) {
    Roots R(s); if (R.p.size() < 3) return; PQ f(R.p); PZ z; fmpq_poly_get_numerator(z, f); size_t n = R.F.size(); STATE(s); 
    for (size_t lim = 0; lim <= n + 1; lim++) { if (!g_thorough && lim != 0 && lim != n && lim != n + 1 && lim != 1) continue;
        CASE("renf_set_embeddings {%s} limit %zu prec %ld", s.c_str(), lim, prec); TRANS(); TRACE(); vector<renf> nf(lim + 1); memset(nf.data(), 0x5a, sizeof(renf) * nf.size()); renf guard = nf[std::min(lim, n)];
        slong got = renf_set_embeddings_fmpz_poly(nf.data(), z, lim, prec); OUTCOME(s + std::to_string(got)); if (got != (slong)n) FAIL("returned %ld, the polynomial has %zu real roots", (long)got, n);
        size_t m = std::min(lim, n); if (memcmp(&guard, &nf[m], sizeof guard)) FAIL("initialized more than %zu fields", m);
        if (got == (slong)n) for (size_t i = 0; i < m; i++) { string e = isolates(nf[i].emb, R, i); if (!e.empty()) FAIL("field %zu: %s", i, e.c_str()); if (frompolyz(z) != vector<mpz_class>(R.F[i]->fz)) FAIL("polynomial modified"); ref::Poly q = frompolyq(nf[i].nf->pol); if (q != ref::Poly(R.F[i]->fz.begin(), R.F[i]->fz.end())) FAIL("field %zu has polynomial %s", i, ref::str(q).c_str()); if (nf[i].prec != prec) FAIL("precision"); if (nf[i].immutable) FAIL("immutable"); if (renf_degree(&nf[i]) != (slong)R.p.size() - 1) FAIL("degree"); if (arb_rel_accuracy_bits(nf[i].emb) < prec) FAIL("field %zu accurate to %ld bits only", i, (long)arb_rel_accuracy_bits(nf[i].emb)); 
            for (size_t j = 0; j < m; j++) { TRANS(); bool eq = renf_equal(&nf[i], &nf[j]); if (eq != (i == j)) FAIL("renf_equal of embeddings %zu and %zu is %d", i, j, (int)eq); }
            renf_t c; renf_init_set(c, &nf[i]); e = isolates(c->emb, R, i); if (!e.empty()) FAIL("copy of field %zu: %s", i, e.c_str()); if (!renf_equal(c, &nf[i])) FAIL("copy of field %zu differs", i); renf_refine_embedding(c, 3 * prec + 100); if (!renf_equal(c, &nf[i]) || !renf_equal(&nf[i], c)) FAIL("refined copy of field %zu differs", i); for (size_t j = 0; j < m; j++) if (j != i && (renf_equal(c, &nf[j]) || renf_equal(&nf[j], c))) FAIL("refined copy of field %zu equals field %zu", i, j); renf_clear(c); }
        for (size_t i = 0; i < std::min<size_t>(m, std::max<slong>(got, 0)); i++) renf_clear(&nf[i]); }
}
static const ref::F& specL() { static ref::F F = mkfield("-1 1", 0).F; return F; }
static void nth(const mpq_class& d, unsigned long n, long prec) {
    ref::Poly p(n + 1); p[n] = 1; p[0] = -d; if (!irreducible(p)) return; string s; for (auto& c : p) s += c.get_str() + " "; Roots R(s); size_t i = R.F.size() - 1; CASE("renf_init_nth_root %s n=%lu prec %ld", d.get_str().c_str(), n, prec); TRANS(); TRACE(); STATE(s + "nth");
    Q q(d); renf_t nf; renf_init_nth_root_fmpq(nf, q, n, prec); if (toq(q) != d) FAIL("operand modified"); string e = isolates(nf->emb, R, i); if (!e.empty()) FAIL("%s", e.c_str()); if (arf_sgn(arb_midref(nf->emb)) <= 0) FAIL("not positive"); if (frompolyq(nf->nf->pol) != p) FAIL("polynomial %s", ref::str(frompolyq(nf->nf->pol)).c_str()); OUTCOME(s + "nth"); renf_refine_embedding(nf, 200 + prec); e = isolates(nf->emb, R, i); if (!e.empty()) FAIL("after refinement: %s", e.c_str()); 
    CElem g(nf); renf_elem_gen(g, nf); ref::Elem x = R.root(i); check_elem("generator", g, x, nf); CElem w(nf); renf_elem_pow(w, g, n, nf); Q dd(d); if (!renf_elem_equal_fmpq(w, dd, nf)) FAIL("n-th power is not the radicand"); renf_clear(nf);
}
// fields with the same polynomial but different roots, from balls of every coarseness
static void equality(const string& s) { Roots R(s); if (R.p.size() < 3) return; PQ f(R.p); struct E { renf_t nf; size_t i; string d; }; vector<std::unique_ptr<E>> v;
    for (size_t i = 0; i < R.F.size(); i++) { long sb = sepbits(R.F[i]); for (long k : { sb, sb + 1, sb + 3, sb + 40 }) for (long p : { 2L, 64L }) { auto e = std::make_unique<E>(); B x; rootball(x, R.F[i], k + 1); CASE("renf_init {%s} root %zu from %s", s.c_str(), i, balls(x).c_str()); if (!isolates(x, R, i).empty()) continue; renf_init(e->nf, f, x, p); e->i = i; e->d = "root " + std::to_string(i) + " from 2^-" + std::to_string(k + 1) + " prec " + std::to_string(p); v.push_back(std::move(e)); } }
    for (auto& a : v) for (auto& b : v) { CASE("renf_equal {%s} %s against %s", s.c_str(), a->d.c_str(), b->d.c_str()); TRANS(); bool eq = renf_equal(a->nf, b->nf); OUTCOME(s + a->d + b->d); if (eq != (a->i == b->i)) FAIL("returned %d", (int)eq); }
    for (auto& a : v) renf_clear(a->nf); }
// degree one: balls with the root in the interior, at an end, or as the midpoint
static void linear(const mpq_class& root) { ref::Poly p = { -root.get_num(), root.get_den() }; PQ f(p), f2({ mpq_class(-2 * root.get_num()), mpq_class(2 * root.get_den()) }); struct E { renf_t nf; string d; }; vector<std::unique_ptr<E>> v; vector<std::pair<mpq_class, mpq_class>> iv; if (root.get_den() == 1 || mpz_popcount(root.get_den_mpz_t()) == 1) for (auto& w : { mpq_class(1), mpq_class(1, 1024), mpq_class(p2(40)) }) { iv.push_back({ root, root + w }); iv.push_back({ root - w, root }); iv.push_back({ root - w, root + w }); iv.push_back({ root, root }); } for (auto& w : { mpq_class(2), mpq_class(64) }) { mpz_class fl; mpz_fdiv_q(fl.get_mpz_t(), root.get_num_mpz_t(), root.get_den_mpz_t()); iv.push_back({ fl - 1, mpq_class(fl + w) }); iv.push_back({ mpq_class(fl - w), fl + 1 }); }
    for (auto& i : iv) for (long pr : { 2L, 64L }) { auto e = std::make_unique<E>(); B x; if (!setball(x, i.first, i.second)) continue; e->d = "[" + i.first.get_str() + ", " + i.second.get_str() + "] prec " + std::to_string(pr); CASE("renf_init linear field with root %s from %s", root.get_str().c_str(), e->d.c_str()); renf_init(e->nf, f, x, pr); if (!contains(e->nf->emb, ref::Elem(specL(), root))) FAIL("enclosure misses the root"); v.push_back(std::move(e)); }
    renf_t o; { B x; Q q(root); arb_set_fmpq(x, q, 64); renf_init(o, f2, x, 64); }
    for (auto& a : v) { for (auto& b : v) { CASE("renf_equal of linear fields with root %s: %s against %s", root.get_str().c_str(), a->d.c_str(), b->d.c_str()); TRANS(); TRACE(); STATE(root.get_str() + a->d); OUTCOME(root.get_str() + a->d + b->d); if (!renf_equal(a->nf, b->nf)) FAIL("the same field is reported as different"); } renf_t c; renf_init_set(c, a->nf); if (!renf_equal(c, a->nf)) FAIL("copy differs"); CElem g(c); renf_elem_gen(g, c); Q q(root); if (!renf_elem_equal_fmpq(g, q, c)) FAIL("generator is not the root"); renf_clear(c); if (renf_equal(a->nf, o) || renf_equal(o, a->nf)) FAIL("fields with different polynomials are reported as equal"); }
    for (auto& a : v) renf_clear(a->nf); renf_clear(o); }
int main(int argc, char** argv) {
    init(argc, argv); g_hang_cpu = 60;
    vector<string> P; for (auto& s : irreducibles(2, g_thorough > 1 ? 12 : g_thorough ? 6 : 4, false)) P.push_back(s); for (auto& s : irreducibles(3, g_thorough > 1 ? 6 : g_thorough ? 4 : 3, false)) P.push_back(s); for (auto& s : irreducibles(4, g_thorough ? 3 : 2, false)) P.push_back(s); for (auto& s : irreducibles(5, g_thorough ? 2 : 1, false)) P.push_back(s); if (g_thorough) for (auto& s : irreducibles(6, 1, false)) P.push_back(s); if (g_thorough > 1) for (auto& s : irreducibles(7, 1, false)) P.push_back(s); auto H = hardpolys(g_thorough); for (auto& s : H) P.push_back(s);
    for (auto s : { "-2 0 2^200", "-2^201 0 1", "-7 0 0 2^300", "-7*2^300 0 0 1", "1 0 -2^130 0 1", "1 0 -2^66 0 1", "1 2^80 0 1", "2 2^63 0 0 1", "1 0 -2^64 0 0 1", "-2 2^41 -2^81 1", "-2 2^71 -2^141 1", "-1 2^71 -2^141 0 1", "-2 2^121 -2^241 1", "-2 2^301 -2^601 0 0 1", "-1 -2^70 1 2^70", "-3 0 2^70 0 -2^140 0 1", "-2 2^802 -2^1601 1", "-2 2^2002 -2^4001 1", "-2^5001 0 1", "-3 0 2^9000" }) if (irreducible(parsepoly(s))) P.push_back(s);
    for (int n : { 5, 8, 9, 11, 15 }) P.push_back(cospoly(n)); if (g_thorough > 1) P.push_back(cospoly(20));
    g_stat["polynomials"] = g_shard == 0 ? P.size() : 0;
    for (auto& s : P) for (long p : g_thorough ? vector<long>{ 64, 2, 10, 33, 200 } : vector<long>{ 64, 5 }) if (mine()) embed(s, p);
    for (auto& s : P) if (mine()) equality(s);
    for (auto s : { "0", "1", "-1", "5", "-7/3", "1/2", "22/7", "-1/1048576", "36893488147419103233" }) if (mine()) linear(mpq_class(s));
    vector<mpq_class> D; for (int n = 1; n <= (g_thorough ? 40 : 12); n++) for (int d = 1; d <= (g_thorough ? 12 : 6); d++) if (std::__gcd(n, d) == 1) D.push_back(mpq_class(n, d)); for (auto& z : wide_rats()) if (z > 0) D.push_back(z);
    for (auto& d : D) for (unsigned long n = 2; n <= (g_thorough > 1 ? 40 : g_thorough ? 9 : 6); n++) for (long p : { 64L, 2L, 20L, 300L }) if (mine()) nth(d, n, p);
    for (auto& d : { mpq_class(2), mpq_class(3), mpq_class(1, 2), mpq_class(22, 7), mpq_class(p2(100) + 1), mpq_class(mpz_class(3), p2(70)) }) for (unsigned long n : { 10, 13, 16, 20, 33, 64 }) for (long p : { 64L, 2L }) if (mine()) nth(d, n, p);
    SAMPLE("polynomials " + P[0] + " ... " + P.back()); finish(); return g_nfail ? 1 : 0;
}
