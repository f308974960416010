// C08: field construction selects the specified root or rejects
#include "polys.hpp"
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
using namespace eantic;
// A: the uniqueness decision itself, on all dyadic intervals
static void decide(const string& s) {
    Roots R(s); PQ f(R.p); B x; vector<mpq_class> pts; for (int i = -16; i <= 16; i++) pts.push_back(mpq_class(i, 4)); for (auto& p : pts) p.canonicalize();
    for (auto& k : { 30L, 70L }) for (size_t i = 0; i < R.F.size(); i++) if (R.F[i]->d > 1) { auto r = R.F[i]->root(k); for (int o : { -1, 2 }) { mpq_class q((o < 0 ? r.first : r.second) + o, mpz_class(1) << k); q.canonicalize(); pts.push_back(q); } }
    std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    for (size_t i = 0; i < pts.size(); i++) for (size_t j = i; j < pts.size(); j++) { if (!setball(x, pts[i], pts[j])) continue; auto in = R.in(pts[i], pts[j]); bool want = in.size() == 1; STATE(s + pts[i].get_str() + "," + pts[j].get_str());
        for (long prec : { 64L, 2L, 20L }) { CASE("check_unique_real_root {%s} on [%s, %s] prec %ld", s.c_str(), pts[i].get_str().c_str(), pts[j].get_str().c_str(), prec); TRANS(); int g = fmpq_poly_check_unique_real_root(f, x, prec); OUTCOME(s + std::to_string(i * 100 + j)); if (!!g != want) FAIL("returned %d but the interval contains %zu roots", g, in.size()); } }
}
static string dec(const mpq_class& q, int digits) { // q must be a multiple of 10^-digits
    mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, digits); mpq_class v = abs(q) * t; mpz_class n = v.get_num(), hi = n / t, lo = n % t; string l = lo.get_str(); while ((int)l.size() < digits) l = "0" + l; return string(q < 0 ? "-" : "") + hi.get_str() + (digits ? "." + l : ""); }
static mpq_class p10(int k) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, k < 0 ? -k : k); return k >= 0 ? mpq_class(t) : mpq_class(mpz_class(1), t); }
static const char* var = "x";
static void construct(const string& s, const Roots& R, const string& poly, const string& emb, const mpq_class& m, const mpq_class& r, bool hasrad, long prec) {
    CASE("make(\"%s\", \"%s\", \"%s\", %ld)", poly.c_str(), var, emb.c_str(), prec); TRANS(); TRACE(); STATE(poly + emb);
    mpq_class w = (abs(m) + r) * ref::pow2q(-(prec - 3)) + r * ref::pow2q(-27), t = (abs(m) + r) * ref::pow2q(-(long)(4 * emb.size()) + 3) + r * ref::pow2q(-27);
    auto J = R.in(m - r, m + r), W = R.in(m - r - w, m + r + w), T = R.in(m - r - t, m + r + t);
    // what is required
    bool mustok = J.size() == 1 && T.size() == 1, mustreject = W.empty() || J.size() > 1;
    try { auto K = renf_class::make(poly, var, emb, prec); OUTCOME(poly + emb + "ok");
        if (mustreject) { FAIL("accepted although the approximation contains %zu roots", J.size()); return; }
        size_t want = J.size() == 1 ? J[0] : ~0ul; if (want == ~0ul) { for (size_t i : W) if (isolates(K->renf_t()->emb, R, i).empty()) want = i; if (want == ~0ul) { FAIL("enclosure %s is not around a root near the approximation", balls(K->renf_t()->emb).c_str()); return; } }
        string e = isolates(K->renf_t()->emb, R, want); if (!e.empty()) FAIL("%s", e.c_str());
        if (frompolyq(K->renf_t()->nf->pol) != R.p) FAIL("defining polynomial is %s", ref::str(frompolyq(K->renf_t()->nf->pol)).c_str()); if (K->degree() != (slong)R.p.size() - 1) FAIL("degree");
        ref::Elem g = R.root(want); if (!contains(K->gen().renf_elem_t()->emb, g)) FAIL("generator enclosure %s", balls(K->gen().renf_elem_t()->emb).c_str());
        // order of the generator against rationals near the root: observable selection
        for (size_t i = 0; i < R.F.size(); i++) { mpz_class fl = (R.root(i) * mpq_class(p2(20))).floor(); mpq_class q(fl, p2(20)); q.canonicalize(); int c = g.cmp(q); if ((K->gen() > renf_elem_class(*K, q)) != (c > 0)) FAIL("generator compares wrongly with %s", q.get_str().c_str()); }
    } catch (const std::invalid_argument&) { OUTCOME(poly + emb + "rej"); if (mustok) FAIL("rejected although the approximation contains exactly one root"); }
}
static void strings(const string& s) {
    Roots R(s); string poly = ref::pretty(R.p, var); vector<long> precs = g_thorough ? vector<long>{ 64, 2, 3, 10, 32, 65, 200, 1000 } : vector<long>{ 64, 4, 200 };
    for (size_t i = 0; i < R.F.size(); i++) for (int k : { 0, 1, 3, 8, 20, 45 }) { auto g = R.root(i); mpz_class fl = (g * p10(k)).floor(); 
        for (int o : { 0, 1, -3 }) { mpq_class m = mpq_class(fl + o) * p10(-k); 
            for (long p : precs) { construct(s, R, poly, dec(m, k), m, 0, false, p); } 
            vector<std::pair<string, mpq_class>> rads = { { "1e-" + std::to_string(k), p10(-k) }, { "2e-" + std::to_string(k), 2 * p10(-k) }, { "0.5e-" + std::to_string(k), p10(-k) / 2 }, { "1", 1 }, { "0.1", p10(-1) }, { "100", 100 }, { "4", 4 } };
            for (auto& rd : rads) for (long p : precs) { if (p != 64 && !g_thorough && (o || rd.first.size() < 3)) continue; construct(s, R, poly, dec(m, k) + " +/- " + rd.first, m, rd.second, true, p); if (o == 0 && p == 64) construct(s, R, poly, "[" + dec(m, k) + " +/- " + rd.first + "]", m, rd.second, true, p); } } }
    for (auto& z : { mpq_class(0), mpq_class(1), mpq_class(-2) }) for (auto& rd : vector<std::pair<string, mpq_class>>{ { "0.25", mpq_class(1, 4) }, { "1", 1 }, { "2", 2 }, { "1.5", mpq_class(3, 2) }, { "3", 3 }, { "1e10", p10(10) } }) for (long p : { 64L, 5L }) construct(s, R, poly, dec(z, 0) + " +/- " + rd.first, z, rd.second, true, p);
}
// roots at distance 2^-k/2 of each other and long approximations
static void close(const string& s) {
    Roots R(s); string poly = ref::pretty(R.p, var);
    for (size_t i = 0; i < R.F.size(); i++) for (int k : { 19, 30, 31, 32, 33, 60, 63, 77, 100, 120, 160, 200, 310, 400, 1000 }) { auto g = R.root(i); mpz_class fl = (g * p10(k)).floor(); for (int o : { 0, 1 }) { mpq_class m = mpq_class(fl + o) * p10(-k); for (long p : { 2L, 64L, 300L, 2000L }) { construct(s, R, poly, dec(m, k), m, 0, false, p); for (int x : { k, k - 1, k / 2 }) { string rd = "1e-" + std::to_string(x); construct(s, R, poly, dec(m, k) + " +/- " + rd, m, p10(-x), true, p); } } } }
    // just as many digits as needed, at starting precisions around the number of bits they carry
    for (size_t i = 0; i < R.F.size(); i++) { long sb = sepbits(R.F[i]); auto g = R.root(i); for (int j : { 0, 1, 2, 5 }) { int k = (int)(sb * 0.30103) + 1 + j; mpz_class fl = (g * p10(k)).floor(); mpq_class m = mpq_class(fl) * p10(-k); string e = dec(m, k) + " +/- 1e-" + std::to_string(k); long n = e.size(); for (long q = 2 * n; q <= 4 * n + 8; q += std::max(1L, n / 16)) for (int sh : { 0, 1, 3 }) if (q >> sh > 1) construct(s, R, poly, e, m, p10(-k), true, q >> sh); } }
}
static void bad(const char* p, const char* v, const char* e, long prec = 64) { CASE("make(\"%s\", \"%s\", \"%s\", %ld)", p, v, e, prec); TRANS(); TRACE(); STATE(string(p) + "|" + v + "|" + e); try { auto K = renf_class::make(p, v, e, prec); FAIL("accepted"); } catch (const std::invalid_argument&) { OUTCOME("reject"); } catch (const std::exception& x) { FAIL("raised something else: %s", x.what()); } }
static void malformed() {
    for (long prec : { 64L, 10L, 300L }) {
    for (auto p : { "", " ", "x^", "x^2-2*", "x^2 - 2)", "(x^2-2)", "y^2-2", "x^2-2y", "x^-2", "x^2 -- 2", "x^2 - 2/0", "x^2 - 2/", "x**2-2", "2 x^2 - ", "x^2 + a", "*x", "x^2-2 junk", "x^1.5 - 2", "+", "-", "^2", "x^2-2*x*x^y", "0x2*x", "x^99999999999999999999-2" }) bad(p, "x", "1.4142 +/- 0.1", prec);
    for (auto p : { "0", "1", "-7/3", "x - x", "0*x", "0*x^2 + 3" }) bad(p, "x", "1.4 +/- 2", prec);
    for (auto e : { "", " ", "abc", "1.4 +/- ", "+/-", "1.4.1", "1.4 +- 0.1", "1,4", "1.4 +/- 0.1 junk", "0x1.4", "1.4 +/- x", "--1.4", "e", "1.4e", "1.4 +/- 0.1 +/- 0.1" }) bad("x^2 - 2", "x", e, prec);
    for (auto e : { "nan", "inf", "-inf", "nan +/- 1" }) bad("x^2 - 2", "x", e, prec);
    for (auto e : { "0 +/- 1", "0 +/- 2", "1.5 +/- 0.01", "3", "100 +/- 1", "0", "-1.5 +/- 0.01", "0 +/- 1e1000", "1e1000", "1e-1000" }) bad("x^2 - 2", "x", e, std::max(prec, 64L));
    for (auto e : { "0", "0 +/- 10", "1", "-1 +/- 1e5" }) { bad("x^2 + 1", "x", e, prec); bad("x^4 + x^3 + x^2 + x + 1", "x", e, prec); }
    }
}
int main(int argc, char** argv) {
    init(argc, argv); g_hang_cpu = 60;
    vector<string> P; for (auto& s : irreducibles(1, g_thorough ? 5 : 3)) P.push_back(s); for (auto& s : irreducibles(2, g_thorough ? 5 : 3)) P.push_back(s); for (auto& s : irreducibles(3, g_thorough ? 3 : 2)) P.push_back(s); for (auto& s : irreducibles(4, g_thorough ? 2 : 1)) P.push_back(s); if (g_thorough) for (auto& s : irreducibles(5, 1)) P.push_back(s); auto H = hardpolys(g_thorough); for (auto& s : H) P.push_back(s);
    g_stat["polynomials"] = g_shard == 0 ? P.size() : 0;
    for (auto& s : P) if (mine()) decide(s);
    size_t k = 0; for (auto& s : P) { k++; bool hard = k > P.size() - H.size(); if (!g_thorough && !hard && k % 4) continue; if (mine()) strings(s); }
    for (auto s : { "-2 0 1", "-2 0 0 1", "1 0 -10 0 1" }) if (irreducible(parsepoly(s))) if (mine()) close(s);
    for (int k : { 65, 201, 529, 1201 }) { mpz_class t = p2(k); string s = mpz_class(t - 1).get_str() + " -2^" + std::to_string(k + 1) + " 2^" + std::to_string(k); if (mine()) close(s); s = mpz_class(4 * t - 1).get_str() + " -2^" + std::to_string(k + 2) + " 2^" + std::to_string(k); if (k < 600 && mine()) close(s); }
    if (mine()) malformed();
    SAMPLE("polynomials " + P[0] + " ... " + P.back());
    finish(); return g_nfail ? 1 : 0;
}
