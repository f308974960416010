// C14: polynomial strings
#include "polyparse.hpp"
#include "alphabet.hpp"
static ref::Poly garbage = parsepoly("5 -7/3 0 11 0 0 0 2/9"); static vector<mpz_class> garbagez = { 5, -7, 0, 11, 0, 0, 0, 2 };
static bool same(const fmpq_poly_t q, const ref::Poly& p) { if ((size_t)q->length != p.size()) return false; Q t; for (size_t i = 0; i < p.size(); i++) { fmpq_poly_get_coeff_fmpq(t, q, i); if (toq(t) != p[i]) return false; } return fmpq_poly_is_canonical(q); }
static void one(const string& s, const string& var, bool z) {
    PolyParse o(s, var); if (o.skip) return; CASE("fmpq_poly_set_str_pretty(\"%s\", \"%s\")", s.c_str(), var.c_str()); TRANS(); char* h = strdup(s.c_str()); char* v = strdup(var.c_str());
    static fmpq_poly_struct* q = nullptr; if (!q) { q = new fmpq_poly_struct; fmpq_poly_init(q); } static PQ* g = new PQ(garbage); fmpq_poly_set(q, *g);
    int r = fmpq_poly_set_str_pretty(q, h, v); if (o.verdict == 0 && !r) FAIL("accepted as %s", ref::str(frompolyq(q)).c_str()); else if (o.verdict == 1 && r) FAIL("rejected"); else if (!r && !same(q, o.poly())) FAIL("read as %s instead of %s", ref::str(frompolyq(q)).c_str(), ref::str(o.poly()).c_str());
    if (s != h || var != v) FAIL("input string was modified");
    if (z) { CASE("fmpz_poly_set_str_pretty(\"%s\", \"%s\")", s.c_str(), var.c_str()); TRANS(); PZ p(garbagez); ref::Poly e = o.poly(); bool integral = true; for (auto& c : e) if (c.get_den() != 1) integral = false; r = fmpz_poly_set_str_pretty(p, h, v);
        if ((o.verdict == 0 || !integral) && !r) FAIL("accepted"); else if (o.verdict == 1 && integral && r) FAIL("rejected"); else if (!r) { ref::Poly got; for (auto& c : frompolyz(p)) got.push_back(c); if (got != e) FAIL("read as %s instead of %s", ref::str(got).c_str(), ref::str(e).c_str()); } }
    free(h); free(v); if (o.verdict != 0) OUTCOME(s);
}
static void words(const vector<string>& tok, int len, const string& var) {
    vector<int> ix; std::function<void(string, int)> rec = [&](string s, int l) { if (l >= 2 || len < 3) ; if (l == len) return; for (size_t k = 0; k < tok.size(); k++) { if (l == 2 && !mine()) continue; string t = s + tok[k]; if (l >= 2 || g_shard == 0) one(t, var, l < 5); rec(t, l + 1); } };
    if (g_shard == 0) one("", var, true); rec("", 0);
}
static void roundtrip(const ref::Poly& p, const string& var) {
    PQ a(p), b(garbage); char* t = fmpq_poly_get_str_pretty(a, var.c_str()); CASE("print and parse %s as \"%s\"", ref::str(p).c_str(), t); TRANS(); TRACE(); STATE(ref::str(p)); if (fmpq_poly_set_str_pretty(b, t, var.c_str()) || frompolyq(b) != p) FAIL("does not come back: %s", ref::str(frompolyq(b)).c_str());
    bool in = true; for (auto& c : p) if (c.get_den() != 1) in = false; if (in) { PZ z(garbagez); if (fmpz_poly_set_str_pretty(z, t, var.c_str())) FAIL("integer parse fails"); else { ref::Poly got; for (auto& c : frompolyz(z)) got.push_back(c); if (got != p) FAIL("integer parse gives %s", ref::str(got).c_str()); } } flint_free(t);
    // own spelling variants
    string s = ref::pretty(p, var), sq; for (char c : s) { if (c != ' ') sq += c; } string wide; for (char c : sq) { wide += c; if (!isalnum((unsigned char)c) && c != '_' && c != '/') wide += "  "; } if (p.size()) for (auto& v : { s, sq, string(" ") + s + " ", wide }) one(v, var, true);
}
// long texts: many monomials, long numbers, high exponents, long names
static void longs() {
    vector<string> names = { "x", string(40, 'q'), string(300, 'z') + "_7" }; mpz_class t100, t700; mpz_ui_pow_ui(t100.get_mpz_t(), 10, 100); mpz_ui_pow_ui(t700.get_mpz_t(), 7, 700); vector<mpq_class> big = { mpq_class(t100), mpq_class(-t100 - 1), mpq_class(t100 + 1, t700), mpq_class(-t700, t100), mpq_class(mpz_class(1), t700), mpq_class(t700 * t700 * t700 + 1) }; for (auto& b : big) b.canonicalize();
    for (auto& v : names) { for (int e : { 9, 10, 11, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024, 4095, 4096, 10000 }) if (mine()) for (auto& c : { mpq_class(1), mpq_class(-1), mpq_class(-5, 3), big[2] }) { if (e > 1001 && v.size() > 1) continue; ref::Poly p(e + 1); p[e] = c; roundtrip(p, v); p[0] = mpq_class(-7, 2); p[1] = big[0]; p[e - 1] = 1; roundtrip(p, v); }
        for (size_t i = 0; i < big.size(); i++) for (size_t j = 0; j < big.size(); j++) if (mine()) { roundtrip({ big[i] }, v); roundtrip({ 0, big[i] }, v); roundtrip({ big[i], big[j], -1, big[j] }, v); }
        for (int n : { 3, 10, 16, 17, 33, 64, 65, 100, 129, 300 }) if (mine()) for (int k = 0; k < 4; k++) { ref::Poly p(n); for (int i = 0; i < n; i++) p[i] = k == 0 ? mpq_class(1) : k == 1 ? mpq_class(i % 2 ? -i - 1 : 1, i % 3 + 1) : k == 2 ? big[i % big.size()] : mpq_class(i % 3 == 0 ? 0 : i), p[i].canonicalize(); ref::trim(p); if (v.size() > 100 && n > 100) continue; roundtrip(p, v); }
        // repeated monomials and long runs of blanks
        for (int n : { 2, 9, 17, 65, 200 }) if (mine()) { string s; for (int i = 0; i < n; i++) s += (i ? (i % 3 == 0 ? " - " : "+") : "") + std::to_string(i) + "*" + v + "^" + std::to_string(i % 5); one(s, v, true); s = string(n, ' ') + "2" + string(n, ' ') + "*" + string(n, ' ') + v + string(n, ' ') + "-" + string(n, ' ') + "1" + string(n, ' '); one(s, v, true); s = v + "^" + string(n, '0') + "3"; one(s, v, true); s = string(n, '0') + "3*" + v + "-" + string(n, '0') + "/" + string(n, '0') + "5"; one(s, v, true); s = "3/" + string(n, '0'); one(s, v, true); s = string(n, '9') + "/" + string(n, '9') + "*" + v + " + " + string(n, '9') + "x"; one(s, v, true); } }
}
int main(int argc, char** argv) {
    init(argc, argv); int L = g_thorough ? 7 : 6;
    words({ "x", "1", "2", "0", "+", "-", "*", "/", "^", " ", "y" }, L, "x");
    words({ "ab", "a", "b", "3", "+", "-", "*", "/", "^", " ", "_" }, g_thorough ? 6 : 5, "ab");
    words({ "x1", "x", "1", "2", "-", "*", "^", " " }, g_thorough ? 7 : 6, "x1");
    words({ "x", "X", "^2", "^10", "+", " - ", "*", "4/6", "12345678901234567890123", "3/", "(", ")", ".", "\t", "\xc3\xa9" }, g_thorough ? 6 : 5, "x");
    for (auto v : { "", " ", "1x", "x ", "x-y", "x+", "\xc3\xa9", "x.y", "*", "^", "x^" }) if (mine()) for (auto s : { "", "x", "1", "x^2 - 2", "2*x ", "1x", "x-y", "x+" }) one(s, v, true);
    vector<mpq_class> c = { 0, 1, -1, mpq_class(1, 2), mpq_class(-7, 3), 10, mpq_class(-p2(70)), mpq_class(p2(64) + 1, 3) };
    for (auto v : { "x", "alpha", "x_1", "_", "A9b" }) { for (auto& a : c) for (auto& b : c) for (auto& d : c) { if (!mine()) continue; for (auto& e : g_thorough ? c : vector<mpq_class>{ 0, -1, mpq_class(5, 4) }) { ref::Poly p = { a, b, d, e }; ref::trim(p); roundtrip(p, v); ref::Poly q(12); q[11] = d; q[10] = b; q[2] = e; q[0] = a; ref::trim(q); roundtrip(q, v); } } }
    longs();
    SAMPLE("\"2*x^2 - 1/2\""); finish(); return g_nfail ? 1 : 0;
}
