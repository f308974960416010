// C15: text of elements and fields
#include "cxx.hpp"
#include "polys.hpp"
// parse a decimal like -1.234e-10 exactly; returns false if not a number; unit = weight of the last digit
static bool decimal(const string& s, mpq_class& v, mpq_class& unit) {
    size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-'; mpz_class m = 0; long e = 0; bool any = false, dot = false; for (; i < s.size() && (isdigit(s[i]) || s[i] == '.'); i++) { if (s[i] == '.') { if (dot) return false; dot = true; continue; } m = m * 10 + (s[i] - '0'); any = true; if (dot) e--; }
    if (!any) return false; if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; char* end; e += strtol(s.c_str() + i, &end, 10); if (*end) return false; i = s.size(); } if (i != s.size()) return false;
    mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, labs(e)); unit = e >= 0 ? mpq_class(t) : mpq_class(mpz_class(1), t); v = mpq_class(neg ? mpz_class(-m) : m) * unit; return true;
}
// ball text: "x", "[x +/- r]" or "[+/- r]": does it contain e?
static int balltext(string s, const ref::Elem& e) { mpq_class m = 0, r = 0, u; if (s.size() && s[0] == '[') { if (s.back() != ']') return -1; s = s.substr(1, s.size() - 2); size_t k = s.find("+/-"); if (k == string::npos) return -1; string a = s.substr(0, k), b = s.substr(k + 3); while (a.size() && a.back() == ' ') a.pop_back(); while (b.size() && b[0] == ' ') b.erase(0, 1); if (b == "inf") return 1; if (a.size() && !decimal(a, m, u)) return -1; if (!decimal(b, r, u)) return -1; } else if (!decimal(s, m, u)) return -1; return e.cmp(m - r) >= 0 && e.cmp(m + r) <= 0; }
static mpq_class DMAX() { static mpq_class d(std::numeric_limits<double>::max()); return d; }
static void approx(const string& d, const ref::Elem& e, const char* what) { // numeric text: exact value to the digits shown
    if (d == "inf" || d == "-inf") { if (d == "inf" ? e.cmp(DMAX()) <= 0 : e.cmp(-DMAX()) >= 0) FAIL("%s shows %s", what, d.c_str()); return; }
    mpq_class v, u; if (!decimal(d, v, u)) { FAIL("%s is not a number: %s", what, d.c_str()); return; } mpq_class av = abs(v), tiny = ref::pow2q(-1073); mpq_class tol = u + av * ref::pow2q(-50) + tiny; if (v == 0 && e.zero()) return; if (e.cmp(v - tol) < 0 || e.cmp(v + tol) > 0) FAIL("%s %s is not the value of %s", what, d.c_str(), e.s().c_str());
    if (!e.zero() && e.cmp(mpq_class(1, 1000000)) > 0 && v != 0) { size_t dg = 0; for (char c : d) { if (c == 'e') break; if (isdigit(c)) dg++; } }
}
#include <sys/mman.h>
#include <unistd.h>
// what a call prints on the standard output
template <typename Fn> static string printed(const Fn& fn) { fflush(stdout); static int m = memfd_create("out", 0); int save = dup(1); if (ftruncate(m, 0)) abort(); lseek(m, 0, SEEK_SET); dup2(m, 1); fn(); fflush(stdout); dup2(save, 1); close(save); string r(lseek(m, 0, SEEK_END), 0); if (pread(m, &r[0], r.size(), 0) != (ssize_t)r.size()) abort(); return r; }
static void elem(const XF& K, const ref::Elem& e, int var) {
    string v = K.var; CASE("text of %s in %s, generator %s, %s", e.s().c_str(), K.s.name.c_str(), v.c_str(), varname(var)); TRANS(); TRACE(); STATE(K.s.name + v + e.s());
    RE x = xe(K, e); xvary(x, var); string alg = x.to_string(EANTIC_STR_ALG), d = x.to_string(EANTIC_STR_D), arb = x.to_string(EANTIC_STR_ARB), both = x.to_string(EANTIC_STR_ALG | EANTIC_STR_D), aarb = x.to_string(EANTIC_STR_ALG | EANTIC_STR_ARB); OUTCOME(alg);
    auto back = [&](const string& t, const char* what) { try { RE y(*K.K, t); if (!(y == x)) FAIL("%s \"%s\" reads back as %s", what, t.c_str(), y.to_string(EANTIC_STR_ALG).c_str()); else xcheck(what, y, e, *K.K); } catch (const std::exception& ex) { FAIL("%s \"%s\" cannot be read: %s", what, t.c_str(), ex.what()); } };
    back(alg, "algebraic text"); if (both.size() < 2 || both[0] != '(' || both.back() != ')') FAIL("unexpected text %s", both.c_str()); else { string in = both.substr(1, both.size() - 2); back(in, "text with approximation"); size_t k = in.find(" ~ "); if (k == string::npos || in.substr(0, k) != alg) FAIL("text %s does not start with %s", both.c_str(), alg.c_str()); else approx(in.substr(k + 3), e, "approximation"); }
    approx(d, e, "double text"); if (balltext(arb, e) != 1) FAIL("ball text %s does not contain the value", arb.c_str()); { string in = aarb.substr(1, aarb.size() - 2); back(in, "text with ball"); size_t k = in.find(" ~ "); if (k == string::npos || balltext(in.substr(k + 3), e) != 1) FAIL("ball text %s does not contain the value", aarb.c_str()); }
    if (x.to_string() != both || static_cast<string>(x) != both || x.get_str() != both) FAIL("default text differs");
    { char* c = renf_elem_get_str_pretty(x.renf_elem_t(), v.c_str(), K.K->renf_t(), 12, EANTIC_STR_ALG); if (alg != c) FAIL("C text differs: %s", c); flint_free(c); }
    for (int fl : { EANTIC_STR_ALG, EANTIC_STR_D, EANTIC_STR_ARB, EANTIC_STR_ALG | EANTIC_STR_D, EANTIC_STR_ALG | EANTIC_STR_ARB }) { string out = printed([&] { renf_elem_print_pretty(x.renf_elem_t(), v.c_str(), K.K->renf_t(), 15, fl); }); char* c = renf_elem_get_str_pretty(x.renf_elem_t(), v.c_str(), K.K->renf_t(), 15, fl); if (out != c) FAIL("renf_elem_print_pretty prints %s instead of %s", out.c_str(), c); flint_free(c); }
    for (slong n : { 1, 2, 5, 10, 15, 30, 100, 1000 }) for (int fl : { EANTIC_STR_ARB, EANTIC_STR_D, EANTIC_STR_ALG, EANTIC_STR_ALG | EANTIC_STR_ARB, EANTIC_STR_ALG | EANTIC_STR_D }) { // C text with every number of digits
        char* c = renf_elem_get_str_pretty(x.renf_elem_t(), v.c_str(), K.K->renf_t(), n, fl); string t = c; flint_free(c); if (fl & EANTIC_STR_ALG) { if (t.substr(0, alg.size()) != alg) { FAIL("C text %s with %ld digits does not start with %s", t.c_str(), (long)n, alg.c_str()); continue; } t = t.substr(alg.size()); if (fl == EANTIC_STR_ALG) { if (!t.empty()) FAIL("C text is followed by %s", t.c_str()); continue; } if (t.substr(0, 3) != " ~ ") { FAIL("unexpected C text ending %s", t.c_str()); continue; } t = t.substr(3); }
        if (fl & EANTIC_STR_ARB) { if (balltext(t, e) != 1) FAIL("ball text %s with %ld digits does not contain the value", t.c_str(), (long)n); } else approx(t, e, "C approximation"); }
    { // stream, several elements in one
        RE g = K.K->gen(); for (const char* sep : { " ", "\n", "\t ", "  \n" }) for (int lead : { 0, 1 }) { std::stringstream io; if (lead) io << sep; io << x << sep << g << sep << x << sep << -x; K.K->set_pword(io); RE a, b, c, f; try { io >> a; xcheck("first element read from a stream", a, e, *K.K); io >> b >> c >> f; xcheck("second element read from a stream", b, ref::Elem(K.s.F, ref::Poly{ 0, 1 }), *K.K); xcheck("third element read from a stream", c, e, *K.K); xcheck("fourth element read from a stream", f, e.neg(), *K.K); } catch (const std::exception& ex) { FAIL("reading from the stream \"%s\" raises %s", io.str().c_str(), ex.what()); } } }
    { std::stringstream io(alg); K.K->set_istream(io); string w; bool sp = alg.find(' ') != string::npos; if (!sp) { RE a; io >> a; xcheck("algebraic text read from a stream", a, e, *K.K); } }
    xcheck("printed element", x, e, *K.K);
}
// the field of root i with an enclosure that ends right next to the neighbouring root (side -1, 1; gap 2^-j of the distance), or the one of renf_set_embeddings (side 0)
static RP offcentre(const Spec& s, const Roots& R, size_t i, const string& var, long prec, int side, int j) {
    PQ f(s.F->f); if (side == 0) { PZ z; fmpq_poly_get_numerator(z, f); vector<renf> nf(R.F.size()); CASE("renf_set_embeddings %s", s.name.c_str()); slong got = renf_set_embeddings_fmpz_poly(nf.data(), z, nf.size(), prec); if (got != (slong)nf.size()) { FAIL("%ld embeddings", (long)got); return nullptr; } RP K = RC::make(&nf[i], var); for (auto& x : nf) renf_clear(&x); return K; }
    if ((side < 0 && i == 0) || (side > 0 && i + 1 == R.F.size())) return nullptr; ref::Elem nb = R.root(side < 0 ? i - 1 : i + 1), me = R.root(i); long n = sepbits(s.F) + j; mpz_class a, b; auto fl = [&](const ref::Elem& e) { return (e * mpq_class(p2(n))).floor(); }; if (side < 0) { a = fl(nb) + 1; b = fl(me) + 2; } else { a = fl(me) - 1; b = fl(nb); } B x; if (!setball(x, mpq_class(a) * ref::pow2q(-n), mpq_class(b) * ref::pow2q(-n))) return nullptr; if (!isolates(x, R, i).empty()) return nullptr; CASE("renf_init %s from %s prec %ld", s.name.c_str(), balls(x).c_str(), prec); renf_t nf; renf_init(nf, f, x, prec); RP K = RC::make(nf, var); renf_clear(nf); return K; }
static void field(const Spec& s, const string& var, long prec, long bits, long refine, RP given = nullptr) {
    string pretty = ref::pretty(s.F->f, var); CASE("construction data of %s (%s), generator %s, prec %ld, enclosure %ld bits, refined to %ld", s.name.c_str(), pretty.c_str(), var.c_str(), prec, bits, refine); RP K = given ? given : xmake(s, var, prec, bits); given.reset(); CASE("construction data of %s (%s), generator %s, prec %ld, enclosure %ld bits, refined to %ld", s.name.c_str(), pretty.c_str(), var.c_str(), prec, bits, refine); TRANS(); TRACE(); STATE(s.name + var + std::to_string(prec) + "/" + std::to_string(bits) + "/" + std::to_string(refine));
    if (refine > 0) renf_refine_embedding(K->renf_t(), refine); else if (refine < 0) { RE x = K->gen() * 3; x.floor(); RE y = x - xe(*K, ref::Elem(s.F, ref::Poly{ mpq_class(1, 7), 3 })); y.sgn(); }
    ref::Elem g(s.F, ref::Poly{ 0, 1 }); string txt = K->to_string(); std::ostringstream os; os << *K; if (os.str() != txt) FAIL("field text differs between operators"); string pre = "NumberField("; size_t k = txt.rfind(", "); if (txt.substr(0, pre.size()) != pre || k == string::npos || txt.back() != ')') FAIL("unexpected field text %s", txt.c_str()); else { string pol = txt.substr(pre.size(), k - pre.size()), b = txt.substr(k + 2, txt.size() - k - 3); PQ p; if (fmpq_poly_set_str_pretty(p, pol.c_str(), var.c_str()) || frompolyq(p) != s.F->f) FAIL("field text shows polynomial %s", pol.c_str()); if (balltext(b, g) != 1) FAIL("field text shows enclosure %s", b.c_str()); }
    { string out = printed([&] { renf_print(K->renf_t()); }); size_t k2 = out.find(", "); PQ p; if (out.substr(0, pre.size()) != pre || k2 == string::npos || out.back() != ')' || fmpq_poly_set_str_pretty(p, out.substr(pre.size(), k2 - pre.size()).c_str(), "x") || frompolyq(p) != s.F->f) FAIL("renf_print prints %s", out.c_str()); }
    for (slong n : { 1, 2, 5, 10, 30, 100, 1000 }) { char* q = renf_get_str(K->renf_t(), var.c_str(), n); string t = q; flint_free(q); size_t k3 = t.find(", "); PQ pp; if (t.substr(0, pre.size()) != pre || k3 == string::npos || t.back() != ')' || fmpq_poly_set_str_pretty(pp, t.substr(pre.size(), k3 - pre.size()).c_str(), var.c_str()) || frompolyq(pp) != s.F->f) FAIL("renf_get_str with %ld digits gives %s", (long)n, t.c_str()); else if (balltext(t.substr(k3 + 2, t.size() - k3 - 3), g) != 1) FAIL("renf_get_str with %ld digits shows enclosure %s", (long)n, t.c_str()); }
    auto c = K->construction(); if (std::get<1>(c) != var) FAIL("construction data names generator %s", std::get<1>(c).c_str()); PQ p; if (fmpq_poly_set_str_pretty(p, std::get<0>(c).c_str(), var.c_str()) || frompolyq(p) != s.F->f) FAIL("construction data has polynomial %s", std::get<0>(c).c_str());
    if (std::get<3>(c) != prec) FAIL("construction data has precision %ld instead of %ld", std::get<3>(c), prec);
    try { RP L = RC::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); if (&*L != &*K) FAIL("construction data (%s) rebuilds a different field", std::get<2>(c).c_str()); L.reset(); K.reset(); L = RC::make(std::get<0>(c), std::get<1>(c), std::get<2>(c), std::get<3>(c)); XF f{ s, var, L }; xcheck("generator of the field rebuilt from its construction data", L->gen(), g, *L); if (!contains(L->renf_t()->emb, g)) FAIL("rebuilt field has another root"); RP M = xmake(s, var, 64); if (&*M != &*L) FAIL("rebuilt field differs from the original field"); } catch (const std::exception& ex) { FAIL("construction data (%s) is rejected: %s", std::get<2>(c).c_str(), ex.what()); }
}
int main(int argc, char** argv) {
    init(argc, argv); Hush h; bool th = g_thorough; vector<string> vars = { "x", "alpha", "x_1", "A9" };
    { size_t n = 0; for (auto& s : fields(th)) { XF K = xf(s, vars[n++ % vars.size()], n % 2 ? 64 : 16); auto el = elements(s.F, th, th ? 1 : 0); for (auto& t : tinies(s.F, th)) { el.push_back(t); el.push_back(t + ref::Elem(s.F, mpq_class(1))); } for (auto& q : wide_rats()) el.push_back(ref::Elem(s.F, q)); for (long k : { 1000, 1025, -1070, -1100, 30, -30 }) { el.push_back(ref::Elem(s.F, ref::pow2q(k))); el.push_back(ref::Elem(s.F, ref::Poly{ mpq_class(-ref::pow2q(k)), ref::pow2q(k) })); }
        if (s.F->d > 3) { ref::Poly p(s.F->d); p[s.F->d - 1] = -1; p[1] = mpq_class(-3, 2); el.push_back(ref::Elem(s.F, p)); }
        for (auto& e : el) { if (!mine()) continue; elem(K, e, FRESH); if (th) { elem(K, e, BLUR2); elem(K, e, COARSE); } if (out_of_time()) break; }
        // unreduced polynomial text
        if (mine()) for (auto t : { "#^7", "2*#^5 - #^3 + 1/2", "-#^9 + #", "#^2 + #^2", "1 - #^4/1" }) { string u; for (const char* c = t; *c; c++) if (*c == '#') u += K.var; else u += *c; if (string(t).find("/1") != string::npos) continue; CASE("text %s in %s", u.c_str(), s.name.c_str()); TRANS(); ref::Poly p; if (string(t) == "#^7") p = { 0, 0, 0, 0, 0, 0, 0, 1 }; else if (string(t)[0] == '2') p = { mpq_class(1, 2), 0, 0, -1, 0, 2 }; else if (string(t)[0] == '-') p = { 0, 1, 0, 0, 0, 0, 0, 0, 0, -1 }; else p = { 0, 0, 2 }; try { RE y(*K.K, u); xcheck("unreduced text", y, ref::Elem(s.F, p), *K.K); } catch (const std::exception& ex) { FAIL("rejected: %s", ex.what()); } } } }
    vector<Spec> fs = fields(th); for (auto s : { "-2 2000 -500000 1", "-2 0 0 0 -512 65536 -2097152 1", "-1/3 0 1/2", "-2^200 0 0 1", "-3 0 2^90", "-2^91 0 1" }) { if (!irreducible(parsepoly(s))) continue; size_t n = nroots(s); for (size_t i = 0; i < n; i++) fs.push_back(mkfield(s, i)); }
    // two close roots next to dyadic points 1, 3/2, 2^10: (2^k(x-c))^2 - 2 up to perturbation by x^3
    for (long k : th ? vector<long>{ 3, 10, 20, 40, 70, 130 } : vector<long>{ 3, 20, 70 }) for (auto c : { mpq_class(0), mpq_class(1), mpq_class(3, 2), mpq_class(1024), mpq_class(-1, 1024) }) { mpq_class A = ref::pow2q(2 * k); ref::Poly p = { A * c * c - 2, -2 * A * c, A }; mpz_class D = 1; for (auto& x : p) D = lcm(D, mpz_class(x.get_den())); string t; for (auto& x : p) t += mpq_class(x * D).get_num().get_str() + " "; if (!irreducible(parsepoly(t))) continue; size_t n = nroots(t); for (size_t i = 0; i < n; i++) fs.push_back(mkfield(t, i)); }
    for (auto& s : fs) for (auto& v : th ? vector<string>{ "x", "alpha" } : vector<string>{ "x" }) for (long prec : { 2, 4, 8, 53, 64, 200 }) { if (!mine()) continue; long sb = sepbits(s.F) + 2; for (long bits : th ? vector<long>{ sb, sb + 1, sb + 3, sb + 10, sb + 40, sb + 100, sb + 500 } : vector<long>{ sb, sb + 3, sb + 100 }) for (long ref : { 0L, -1L, 30L, 300L }) field(s, v, prec, bits, ref); }
    { vector<string> P = { "-2 2000 -500000 1", "-2 0 0 0 -512 65536 -2097152 1", "-2 0 1", "1 -3 0 1", "1 0 -10 0 1", "-2 2^41 -2^81 1", "-1 -2^70 1 2^70", cospoly(5) }; for (long k : { 1, 3, 10, 20, 40, 64, 70, 100, 130, 300 }) for (auto c : { mpq_class(1), mpq_class(0), mpq_class(-1, 3), mpq_class(1024), mpq_class(5, 8) }) { mpq_class A = ref::pow2q(2 * k + 1); ref::Poly p = { A * c * c - 1, -2 * A * c, A }; mpz_class D = 1; for (auto& x : p) D = lcm(D, mpz_class(x.get_den())); string t; for (auto& x : p) t += mpq_class(x * D).get_num().get_str() + " "; P.push_back(t); }
      for (auto& t : P) { if (!mine() || !irreducible(parsepoly(t))) continue; Roots R(t); for (size_t i = 0; i < R.F.size(); i++) { Spec s = mkfield(t, i); for (long prec : { 2, 10, 64, 200 }) for (int side : { 0, -1, 1 }) for (int j : { 1, 2, 3, 4, 6, 10, 20 }) { if (side == 0 && j > 1) continue; for (long ref : { 0L, -1L }) { RP K = offcentre(s, R, i, "x", prec, side, j); if (K) field(s, "x", prec, side * j, ref, std::move(K)); } } } } }
    SAMPLE("(-5/3*x^2 + 1/2 ~ -2.1457)"); finish(); return g_nfail ? 1 : 0;
}
