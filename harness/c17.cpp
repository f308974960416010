// C17: hashes agree with equality and are stable
#include "cxx.hpp"
static std::hash<RE> H; static std::hash<RC> HF;
// values next to the points where rounding to double changes
static vector<ref::Elem> values(const Spec& s, bool th) {
    vector<ref::Elem> r = elements(s.F, th, th ? 1 : 0); auto ts = tinies(s.F, th); vector<mpq_class> pts; for (double d : { 0.0, 1.0, -1.0, 1.5, 0.1, 1e300, 5e-324, 1.7976931348623157e308, -2.2250738585072014e-308, 9007199254740992.0, 3.0 }) { mpq_class q(d); pts.push_back(q); double n = nextafter(d, 2e308); if (std::isfinite(n)) { mpq_class m = (q + mpq_class(n)) / 2; pts.push_back(m); } }
    if (th) for (double d = 1e-10; d < 1e10; d *= 17.3) { mpq_class q(d); pts.push_back((q + mpq_class(nextafter(d, 2e308))) / 2); }
    for (auto& q : pts) { ref::Elem b(s.F, q); r.push_back(b); size_t i = 0; for (auto& t : ts) { r.push_back(b + t); if (th || i++ % 2) r.push_back(b + t * mpq_class(abs(q) + 1)); } }
    for (long k : { 1023, 1030, -1080, -1074, -1100 }) r.push_back(ref::Elem(s.F, ref::Poly{ 0, ref::pow2q(k) }));
    return r;
}
static void one(const XF& K, const ref::Elem& e) {
    string es = e.s(); CASE("hash of %s in %s", es.c_str(), K.s.name.c_str()); TRANS(); TRACE(); STATE(K.s.name + es); size_t h = 0; bool first = true;
    auto see = [&](const RE& x, const char* how) { TRANS(); size_t g = H(x); if (first) { h = g; first = false; } else if (g != h) FAIL("hash differs for the element obtained by: %s", how); if (H(x) != g) FAIL("hash of the same object changes (%s)", how); };
    RE base = xe(K, e); see(base, "construction"); OUTCOME(std::to_string(h));
    for (int v = 0; v < NVAR; v++) { RE x = xe(K, e); xvary(x, v); see(x, varname(v)); x.floor(); see(x, "floor in between"); }
    { RE x = xe(K, e); RE g = K.K->gen(); x += g; x -= g; see(x, "+gen-gen"); x *= 3; x /= 3; see(x, "*3/3"); RE y(std::move(x)); see(y, "move"); RE z; z = y; see(z, "copy"); if (z != base) FAIL("copy differs"); }
    { RE x(*K.K, base.to_string(EANTIC_STR_ALG)); see(x, "text"); } { std::vector<mpq_class> c; for (auto& q : e.c) c.push_back(q); RE x(*K.K, c); see(x, "coefficients"); }
    { RE x = xe(K, e); bool b = x < base + 1; see(x, "comparison in between"); renf_refine_embedding(K.K->renf_t(), 400); see(x, "field refined"); see(base, "field refined, old element"); see(xe(K, e), "new element after refinement"); }
    if (e.rational()) { mpq_class q = e.rat(); see(RE(q), "rational field"); if (q.get_den() == 1) { mpz_class z = q.get_num(); see(RE(z), "mpz"); if (z.fits_slong_p()) see(RE((long)z.get_si()), "long"); if (z.fits_ulong_p()) see(RE((unsigned long)z.get_ui()), "ulong"); if (z.fits_sint_p()) see(RE((int)z.get_si()), "int"); } }
}
static void cross(const vector<XF>& Ks, const mpq_class& q) { CASE("hash of %s in all fields", q.get_str().c_str()); TRANS(); TRACE(); size_t h = H(RE(q)); for (auto& K : Ks) for (int v : { FRESH, BLUR1, BLUR2, COARSE }) { RE x(*K.K, q); xvary(x, v); if (H(x) != h) FAIL("hash differs in %s (%s)", K.s.name.c_str(), varname(v)); RE y = x + K.K->gen(); y -= K.K->gen(); if (y != RE(q)) FAIL("not equal"); if (H(y) != h) FAIL("hash differs in %s after arithmetic", K.s.name.c_str()); } }
int main(int argc, char** argv) {
    init(argc, argv); Hush hu; bool th = g_thorough; vector<string> fs = { "7 3", "-2 0 1", "-3 0 2^90", "-2 0 0 1", "-4 0 0 0 2", "1 0 -10 0 1", "-2 2000 -500000 1" }; if (th) fs = field_coeffs(true);
    for (auto& f : fs) for (long prec : th ? vector<long>{ 8, 64, 200 } : vector<long>{ 8, 64 }) { Spec s = mkfield(f, -1); auto vs = values(s, th); for (auto& e : vs) { if (!mine()) continue; XF K = xf(s, "x", prec); one(K, e); if (out_of_time()) break; } }
    { vector<XF> Ks; for (auto& f : fs) Ks.push_back(xf(mkfield(f, -1), "x")); vector<mpq_class> qs = wide_rats(); for (auto& e : values(specQ(), th)) qs.push_back(e.rat()); for (auto& q : qs) if (mine()) cross(Ks, q);
      for (size_t i = 0; i < Ks.size(); i++) { CASE("hash of field %s", Ks[i].s.name.c_str()); TRANS(); size_t h = HF(*Ks[i].K); for (long prec : { 2, 64, 300 }) for (long bits : { 20, 100, 500 }) { RP L = xmake(Ks[i].s, "x", prec, std::max(bits, sepbits(Ks[i].s.F) + 2)); if (!(*L == *Ks[i].K)) FAIL("field is not unique"); if (HF(*L) != h) FAIL("field hash differs"); } renf_refine_embedding(Ks[i].K->renf_t(), 900); if (HF(*Ks[i].K) != h) FAIL("field hash changed by refinement"); } }
    SAMPLE("1 + 2^-53 + tiny"); finish(); return g_nfail ? 1 : 0;
}
