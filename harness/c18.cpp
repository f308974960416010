// C18: elements of different fields
#include "cxx.hpp"
static bool g_strict = false;
struct X { const XF* f; ref::Elem e; int v; };
static RE mk(const X& x) { RE r = xe(*x.f, x.e); xvary(r, x.v); return r; }
static string nm(const X& x) { return x.e.s() + " of " + x.f->s.name + "[" + x.f->var + "] (" + varname(x.v) + ")"; }
template <typename Fn> void irr(const char* what, const RE& a, const X& A, const RE& b, const X& B, Fn fn) { // must raise a logic error
    try { fn(); FAIL("%s did not raise an error", what); } catch (const std::logic_error&) { } catch (const std::exception& e) { FAIL("%s raised %s", what, e.what()); }
    xcheck("left operand", a, A.e, *A.f->K); xcheck("right operand", b, B.e, *B.f->K);
}
static void pair(const X& A, const X& B) {
    CASE("%s with %s", nm(A).c_str(), nm(B).c_str()); TRANS(); TRACE(); STATE(nm(A) + nm(B)); const RC &K = *A.f->K, &L = *B.f->K; bool ra = A.e.rational(), rb = B.e.rational(); bool same = &K == &L;
    if (!ra && !rb && !same) {
        RE a = mk(A), b = mk(B);
#define IR(op) irr("a " #op "= b", a, A, b, B, [&] { a op##= b; }); irr("a " #op " b", a, A, b, B, [&] { RE c = a op b; });
        IR(+) IR(-) IR(*) IR(/)
#define IC(op) irr("a " #op " b", a, A, b, B, [&] { bool c = a op b; });
        IC(==) IC(!=) IC(<) IC(>) IC(<=) IC(>=)
        irr("floordiv", a, A, b, B, [&] { mpz_class z = a.floordiv(b); }); irr("conversion", a, A, b, B, [&] { RE c(L, a); }); OUTCOME("error"); return;
    }
    const XF& T = ra && !rb ? *B.f : *A.f; ref::Elem x(T.s.F, A.e.c), y(T.s.F, B.e.c); // operands as elements of the target field
    auto res = [&](const char* what, const RE& r, const ref::Elem& w) { if (ra && rb && !same) { if (&r.parent() != &K && &r.parent() != &L) FAIL("%s: result in a third field", what); else if (!r.is_rational() || (mpq_class)r != w.rat()) FAIL("%s: got %s expected %s", what, r.to_string().c_str(), w.s().c_str()); else { ref::Elem z(&r.parent() == &K ? A.f->s.F : B.f->s.F, w.c); xcheck(what, r, z, r.parent()); } } else xcheck(what, r, w, *T.K); };
#define OK(op, w, ok) if (ok) { RE a = mk(A), b = mk(B); ref::Elem want = w; const RE &ca = a, &cb = b; res("a " #op " b", ca op cb, want); xcheck("left operand", a, A.e, K); xcheck("right operand", b, B.e, L); { RE c(a); RE& r = (c op##= b); if (&r != &c) FAIL("a " #op "= b does not return its target"); res("a " #op "= b", c, want); } xcheck("copied operand", a, A.e, K); xcheck("right operand", b, B.e, L); res("rvalue a " #op " b", mk(A) op b, want); res("a " #op " rvalue b", ca op mk(B), want); }
    if (g_strict && !same && &K != &RC::make() && &L != &RC::make()) { // the documented opt-in: arithmetic is refused unless one of the fields is the rational field
        RE a = mk(A), b = mk(B); IR(+) IR(-) IR(*) if (!y.zero()) { IR(/) } OUTCOME("refused"); } else {
    OK(+, x + y, true) OK(-, x - y, true) OK(*, x * y, true) OK(/, x / y, !y.zero()) }
    int c = x.cmp(y); { RE a = mk(A), b = mk(B);
#define CK(op) { bool w = c op 0; if ((a op b) != w) FAIL("a " #op " b is %d", !w); RE a2 = mk(A), b2 = mk(B); if ((a2 op b2) != w) FAIL("a " #op " b is %d (fresh operands)", !w); }
    CK(==) CK(!=) CK(<) CK(>) CK(<=) CK(>=) xcheck("left operand", a, A.e, K); xcheck("right operand", b, B.e, L);
    if (!y.zero() && (!g_strict || same || &K == &RC::make() || &L == &RC::make())) { mpz_class z = a.floordiv(b), w = (x / y).floor(); if (z != w) FAIL("floordiv is %s instead of %s", z.get_str().c_str(), w.get_str().c_str()); xcheck("left operand", a, A.e, K); xcheck("right operand", b, B.e, L); }
    // conversions: a into the field of b
    if (ra || same) { RE t(L, a); xcheck("conversion to the other field", t, ref::Elem(B.f->s.F, A.e.c), L); xcheck("converted operand", a, A.e, K); }
    RE q(RC::make()); if (ra) { RE t(RC::make(), a); xcheck("conversion to the rational field", t, rq(A.e.rat()), RC::make()); } else { irr("conversion to the rational field", a, A, b, B, [&] { RE t(RC::make(), a); }); }
    RE d(b); d = a; xcheck("assignment across fields", d, A.e, K); OUTCOME(std::to_string(c) + nm(A)); }
}
int main(int argc, char** argv) {
    init(argc, argv); Hush h; bool th = g_thorough; g_strict = getenv("LIBEANTIC_STRICT_BINOP") != nullptr; vector<XF> Ks;
    Ks.push_back(xf(specQ(), "a")); if (&*Ks[0].K != &RC::make()) { CASE("setup"); FAIL("field a-1 is not the rational field"); }
    auto add = [&](const string& c, int i, const string& v, long prec = 64) { Ks.push_back(xf(mkfield(c, i), v, prec)); };
    add("7 3", 0, "a"); add("-1 1", 0, "b"); add("-2 0 1", 1, "x"); add("-2 0 1", 0, "x"); add("-2 0 1", 1, "y"); add("-4 0 2", 1, "x"); add("-2 0 0 1", 0, "x"); add("1 -3 0 1", 1, "x"); add("-4 0 0 0 2", 1, "x", 128); add("-1 -1 0 0 0 1", 0, "t", 8);
    if (th) { add("-1/3 0 1/2", 0, "z"); add("-3 0 2^90", 1, "x"); add("1 0 -10 0 1", 2, "x"); add("1 -3 0 1", 2, "x"); add("-2^70 3", 0, "a"); add("0 1", 0, "a"); }
    for (size_t i = 0; i < Ks.size(); i++) for (size_t j = i + 1; j < Ks.size(); j++) if (&*Ks[i].K == &*Ks[j].K) { CASE("setup %s %s", Ks[i].s.name.c_str(), Ks[j].s.name.c_str()); FAIL("distinct fields are identified"); }
    vector<vector<X>> xs; vector<mpq_class> rats = { 0, 1, -1, mpq_class(1, 2), mpq_class(-22, 7), mpq_class(p2(62)), mpq_class(-p2(63)), mpq_class(p2(64) + 1, 3), mpq_class(mpz_class(-1), p2(70)), mpq_class(p2(130)) }; for (auto& q : rats) q.canonicalize();
    for (auto& K : Ks) { vector<X> v; for (auto& q : rats) { v.push_back({ &K, ref::Elem(K.s.F, q), FRESH }); } v.push_back({ &K, ref::Elem(K.s.F, mpq_class(7, 5)), BLUR2 }); v.push_back({ &K, ref::Elem(K.s.F, mpq_class(3)), COARSE });
        if (K.s.F->d > 1) { auto put = [&](ref::Poly p, int s) { v.push_back({ &K, ref::Elem(K.s.F, p), s }); }; put({ 0, 1 }, FRESH); put({ mpq_class(-7, 3), mpq_class(1, 2) }, BLUR1); put({ 1, -1 }, BLUR2); put({ mpq_class(p2(65)), mpq_class(-p2(63)) }, FRESH); put({ 0, mpq_class(3, 7) }, COARSE); if (K.s.F->d > 2) { put({ 0, 0, 1 }, FRESH); put({ 1, mpq_class(1, 3), mpq_class(-5, 2) }, BLUR1); } size_t tk = 0; for (auto& t : tinies(K.s.F, false)) { if (!th && tk++ % 5) continue; v.push_back({ &K, t, FRESH }); v.push_back({ &K, t + ref::Elem(K.s.F, mpq_class(1, 2)), BLUR2 }); v.push_back({ &K, t - ref::Elem(K.s.F, mpq_class(p2(62))), FRESH }); } }
        if (th) { size_t i = 0; for (auto& e : order_elements(K.s.F, true)) if (i++ % 3 == 0) v.push_back({ &K, e, FRESH }); }
        xs.push_back(v); }
    for (size_t i = 0; i < Ks.size(); i++) for (auto& a : xs[i]) { if (!mine()) continue; for (size_t j = 0; j < Ks.size(); j++) { size_t k = 0; for (auto& b : xs[j]) { k++; if (i == j && k % 4) continue; if (!th && !a.e.rational() && !b.e.rational() && k % 3 != j % 3) continue; pair(a, b); } } }
    SAMPLE("1/2 of Q(7/3) with x of Q(sqrt2)"); finish(); return g_nfail ? 1 : 0;
}
