// C19: operators, constructors, assignments with native integers, mpz_class, mpq_class
#include "cxx.hpp"
template <typename T> const char* tn(); 
#define TN(T) template <> const char* tn<T>() { return #T; }
TN(short) TN(unsigned short) TN(int) TN(unsigned) TN(long) TN(unsigned long) TN(long long) TN(unsigned long long) TN(mpz_class) TN(mpq_class)
template <typename T> mpq_class toref(const T& t) { if (std::is_signed<T>::value) { mpz_class r; long v = (long)t; mpz_set_si(r.get_mpz_t(), v); return r; } mpz_class r; mpz_set_ui(r.get_mpz_t(), (unsigned long)t); return r; }
template <> mpq_class toref(const mpz_class& z) { return z; }
template <> mpq_class toref(const mpq_class& q) { return q; }
template <typename T> vector<T> values(bool th) { typedef std::numeric_limits<T> L; std::set<T> s = { 0, 1, 2, 7, L::max(), T(L::max() - 1), T(L::max() / 2), T(L::max() / 2 + 1), L::min(), T(L::min() + 1), T(L::min() / 2), T(0) };
    if (L::is_signed) { s.insert(T(-1)); s.insert(T(-6)); s.insert(T(L::min() / 2 - 1)); } for (int k : { 8, 15, 16, 31, 32, 61, 62, 63 }) if (k < L::digits) { s.insert(T(T(1) << k)); s.insert(T((T(1) << k) - 1)); if (L::is_signed) { s.insert(T(-(T(1) << k))); s.insert(T(-(T(1) << k) - 1)); } }
    if (th) for (int k = 3; k < L::digits; k++) { s.insert(T(T(1) << k)); s.insert(T((T(1) << k) + 1)); if (L::is_signed) s.insert(T(-(T(1) << k) + 1)); }
    return vector<T>(s.begin(), s.end()); }
template <> vector<mpz_class> values(bool) { auto v = wide_ints(); v.push_back(p2(300) - 1); v.push_back(-p2(200)); return v; }
template <> vector<mpq_class> values(bool) { return wide_rats(); }
struct Op { const RE& x; const ref::Elem& e; const XF& K; };
template <typename T> void ops(const XF& K, const ref::Elem& e, int var, const T& t, bool arith) {
    mpq_class q = toref(t); ref::Elem n(K.s.F, q); const char* T_ = tn<T>(); string qs = q.get_str(), es = e.s(); auto mk = [&]() { RE x = xe(K, e); xvary(x, var); return x; };
#define LBL(o, l) CASE("%s in field %s (prec %ld, %s) %s %s %s", es.c_str(), K.s.name.c_str(), (long)K.K->renf_t()->prec, varname(var), o, T_, qs.c_str()); TRANS()
#define AR(o, r1, ok1, r2, ok2) { if (ok1) { LBL(#o, 0); ref::Elem want = r1; { RE x = mk(); const RE& y = x; xcheck("element" #o "number", y o t, want, *K.K); xcheck("left operand afterwards", x, e, *K.K); } { RE x = mk(); RE& r = (x o##= t); if (&r != &x) FAIL("compound assignment does not return its target"); xcheck("element" #o "=number", x, want, *K.K); } { xcheck("rvalue element" #o "number", mk() o t, want, *K.K); } } \
    if (ok2) { LBL(#o " (number on the left)", 1); RE x = mk(); ref::Elem want = r2; bool inK = want.K == K.s.F; RE z = t o x; \
      if (&z.parent() != &*K.K && !e.rational()) FAIL("result of number" #o "element is not in the field of the element"); if (!e.rational()) xcheck("number" #o "element", z, want, *K.K); else { if (!z.is_rational() || (mpq_class)z != want.rat()) FAIL("number" #o "element gives %s instead of %s", z.to_string().c_str(), want.s().c_str()); } xcheck("right operand afterwards", x, e, *K.K); } }
    if (arith) {
    AR(+, e + n, true, n + e, true) AR(-, e - n, true, n - e, true) AR(*, e * n, true, n * e, true) AR(/, e * mpq_class(1 / q), q != 0, n / e, !e.zero())
    }
    int c = e.cmp(q); LBL("compared with", 0); RE x = mk();
#define RL(o) { bool w = c o 0; if ((x o t) != w) FAIL("element " #o " number is %d", !w); RE y = mk(); if ((y o t) != w) FAIL("element " #o " number is %d on a fresh element", !w); bool v = 0 o c; RE z = mk(); if ((t o z) != v) FAIL("number " #o " element is %d", !v); if ((t o x) != v) FAIL("number " #o " element is %d (used element)", !v); }
    RL(==) RL(!=) RL(<) RL(>) RL(<=) RL(>=)
    xcheck("compared operand", x, e, *K.K); TRACE(); STATE(K.s.name + es + T_ + qs); OUTCOME(std::to_string(c) + es);
}
template <typename T> void ctor(const vector<XF>& Ks, const T& t) {
    mpq_class q = toref(t); string qs = q.get_str(); CASE("construction and assignment from %s %s", tn<T>(), qs.c_str()); TRANS(); const RC& QQ = RC::make();
    { RE x(t); xcheck("constructor", x, rq(q), QQ); } { RE x = t; xcheck("copy initialisation", x, rq(q), QQ); }
    for (auto& K : Ks) { RE x(*K.K, t); xcheck("constructor in a field", x, ref::Elem(K.s.F, q), *K.K); ref::Elem g(K.s.F, ref::Poly{ mpq_class(1, 3), mpq_class(5) }); RE y = xe(K, g); RE& r = (y = t); if (&r != &y) FAIL("assignment does not return its target"); xcheck("assignment", y, rq(q), QQ);
        RE m = xe(K, g); RE mm(std::move(m)); m = t; xcheck("assignment to a moved-from element", m, rq(q), QQ); xcheck("moved-to element", mm, g, *K.K); }
    RE z(mpq_class(-7, 2)); z = t; xcheck("assignment in the rational field", z, rq(q), QQ); TRACE();
}
template <typename T> void all(const vector<XF>& Ks, bool th) {
    auto vs = values<T>(th);
    for (auto& t : vs) if (mine()) ctor(Ks, t);
    for (auto& K : Ks) { auto el = order_elements(K.s.F, false); auto tn_ = tinies(K.s.F, th); vector<ref::Elem> base; size_t i = 0; for (auto& e : el) { if (th || i % 4 == 0 || i < 4) base.push_back(e); i++; }
        for (auto& t : vs) { if (!mine()) continue; ref::Elem n(K.s.F, toref(t)); vector<ref::Elem> xs = base; xs.push_back(n); xs.push_back(n.neg()); xs.push_back(n + ref::Elem(K.s.F, mpq_class(1))); xs.push_back(n - ref::Elem(K.s.F, mpq_class(1))); xs.push_back(n - ref::Elem(K.s.F, mpq_class(1, 3))); xs.push_back(n * mpq_class(1, 2)); size_t nb = xs.size(); for (size_t j = 0; j < tn_.size(); j++) if (th || j % 3 == 0) xs.push_back(n + tn_[j]);
            if (out_of_time()) return;
            for (size_t j = 0; j < xs.size(); j++) for (int v : (th ? vector<int>{ FRESH, BLUR1, BLUR2 } : vector<int>{ FRESH, BLUR2 })) { if (v != FRESH && j < base.size()) continue; ops<T>(K, xs[j], v, t, v == FRESH); } } }
}
template <typename T> void vec(const vector<XF>& Ks) { // coefficient vectors
    auto vs = values<T>(false); vector<T> pick; for (size_t i = 0; i < vs.size(); i++) if (i < 3 || i + 3 >= vs.size() || i % 5 == 0) pick.push_back(vs[i]);
    for (auto& K : Ks) for (size_t n = 0; n <= K.s.F->d && n <= 3; n++) { size_t tot = 1; for (size_t i = 0; i < n; i++) tot *= pick.size(); for (size_t c = 0; c < tot; c++) { if (!mine()) continue; vector<T> v; ref::Poly p; size_t k = c; for (size_t i = 0; i < n; i++) { v.push_back(pick[k % pick.size()]); p.push_back(toref(pick[k % pick.size()])); k /= pick.size(); }
        CASE("renf_elem_class(%s, vector<%s> %s)", K.s.name.c_str(), tn<T>(), ref::str(p).c_str()); TRANS(); RE x(*K.K, v); xcheck("constructor", x, ref::Elem(K.s.F, p), *K.K); } }
}
static void flintctors(const vector<XF>& Ks) {
    for (auto& q : wide_rats()) { if (!mine()) continue; CASE("construction and assignment from fmpq/fmpz %s", q.get_str().c_str()); TRANS(); Q f(q); const RC& QQ = RC::make(); xcheck("fmpq constructor", RE(f.v), rq(q), QQ); for (auto& K : Ks) { RE x(*K.K, f.v); xcheck("fmpq constructor in a field", x, ref::Elem(K.s.F, q), *K.K); RE y = xe(K, ref::Elem(K.s.F, ref::Poly{ 2, 3 })); y = f.v; xcheck("fmpq assignment", y, rq(q), QQ); RE m = xe(K, ref::Elem(K.s.F, ref::Poly{ 2, 3 })), mm(std::move(m)); m = f.v; xcheck("fmpq assignment to moved-from", m, rq(q), QQ); }
        if (q.get_den() == 1) { Z z(q.get_num()); xcheck("fmpz constructor", RE(z.v), rq(q), QQ); for (auto& K : Ks) { RE x(*K.K, z.v); xcheck("fmpz constructor in a field", x, ref::Elem(K.s.F, q), *K.K); RE y = xe(K, ref::Elem(K.s.F, ref::Poly{ 2, 3 })); y = z.v; xcheck("fmpz assignment", y, rq(q), QQ); RE m = xe(K, ref::Elem(K.s.F, ref::Poly{ 2, 3 })), mm(std::move(m)); m = z.v; xcheck("fmpz assignment to moved-from", m, rq(q), QQ); } } }
}
static void pows(const vector<XF>& Ks, bool th) {
    for (auto& K : Ks) { size_t i = 0; for (auto& e : order_elements(K.s.F, false)) { if (i++ > 14 && i % 5) continue; if (!mine()) continue; for (int n = -9; n <= 12; n++) { if (n < 0 && e.zero()) continue; CASE("pow(%s, %d) in %s", e.s().c_str(), n, K.s.name.c_str()); TRANS(); RE x = xe(K, e); ref::Elem w = n >= 0 ? e.pow(n) : e.inv().pow(-n); xcheck("member pow", x.pow(n), w, *K.K); xcheck("function pow", pow(x, n), w, *K.K); xcheck("argument of pow", x, e, *K.K); } }
        if (mine()) for (int s : { 1, -1 }) for (int n : { INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1 }) { CASE("pow(%d, %d) in %s", s, n, K.s.name.c_str()); TRANS(); RE x = xe(K, ref::Elem(K.s.F, mpq_class(s))); xcheck("pow", x.pow(n), ref::Elem(K.s.F, mpq_class((s < 0 && (n & 1)) ? -1 : 1)), *K.K); }
        if (mine()) for (int n : { 0, 1, 2, INT_MAX }) { CASE("pow(0, %d) in %s", n, K.s.name.c_str()); TRANS(); xcheck("pow", RE(*K.K).pow(n), ref::Elem(K.s.F, mpq_class(n == 0 ? 1 : 0)), *K.K); } }
}
int main(int argc, char** argv) {
    init(argc, argv); Hush h; vector<XF> Ks; bool th = g_thorough;
    for (auto s : th ? vector<string>{ "-1 1", "7 3", "-2 0 1", "-1/3 0 1/2", "-2 0 0 1", "-4 0 0 0 2", "-1 -1 0 0 0 1", "1 0 -10 0 1" } : vector<string>{ "7 3", "-2 0 1", "-2 0 0 1", "-4 0 0 0 2" }) { Ks.push_back(xf(mkfield(s, -1), "x", 64)); if (th) Ks.push_back(xf(mkfield(s, 0), "y", 128)); }
    all<short>(Ks, th); all<unsigned short>(Ks, th); all<int>(Ks, th); all<unsigned>(Ks, th); all<long>(Ks, th); all<unsigned long>(Ks, th); all<long long>(Ks, th); all<unsigned long long>(Ks, th); all<mpz_class>(Ks, th); all<mpq_class>(Ks, th);
    vec<int>(Ks); vec<unsigned>(Ks); vec<long>(Ks); vec<unsigned long>(Ks); vec<mpz_class>(Ks); vec<mpq_class>(Ks); flintctors(Ks); pows(Ks, th);
    SAMPLE("9223372036854775807L - (x^2/3 + 1)"); finish(); return g_nfail ? 1 : 0;
}
