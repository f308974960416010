// C03: sign, comparisons and equality on all pairs, near pairs and enclosure/field states.
#include "near.hpp"
using ref::Elem;
static void pairs(CField& K, const Elem& x, const Elem& y, int vx, int vy, bool shared) {
    const char* fn = K.s.name.c_str(); int c = x.cmp(y); bool eq = c == 0;
    CASE("field %s prec %ld cmp(%s [%s], %s [%s]) %s field", fn, K.prec, x.s().c_str(), varname(vx), y.s().c_str(), varname(vy), shared ? "shared" : "fresh"); TRACE(); OUTCOME(x.s() + (c < 0 ? "<" : c ? ">" : "=") + y.s());
    { Work w(K, x, vx, y, vy, shared); int r = renf_elem_cmp(w.a, w.b, w.f()); TRANS(); if (sg(r) != c) FAIL("cmp returned %d, exact order is %d", r, c); check_elem("left operand after cmp", w.a, x, w.f()); check_elem("right operand after cmp", w.b, y, w.f());
      r = renf_elem_cmp(w.b, w.a, w.f()); TRANS(); if (sg(r) != -c) FAIL("second, reversed cmp returned %d, exact order is %d", r, -c);
      r = renf_elem_equal(w.a, w.b, w.f()); TRANS(); if (!!r != eq) FAIL("equal after cmp returned %d, exact %d", r, eq); }
    { Work w(K, x, vx, y, vy, shared); int r = renf_elem_equal(w.a, w.b, w.f()); TRANS(); if (!!r != eq) FAIL("equal returned %d, exact %d", r, eq); }
}
static void single(CField& K, const Elem& x, int v, bool shared) {
    const char* fn = K.s.name.c_str(); Elem zero(x.K, mpq_class(0));
    CASE("field %s prec %ld sgn(%s [%s])", fn, K.prec, x.s().c_str(), varname(v)); TRACE();
    { Work w(K, x, v, zero, FRESH, shared); int r = renf_elem_sgn(w.a, w.f()); TRANS(); if (r != x.sgn()) FAIL("sgn returned %d, exact %d", r, x.sgn()); check_elem("operand after sgn", w.a, x, w.f()); if (renf_elem_cmp(w.a, w.a, w.f()) != 0) FAIL("cmp of an element with itself is not 0"); if (!renf_elem_equal(w.a, w.a, w.f())) FAIL("element not equal to itself"); TRANS(2); }
    // rationals: alphabet plus the floor/ceil and dyadic neighbours of x at several scales, and x itself when rational
    vector<mpq_class> qs = wide_rats(); if (!g_thorough) { vector<mpq_class> t; for (size_t i = 0; i < qs.size(); i++) if (i < 5 || i % 2) t.push_back(qs[i]); qs = t; }
    for (long k : { 0, 20, 64, 150, 400 }) { mpz_class f = (x * mpq_class(mpz_class(1) << k)).floor(); for (int d = 0; d < 2; d++) { mpq_class q(f + d, mpz_class(1) << k); q.canonicalize(); qs.push_back(q); } }
    if (x.rational()) { qs.push_back(x.rat()); qs.push_back(x.rat() + ref::pow2q(-100)); qs.push_back(-x.rat()); }
    for (auto& q : qs) {
        int c = x.cmp(q); mpz_class z = q.get_num(); bool iz = q.get_den() == 1;
        CASE("field %s prec %ld compare %s [%s] with rational %s", fn, K.prec, x.s().c_str(), varname(v), q.get_str().c_str()); TRACE();
        Work w(K, x, v, zero, FRESH, shared); Q qq(q); Z zz(z); renf* nf = w.f();
        int r = renf_elem_cmp_fmpq(w.a, qq, nf); TRANS(); if (sg(r) != c) FAIL("cmp_fmpq returned %d, exact %d", r, c);
        r = renf_elem_equal_fmpq(w.a, qq, nf); TRANS(); if (!!r != (c == 0)) FAIL("equal_fmpq returned %d", r);
        check_elem("operand after cmp_fmpq", w.a, x, nf);
        if (iz) { Work u(K, x, v, zero, FRESH, shared); nf = u.f(); r = renf_elem_cmp_fmpz(u.a, zz, nf); TRANS(); if (sg(r) != c) FAIL("cmp_fmpz returned %d, exact %d", r, c); r = renf_elem_equal_fmpz(u.a, zz, nf); if (!!r != (c == 0)) FAIL("equal_fmpz returned %d", r); check_elem("operand after cmp_fmpz", u.a, x, nf); }
        if (iz && is_si(z)) { Work u(K, x, v, zero, FRESH, shared); nf = u.f(); r = renf_elem_cmp_si(u.a, z.get_si(), nf); TRANS(); if (sg(r) != c) FAIL("cmp_si returned %d, exact %d", r, c); r = renf_elem_equal_si(u.a, z.get_si(), nf); if (!!r != (c == 0)) FAIL("equal_si returned %d", r); check_elem("operand after cmp_si", u.a, x, nf); }
        if (iz && is_ui(z)) { Work u(K, x, v, zero, FRESH, shared); nf = u.f(); r = renf_elem_cmp_ui(u.a, z.get_ui(), nf); TRANS(); if (sg(r) != c) FAIL("cmp_ui returned %d, exact %d", r, c); r = renf_elem_equal_ui(u.a, z.get_ui(), nf); if (!!r != (c == 0)) FAIL("equal_ui returned %d", r); check_elem("operand after cmp_ui", u.a, x, nf); }
    }
}
static void run(const Spec& S, long prec, bool shared) {
    CField K(S, prec); auto E = order_elements(S.F, g_thorough); auto T = tinies(S.F, g_thorough);
    vector<int> vs = g_thorough ? vector<int>{ FRESH, BLUR1, BLUR2, TIGHT, COARSE } : vector<int>{ FRESH, BLUR2, COARSE };
    for (auto& e : E) STATE(S.name + e.s());
    for (auto& x : E) for (int v : vs) single(K, x, v, shared);
    for (auto& x : T) for (int v : vs) { STATE(S.name + x.s()); single(K, x, v, shared); }
    for (auto& x : E) for (auto& y : E) { pairs(K, x, y, FRESH, FRESH, shared); if (g_thorough) pairs(K, x, y, BLUR2, COARSE, shared); }
    size_t i = 0; for (auto& x : E) { if (!g_thorough && i++ % 3) continue; for (auto& t : T) for (int v : vs) { Elem y = x + t; STATE(S.name + y.s()); pairs(K, x, y, v, v, shared); pairs(K, y, x, FRESH, v, shared); } for (int v : vs) for (int u : vs) pairs(K, x, x, v, u, shared); }
    for (auto& t : abyss(S.F)) { STATE(S.name + t.s()); single(K, t, FRESH, shared); for (size_t j : { size_t(1), E.size() - 1 }) { pairs(K, E[j], E[j] + t, FRESH, FRESH, shared); pairs(K, E[j] + t, E[j], BLUR2, FRESH, shared); } }
    SAMPLE("field " + S.name + ": compare " + E.back().s() + " with " + (E.back() + T.back()).s());
}
int main(int argc, char** argv) {
    init(argc, argv); vector<long> precs = g_thorough ? vector<long>{ 64, 5, 17, 128 } : vector<long>{ 64, 9 };
    for (auto& S : order_fields(g_thorough)) for (long p : precs) for (int sh = 0; sh < 2; sh++) if (mine()) run(S, p, sh);
    finish(); return g_nfail ? 1 : 0;
}
