// C04: floor, ceil, floor division
#include "near.hpp"
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
using ref::Elem;
static void one(CField& K, const Elem& x, int v, bool shared) {
    Elem zero(x.K, mpq_class(0)); mpz_class fl = x.floor(), ce = x.ceil(); OUTCOME(x.s() + fl.get_str());
    CASE("field %s prec %ld floor/ceil(%s [%s]) %s field", K.s.name.c_str(), K.prec, x.s().c_str(), varname(v), shared ? "shared" : "fresh"); TRACE();
    for (int order = 0; order < 2; order++) { Work w(K, x, v, zero, FRESH, shared); Z z(mpz_class(77)); 
        for (int k = 0; k < 2; k++) { if ((order ^ k) == 0) { renf_elem_floor(z, w.a, w.f()); if (toz(z) != fl) FAIL("floor returned %s, exact %s", toz(z).get_str().c_str(), fl.get_str().c_str()); } else { renf_elem_ceil(z, w.a, w.f()); if (toz(z) != ce) FAIL("ceil returned %s, exact %s", toz(z).get_str().c_str(), ce.get_str().c_str()); } TRANS(); check_elem("operand after rounding", w.a, x, w.f()); } }
}
static void two(CField& K, const Elem& x, const Elem& y, int vx, int vy, bool shared) {
    if (y.zero()) return; mpz_class q = (x / y).floor(); OUTCOME(x.s() + "//" + y.s());
    CASE("field %s prec %ld fdiv(%s [%s], %s [%s]) %s field", K.s.name.c_str(), K.prec, x.s().c_str(), varname(vx), y.s().c_str(), varname(vy), shared ? "shared" : "fresh"); TRACE(); TRANS();
    Work w(K, x, vx, y, vy, shared); Z z(mpz_class(-5)); renf_elem_fdiv(z, w.a, w.b, w.f()); if (toz(z) != q) FAIL("fdiv returned %s, exact %s", toz(z).get_str().c_str(), q.get_str().c_str()); check_elem("dividend", w.a, x, w.f()); check_elem("divisor", w.b, y, w.f());
}
static void run(const Spec& S, long prec, bool shared) {
    CField K(S, prec); auto E = order_elements(S.F, g_thorough); auto T = tinies(S.F, g_thorough);
    vector<int> vs = g_thorough ? vector<int>{ FRESH, BLUR1, BLUR2, TIGHT, COARSE } : vector<int>{ FRESH, BLUR2, COARSE };
    vector<mpz_class> ns = { 0, 1, -1, 7, -100, p2(53), -p2(64), p2(90) + 1 };
    for (auto& x : E) for (int v : vs) { STATE(S.name + x.s()); one(K, x, v, shared); }
    for (auto& n : ns) { for (int v : vs) one(K, Elem(S.F, mpq_class(n)), v, shared); for (auto& t : T) for (int v : vs) { Elem y = t + Elem(S.F, mpq_class(n)); STATE(S.name + y.s()); one(K, y, v, shared); } }
    for (auto& x : E) for (auto& y : E) two(K, x, y, FRESH, FRESH, shared);
    size_t i = 0; for (auto& y : E) { if (y.zero() || (!g_thorough && i++ % 3)) continue; for (auto& n : { mpz_class(0), mpz_class(1), mpz_class(-3), mpz_class(p2(70)) }) for (int v : vs) { Elem m = y * mpq_class(n); two(K, m, y, v, v, shared); if (v != FRESH) two(K, m, y, FRESH, v, shared); for (size_t j = 0; j < T.size(); j++) if (g_thorough || j % 2 == (v & 1)) { two(K, m + T[j], y, v, FRESH, shared); two(K, m, y + T[j], FRESH, v, shared); } } }
    for (auto& t : T) for (auto& u : T) two(K, t, u, FRESH, FRESH, shared);
    for (auto& t : abyss(S.F)) for (auto& n : { mpz_class(0), mpz_class(-3), mpz_class(p2(300)) }) { Elem N(S.F, mpq_class(n)); for (int v : { FRESH, BLUR2 }) { one(K, t + N, v, shared); one(K, N - t, v, shared); } for (size_t j : { size_t(1), E.size() - 1 }) { two(K, E[j] * mpq_class(n) + t, E[j], FRESH, FRESH, shared); two(K, E[j], t, FRESH, FRESH, shared); } }
}
static mpq_class rat(const Elem& e) { return e.rat(); }
// the same through the C++ interface: floor, ceil, floordiv, including rational operands living in other fields
static void runxx() {
    using namespace eantic; auto K = renf_class::make("x^2 - 2", "x", "1.4 +/- 0.2"); auto L = renf_class::make("y^3 - 3*y + 1", "y", "0.3 +/- 0.1"); 
    vector<Spec> S = { mkfield("-2 0 1", 1), mkfield("1 -3 0 1", 1), mkfield("-1 1", 0) }; const renf_class* R[] = { &*K, &*L, &renf_class::make() };
    std::cerr.setstate(std::ios::failbit);
    for (int f = 0; f < 3; f++) for (int g = 0; g < 3; g++) { auto E = order_elements(S[f].F, false), G = order_elements(S[g].F, false);
        for (auto& x : E) { vector<mpq_class> c(x.c); renf_elem_class a(*R[f], c); CASE("C++ floor(%s) in field %d", x.s().c_str(), f); TRACE(); TRANS(3); if (a.floor() != x.floor() || floor(a) != x.floor()) FAIL("floor"); if (a.ceil() != x.ceil() || ceil(a) != x.ceil()) FAIL("ceil");
            for (auto& y : G) { if (y.zero() || (f != g && !x.rational() && !y.rational())) continue; renf_elem_class b(*R[g], vector<mpq_class>(y.c)); CASE("C++ floordiv(%s in field %d, %s in field %d)", x.s().c_str(), f, y.s().c_str(), g); TRACE(); TRANS();
                mpz_class q; if (f == g) q = (x / y).floor(); else if (y.rational()) q = (x * (1 / y.rat())).floor(); else q = (y.inv() * x.rat()).floor();
                if (a.floordiv(b) != q) FAIL("floordiv returned %s, exact %s", a.floordiv(b).get_str().c_str(), q.get_str().c_str()); } } }
}
int main(int argc, char** argv) {
    init(argc, argv); vector<long> precs = g_thorough ? vector<long>{ 64, 5, 17, 128 } : vector<long>{ 64, 9 };
    for (auto& S : order_fields(g_thorough)) for (long p : precs) for (int sh = 0; sh < 2; sh++) if (mine()) run(S, p, sh);
    if (mine()) runxx();
    finish(); return g_nfail ? 1 : 0;
}
