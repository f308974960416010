// C05: conversion to double in all rounding modes
#include "near.hpp"
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
#include <cfloat>
#include <cmath>
#include <sys/wait.h>
using ref::Elem;
static const arf_rnd_t MODES[] = { ARF_RND_NEAR, ARF_RND_FLOOR, ARF_RND_CEIL, ARF_RND_DOWN, ARF_RND_UP };
static const char* MN[] = { "nearest", "floor", "ceil", "toward zero", "away from zero" };
struct Exact { int sign = 0; mpz_class m; long u = 0; bool inexact = false; int half = 0; bool over = false; }; // |v| = (m + frac) 2^u, m < 2^53; half = cmp(frac, 1/2)
static Exact exact(const Elem& x) {
    Exact r; r.sign = x.sgn(); if (!r.sign) return r; Elem a = r.sign > 0 ? x : x.neg(); long e; // floor(log2 a)
    mpz_class f = a.floor(); if (f > 0) e = (long)mpz_sizeinbase(f.get_mpz_t(), 2) - 1; else { long k = 64; while ((f = (a * mpq_class(p2(k))).floor()) == 0) k *= 2; e = (long)mpz_sizeinbase(f.get_mpz_t(), 2) - 1 - k; }
    r.u = std::max(e - 52, -1074L); Elem s = a * ref::pow2q(-r.u); r.m = s.floor(); r.inexact = s.cmp(mpq_class(r.m)) != 0; r.half = s.cmp(mpq_class(r.m * 2 + 1, 2)); r.over = e >= 1024 || (e == 1023 && r.m == p2(53) - 1 && r.inexact); return r;
}
static double mkd(int sign, const mpz_class& m, long u) { double d = std::ldexp(m.get_d(), (int)u); return sign * d; } // exact: m<=2^53
static bool correct(const Exact& e, int mode, double d) {
    if (!e.sign) return d == 0; bool away = mode == 4 || (mode == 1 && e.sign < 0) || (mode == 2 && e.sign > 0);
    double inf = e.sign * HUGE_VAL, mx = e.sign * DBL_MAX;
    if (e.over) { if (away) return d == inf; if (mode == 0) { bool far = !(e.u == 971 && e.m == p2(53) - 1 && e.half < 0); return far ? d == inf : (d == inf || d == mx); } return d == inf || d == mx; }
    mpz_class m = e.m; if (e.inexact && (away || (mode == 0 && (e.half > 0 || (e.half == 0 && mpz_odd_p(m.get_mpz_t())))))) m += 1;
    return d == mkd(e.sign, m, e.u) && (d != 0 || m == 0);
}
static void one(CField& K, const Elem& x, int v, bool shared) {
    Exact e = exact(x); Elem zero(x.K, mpq_class(0)); CASE("field %s prec %ld double(%s [%s]) %s field", K.s.name.c_str(), K.prec, x.s().c_str(), varname(v), shared ? "shared" : "fresh"); STATE(K.s.name + x.s()); TRACE();
    if (shared) { Work w(K, x, v, zero, FRESH, true); for (int m = 0; m < 5; m++) { TRANS(); double d = renf_elem_get_d(w.a, w.f(), MODES[m]); OUTCOME(x.s() + MN[m]); if (!correct(e, m, d)) FAIL("rounding %s: got %a (%.17g)", MN[m], d, d); } check_elem("operand", w.a, x, w.f()); }
    else for (int m = 0; m < 5; m++) { Work w(K, x, v, zero, FRESH, false); TRANS(); double d = renf_elem_get_d(w.a, w.f(), MODES[m]); OUTCOME(x.s() + MN[m]); if (!correct(e, m, d)) FAIL("rounding %s: got %a (%.17g)", MN[m], d, d); if (m == 0) check_elem("operand", w.a, x, w.f()); }
}
static mpq_class d2q(double d) { mpq_class r(d); return r; }
static vector<Elem> values(const ref::F& F) {
    vector<Elem> r = order_elements(F, g_thorough); auto T = tinies(F, g_thorough);
    Elem g(F, ref::Poly{ 0, 1 }); if (F->d == 1) g = Elem(F, mpq_class(22, 7)); 
    vector<long> sc = { 1, 52, 53, 900, 1000, 1022, 1023, 1024, 1100, -1, -60, -500, -969, -970, -1000, -1020, -1022, -1023, -1050, -1070, -1073, -1074, -1075, -1076, -1080, -1200 };
    for (size_t i = 0; i < sc.size(); i++) { r.push_back(g * ref::pow2q(sc[i])); r.push_back((g - Elem(F, mpq_class(1, 3))) * mpq_class(-ref::pow2q(sc[i]))); r.push_back(Elem(F, mpq_class(1, 3) * ref::pow2q(sc[i]))); r.push_back(Elem(F, mpq_class(-(p2(80) - 1), 7) * ref::pow2q(sc[i] - 80))); }
    vector<double> bases = { 0, 1, std::nextafter(1, 0), std::nextafter(1, 2), 3, 0x1.921fb54442d18p+1, 0x1p53, 0x1p53 - 1, 0x1.0000000000001p53, 0x1p52, DBL_MIN, std::nextafter(DBL_MIN, 0), std::nextafter(DBL_MIN, 1), 0x1p-1074, 0x3p-1074, 0x1p-1073, 0x5p-1074, 0x1p-1050, 0x1.23456p-1030, DBL_MAX, std::nextafter(DBL_MAX, 0), 0x1p1023, 0x1p-1021, 4294967295.0, 4294967296.0, 0x1p63, 0x1p64 };
    if (!g_thorough && F->d > 2) { vector<double> b2; for (size_t i = 0; i < bases.size(); i++) if (i % 2 == 0 || i == 9 || i == 13 || i == 19) b2.push_back(bases[i]); bases = b2; }
    auto sgnd = [](const Elem& t) { return t; }; (void)sgnd;
    for (double b : bases) { mpq_class lo = d2q(b), hi; if (b == DBL_MAX) hi = ref::pow2q(1024); else hi = d2q(std::nextafter(b, HUGE_VAL)); mpq_class ulp = hi - lo, mid = (lo + hi) / 2;
        for (int s : { 1, -1 }) { for (auto& c : { lo, mid, mpq_class(lo + ulp / 4), mpq_class(lo + ulp * 3 / 4) }) { r.push_back(Elem(F, c * s)); } 
            size_t j = 0; for (auto& t : T) { if (!g_thorough && (j++ % 2) == (s > 0)) continue; for (auto& c : { lo, mid }) r.push_back((t * ulp + Elem(F, c)) * mpq_class(s)); } }
    }
    return r;
}
static void run(const Spec& S, long prec, bool shared) {
    CField K(S, prec); auto E = values(S.F); vector<int> vs = g_thorough ? vector<int>{ FRESH, BLUR1, BLUR2, TIGHT, COARSE } : vector<int>{ FRESH, BLUR2 }; size_t i = 0;
    for (auto& x : E) { i++; for (int v : vs) if (v == FRESH || g_thorough || i % 3 == 0) one(K, x, v, shared); }
}
static void runxx() { using namespace eantic; auto K = renf_class::make("x^3 - 2", "x", "1.26 +/- 0.1"); Spec S = mkfield("-2 0 0 1", 0);
    for (auto& x : values(S.F)) { CASE("C++ static_cast<double>(%s)", x.s().c_str()); renf_elem_class a(*K, vector<mpq_class>(x.c)); TRACE(); TRANS(); double d = static_cast<double>(a); if (!correct(exact(x), 0, d)) FAIL("got %a", d); if (!contains(a.renf_elem_t()->emb, x)) FAIL("enclosure lost"); } }
int main(int argc, char** argv) {
    init(argc, argv); vector<long> precs = g_thorough ? vector<long>{ 64, 5, 53, 128 } : vector<long>{ 64, 9 };
    auto FS = order_fields(g_thorough); size_t k = 0;
    for (auto& S : FS) { k++; for (long p : precs) for (int sh = 0; sh < 2; sh++) { if (!g_thorough && sh && (k % 2)) continue; if (mine()) run(S, p, sh); } }
    if (mine()) runxx();
    finish(); return g_nfail ? 1 : 0;
}
