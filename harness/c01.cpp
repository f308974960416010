// C01: every arithmetic entry point on every operand of the alphabet, every aliasing pattern and destination content.
#include "alphabet.hpp"
using ref::Elem;
typedef void (*BinF)(renf_elem_t, const renf_elem_t, const renf_elem_t, const renf_t);
static const bool ENC = getenv("MC_ENC") != nullptr;
static void run(const Spec& S, long prec) {
    CField K(S, prec); auto E = elements(S.F, g_thorough); size_t n = E.size();
    renf* nf = K.nf;
    vector<std::unique_ptr<CElem>> X; for (auto& e : E) { X.emplace_back(new CElem(nf)); set_elem(*X.back(), e, nf); }
    for (size_t i = 0; i < n; i++) { CASE("field %s prec %ld set_fmpq_poly %s", S.name.c_str(), prec, E[i].s().c_str()); check_elem("set_fmpq_poly", *X[i], E[i], nf, ENC); TRANS(); STATE(S.name + E[i].s()); }
    Elem junk0(S.F, ref::Poly{ mpq_class(p2(70) + 3, 7), mpq_class(5, 11) }), junk1(S.F, mpq_class(0));
    auto junk = [&](renf_elem_t r, int j) { if (j == 1) set_elem(r, junk0, nf, false); else renf_elem_zero(r, nf); };
    // ---- field element op field element
    struct { const char* n; BinF f; int k; } ops[] = { { "add", renf_elem_add, 0 }, { "sub", renf_elem_sub, 1 }, { "mul", renf_elem_mul, 2 }, { "div", renf_elem_div, 3 } };
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (auto& o : ops) {
        if (o.k == 3 && E[j].zero()) continue;
        Elem R = o.k == 0 ? E[i] + E[j] : o.k == 1 ? E[i] - E[j] : o.k == 2 ? E[i] * E[j] : E[i] / E[j];
        OUTCOME(R.s());
        for (int al = 0; al < 5; al++) {
            CASE("field %s prec %ld %s(%s, %s) aliasing %d", S.name.c_str(), prec, o.n, E[i].s().c_str(), E[j].s().c_str(), al); TRANS(); TRACE();
            CElem r(nf), t(nf);
            if (al == 0 || al == 1) { junk(r, al); o.f(r, *X[i], *X[j], nf); check_elem(o.n, r, R, nf, ENC); check_elem("left operand", *X[i], E[i], nf, ENC); check_elem("right operand", *X[j], E[j], nf, ENC); }
            else if (al == 2) { renf_elem_set(r, *X[i], nf); o.f(r, r, *X[j], nf); check_elem(o.n, r, R, nf, ENC); check_elem("right operand", *X[j], E[j], nf, ENC); }
            else if (al == 3) { renf_elem_set(r, *X[j], nf); o.f(r, *X[i], r, nf); check_elem(o.n, r, R, nf, ENC); check_elem("left operand", *X[i], E[i], nf, ENC); }
            else if (i == j) { renf_elem_set(r, *X[i], nf); o.f(r, r, r, nf); check_elem(o.n, r, R, nf, ENC); junk(t, 1); o.f(t, *X[i], *X[i], nf); check_elem(o.n, t, R, nf, ENC); check_elem("operand", *X[i], E[i], nf, ENC); }
        }
    }
    // ---- unary and powers
    for (size_t i = 0; i < n; i++) for (int al = 0; al < 3; al++) {
        const Elem& e = E[i]; CElem r(nf);
        auto arg = [&]() -> renf_elem* { if (al == 2) { renf_elem_set(r, *X[i], nf); return r; } junk(r, al); return *X[i]; };
        CASE("field %s prec %ld neg %s aliasing %d", S.name.c_str(), prec, e.s().c_str(), al); TRANS(); TRACE();
        { auto a = arg(); renf_elem_neg(r, a, nf); check_elem("neg", r, e.neg(), nf, ENC); }
        if (!e.zero()) { CASE("field %s prec %ld inv %s aliasing %d", S.name.c_str(), prec, e.s().c_str(), al); TRANS(); TRACE(); auto a = arg(); renf_elem_inv(r, a, nf); check_elem("inv", r, e.inv(), nf, ENC); }
        CASE("field %s prec %ld set %s aliasing %d", S.name.c_str(), prec, e.s().c_str(), al); TRANS(); TRACE(); { auto a = arg(); renf_elem_set(r, a, nf); check_elem("set", r, e, nf, ENC); }
        vector<ulong> exps = { 0, 1, 2, 3, 4, 7, 16, 33 }; if (i < 14 || i % 7 == 0) for (ulong k : { 5, 6, 8, 15, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257 }) exps.push_back(k); if (i < 14) for (ulong k : { 511, 512, 1000, 1024 }) if (k * (S.F->d + 1) < 3500) exps.push_back(k);
        for (ulong k : exps) { CASE("field %s prec %ld pow %s ^ %lu aliasing %d", S.name.c_str(), prec, e.s().c_str(), k, al); TRANS(); TRACE(); auto a = arg(); renf_elem_pow(r, a, k, nf); check_elem("pow", r, e.pow(k), nf, ENC); }
        { CASE("field %s prec %ld swap %s", S.name.c_str(), prec, e.s().c_str()); CElem u(nf), v(nf); set_elem(u, e, nf); junk(v, 1); renf_elem_swap(u, v); check_elem("swap", v, e, nf, ENC); check_elem("swap", u, junk0, nf, ENC); TRANS(); TRACE(); }
        { CASE("field %s prec %ld set_nf_elem %s", S.name.c_str(), prec, e.s().c_str()); CElem v(nf); junk(v, al == 1); renf_elem_set_nf_elem(v, (*X[i]).v->elem, nf, 32 + 40 * al); check_elem("set_nf_elem", v, e, nf, ENC); TRANS(); TRACE(); }
        for (int up = 1; up <= 3; up++) { // the same element given by a polynomial that is not reduced
            CASE("field %s prec %ld set_fmpq_poly of a polynomial of higher degree for %s (%d)", S.name.c_str(), prec, e.s().c_str(), up); CElem v(nf); junk(v, al == 1); ref::Poly m = S.F->f, mult(up == 3 ? S.F->d + 3 : up); for (size_t k = 0; k < mult.size(); k++) mult[k] = k % 2 ? mpq_class(-2, 3) : mpq_class(5); ref::Poly big = ref::add(ref::mul(m, mult), e.c); PQ pp(big); renf_elem_set_fmpq_poly(v, pp, nf); check_elem("set_fmpq_poly", v, e, nf, ENC); TRANS(); TRACE(); }
        { CASE("field %s prec %ld set_fmpq_poly over junk %s", S.name.c_str(), prec, e.s().c_str()); CElem v(nf); junk(v, 1); set_elem(v, e, nf, false); check_elem("set_fmpq_poly", v, e, nf, ENC); TRANS(); TRACE(); }
    }
    // ---- scalar operands
    auto W = wide_rats();
    for (size_t i = 0; i < n; i++) for (auto& q : W) {
        const Elem& e = E[i]; Elem c(S.F, q); bool isz = q.get_den() == 1; mpz_class z = q.get_num(); bool nz = q != 0;
        Elem sum = e + c, dif = e - c, rdif = c - e, prod = e * q; Elem quo = nz ? e * (1 / q) : e, rquo = e.zero() ? e : c / e;
        Q qq(q); Z zz(z);
        for (int al = 0; al < 3; al++) {
            CElem r(nf); auto arg = [&](const char* what) -> renf_elem* { CASE("field %s prec %ld %s(%s, %s) aliasing %d", S.name.c_str(), prec, what, e.s().c_str(), q.get_str().c_str(), al); TRANS(); TRACE(); if (al == 2) { renf_elem_set(r, *X[i], nf); return r; } junk(r, al); return *X[i]; };
            renf_elem* a;
#define DO(name, call, expect) do { a = arg(name); call; check_elem(name, r, expect, nf, ENC); if (al != 2) check_elem("operand", *X[i], e, nf, ENC); } while (0)
            DO("add_fmpq", renf_elem_add_fmpq(r, a, qq, nf), sum); DO("sub_fmpq", renf_elem_sub_fmpq(r, a, qq, nf), dif); DO("fmpq_sub", renf_elem_fmpq_sub(r, qq, a, nf), rdif);
            DO("mul_fmpq", renf_elem_mul_fmpq(r, a, qq, nf), prod); if (nz) DO("div_fmpq", renf_elem_div_fmpq(r, a, qq, nf), quo); if (!e.zero()) DO("fmpq_div", renf_elem_fmpq_div(r, qq, a, nf), rquo);
            if (isz) { DO("add_fmpz", renf_elem_add_fmpz(r, a, zz, nf), sum); DO("sub_fmpz", renf_elem_sub_fmpz(r, a, zz, nf), dif); DO("mul_fmpz", renf_elem_mul_fmpz(r, a, zz, nf), prod); if (nz) DO("div_fmpz", renf_elem_div_fmpz(r, a, zz, nf), quo); }
            if (isz && is_si(z)) { slong s = z.get_si(); DO("add_si", renf_elem_add_si(r, a, s, nf), sum); DO("sub_si", renf_elem_sub_si(r, a, s, nf), dif); DO("mul_si", renf_elem_mul_si(r, a, s, nf), prod); if (nz) DO("div_si", renf_elem_div_si(r, a, s, nf), quo); }
            if (isz && is_ui(z)) { ulong s = z.get_ui(); DO("add_ui", renf_elem_add_ui(r, a, s, nf), sum); DO("sub_ui", renf_elem_sub_ui(r, a, s, nf), dif); DO("mul_ui", renf_elem_mul_ui(r, a, s, nf), prod); if (nz) DO("div_ui", renf_elem_div_ui(r, a, s, nf), quo); }
            if (!(toq(qq) == q) || !(toz(zz) == z)) FAIL("scalar operand modified");
        }
        if (i == 0) for (int al = 0; al < 2; al++) {
            CElem r(nf); renf_elem* a;
            auto arg = [&](const char* what) -> renf_elem* { CASE("field %s prec %ld %s(%s) prior %d", S.name.c_str(), prec, what, q.get_str().c_str(), al); TRANS(); TRACE(); junk(r, al); return r; };
            DO("set_fmpq", renf_elem_set_fmpq(r, qq, nf), c); DO("set_mpq", renf_elem_set_mpq(r, q.get_mpq_t(), nf), c);
            if (isz) { DO("set_fmpz", renf_elem_set_fmpz(r, zz, nf), c); DO("set_mpz", renf_elem_set_mpz(r, z.get_mpz_t(), nf), c); if (is_si(z)) DO("set_si", renf_elem_set_si(r, z.get_si(), nf), c); if (is_ui(z)) DO("set_ui", renf_elem_set_ui(r, z.get_ui(), nf), c); }
            DO("zero", renf_elem_zero(r, nf), Elem(S.F, mpq_class(0))); DO("one", renf_elem_one(r, nf), Elem(S.F, mpq_class(1))); DO("gen", renf_elem_gen(r, nf), Elem(S.F, ref::Poly{ 0, 1 }));
        }
    }
    SAMPLE("field " + S.name + ": " + E[n / 2].s() + " * " + E[n / 3].s() + " = " + (E[n / 2] * E[n / 3]).s());
}
int main(int argc, char** argv) {
    init(argc, argv); vector<long> precs = { 64 }; if (g_thorough) precs = { 64, 8 }; if (g_thorough > 1) precs = { 64, 8, 200, 2 };
    if (ENC) precs = g_thorough ? vector<long>{ 64, 2, 17, 333 } : vector<long>{ 64, 17 };
    for (auto& S : fields(g_thorough)) for (long p : precs) if (mine()) run(S, p);
    finish(); return g_nfail ? 1 : 0;
}
