// C20: accessors, predicates and conversions
#include "cxx.hpp"
static void one(const XF& K, const ref::Elem& e, const RE& x, const char* route) {
    CASE("%s in %s obtained by %s", e.s().c_str(), K.s.name.c_str(), route); TRANS(); size_t d = K.s.F->d; mpz_class den = e.den(); vector<mpz_class> num(d); mpz_class ct = 0; for (size_t i = 0; i < e.c.size(); i++) { num[i] = e.c[i].get_num() * (den / e.c[i].get_den()); ct = gcd(ct, num[i]); } mpq_class q = e.rational() ? e.rat() : mpq_class(0); bool rat = e.rational(), in = e.integer();
    if (!xcheck("element", x, e, *K.K)) return; auto& nf = K.K->renf_t(); auto& a = x.renf_elem_t();
    EXPECT(x.den() == den, "den() is %s", x.den().get_str().c_str()); EXPECT(x.num_vector() == num, "num_vector() is wrong"); EXPECT(x.num_content() == ct, "num_content() is %s instead of %s", x.num_content().get_str().c_str(), ct.get_str().c_str());
    EXPECT(x.is_zero() == e.zero(), "is_zero()"); EXPECT(x.is_one() == (rat && q == 1), "is_one()"); EXPECT(x.is_integer() == in, "is_integer()"); EXPECT(x.is_rational() == rat, "is_rational()"); EXPECT(static_cast<bool>(x) == !e.zero(), "operator bool"); EXPECT(!x == e.zero(), "operator !");
    EXPECT(!!renf_elem_is_zero(a, nf) == e.zero(), "renf_elem_is_zero"); EXPECT(!!renf_elem_is_one(a, nf) == (rat && q == 1), "renf_elem_is_one"); EXPECT(!!renf_elem_is_integer(a, nf) == in, "renf_elem_is_integer"); EXPECT(!!renf_elem_is_rational(a, nf) == rat, "renf_elem_is_rational");
    if (rat) { EXPECT(x.num() == q.get_num(), "num() is %s", x.num().get_str().c_str()); mpq_class z = static_cast<mpq_class>(x); EXPECT(z == q && z.get_den() > 0 && gcd(z.get_num(), z.get_den()) == 1, "conversion to mpq_class"); EXPECT(x.get_num() == q.get_num() && x.get_rational() == q, "deprecated accessors"); }
    if (in) EXPECT(static_cast<mpz_class>(x) == q.get_num(), "conversion to mpz_class");
    EXPECT(x.get_den() == den && x.get_num_vector() == num, "deprecated accessors"); EXPECT(x.get_renf_elem() == a, "get_renf_elem");
    EXPECT(x.sgn() == e.sgn(), "sgn() is %d", x.sgn()); EXPECT(x.floor() == e.floor() && floor(x) == e.floor(), "floor()"); EXPECT(x.ceil() == e.ceil() && ceil(x) == e.ceil(), "ceil()"); xcheck("-x", -x, e.neg(), *K.K); xcheck("+x", +x, e, *K.K); EXPECT(x.get_d() == static_cast<double>(x), "get_d");
    xcheck("element afterwards", x, e, *K.K); STATE(K.s.name + e.s() + route); TRACE(); OUTCOME(e.s());
}
static void routes(const XF& K, const ref::Elem& e) {
    size_t d = K.s.F->d; ref::F F = K.s.F; one(K, e, xe(K, e), "assignment of coefficients"); { RE x = xe(K, e); one(K, e, RE(x), "copy"); }
    vector<ref::Elem> gs = { ref::Elem(F, mpq_class(1, 3)), ref::Elem(F, mpq_class(-p2(64))) }; if (d > 1) { gs.push_back(ref::Elem(F, ref::Poly{ 0, 1 })); gs.push_back(ref::Elem(F, ref::Poly{ mpq_class(5, 7), mpq_class(-3, 2) })); } if (d > 2) { ref::Poly t(d); t[d - 1] = mpq_class(p2(70)); t[1] = 1; gs.push_back(ref::Elem(F, t)); }
    for (auto& g : gs) { RE y = xe(K, g); string n = g.s(); { RE x = xe(K, e); x += y; x -= y; one(K, e, x, ("adding and subtracting " + n).c_str()); } { RE x = xe(K, e); x *= y; x /= y; one(K, e, x, ("multiplying and dividing by " + n).c_str()); } { RE x(y); x = xe(K, e); one(K, e, x, ("overwriting " + n).c_str()); } { RE x(y); x -= xe(K, e); x -= y; x = -x; one(K, e, x, ("subtracting from " + n).c_str()); }
        { RE x = y; renf_elem_set(x.renf_elem_t(), xe(K, e).renf_elem_t(), K.K->renf_t()); one(K, e, x, ("renf_elem_set over " + n).c_str()); }
        if (e.rational()) { RE x = y; Q q(e.rat()); renf_elem_set_fmpq(x.renf_elem_t(), q, K.K->renf_t()); one(K, e, x, ("renf_elem_set_fmpq over " + n).c_str()); x = y; renf_elem_set_mpq(x.renf_elem_t(), e.rat().get_mpq_t(), K.K->renf_t()); one(K, e, x, ("renf_elem_set_mpq over " + n).c_str()); x = y; x -= y; x += e.rat(); one(K, e, x, ("cancelling and adding a number to " + n).c_str()); x = y; x *= 0; x += e.rat(); one(K, e, x, ("annihilating and adding a number to " + n).c_str()); }
        if (e.integer()) { RE x = y; mpz_class z = e.rat().get_num(); Z f(z); renf_elem_set_fmpz(x.renf_elem_t(), f, K.K->renf_t()); one(K, e, x, ("renf_elem_set_fmpz over " + n).c_str()); x = y; renf_elem_set_mpz(x.renf_elem_t(), z.get_mpz_t(), K.K->renf_t()); one(K, e, x, ("renf_elem_set_mpz over " + n).c_str()); if (is_si(z)) { x = y; renf_elem_set_si(x.renf_elem_t(), z.get_si(), K.K->renf_t()); one(K, e, x, ("renf_elem_set_si over " + n).c_str()); } if (is_ui(z)) { x = y; renf_elem_set_ui(x.renf_elem_t(), z.get_ui(), K.K->renf_t()); one(K, e, x, ("renf_elem_set_ui over " + n).c_str()); }
            if (z == 0) { x = y; renf_elem_zero(x.renf_elem_t(), K.K->renf_t()); one(K, e, x, ("renf_elem_zero over " + n).c_str()); } if (z == 1) { x = y; renf_elem_one(x.renf_elem_t(), K.K->renf_t()); one(K, e, x, ("renf_elem_one over " + n).c_str()); } }
    }
    for (int v : { BLUR2, COARSE }) { RE x = xe(K, e); xvary(x, v); one(K, e, x, varname(v)); }
}
static void field(const XF& K) {
    CASE("accessors of field %s", K.s.name.c_str()); TRANS(); ref::F F = K.s.F; EXPECT(K.K->degree() == (long)F->d, "degree() is %ld", (long)K.K->degree()); xcheck("zero()", K.K->zero(), ref::Elem(F, mpq_class(0)), *K.K); xcheck("one()", K.K->one(), ref::Elem(F, mpq_class(1)), *K.K); xcheck("gen()", K.K->gen(), ref::Elem(F, ref::Poly{ 0, 1 }), *K.K); EXPECT(K.K->gen_name() == K.var, "gen_name()"); EXPECT(frompolyq(K.K->renf_t()->nf->pol) == F->f, "minimal polynomial"); EXPECT(K.K->get_renf() == K.K->renf_t(), "get_renf()"); EXPECT(renf_degree(K.K->renf_t()) == (long)F->d, "renf_degree");
    RE g(*K.K); renf_elem_gen(g.renf_elem_t(), K.K->renf_t()); xcheck("renf_elem_gen", g, ref::Elem(F, ref::Poly{ 0, 1 }), *K.K);
}
int main(int argc, char** argv) {
    init(argc, argv); Hush h; bool th = g_thorough; vector<Spec> ss = fields(th); 
    for (auto& s : ss) { XF K = xf(s, "alpha", 64); if (mine()) field(K); for (auto& e : elements(s.F, th, th ? 1 : 1)) { if (!mine()) continue; routes(K, e); } for (auto& e : tinies(s.F, th)) if (mine()) { routes(K, e); routes(K, e + ref::Elem(s.F, mpq_class(1))); } for (auto& q : wide_rats()) if (mine()) { routes(K, ref::Elem(s.F, q)); } }
    SAMPLE("(-5/3*x^2 + 2^64*x)/1"); finish(); return g_nfail ? 1 : 0;
}
