// C10: no call touches memory it must not touch (address sanitizer) and every byte is released, on every path:
//  (1) every C function on the operand alphabet, each in a scope of its own;  (2) the polynomial functions;
//  (3) all histories of C++ calls up to a depth, including calls that fail with an exception and histories in which
//      elements are all that keeps their field alive.
#include "cxx.hpp"
#include <e-antic/cereal.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/binary.hpp>
#include <memory>
#include <flint/fmpz_vec.h>
#include <flint/fmpq_vec.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }
// run a self-contained scope; the second run must leave exactly as many bytes as the first
template <typename Fn> static void scope(const Fn& fn) {
    fn(); size_t b0 = bytes(); fn(); size_t b1 = bytes(); TRANS(2); TRACE();
    if (b1 == b0) return; long g = 0; // caches of FLINT may grow once: decide with emptied caches
    for (int i = 0; i < 3; i++) { flint_cleanup(); b0 = bytes(); fn(); flint_cleanup(); b1 = bytes(); if (b1 <= b0) return; g = b1 - b0; }
    FAIL("%ld bytes are never released", g);
}
// run a whole block twice; with emptied caches nothing may have grown (finds lost multi-word integers, which FLINT pools)
template <typename Fn> static void block(const string& name, const Fn& fn) {
    fn(); flint_cleanup(); size_t b0 = bytes(); fn(); flint_cleanup(); size_t b1 = bytes(); if (b1 <= b0) return;
    flint_cleanup(); b0 = bytes(); fn(); flint_cleanup(); b1 = bytes(); if (b1 > b0) { CASE("%s", name.c_str()); FAIL("%ld bytes are never released by this group of calls", (long)(b1 - b0)); }
}
static string D; // description of the operands
#define S_(name, ...) do { CASE("%s | %s", name, D.c_str()); scope([&] { Work w(K, x, vx, y, vy); renf* nf = w.f(); renf_elem *a = w.a, *b = w.b; (void)a; (void)b; (void)nf; __VA_ARGS__; }); } while (0)
static void elems(CField& K, const ref::Elem& x, int vx, const ref::Elem& y, int vy, const mpq_class& qq, bool unary) {
    Q q; setq(q, qq); Z z; setz(z, qq.get_num());
    S_("copy", CElem c(nf); renf_elem_set(c, a, nf); renf_elem_swap(c, b); ); S_("add", renf_elem_add(a, a, b, nf)); S_("sub", CElem c(nf); renf_elem_sub(c, a, b, nf)); S_("mul", renf_elem_mul(a, a, b, nf)); S_("cmp", renf_elem_cmp(a, b, nf)); S_("equal", renf_elem_equal(a, b, nf));
    S_("add_fmpq", renf_elem_add_fmpq(a, a, q, nf)); S_("sub_fmpq", renf_elem_sub_fmpq(a, a, q, nf)); S_("mul_fmpq", renf_elem_mul_fmpq(a, a, q, nf)); S_("fmpq_sub", renf_elem_fmpq_sub(a, q, a, nf)); S_("fmpq_sub into another", CElem c(nf); renf_elem_fmpq_sub(c, q, a, nf)); S_("add_fmpz", renf_elem_add_fmpz(a, a, z, nf)); S_("sub_fmpz", renf_elem_sub_fmpz(a, a, z, nf)); S_("mul_fmpz", renf_elem_mul_fmpz(a, a, z, nf));
    S_("cmp_fmpq", renf_elem_cmp_fmpq(a, q, nf)); S_("cmp_fmpz", renf_elem_cmp_fmpz(a, z, nf)); S_("equal_fmpq", renf_elem_equal_fmpq(a, q, nf)); S_("equal_fmpz", renf_elem_equal_fmpz(a, z, nf)); S_("set_fmpq", renf_elem_set_fmpq(a, q, nf)); S_("set_fmpz", renf_elem_set_fmpz(a, z, nf)); S_("set_mpq", renf_elem_set_mpq(a, qq.get_mpq_t(), nf)); S_("set_mpz", renf_elem_set_mpz(a, qq.get_num().get_mpz_t(), nf));
    if (!y.zero()) { S_("div", renf_elem_div(a, a, b, nf)); S_("div into another", CElem c(nf); renf_elem_div(c, a, b, nf)); S_("fdiv", Z f; renf_elem_fdiv(f, a, b, nf)); }
    if (qq != 0) { S_("div_fmpq", renf_elem_div_fmpq(a, a, q, nf)); if (qq.get_num() != 0) S_("div_fmpz", renf_elem_div_fmpz(a, a, z, nf)); }
    if (!x.zero()) { S_("fmpq_div", renf_elem_fmpq_div(a, q, a, nf)); S_("fmpq_div into another", CElem c(nf); renf_elem_fmpq_div(c, q, a, nf)); }
    if (!unary) return;
    S_("si/ui", renf_elem_add_si(a, a, -3, nf); renf_elem_sub_si(a, a, 7, nf); renf_elem_mul_si(a, a, -5, nf); renf_elem_div_si(a, a, 3, nf); renf_elem_add_ui(a, a, 9, nf); renf_elem_sub_ui(a, a, 2, nf); renf_elem_mul_ui(a, a, 11, nf); renf_elem_div_ui(a, a, 4, nf); renf_elem_cmp_si(a, -2, nf); renf_elem_cmp_ui(a, 3, nf); renf_elem_equal_si(a, 4, nf); renf_elem_equal_ui(a, 5, nf); renf_elem_set_si(a, -1, nf); renf_elem_set_ui(a, 1, nf); renf_elem_one(a, nf); renf_elem_zero(a, nf); renf_elem_gen(a, nf));
    S_("neg", renf_elem_neg(a, a, nf)); S_("sgn", renf_elem_sgn(a, nf)); S_("floor", Z f; renf_elem_floor(f, a, nf)); S_("ceil", Z f; renf_elem_ceil(f, a, nf)); S_("get_d", for (auto r : { ARF_RND_DOWN, ARF_RND_UP, ARF_RND_FLOOR, ARF_RND_CEIL, ARF_RND_NEAR }) renf_elem_get_d(a, nf, r)); for (long p : { 10, 64, 200, 500 }) S_("get_arb", B r; renf_elem_get_arb(r, a, nf, p)); S_("set_evaluation", renf_elem_set_evaluation(a, nf, 128)); S_("check_embedding", renf_elem_check_embedding(a, nf, 128));
    for (int k : { 0, 1, 2, 5 }) S_("pow", renf_elem_pow(a, a, k, nf)); if (!x.zero()) S_("inv", renf_elem_inv(a, a, nf)); S_("is_", renf_elem_is_zero(a, nf); renf_elem_is_one(a, nf); renf_elem_is_integer(a, nf); renf_elem_is_rational(a, nf)); S_("condition", slong c; renf_elem_relative_condition_number_2exp(&c, a, nf));
    for (int fl : { 1, 2, 3, 4, 5, 6, 7 }) S_("get_str", char* s = renf_elem_get_str_pretty(a, "x", nf, 10, fl); flint_free(s)); S_("set_fmpq_poly", PQ p(y.c); renf_elem_set_fmpq_poly(a, p, nf)); S_("set_nf_elem", renf_elem_set_nf_elem(a, b->elem, nf, nf->prec));
    for (int n : { 0, 1, 3, 8 }) S_("get_cfrac", fmpz* v = _fmpz_vec_init(n + 1); CElem r(nf); renf_elem_get_cfrac(v, r, a, n, nf); _fmpz_vec_clear(v, n + 1));
}
static void wholefield(const Spec& s, long prec) { CField K(s, prec); D = "field " + s.name + " precision " + std::to_string(prec); ref::Elem x(s.F, 0), y = x; int vx = 0, vy = 0;
    S_("renf_init_set", renf_t k; renf_init_set(k, nf); renf_equal(k, nf); renf_clear(k)); S_("renf_get_str", char* t = renf_get_str(nf, "x", 64); flint_free(t)); S_("renf_refine_embedding", for (long p : { 70, 200, 65, 1000 }) renf_refine_embedding(nf, p)); S_("renf_set_immutable", renf_set_immutable(nf, 1); renf_set_immutable(nf, 0)); S_("renf_degree", renf_degree(nf));
    for (long w : { 4, 20, 80 }) { long bits = sepbits(s.F) + w; CASE("renf_init | %s ball 2^-%ld", D.c_str(), bits); scope([&] { CField L(s, prec, bits); renf_equal(L.nf, K.nf); CField M(s, prec, bits + 3); renf_equal(L.nf, M.nf); }); } }
static void polysection(const ref::Poly& p) { D = "polynomial " + ref::str(p);
#define P_(name, ...) do { CASE("%s | %s", name, D.c_str()); scope([&] { PQ q(p); PZ f; fmpz_poly_set_ptr(f, q); (void)f; __VA_ARGS__; }); } while (0)
    struct PZ { fmpz_poly_t v; PZ() { fmpz_poly_init(v); } ~PZ() { fmpz_poly_clear(v); } operator fmpz_poly_struct*() { return v; } }; auto fmpz_poly_set_ptr = [](PZ& f, PQ& q) { fmpq_poly_get_numerator(f.v, (fmpq_poly_struct*)q); };
    P_("evaluate", B b; arb_set_str(b, "1.25 +/- 0.5", 64); B r; fmpq_poly_evaluate_arb(r, q, b, 64); fmpz_poly_evaluate_arb(r, f, b, 64); arf_t u; arf_init(u); arf_set_d(u, 1.25); fmpq_poly_evaluate_arf(u, q, u, 64); fmpz_poly_evaluate_arf(u, f, u, 64); arf_clear(u); B e; fmpz_poly_evaluate_arb(e, f, e, 64); fmpq_poly_evaluate_arb(e, q, e, 64));
    P_("abs, squarefree part", PZ g; fmpz_poly_abs(g, f); fmpz_poly_squarefree_part(g, f); PZ o; fmpz_poly_set(o, f); fmpz_poly_squarefree_part(o, o); Z t; fmpz_poly_evaluate_at_one(t, f.v->coeffs, f.v->length));
    P_("get_str, set_str", char* t = fmpq_poly_get_str_pretty(q, "xy"); PQ r; fmpq_poly_set_str_pretty(r, t, "xy"); flint_free(t); t = fmpz_poly_get_str_pretty(f, "t"); PZ g; fmpz_poly_set_str_pretty(g, t, "t"); flint_free(t));
    if (!p.empty()) P_("condition number", B b; arb_set_str(b, "1.25 +/- 0.5", 64); slong c; fmpz_poly_relative_condition_number_2exp(&c, f, b, 64); arb_zero(b); fmpz_poly_relative_condition_number_2exp(&c, f, b, 64));
    if (p.size() < 2) return; { PQ q(p); PZ f; fmpz_poly_set_ptr(f, q); if (!fmpz_poly_is_squarefree(f)) return; } // squarefree from here on
    for (auto t : { "1 +/- 3", "1.4 +/- 0.1", "0 +/- 0.001", "1 +/- 0", "100 +/- 1", "-3 +/- 2.5", "nan", "0 +/- inf", "1e-30 +/- 1e-31" }) P_("unique root, newton, bisection", B b; arb_set_str(b, t, 64); fmpq_poly_check_unique_real_root(q, b, 64); if (arb_is_finite(b)) { B r; PZ d; fmpz_poly_derivative(d, f); fmpz_poly_newton_step_arb(r, f, d, b, 64); fmpz_poly_bisection_step_arb(r, f, b, 64); });
    P_("positive root bound", fmpz_poly_positive_root_upper_bound_2exp(f)); P_("number of real roots", fmpz_poly_num_real_roots_upper_bound(f); fmpz_poly_has_real_root(f); if (fmpz_poly_is_squarefree(f)) { fmpz_poly_num_real_roots(f); fmpz_poly_num_real_roots_vca(f); });
    if (p.size() >= 2) P_("isolation", if (fmpz_poly_is_squarefree(f)) { slong d = fmpz_poly_degree(f); fmpq* e = _fmpq_vec_init(d); fmpz* c = _fmpz_vec_init(d); slong* k = (slong*)malloc(d * sizeof(slong)); slong ne, ni; fmpz_poly_isolate_real_roots(e, &ne, c, k, &ni, f); fmpz_poly_isolate_real_roots(nullptr, &ne, c, k, &ni, f); _fmpq_vec_clear(e, d); _fmpz_vec_clear(c, d); free(k); } PZ g; fmpz_poly_set(g, f); if (p[0] != 0 && ref::eval(p, 1) != 0) { fmpz_poly_num_real_roots_0_1(g); if (fmpz_poly_is_squarefree(g)) { fmpz_poly_num_real_roots_0_1_vca(g); fmpz_poly_num_real_roots_0_1_sturm(g); } });
    if (p.size() > 2 && irreducible(p)) for (long lim : { 0, 1, 2, 9 }) P_("all embeddings", slong d = fmpz_poly_degree(f); slong n = std::min(lim, d); renf* v = (renf*)malloc((d + 1) * sizeof(renf)); slong g = renf_set_embeddings_fmpz_poly(v, f, n, 64); for (slong i = 0; i < std::min(g, n); i++) renf_clear(v + i); free(v));
}
// ------------------------------------------------------------------------------------------------ C++ histories
struct Vars { RP h[2]; std::unique_ptr<RE> e[2]; std::stringstream ss; std::string str; };
struct OpD { string n; std::function<bool(Vars&)> can; std::function<void(Vars&)> f; };
static vector<OpD> ops;
#define ALW [](Vars&) { return true; }
#define E0 [](Vars& v) { return (bool)v.e[0]; }
#define E01 [](Vars& v) { return v.e[0] && v.e[1]; }
#define H0 [](Vars& v) { return (bool)v.h[0]; }
#define OP(name, can, ...) ops.push_back({ name, can, [](Vars& v) { __VA_ARGS__ } })
static void mkops(bool th) {
    OP("h0=make(F)", ALW, v.h[0] = RC::make("x^2-2", "x", "1.4 +/- 0.1", 64);); OP("h1=make(G)", ALW, v.h[1] = RC::make("y^3-y-1", "y", "1.3 +/- 0.1", 64);); OP("h0=make(Q)", ALW, v.h[0] = RC::make("3*t-7", "t", "2.3 +/- 0.1", 64););
    OP("make: bad polynomial", ALW, RC::make("x^2-*2", "x", "1.4 +/- 0.1", 64);); OP("make: empty polynomial", ALW, RC::make("", "x", "1.4 +/- 0.1", 64);); OP("make: bad ball", ALW, RC::make("x^2-2", "x", "1.4 +/- a", 64);); OP("make: no such root", ALW, RC::make("x^2-2", "x", "7 +/- 0.1", 64);); OP("make: no real root", ALW, RC::make("x^2+2", "x", "7 +/- 0.1", 64);); OP("make: ambiguous", ALW, RC::make("x^2-2", "x", "0 +/- 5", 64);); OP("make: constant", ALW, RC::make("2", "x", "0 +/- 5", 64);); OP("make: reducible", ALW, RC::make("x^2-4*x+4", "x", "2 +/- 1", 64);); OP("make: bad name", ALW, RC::make("x^2-2", "1x", "1.4 +/- 0.1", 64););
    OP("make: callback throws at once", ALW, RC::make("x^2-2", "x", [](slong) -> string { throw std::runtime_error("no"); }, 64);); OP("make: callback throws later", ALW, RC::make("x^2-2", "x", [](slong p) -> string { if (p > 100) throw std::runtime_error("no"); return "0 +/- 5"; }, 64);); OP("make: callback gives garbage later", ALW, RC::make("x^2-2", "x", [](slong p) -> string { if (p > 100) return "zz"; return "0 +/- 5"; }, 64);); OP("make: callback needs three rounds", ALW, v.h[0] = RC::make("x^2-2", "x", [](slong p) -> string { if (p > 200) return "1.4 +/- 0.1"; return "0 +/- 5"; }, 64););
    OP("drop h0", H0, v.h[0] = nullptr;); OP("drop h1", [](Vars& v) { return (bool)v.h[1]; }, v.h[1] = nullptr;); OP("h1=h0", H0, v.h[1] = v.h[0];); OP("drop e0", E0, v.e[0].reset(););
    OP("e0=gen", H0, v.e[0].reset(new RE(v.h[0]->gen()));); OP("e1=1/3*gen+2^80", [](Vars& v) { return (bool)v.h[1]; }, v.e[1].reset(new RE(v.h[1]->gen() * mpq_class(1, 3) + mpz_class("1208925819614629174706176")));); OP("e1=default", ALW, v.e[1].reset(new RE());); OP("e0=wide rational", ALW, v.e[0].reset(new RE(mpq_class("170141183460469231731687303715884105727/3")));); OP("e0=(h0,0)", H0, v.e[0].reset(new RE(*v.h[0])););
    OP("e0=parse ok", H0, v.e[0].reset(new RE(*v.h[0], "7/3"));); OP("e0=parse with approximation", H0, v.e[0].reset(new RE(*v.h[0], "18446744073709551617/3 ~ 6.14e18"));); OP("e0=parse error", H0, v.e[0].reset(new RE(*v.h[0], "7/3*"));); OP("e0=parse error after ~", H0, v.e[0].reset(new RE(*v.h[0], "* ~ 1"));); OP("e0=parse empty", H0, v.e[0].reset(new RE(*v.h[0], "")););
    OP("e0=vector", H0, if (v.h[0]->degree() > 1) v.e[0].reset(new RE(*v.h[0], std::vector<int>{ 1, -2 })); else v.e[0].reset(new RE(*v.h[0], std::vector<int>{ 5 }));); OP("e0=wide vector", H0, if (v.h[0]->degree() > 1) v.e[0].reset(new RE(*v.h[0], std::vector<mpq_class>{ mpq_class("1/1208925819614629174706176"), mpq_class("-1208925819614629174706177/5") })); else v.e[0].reset(new RE(*v.h[0], std::vector<mpz_class>{ mpz_class("1208925819614629174706176") })););
    OP("e0=e1", E01, *v.e[0] = *v.e[1];); OP("e1=e0", E01, *v.e[1] = *v.e[0];); OP("e0=copy(e1)", [](Vars& v) { return (bool)v.e[1]; }, v.e[0].reset(new RE(*v.e[1]));); OP("e1=move(e0)", E01, *v.e[1] = std::move(*v.e[0]); v.e[0].reset();); OP("e1=new move(e0), e0=3", E0, v.e[1].reset(new RE(std::move(*v.e[0]))); *v.e[0] = 3;); OP("e0=move(e1), e1 stays", E01, *v.e[0] = std::move(*v.e[1]); *v.e[1] = mpq_class(-1, 3);); OP("e1=temporary", E01, *v.e[1] = *v.e[0] + 1;); OP("e0=other field's temporary", [](Vars& v) { return v.e[0] && v.h[1]; }, *v.e[0] = v.h[1]->gen() * 5;); OP("swap", E01, swap(*v.e[0], *v.e[1]);); OP("e0=e0", E0, RE& r = *v.e[0]; r = r;); OP("coerce e1 to parent of e0", E01, RE t(v.e[0]->parent(), *v.e[1]););
    OP("e0+=e1", E01, *v.e[0] += *v.e[1];); OP("e0*=e1", E01, *v.e[0] *= *v.e[1];); OP("e0/=e1", [](Vars& v) { return v.e[0] && v.e[1] && !v.e[1]->is_zero(); }, *v.e[0] /= *v.e[1];); OP("t=e0-e1", E01, RE t = *v.e[0] - *v.e[1]; RE u = 3 * t;); OP("compare", E01, bool b = *v.e[0] < *v.e[1]; b ^= *v.e[0] == *v.e[1]; b ^= *v.e[0] > 3; b ^= *v.e[0] == mpq_class(1, 3);); OP("floordiv", [](Vars& v) { return v.e[0] && v.e[1] && !v.e[1]->is_zero(); }, v.e[0]->floordiv(*v.e[1]);); OP("pow -3", [](Vars& v) { return v.e[0] && !v.e[0]->is_zero(); }, *v.e[0] = v.e[0]->pow(-3););
    OP("e0=-e0", E0, *v.e[0] = -*v.e[0];); OP("e0=7", E0, *v.e[0] = 7;); OP("e0=2^70", E0, *v.e[0] = mpz_class("1180591620717411303424");); OP("e0=ULLONG_MAX", E0, *v.e[0] = ULLONG_MAX; *v.e[0] += LLONG_MIN; *v.e[0] *= ULLONG_MAX;); OP("e0=22/7", E0, *v.e[0] = mpq_class(22, 7););
    OP("conversions", E0, RE& e = *v.e[0]; e.floor(); e.ceil(); (double)e; e.num_vector(); e.den(); e.num_content(); e.to_string(); (string)e; e.is_integer(); std::hash<RE>()(e); if (e.is_rational()) { (mpq_class)e; e.num(); } if (e.is_integer()) (mpz_class)e;); OP("approximation", E0, B b; renf_elem_get_arb(b, v.e[0]->renf_elem_t(), v.e[0]->parent().renf_t(), 400););
    OP("field text", H0, std::ostringstream o; o << *v.h[0]; auto t = v.h[0]->construction(); std::hash<RC>()(*v.h[0]); v.h[0]->zero(); v.h[0]->one(););
    OP("write e0", E0, v.ss << *v.e[0] << " ";); OP("read e1", H0, v.h[0]->set_pword(v.ss); if (!v.e[1]) v.e[1].reset(new RE()); v.ss.clear(); v.ss >> *v.e[1];); OP("read garbage", H0, std::istringstream i("(x^2 ~ "); v.h[0]->set_istream(i); RE t; i >> t;); OP("read garbage 2", H0, std::istringstream i("x^^2"); v.h[0]->set_istream(i); RE t; i >> t;);
    OP("serialize", E01, std::stringstream s; { cereal::JSONOutputArchive a(s); a(*v.e[0], *v.e[1]); } { cereal::JSONInputArchive a(s); RE x; RE y; a(x, y); }); OP("serialize, truncated", E0, std::stringstream s; { cereal::BinaryOutputArchive a(s); a(*v.e[0]); } string t = s.str(); std::stringstream u(t.substr(0, t.size() - 5)); { cereal::BinaryInputArchive a(u); RE x; a(x); }); OP("serialize, corrupt", H0, std::stringstream s("{\"value0\": {\"id\": 2147483649, \"name\": \"x\", \"embedding\": \"zz\", \"minpoly\": \"x^2-2\", \"precision\": 64}}"); { cereal::JSONInputArchive a(s); RP x; a(x); });
}
// starting states of the histories: none, and elements with heap storage of the same, of different fields, and without handles
static vector<std::pair<string, std::function<void(Vars&)>>> starts = {
    { "", [](Vars&) {} },
    { "e0 in F, e1 in G: ", [](Vars& v) { v.h[0] = RC::make("x^2-2", "x", "1.4 +/- 0.1", 64); v.h[1] = RC::make("y^3-y-1", "y", "1.3 +/- 0.1", 64); v.e[0].reset(new RE(v.h[0]->gen() * mpz_class("1208925819614629174706176") + mpq_class(1, 3))); v.e[1].reset(new RE(v.h[1]->gen() * mpq_class("1/1208925819614629174706177") - 7)); } },
    { "e0, e1 in two cubic fields, no handles: ", [](Vars& v) { RP a = RC::make("x^3-2", "x", "1.25 +/- 0.1", 64), b = RC::make("y^3-y-1", "y", "1.3 +/- 0.1", 64); v.e[0].reset(new RE(a->gen() * a->gen() - mpz_class("1208925819614629174706176"))); v.e[1].reset(new RE(b->gen() * mpq_class("1/1208925819614629174706177") - 7)); } },
    { "e0, e1 in one cubic field: ", [](Vars& v) { v.h[1] = v.h[0] = RC::make("y^3-y-1", "y", "1.3 +/- 0.1", 64); v.e[0].reset(new RE(v.h[0]->gen() * v.h[0]->gen() - mpz_class("1208925819614629174706176"))); v.e[1].reset(new RE(v.h[1]->gen() * mpq_class("1/1208925819614629174706177") - 7)); } },
};
static size_t START = 0;
static void run(const vector<int>& path, bool* exc, bool* dead) { Vars v; starts[START].second(v); for (int k : path) { if (!ops[k].can(v)) { if (dead) *dead = true; return; } try { ops[k].f(v); } catch (std::exception& x) { if (exc) *exc = true; } } if (dead) *dead = false; }
static void explore(vector<int>& path, int depth) {
    if (!path.empty()) { bool exc = false, dead = false; string d = starts[START].first; for (int k : path) d += (k == path[0] && d == starts[START].first ? "" : " ; ") + ops[k].n; CASE("%s", d.c_str()); 
        { Vars v; starts[START].second(v); for (int k : path) { if (!ops[k].can(v)) { dead = true; break; } try { ops[k].f(v); } catch (std::exception& x) { exc = true; } } } if (dead) return;
        scope([&] { run(path, nullptr, nullptr); }); STATE(d); OUTCOME(exc ? "an operation fails" : "all operations succeed"); if (exc) g_stat["histories_with_exceptions"]++; }
    if ((int)path.size() == depth) return; for (size_t k = 0; k < ops.size(); k++) { if (path.size() == 1 && !mine()) continue; path.push_back(k); explore(path, depth); path.pop_back(); }
}
int main(int argc, char** argv) {
    init(argc, argv); Hush hush; bool th = g_thorough; { RE warm(7); RE w2 = warm * 3; std::cerr.flush(); }
    // (1)
    auto fs = th ? order_fields(false) : fields(false); for (auto& s : fs) for (long prec : th ? vector<long>{ 2, 64, 300 } : vector<long>{ 64 }) { if (mine()) block("field functions on " + s.name, [&] { wholefield(s, prec); });
        CField K(s, prec); auto el = elements(s.F, false, 0); auto nr = tinies(s.F, false); for (size_t i = 0; i < nr.size() && i < (th ? 8 : 3); i++) el.push_back(nr[i]); vector<mpq_class> qs = { 0, 1, mpq_class(-3, 7), mpq_class(p2(90) + 1, 5), mpq_class(-p2(63)) };
        if (s.F->d > 12 && el.size() > 5) el.resize(5);
        for (size_t i = 0; i < el.size(); i++) if (mine()) block("functions of element " + el[i].s() + " in field " + s.name, [&] { for (size_t j = 0; j < el.size(); j += th ? 1 : 3) { size_t jj = (i + j) % el.size(); int vx = (i + j) % NVAR, vy = (i + 2 * j) % NVAR; auto& q = qs[(i + j) % qs.size()]; D = "field " + s.name + " prec " + std::to_string(prec) + " a=" + el[i].s() + " (" + varname(vx) + ") b=" + el[jj].s() + " (" + varname(vy) + ") q=" + q.get_str(); STATE(D); elems(K, el[i], vx, el[jj], vy, q, j < 6); } }); }
    // (2)
    vector<ref::Poly> ps; for (auto t : { "0", "5", "0 1", "-2 1", "3 7", "-2 0 1", "1 -2 1", "0 0 1", "1 2 1", "-1 1 1 -1", "6 -5 1", "6 -11 6 -1", "1 -3 0 1", "-1 -1 0 0 0 1", "1/2 -3/4 5", "2^70 -2^80 1", "-2 0 0 0 -512 65536 -2097152 1", "0 2 -3 1", "1 0 1", "1 0 2 0 1", "0 1 0 -4 0 4", "-6 1 1", "24 -50 35 -10 1", "1 -1 1 -1 1", "3 -2 0 0 0 0 0 1", "0 -1 2 5", "-1 0 4" }) ps.push_back(parsepoly(t)); for (int a = -3; a <= 3; a++) for (int b = -2; b <= 2; b++) for (int c : { -2, 1 }) ps.push_back({ a, b, c }); if (th) for (int a = -2; a <= 2; a++) for (int b = -2; b <= 2; b++) for (int c = -2; c <= 2; c++) for (int e : { -1, 1, 2 }) ps.push_back({ a, b, c, e });
    { vector<ref::Poly> my; for (auto& p : ps) { ref::trim(p); if (mine()) my.push_back(p); } block("polynomial functions", [&] { for (auto& p : my) { polysection(p); STATE(D); } }); }
    if (g_shard == 0) block("n-th roots", [&] { for (int n : { 2, 3, 5 }) for (auto d : { mpq_class(2), mpq_class(3, 7), mpq_class(p2(80) + 3) }) { CASE("renf_init_nth_root %d of %s", n, d.get_str().c_str()); scope([&] { Q q; setq(q, d); renf_t k; renf_init_nth_root_fmpq(k, q, n, 64); renf_clear(k); }); } });
    if (g_shard == 1 || g_nshards == 1) block("strings", [&] { for (auto t : { "", "x", "x^", "x^2+", "1/0", "1/0*x", "x^99999999999999999999", "2*x^3-1/7*x", "y", "((", "+-x", "12345678901234567890123*x/7", "x^2/0+1", "*", "3**x", "3x", "x x" }) { CASE("set_str_pretty '%s'", t); scope([&] { PQ q; fmpq_poly_set_str_pretty(q, t, "x"); fmpz_poly_t z; fmpz_poly_init(z); fmpz_poly_set_str_pretty(z, t, "x"); fmpz_poly_clear(z); }); } });
    // (3)
    mkops(th); vector<int> path; block("histories", [&] { auto it = g_item; for (START = 0; START < starts.size(); START++) explore(path, START ? (th ? 3 : 2) : (th ? 4 : 3)); g_item = it; });
    g_stat["operations"] = g_shard == 0 ? ops.size() : 0; finish(); fflush(stdout); _exit(g_nfail ? 1 : 0);
}
