// C12: all histories of operations interleaved with immutability switches.  The library's assertions are redirected: a failing
// assertion is the documented way to stop, after which the field must be exactly as it was when it was made immutable.
#include "cxx.hpp"
#include "near.hpp"
#include <setjmp.h>
#include <flint/fmpz_vec.h>
static mpz_class getz(const fmpz_t f) { mpz_class z; fmpz_get_mpz(z.get_mpz_t(), f); return z; }
static jmp_buf jb; static volatile int armed = 0; static char why[400];
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept { if (armed) { armed = 0; snprintf(why, sizeof why, "%s", e); longjmp(jb, 1); } fprintf(stderr, "%s\n", e); CASE("%s: assertion %s", g_case, e); abort(); }
struct Snap { string emb, pol; long prec; const void *p1, *p2; };
static Snap snap(renf_t nf) { Snap s; s.emb = balls(nf->emb); char* t = fmpq_poly_get_str(nf->nf->pol); s.pol = t; flint_free(t); t = fmpz_poly_get_str(nf->der); s.pol += string("|") + t; flint_free(t); s.prec = nf->prec; s.p1 = nf->nf->pol->coeffs; s.p2 = nf->der->coeffs; return s; }
static bool same(const Snap& a, const Snap& b) { return a.emb == b.emb && a.pol == b.pol && a.prec == b.prec && a.p1 == b.p1 && a.p2 == b.p2; }
// ---- state of one history
struct St { renf_t nf; renf_elem_t a, b, c; ref::Elem ma, mb, mc; int flag = 0; };
struct OpD { string n; std::function<bool(const St&)> can; std::function<void(St&)> f; };
static vector<OpD> ops; static const ref::F* RF;
static void val(const char* w, renf_elem_t a, const ref::Elem& e, renf_t nf) { check_elem(w, a, e, nf); }
static void mk(bool th) {
#define ALW [](const St&) { return true; }
#define BNZ [](const St& s) { return !s.mb.zero(); }
#define OP(name, can, ...) ops.push_back({ name, can, [](St& s) { renf* nf = s.nf; renf_elem *a = s.a, *b = s.b, *c = s.c; (void)a; (void)b; (void)c; __VA_ARGS__ } })
    OP("set_immutable(1)", ALW, int o = renf_set_immutable(nf, 1); if (!!o != !!s.flag) FAIL("renf_set_immutable(1) returned %d, the field was %s", o, s.flag ? "immutable" : "mutable"); s.flag = 1;);
    OP("set_immutable(0)", ALW, int o = renf_set_immutable(nf, 0); if (!!o != !!s.flag) FAIL("renf_set_immutable(0) returned %d, the field was %s", o, s.flag ? "immutable" : "mutable"); s.flag = 0;);
    for (long p : th ? vector<long>{ 30, 64, 90, 300 } : vector<long>{ 64, 200 }) ops.push_back({ "refine(" + std::to_string(p) + ")", ALW, [p](St& s) { renf_refine_embedding(s.nf, p); } });
    for (long p : th ? vector<long>{ 10, 64, 128, 400 } : vector<long>{ 20, 128 }) ops.push_back({ "get_arb(" + std::to_string(p) + ")", ALW, [p](St& s) { B r; renf_elem_get_arb(r, s.a, s.nf, p); if (!contains(r, s.ma)) FAIL("get_arb does not contain the value"); } });
    OP("sgn", ALW, int r = renf_elem_sgn(a, nf); if (r != s.ma.sgn()) FAIL("sgn %d", r);); OP("cmp", ALW, int r = sg(renf_elem_cmp(a, b, nf)); if (r != (s.ma - s.mb).sgn()) FAIL("cmp %d", r);); OP("cmp 7/5", ALW, Q q; setq(q, mpq_class(7, 5)); int r = sg(renf_elem_cmp_fmpq(a, q, nf)); if (r != (s.ma - ref::Elem(*RF, mpq_class(7, 5))).sgn()) FAIL("cmp_fmpq %d", r););
    OP("cmp 10^30", ALW, Z z; fmpz_ui_pow_ui(z, 10, 30); int r = sg(renf_elem_cmp_fmpz(a, z, nf)); mpz_class m; fmpz_get_mpz(m.get_mpz_t(), z); if (r != s.ma.cmp(mpq_class(m))) FAIL("cmp_fmpz %d", r);); OP("cmp 3", ALW, int r = sg(renf_elem_cmp_si(a, 3, nf)); if (r != s.ma.cmp(mpq_class(3))) FAIL("cmp_si %d", r); r = sg(renf_elem_cmp_ui(a, 3, nf)); if (r != s.ma.cmp(mpq_class(3))) FAIL("cmp_ui %d", r););
    OP("floor", ALW, Z f; renf_elem_floor(f, a, nf); if (getz(f) != s.ma.floor()) FAIL("floor");); OP("ceil", ALW, Z f; renf_elem_ceil(f, a, nf); if (getz(f) != -s.ma.neg().floor()) FAIL("ceil");); OP("fdiv", BNZ, Z f; renf_elem_fdiv(f, a, b, nf); if (getz(f) != (s.ma / s.mb).floor()) FAIL("fdiv"););
    OP("get_d", ALW, double d = renf_elem_get_d(a, nf, ARF_RND_FLOOR); if ((ref::Elem(*RF, mpq_class(d)) - s.ma).sgn() > 0) FAIL("get_d");); OP("cfrac", ALW, fmpz* v = _fmpz_vec_init(5); CElem r(nf); renf_elem_get_cfrac(v, r, a, 4, nf); mpz_class z; fmpz_get_mpz(z.get_mpz_t(), v); _fmpz_vec_clear(v, 5); if (z != s.ma.floor()) FAIL("cfrac"););
    OP("c=a+b", ALW, renf_elem_add(c, a, b, nf); s.mc = s.ma + s.mb;); OP("c=a-b", ALW, renf_elem_sub(c, a, b, nf); s.mc = s.ma - s.mb;); OP("c=a*b", ALW, renf_elem_mul(c, a, b, nf); s.mc = s.ma * s.mb;); OP("c=a/b", BNZ, renf_elem_div(c, a, b, nf); s.mc = s.ma / s.mb;); OP("c=b^3", ALW, renf_elem_pow(c, b, 3, nf); s.mc = s.mb.pow(3);); OP("c=-a", ALW, renf_elem_neg(c, a, nf); s.mc = s.ma.neg();); OP("c=1/b", BNZ, renf_elem_inv(c, b, nf); s.mc = ref::Elem(*RF, 1) / s.mb;); OP("swap a,c", ALW, renf_elem_swap(a, c); std::swap(s.ma, s.mc);); OP("b=gen", ALW, renf_elem_gen(b, nf); s.mb = ref::Elem(*RF, ref::Poly{ 0, 1 });); OP("a=b", ALW, renf_elem_set(a, b, nf); s.ma = s.mb;);
    OP("a=blurred", ALW, blur(a, nf, nf->prec + 30);); OP("a+=2^-80", ALW, Q q; setq(q, mpq_class(1, mpz_class(1) << 80)); renf_elem_add_fmpq(a, a, q, nf); s.ma = s.ma + ref::Elem(*RF, mpq_class(1, mpz_class(1) << 80)););
    OP("set_evaluation", ALW, renf_elem_set_evaluation(a, nf, 200);); OP("check_embedding", ALW, renf_elem_check_embedding(a, nf, 64);); OP("text", ALW, char* t = renf_elem_get_str_pretty(a, "x", nf, 20, 3); flint_free(t); t = renf_get_str(nf, "x", 64); flint_free(t););
    OP("copy of the field", ALW, renf_t k; renf_init_set(k, nf); if (renf_set_immutable(k, 0)) FAIL("a copy of a field is immutable"); renf_refine_embedding(k, 300); if (!renf_equal(k, nf)) FAIL("a copy differs from its field"); renf_clear(k););
    OP("C++ field", ALW, RP K = RC::make(nf, "x"); ::renf_t& k = *(::renf_t*)K->renf_t(); if (renf_set_immutable(k, 0)) FAIL("a new field is immutable"); RE g = K->gen(); g.floor(); (double)g; RE t(g * 3); t.ceil(););
    OP("evaluation queries", ALW, slong cd; renf_elem_relative_condition_number_2exp(&cd, a, nf); renf_elem_is_rational(a, nf); renf_elem_is_integer(a, nf); renf_elem_equal(a, b, nf); renf_degree(nf););
}
static void history(const Spec& s, CField& K, const vector<int>& path, const ref::Elem& ia, const ref::Elem& ib, bool* dead, bool* stopped) {
    static St* st; st = new St; RF = &s.F; renf_init_set(st->nf, K.nf); renf_elem_init(st->a, st->nf); renf_elem_init(st->b, st->nf); renf_elem_init(st->c, st->nf); set_elem(st->a, ia, st->nf, false); set_elem(st->b, ib, st->nf, false); renf_elem_zero(st->c, st->nf); st->ma = ia; st->mb = ib; st->mc = ref::Elem(s.F, 0); static Snap fixed; static volatile int flag; flag = 0; *dead = *stopped = false;
    for (volatile size_t i = 0; i < path.size(); i = i + 1) { auto& o = ops[path[i]]; if (!o.can(*st)) { *dead = true; break; } int before = st->flag; Snap now0 = snap(st->nf); static Snap keep; keep = now0; TRANS();
        if (setjmp(jb) == 0) { armed = 1; o.f(*st); armed = 0; }
        else { // the library stopped the program
            if (!flag) FAIL("operation %d stopped the program although the field is mutable: %s", (int)i + 1, why); if (!same(snap(st->nf), keep)) FAIL("operation %d stopped the program, but after it had modified the immutable field: %s became %s", (int)i + 1, keep.emb.c_str(), snap(st->nf).emb.c_str()); if (!st->nf->immutable) FAIL("operation %d stopped the program with the field marked mutable", (int)i + 1); *stopped = true; return; }
        flag = st->flag; if (before && !same(snap(st->nf), keep)) FAIL("operation %d modified an immutable field: enclosure %s became %s, precision %ld became %ld", (int)i + 1, keep.emb.c_str(), snap(st->nf).emb.c_str(), keep.prec, (long)st->nf->prec); if (!!st->nf->immutable != !!st->flag) FAIL("after operation %d the field is marked %s", (int)i + 1, st->nf->immutable ? "immutable" : "mutable");
        B e; arb_set(e, st->nf->emb); if (i + 1 == path.size()) { val("a", st->a, st->ma, st->nf); val("b", st->b, st->mb, st->nf); val("c", st->c, st->mc, st->nf); if (!contains(e, ref::Elem(s.F, ref::Poly{ 0, 1 }))) FAIL("the enclosure of the generator lost the root"); } }
    if (!*dead) { string h = snap(st->nf).emb + std::to_string(st->flag) + st->ma.s() + "|" + st->mb.s() + "|" + st->mc.s() + balls(st->a->emb); STATE(h); OUTCOME(std::to_string(st->flag) + snap(st->nf).emb); }
    renf_elem_clear(st->a, st->nf); renf_elem_clear(st->b, st->nf); renf_elem_clear(st->c, st->nf); renf_clear(st->nf); delete st;
}
static void explore(const Spec& s, CField& K, vector<int>& path, int depth, const ref::Elem& a, const ref::Elem& b) {
    if (!path.empty()) { string d; for (int k : path) d += " ; " + ops[k].n; CASE("field %s prec %ld a=%s b=%s%s", s.name.c_str(), K.prec, a.s().c_str(), b.s().c_str(), d.c_str()); bool dead, stopped; history(s, K, path, a, b, &dead, &stopped); if (dead) return; TRACE(); if (stopped) { g_stat["histories_stopped_by_the_library"]++; return; } }
    if ((int)path.size() == depth) return; for (size_t k = 0; k < ops.size(); k++) { if (path.size() == 1 && !mine()) continue; path.push_back(k); explore(s, K, path, depth, a, b); path.pop_back(); }
}
int main(int argc, char** argv) {
    init(argc, argv); Hush hush; bool th = g_thorough; mk(th); if (!th) g_stat["operations"] = g_shard ? 0 : ops.size();
    { // the redirection works and the build enforces immutability at all
      Spec s = mkfield("-2 0 1", 1); CField K(s, 64, 20); bool dead, st; vector<int> p = { 0, 3 }; CASE("probe: immutable, then refine"); history(s, K, p, ref::Elem(s.F, 1), ref::Elem(s.F, 1), &dead, &st); if (!st && !g_nfail) FAIL("refining an immutable field is neither refused nor a modification"); }
    vector<string> fs = { "-2 0 1", "1 -3 0 1", "7 3" }; if (th) for (auto t : { "-2 2000 -500000 1", "-1 -1 0 0 0 1", "-2^70 3", "0 1" }) fs.push_back(t);
    for (auto& f : fs) for (long prec : th ? vector<long>{ 8, 64, 128 } : vector<long>{ 64 }) for (int bits : { 16, 60 }) { Spec s = mkfield(f, -1); CField K(s, prec, bits + sepbits(s.F)); ref::Elem g(s.F, ref::Poly{ 0, 1 }), one(s.F, 1); if (s.F->d == 1) g = ref::Elem(s.F, mpq_class(-7, 3)); vector<std::pair<ref::Elem, ref::Elem>> in; ref::Elem fr = g - ref::Elem(s.F, mpq_class(g.floor())); in.push_back({ g, one }); in.push_back({ fr.pow(40), g }); if (th) in.push_back({ g + ref::Elem(s.F, mpq_class(7, 5)), fr });
        for (auto& ab : in) { vector<int> path; explore(s, K, path, 3, ab.first, ab.second); } }
    { // wide: every operation on every pair of operands, in a mutable field, an immutable field, and with a useless enclosure in an immutable field
      int imm = 0, bl = -1; for (size_t k = 0; k < ops.size(); k++) if (ops[k].n == "a=blurred") bl = k;
      for (auto& s : order_fields(th)) if (s.F->d < 12) for (long prec : th ? vector<long>{ 8, 64, 128 } : vector<long>{ 64 }) for (int bits : th ? vector<int>{ 2, 20, 60 } : vector<int>{ 20 }) { CField K(s, prec, bits + sepbits(s.F)); vector<ref::Elem> W; ref::Elem g(s.F, ref::Poly{ 0, 1 }); if (s.F->d == 1) g = ref::Elem(s.F, mpq_class(-7, 3)); for (auto& e : tinies(s.F, th)) { W.push_back(e); if (th || W.size() < 8) W.push_back(e + ref::Elem(s.F, mpq_class(3))); } W.push_back(g); W.push_back(g * mpq_class(p2(80)) + ref::Elem(s.F, 1)); W.push_back(ref::Elem(s.F, mpq_class(1, 3)) - g * mpq_class(p2(270))); W.push_back(g.neg() + ref::Elem(s.F, mpq_class(7, 5))); W.push_back(ref::Elem(s.F, mpq_class(-2, 3))); W.push_back(ref::Elem(s.F, mpq_class(0)));
        for (auto& a : W) for (auto& b : W) { if (!mine()) continue; for (size_t k = 0; k < ops.size(); k++) for (int v = 0; v < 3; v++) { vector<int> path; if (v == 2) path.push_back(bl); if (v) path.push_back(imm); path.push_back(k); string d; for (int i : path) d += " ; " + ops[i].n; CASE("field %s prec %ld a=%s b=%s%s", s.name.c_str(), K.prec, a.s().c_str(), b.s().c_str(), d.c_str()); bool dead, stopped; history(s, K, path, a, b, &dead, &stopped); if (dead) continue; TRACE(); if (stopped) g_stat["histories_stopped_by_the_library"]++; } } } }
    if (th) { Spec s = mkfield("1 -3 0 1", 0); CField K(s, 64, 40); ref::Elem g(s.F, ref::Poly{ 0, 1 }); vector<int> path; explore(s, K, path, 4, g, g * g - g); }
    finish(); fflush(stdout); _exit(g_nfail ? 1 : 0);
}
