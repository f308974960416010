// C09: unique parents; all histories of creation, refinement, copy and release over a set of field descriptions
#include "cxx.hpp"
struct D { Spec s; string var; long prec, bits; int cls; int how; }; static vector<D> DS; static vector<string> cls;
static int clsof(const Spec& s, const string& v) { string k = ref::str(s.F->f) + "#" + std::to_string(0) + v; auto r = s.F->root(400); k += r.first.get_str(); for (size_t i = 0; i < cls.size(); i++) if (cls[i] == k) return i; cls.push_back(k); return cls.size() - 1; }
static void put(const string& c, int i, const string& v, long prec, long bits, int how) { Spec s = mkfield(c, i); long sb = sepbits(s.F) + 2; DS.push_back({ s, v, prec, sb + bits, clsof(s, v), how }); }
static string text(const D& d) { B e; rootball(e, d.s.F, d.bits + 6); char* c = arb_get_str(e, 10 + d.bits, 0); string r(c); flint_free(c); return r; }
static RP make(const D& d) {
    if (d.how == 0) { PQ f(d.s.F->f); B e; rootball(e, d.s.F, d.bits); renf_t nf; renf_init(nf, f, e, d.prec); RP K = RC::make(nf, d.var); renf_clear(nf); return K; }
    if (d.how == 1) return RC::make(ref::pretty(d.s.F->f, d.var), d.var, text(d), d.prec);
    if (d.how == 3) return RP(&RC::make());
    if (d.how >= 4) { /* degree one: the root is an end of the given interval */ mpq_class r = -d.s.F->f[0] / d.s.F->f[1]; PQ f(d.s.F->f); B e; Q q(r); arb_set_fmpq(e.v, q, 200); Q t(mpq_class(d.how == 4 ? 1 : -1, 4)); arb_t u; arb_init(u); arb_set_fmpq(u, t, 64); arb_add(e.v, e.v, u, 300); arb_clear(u); mag_set_ui_2exp_si(arb_radref(e.v), 1, -2); if (d.prec > 32) { char* c = arb_get_str(e.v, 30, 0); string s = (d.how == 4 ? mpq_class(r + mpq_class(1, 4)) : mpq_class(r - mpq_class(1, 4))).get_d() == 0 ? "0" : std::to_string(mpq_class(r + mpq_class(d.how == 4 ? 1 : -1, 4)).get_d()); flint_free(c); return RC::make(ref::pretty(d.s.F->f, d.var), d.var, s + " +/- 0.25", d.prec); } renf_t nf; renf_init(nf, f, e.v, d.prec); RP K = RC::make(nf, d.var); renf_clear(nf); return K; }
    long extra = d.bits; return RC::make(ref::pretty(d.s.F->f, d.var), d.var, [&](slong p) { B e; rootball(e, d.s.F, std::max<long>(p, extra + 6)); char* c = arb_get_str(e, 10 + p + extra, 0); string r(c); flint_free(c); return r; }, d.prec);
}
struct Op { int k, a, b; string n; }; static vector<Op> ops; enum { MAKE, DROP, COPY, REFINE, USE, KEEP }; const int NS = 3;
struct St { RP h[NS]; int c[NS]; RE keep; int kc = -1; };
static void check(St& s, std::hash<RC>& H) { for (int i = 0; i < NS; i++) if (s.h[i]) { const D* d = nullptr; for (auto& x : DS) if (x.cls == s.c[i]) { d = &x; break; } if (!contains(s.h[i]->renf_t()->emb, ref::Elem(d->s.F, ref::Poly{ 0, 1 })) || s.h[i]->gen_name() != d->var || frompolyq(s.h[i]->renf_t()->nf->pol) != d->s.F->f) FAIL("slot %d holds the wrong field %s", i, s.h[i]->to_string().c_str());
        for (int j = 0; j < NS; j++) if (s.h[j]) { bool w = s.c[i] == s.c[j]; if ((&*s.h[i] == &*s.h[j]) != w) FAIL("slots %d and %d: %s objects for %s fields", i, j, w ? "different" : "the same", w ? "equal" : "different"); if ((*s.h[i] == *s.h[j]) != w || (*s.h[i] != *s.h[j]) == w) FAIL("operator== disagrees"); if (w && H(*s.h[i]) != H(*s.h[j])) FAIL("hashes of equal fields differ"); if (!!renf_equal(s.h[i]->renf_t(), s.h[j]->renf_t()) != (w || (frompolyq(s.h[i]->renf_t()->nf->pol) == frompolyq(s.h[j]->renf_t()->nf->pol) && cls[s.c[i]].substr(cls[s.c[i]].rfind(DS[0].var) + 1) == cls[s.c[j]].substr(cls[s.c[j]].rfind(DS[0].var) + 1) && false))) { /* same root, other name: renf_equal is true */ const D *p = nullptr, *q = nullptr; for (auto& x : DS) { if (x.cls == s.c[i]) p = &x; if (x.cls == s.c[j]) q = &x; } bool r = p->s.F->f == q->s.F->f && p->s.F->root(400) == q->s.F->root(400); if (!!renf_equal(s.h[i]->renf_t(), s.h[j]->renf_t()) != r) FAIL("renf_equal is %d", !r); } }
        if (s.kc >= 0 && (&s.keep.parent() == &*s.h[i]) != (s.kc == s.c[i])) FAIL("slot %d and the field of a kept element: identity is wrong", i); }
}
static void step(St& s, const Op& o) { TRANS(); switch (o.k) { case MAKE: s.h[o.a] = make(DS[o.b]); s.c[o.a] = DS[o.b].cls; break; case DROP: s.h[o.a].reset(); break; case COPY: s.h[o.a] = s.h[o.b]; s.c[o.a] = s.c[o.b]; break; case REFINE: renf_refine_embedding(s.h[o.a]->renf_t(), 900); break; case USE: { RE x = s.h[o.a]->gen() * 5; x.floor(); std::hash<RE>()(x); RE y = s.h[o.a]->gen(); y.renf_elem_t(); renf_elem_set_evaluation(s.h[o.a]->gen().renf_elem_t(), s.h[o.a]->renf_t(), 3); } break; case KEEP: s.keep = s.h[o.a]->gen(); s.kc = s.c[o.a]; break; } }
static bool ok(const St& s, const Op& o) { if (o.k == MAKE) return true; if (o.k == COPY) return !!s.h[o.b]; return !!s.h[o.a]; }
static void explore(vector<int>& path, int depth) { std::hash<RC> H;
    St s; string d; for (int k : path) d += ops[k].n + "; "; CASE("%s", d.c_str()); bool full = (int)path.size() == depth; for (size_t i = 0; i < path.size(); i++) step(s, ops[path[i]]); check(s, H); TRACE(); string st; for (int i = 0; i < NS; i++) st += s.h[i] ? std::to_string(s.c[i]) + "@" + std::to_string(s.h[i]->renf_t()->emb->mid.exp) + "," + std::to_string(arb_rel_accuracy_bits(s.h[i]->renf_t()->emb)) + "|" : "-|"; STATE(st); OUTCOME(st); if (full) return;
    for (size_t k = 0; k < ops.size(); k++) { if (path.size() == 1 && !mine()) continue; if (!ok(s, ops[k])) continue; /* symmetry: slots are filled in order */ if (ops[k].k == MAKE) { bool skip = false; for (int i = 0; i < ops[k].a; i++) if (!s.h[i] && i < ops[k].a) { bool used = false; for (int p : path) if (ops[p].a == i) used = true; if (!used) skip = true; } if (skip) continue; } path.push_back(k); explore(path, depth); path.pop_back(); }
}
// all ordered pairs of descriptions in a larger family, with and without refinement in between
static void pairs() { std::hash<RC> H; for (size_t i = 0; i < DS.size(); i++) { if (!mine()) continue; for (size_t j = 0; j < DS.size(); j++) for (int m = 0; m < 3; m++) { CASE("make #%zu %s [%s prec %ld bits %ld how %d], %s, make #%zu %s [%s prec %ld bits %ld how %d]", i, DS[i].s.name.c_str(), DS[i].var.c_str(), DS[i].prec, DS[i].bits, DS[i].how, m == 0 ? "nothing" : m == 1 ? "refine" : "use generator", j, DS[j].s.name.c_str(), DS[j].var.c_str(), DS[j].prec, DS[j].bits, DS[j].how); TRANS(); TRACE(); St s; s.h[0] = make(DS[i]); s.c[0] = DS[i].cls; Op o{ m == 1 ? REFINE : USE, 0, 0, "" }; if (m) step(s, o); s.h[1] = make(DS[j]); s.c[1] = DS[j].cls; check(s, H); s.h[0].reset(); s.h[2] = make(DS[i]); s.c[2] = DS[i].cls; check(s, H); } } }
// all descriptions alive at the same time (the registry grows and shrinks by hundreds of entries), several creation and release orders
static void many() { size_t n = DS.size(); for (int order = 0; order < 4; order++) for (int stride : { 1, 2, 3, 7 }) for (int refine = 0; refine < 2; refine++) { if (!mine()) continue; CASE("%zu descriptions created in order %d, every %d-th dropped, %s, all created again", n, order, stride, refine ? "the others refined" : "nothing else"); TRACE(); auto at = [&](size_t i) { return order == 0 ? i : order == 1 ? n - 1 - i : (i * (order == 2 ? 17 : 101)) % n; }; std::map<int, std::vector<RP>> live; std::map<const RC*, int> owner;
        auto add = [&](size_t k) { RP K = make(DS[k]); TRANS(); auto& v = live[DS[k].cls]; if (!v.empty() && v[0] != K) { FAIL("description #%zu %s: another object although the field is alive", k, DS[k].s.name.c_str()); return; } auto o = owner.find(&*K); if (v.empty() && o != owner.end() && o->second != DS[k].cls) { FAIL("description #%zu %s: the object of another live field", k, DS[k].s.name.c_str()); return; } owner[&*K] = DS[k].cls; v.push_back(K); if (!contains(K->renf_t()->emb, ref::Elem(DS[k].s.F, ref::Poly{ 0, 1 }))) FAIL("description #%zu: wrong root", k); };
        for (size_t i = 0; i < n; i++) add(at(i)); { size_t c = 0; for (auto& kv : live) if (c++ % stride == 0) { owner.erase(&*kv.second[0]); kv.second.clear(); } else if (refine) renf_refine_embedding(kv.second[0]->renf_t(), 500); else while (kv.second.size() > 1) kv.second.pop_back(); }
        for (size_t i = 0; i < n; i++) add(at(i)); STATE(std::to_string(order) + "/" + std::to_string(stride) + "/" + std::to_string(refine)); OUTCOME(std::to_string(owner.size())); } }
int main(int argc, char** argv) {
    init(argc, argv); Hush h; bool th = g_thorough; auto mk = [&](int k, int a, int b, const string& n) { ops.push_back({ k, a, b, n }); };
    auto setops = [&]() { ops.clear(); for (size_t d = 0; d < DS.size(); d++) for (int a = 0; a < NS; a++) mk(MAKE, a, d, "h" + std::to_string(a) + "=make#" + std::to_string(d)); for (int a = 0; a < NS; a++) { string A = std::to_string(a); mk(DROP, a, 0, "drop h" + A); mk(REFINE, a, 0, "refine h" + A); mk(USE, a, 0, "use h" + A); mk(KEEP, a, 0, "keep an element of h" + A); mk(COPY, a, (a + 1) % NS, "h" + A + "=h" + std::to_string((a + 1) % NS)); } };
    string clu = "-2 2000 -500000 1"; // two roots near 0.002 that differ by about 2^-30
    auto hist = [&](int depth) { setops(); vector<int> p; explore(p, depth); DS.clear(); };
    put(clu, 0, "x", 64, 0, 0); put(clu, 1, "x", 64, 0, 1); put(clu, 0, "x", 8, 200, 1); put("-2 0 1", 1, "x", 64, 0, 1); put("-4 0 2", 1, "x", 64, 0, 1); put("-2 0 1", 1, "y", 64, 0, 1); put("-2 0 1", 1, "x", 200, 90, 0); hist(th ? 5 : 4);
    put("-1 1", 0, "a", 64, 10, 1); put("-1 1", 0, "a", 64, 10, 3); put("-1 1", 0, "b", 64, 10, 1); put("-2 2", 0, "a", 64, 10, 1); put("-2 0 0 1", 0, "a", 4, 0, 2); hist(th ? 5 : 4);
    // Mignotte-like cluster: roots agree to far more bits than a double
    string mig = "-2 0 0 0 -512 65536 -2097152 1"; vector<string> fam = { clu, mig, "-2 0 1", "-2^200 0 0 1", "-3 0 2^90", "1 0 -10 0 1", "7 3" }; { mpz_class A = p2(140); string t = mpz_class(A - 2).get_str() + " " + mpz_class(-2 * A).get_str() + " " + A.get_str(); fam.push_back(t); string u = "-2 " + mpz_class(4 * p2(60)).get_str() + " " + mpz_class(-2 * p2(120)).get_str() + " 0 0 1"; fam.push_back(u); }
    for (auto& c : fam) { if (!irreducible(parsepoly(c))) continue; size_t n = nroots(c); for (size_t i = 0; i < n; i++) for (int how : { 0, 1, 2 }) for (long prec : th ? vector<long>{ 2, 8, 64, 300 } : vector<long>{ 8, 64 }) for (long bits : th ? vector<long>{ 0, 3, 60, 300 } : vector<long>{ 0, 120 }) put(c, i, "x", prec, bits, how); }
    { string L(40, 'q'); for (auto& v : vector<string>{ "x1", "x2", "y1", "xx", "X", "x_", "xyz", "xaz", "xya", "alpha", "Alpha", "x12", L, L + "1", L + "2", "p" + L, L + "p" }) for (int how : { 0, 1 }) put("-2 0 1", 1, v, 64, 0, how); }
    put("-2 0 1", 1, "y", 64, 0, 1); put("-4 0 2", 1, "x", 64, 0, 1); put("-1 0 1/2", 1, "x", 64, 0, 1); put("-6 0 3", 0, "x", 64, 0, 1); for (auto c : { "-1 1", "0 1", "7 2" }) for (int how : { 0, 1, 4, 5 }) for (long prec : { 16, 64 }) put(c, 0, "x", prec, 20, how); pairs(); for (int k = 2; k < (th ? 2000 : 400); k++) { string t = std::to_string(-k) + " 0 1"; if (irreducible(parsepoly(t))) put(t, k % 2, k % 3 ? "x" : "y", 64, 10 * (k % 4), k % 2); } many();
    SAMPLE("h0=make#0; h1=make#1; drop h0; h2=make#2"); finish(); return g_nfail ? 1 : 0;
}
