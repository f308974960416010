// C11: every interleaving (up to a preemption bound) of small concurrent programs on field handles and elements, executed on
// the real library under a controlled scheduler.  One forked process per execution; schedules are enumerated depth first.
#include "mcsched.hpp"
#include "common.hpp"
#include <e-antic/renfxx.h>
#include <sstream>
#include <flint/fmpz_vec.h>
#include <flint/fmpq_vec.h>
#include <time.h>
using namespace eantic; typedef boost::intrusive_ptr<const renf_class> H; typedef renf_elem_class RE;
static ::renf_t KF, KG, KQ; // prebuilt C fields, read only
static void mkf(::renf_t k, const char* pol, const char* var, const char* emb) { fmpq_poly_t p; fmpq_poly_init(p); fmpq_poly_set_str_pretty(p, pol, var); arb_t e; arb_init(e); arb_set_str(e, emb, 64); renf_init(k, p, e, 64); fmpq_poly_clear(p); arb_clear(e); }
static H F() { return renf_class::make(KF, "a"); } static H G() { return renf_class::make(KG, "b"); }
static void require(bool c, const char* w) { if (!c) mc::bad("%s", w); }
static bool alive(const void* p) { mc::Block* b = mc::find((uintptr_t)p); return b && !b->freed; }
struct Prog { const char* name; std::function<void()> before; std::vector<std::function<void()>> threads; std::function<void()> after; bool leakfree = true; int cap = 99; };
static H h[6]; static RE* e[6]; static std::vector<Prog> progs;
static void drop() { for (auto& x : h) x = nullptr; for (auto& x : e) { delete x; x = nullptr; } }
static void intact(const H& x, const char* w) { require(x && alive(x.get()), w); require(x->degree() >= 1 && (&x->gen().parent() == x.get()), w); }
// everything a thread may do with elements of its own in an immutable field; different seeds give different magnitudes
static void work(const RE& g, int seed, int part) {
    mpz_class m = mpz_class(1) << (40 + 37 * seed); RE x = g * m + seed; RE y = g * mpz_class(seed + 3) - mpq_class(seed + 1, 7); const renf_class& K = g.parent(); auto* k = (::renf_t*)K.renf_t();
    if (part == 0) { mpz_class f = x.floor(), c = x.ceil(); require(c == f + 1 && x > f && x < c, "wrong rounding"); require(x.floordiv(y) == (x / y).floor(), "wrong floor division"); require(y.floordiv(x) == 0 || y.floordiv(x) == -1, "wrong floor division"); require((RE(K, 7).floordiv(RE(K, seed + 1))) == 7 / (seed + 1), "wrong floor division"); }
    if (part == 1) { fmpz* v = _fmpz_vec_init(6); { CElem r(*k); renf_elem_get_cfrac(v, r, y.renf_elem_t(), 6, *k); } mpz_class z; fmpz_get_mpz(z.get_mpz_t(), v); require(z == y.floor(), "wrong continued fraction"); _fmpz_vec_clear(v, 6); B b; for (long p : { 10, 64, 100 + 31 * seed }) renf_elem_get_arb(b, x.renf_elem_t(), *k, p); double d = (double)x; require(d > 0, "wrong double"); renf_elem_get_d(y.renf_elem_t(), *k, ARF_RND_FLOOR); std::hash<RE>()(x); std::hash<RE>()(y); }
    if (part == 2) { require(x > m && x != m && !(x < m) && x > mpq_class(m) && x != mpq_class(m, 3) && x > seed && x > (unsigned long)seed && x > (long long)seed && !(x == (unsigned short)seed), "wrong comparison"); require(x != y && (x < y) == !(x > y), "wrong comparison"); RE t = x; t += mpq_class(1, seed + 2); t -= 5l; t *= 3u; t /= mpz_class(seed + 2); t += y; t /= y; t -= t; require(t == 0 && !t && t.is_zero(), "wrong arithmetic"); t = 5; t += y; t = mpq_class(seed, 9); t *= y; t /= RE(mpq_class(3, 5)); }
    if (part == 3) { RE p = y.pow(5), q = y.pow(-2); require(p * q == y.pow(3), "wrong power"); std::vector<mpz_class> nv = p.num_vector(); mpz_class d = p.den(), c = p.num_content(); require(d > 0 && c > 0 && (long)nv.size() == K.degree(), "wrong coefficients"); RE w(K, nv); require(w == p * d, "wrong coefficients"); RE z(K, std::vector<mpq_class>{ mpq_class(1, seed + 1), seed }); require(z - mpq_class(1, seed + 1) == g * seed, "wrong element"); mpq_class r = (mpq_class)RE(K, mpq_class(seed, 3)); require(r * 3 == seed, "wrong rational"); }
    if (part == 4) { std::string s = x.to_string(EANTIC_STR_ALG), t = y.to_string(EANTIC_STR_ALG | EANTIC_STR_ARB), u = y.to_string(EANTIC_STR_D); RE a(K, s); require(a == x, "wrong text"); std::stringstream ss; ss << y; RE b; K.set_pword(ss); ss >> b; require(b == y, "wrong text"); std::string f = K.to_string(); auto c = K.construction(); require(std::get<1>(c) == K.gen_name(), "wrong construction"); try { RE bad(K, "1 +* 2"); require(false, "accepted"); } catch (std::invalid_argument&) { } }
}
static void programs() {
    progs.push_back({"two threads create and drop the same field", [] {}, {[] { F(); }, [] { F(); }}, [] {}});
    progs.push_back({"two threads create the same field and keep it", [] {}, {[] { h[0] = F(); }, [] { h[1] = F(); }}, [] { intact(h[0], "the field of a live handle was destroyed"); require(h[0] == h[1], "concurrent creators got different objects for one field"); require(F() == h[0], "the field is not found again"); drop(); }});
    progs.push_back({"last handle dropped while another thread creates the field and keeps it", [] { h[0] = F(); }, {[] { h[0] = nullptr; }, [] { h[1] = F(); }}, [] { intact(h[1], "the field of a live handle was destroyed"); require(F() == h[1], "a live field is not found again"); drop(); }});
    progs.push_back({"last handle dropped while another thread creates and drops the field", [] { h[0] = F(); }, {[] { h[0] = nullptr; }, [] { F(); }}, [] {}});
    progs.push_back({"two threads copy and drop a shared handle, which then goes", [] { h[0] = F(); h[1] = h[0]; h[2] = h[0]; h[0] = nullptr; }, {[] { H c = h[1]; h[1] = nullptr; }, [] { H c = h[2]; h[2] = nullptr; }}, [] {}});
    progs.push_back({"two threads use their handle and drop it", [] { h[1] = F(); h[2] = h[1]; }, {[] { require(h[1]->degree() == 2, "wrong degree"); { RE x(*h[1]); } h[1] = nullptr; }, [] { { RE x = h[2]->gen(); RE y = x; } h[2] = nullptr; }}, [] {}});
    progs.push_back({"copies of a shared element", [] { h[0] = F(); e[0] = new RE(h[0]->gen()); }, {[] { RE x(*e[0]); RE y(x); y = *e[0]; }, [] { RE x(*e[0]); RE y(std::move(x)); }}, [] { intact(h[0], "the field of a live element was destroyed"); drop(); }});
    progs.push_back({"last elements of a field destroyed by two threads", [] { H k = F(); e[0] = new RE(k->gen()); e[1] = new RE(k->one()); }, {[] { delete e[0]; e[0] = nullptr; }, [] { delete e[1]; e[1] = nullptr; }}, [] {}});
    progs.push_back({"assignment releases the last handle while another thread creates the field", [] { h[0] = F(); h[1] = G(); e[0] = new RE(h[0]->gen()); h[0] = nullptr; }, {[] { *e[0] = h[1]->gen(); }, [] { h[2] = F(); }}, [] { intact(h[2], "the field of a live handle was destroyed"); require(F() == h[2], "a live field is not found again"); drop(); }});
    progs.push_back({"different fields created and dropped", [] {}, {[] { F(); G(); }, [] { G(); }}, [] {}});
    progs.push_back({"different fields created and kept", [] {}, {[] { h[0] = F(); h[1] = G(); }, [] { h[2] = G(); h[3] = F(); }}, [] { require(h[0] == h[3] && h[1] == h[2] && h[0] != h[1], "concurrent creators got different objects for one field"); drop(); }});
    progs.push_back({"a field created and dropped twice while another thread does it once", [] {}, {[] { F(); F(); }, [] { F(); }}, [] {}});
    progs.push_back({"one thread keeps a field another one creates and drops", [] {}, {[] { h[0] = F(); H c = F(); require(c == h[0], "a field is not unique while a handle is alive"); }, [] { F(); }}, [] { intact(h[0], "the field of a live handle was destroyed"); require(F() == h[0], "a live field is not found again"); drop(); }});
    progs.push_back({"handle copied by its owner while the last others go", [] { h[0] = F(); h[1] = h[0]; }, {[] { h[2] = h[0]; h[0] = nullptr; }, [] { h[1] = nullptr; H c = F(); require(c->degree() == 2, "wrong field"); }}, [] { intact(h[2], "the field of a live handle was destroyed"); require(F() == h[2], "a live field is not found again"); drop(); }});
    progs.push_back({"default elements", [] {}, {[] { RE x; require(&x.parent() == &renf_class::make(), "default elements have different parents"); e[0] = new RE(5); }, [] { RE x; e[1] = new RE(7); }}, [] { require(&e[0]->parent() == &e[1]->parent() && *e[0] == 5 && *e[1] == 7, "default elements have different parents"); delete e[0]; delete e[1]; e[0] = e[1] = nullptr; require(alive(&renf_class::make()), "the rational field was destroyed"); }, false});
    progs.push_back({"default elements while the same rational field is created by name", [] {}, {[] { e[0] = new RE(5); }, [] { H c = renf_class::make(KQ, "a"); h[0] = c; }}, [] { require(&e[0]->parent() == h[0].get(), "the rational field is not unique"); delete e[0]; e[0] = nullptr; h[0] = nullptr; require(alive(&renf_class::make()), "the rational field was destroyed"); }, false});
    progs.push_back({"creation from strings, one of them failing", [] {}, {[] { h[0] = renf_class::make("a^2-2", "a", "1.4 +/- 0.1", 64); }, [] { try { renf_class::make("a^2-", "a", "1.4 +/- 0.1", 64); } catch (std::exception&) { } H c = renf_class::make("a^2-2", "a", "1.4 +/- 0.1", 64); }}, [] { intact(h[0], "the field of a live handle was destroyed"); require(F() == h[0], "a live field is not found again"); drop(); }});
    progs.push_back({"elements move between fields", [] { h[0] = F(); h[1] = G(); e[0] = new RE(h[0]->gen()); e[1] = new RE(h[1]->gen()); h[0] = h[1] = nullptr; }, {[] { RE t(std::move(*e[0])); *e[0] = 3; }, [] { swap(*e[1], *e[1]); RE t(*e[1]); *e[1] = RE(); }}, [] { drop(); }, false});
    auto imm = [] { h[0] = F(); ::renf_t& k = *(::renf_t*)h[0]->renf_t(); renf_refine_embedding(k, 300); renf_set_immutable(k, 1); e[0] = new RE(h[0]->gen() * 3 + 1); e[1] = new RE(h[0]->gen() - 5); e[2] = new RE(h[0]->gen() / 7); }; auto unimm = [] { renf_set_immutable(*(::renf_t*)h[0]->renf_t(), 0); drop(); };
    progs.push_back({"threads compute with their own elements of an immutable field", imm, {[] { RE t = *e[0] * *e[0]; require(t > 27 && t.floor() == 27 && !(t == 3), "wrong result"); t += 1; t /= *e[0]; }, [] { RE t = *e[1] - h[0]->gen(); require(t == -5 && t.ceil() == -5, "wrong result"); RE u = -*e[1]; require(u > 3 && u.floor() == 3, "wrong result"); double d = (double)u; require(d > 3.58 && d < 3.59, "wrong double"); }}, unimm});
    progs.push_back({"threads read, compare and print one shared element of an immutable field", [imm] { imm(); for (int i = 0; i < 2; i++) *e[i] = *e[2]; }, {[] { require(*e[0] == *e[2], "equal elements differ"); RE t = *e[2] * *e[2]; std::string s = e[0]->to_string(); std::hash<RE>()(*e[2]); e[2]->num_vector(); e[2]->den(); }, [] { RE t(*e[2]); require(!e[2]->is_rational(), "wrong predicate"); t -= *e[2]; require(!t, "not zero"); e[2]->num_vector(); }}, unimm});
    progs.push_back({"threads compute powers, quotients and balls in an immutable field", imm, {[] { RE t = e[0]->pow(3); B b; renf_elem_get_arb(b, t.renf_elem_t(), h[0]->renf_t(), 100); require(t.floordiv(*e[0]) == 27, "wrong quotient"); }, [] { RE t = *e[1] / (h[0]->gen() + 1); require(t < 0 && t > -2, "wrong comparison"); std::string s = t.to_string(); }}, unimm});
    for (int f = 0; f < 2; f++) for (int i = 0; i < 5; i++) { static const char* nm[] = { "rounding and floor division", "continued fractions, balls, doubles and hashes", "comparisons and mixed arithmetic", "powers, coefficients and constructors", "text" }; char* n = strdup((std::string("threads with elements of their own in an immutable field of degree ") + (f ? "three: " : "two: ") + nm[i]).c_str());
        progs.push_back({n, [f] { h[0] = f ? G() : F(); ::renf_t& k = *(::renf_t*)h[0]->renf_t(); renf_refine_embedding(k, 3000); renf_set_immutable(k, 1); e[0] = new RE(h[0]->gen()); e[1] = new RE(h[0]->gen()); }, {[i] { work(*e[0], 1, i); }, [i] { work(*e[1], 3, i); }}, unimm, true, 1}); }
    auto look = [] { const renf_class& K = *h[0]; require(K.one() == 1 && K.zero() == 0 && !K.zero(), "wrong constants"); RE g(K.gen()), o(K.one()), z(K.zero()); require(g * o + z == K.gen(), "wrong generator"); require(K.degree() == 3 && K.gen_name() == "b", "wrong field"); auto c = K.construction(); std::string s = K.to_string(); require(std::get<1>(c) == "b" && !s.empty(), "wrong construction"); require(std::hash<renf_class>()(K) == std::hash<renf_class>()(g.parent()), "wrong hash"); require(K == g.parent() && !(K != o.parent()), "wrong identity"); };
    progs.push_back({"constants, generator and description of a shared immutable field", [] { h[0] = G(); renf_set_immutable(*(::renf_t*)h[0]->renf_t(), 1); }, {look, look}, unimm, true, 2});
    for (int i = 0; i < 5; i++) progs.push_back({strdup(("threads with a field of their own, mutable and of low precision: part " + std::to_string(i)).c_str()), [] { h[0] = F(); h[1] = G(); e[0] = new RE(h[0]->gen()); e[1] = new RE(h[1]->gen()); }, {[i] { work(*e[0], 2, i); }, [i] { work(*e[1], 3, i); }}, [] { drop(); }, true, 1});
    progs.push_back({"different fields created from strings", [] {}, {[] { H x = renf_class::make("7/3*a^2 - 14/3*a^0", "a", "1.41 +/- 0.1", 64); h[0] = renf_class::make("a^2-2", "a", "[1.41421356 +/- 0.1]", 128); }, [] { h[1] = renf_class::make("b^3 - b - 1", "b", "1.32 +/- 0.01", 20); try { renf_class::make("b^2 - 2", "b", "0 +/- 10", 20); require(false, "accepted"); } catch (std::invalid_argument&) { } }}, [] { require(F() == h[0] && G() == h[1], "a live field is not found again"); drop(); }, true, 1});
    progs.push_back({"three threads create and drop", [] {}, {[] { F(); }, [] { F(); }, [] { F(); }}, [] {}});
    progs.push_back({"three threads: drop the last handle, create and drop, create and keep", [] { h[0] = F(); }, {[] { h[0] = nullptr; }, [] { F(); }, [] { h[1] = F(); }}, [] { intact(h[1], "the field of a live handle was destroyed"); require(F() == h[1], "a live field is not found again"); drop(); }});
    progs.push_back({"three threads drop three handles", [] { h[0] = F(); h[1] = h[0]; h[2] = h[0]; }, {[] { h[0] = nullptr; }, [] { h[1] = nullptr; }, [] { h[2] = nullptr; }}, [] {}});
}
static Prog* P; static long nexec;
static int once(std::string& msg) { // returns 0 fine, 1 violation, 2 diverged
    mc::sh->npoints = 0; mc::sh->diverged = 0; mc::sh->bad = 0; mc::sh->msg[0] = 0; mc::sh->outcome[0] = 0; nexec++; fflush(stdout); pid_t pid = fork();
    if (!pid) { for (int s : {SIGALRM, SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(s, SIG_DFL); alarm(60); mc::watch_statics(); mc::track = true; mc::live_new = 0; P->before(); long base = mc::live_new; long fields0 = 0; (void)fields0; mc::run(P->threads); P->after(); drop();
        if (P->leakfree && mc::live_new > 0) mc::bad("%ld blocks of memory are still allocated when all handles are gone", mc::live_new); _exit(0); (void)base; }
    int st; while (waitpid(pid, &st, 0) < 0) { } if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0; if (WIFEXITED(st) && WEXITSTATUS(st) == 9) return 2; msg = mc::sh->bad ? std::string((const char*)mc::sh->msg) : WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exited with status " + std::to_string(WEXITSTATUS(st)); return 1; }
static int cost(int upto) { int c = 0; for (int i = 0; i < upto; i++) { auto& p = mc::sh->p[i]; if (!p.forced && p.chosen != p.cur) c++; } return c; }
int main(int argc, char** argv) {
    init(argc, argv); mc::sh = (mc::Shared*)mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    { cpu_set_t all, one; CPU_ZERO(&all); CPU_ZERO(&one); sched_getaffinity(0, sizeof all, &all); int k = g_shard % std::max(1, CPU_COUNT(&all)); for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) { CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } } // one thread runs at a time: hand over on one core
    mc::setup(); { mc::Rt rt; __flint_set_memory_functions(mc::fl_malloc, mc::fl_calloc, mc::fl_realloc, mc::fl_free); }
    mkf(KF, "a^2-2", "a", "1.4 +/- 0.1"); mkf(KG, "b^3-b-1", "b", "1.3 +/- 0.1"); mkf(KQ, "a-1", "a", "1 +/- 1"); { H x = F(), y = G(); } programs();
    int bound = g_thorough ? 4 : 3, bound3 = g_thorough ? 3 : 2; long deepest = 0;
    for (auto& p : progs) {
        P = &p; int B = std::min(p.cap, p.threads.size() > 2 ? bound3 : bound); struct Item { std::vector<uint8_t> pre; }; std::vector<Item> stack; stack.push_back({{}}); bool first = true; long idx = 0;
        while (!stack.empty()) {
            auto it = stack.back(); stack.pop_back(); int n = it.pre.size(); for (int i = 0; i < n; i++) mc::sh->prefix[i] = it.pre[i]; mc::sh->nprefix = n; CASE("%s", p.name); std::string msg; int r = once(msg);
            auto sched = [&] { std::string s; int last = -1, k = 0; for (int i = 0; i < mc::sh->npoints; i++) { int c = mc::sh->p[i].chosen; if (c != last) { if (k) s += "x" + std::to_string(k) + " "; s += "T" + std::to_string(c); last = c; k = 0; } k++; } return s + "x" + std::to_string(k); };
            if (r == 2) { std::string m2; int r2 = once(m2); if (r2 == 2) { g_stat["diverged"]++; continue; } r = r2; msg = m2; }
            TRACE(); TRANS(mc::sh->npoints); STATE(p.name + sched()); if (mc::sh->npoints > deepest) deepest = mc::sh->npoints;
            if (r == 1) { CASE("%s | schedule %s", p.name, sched().c_str()); FAILS(msg); break; }
            OUTCOME(std::string(p.name) + std::to_string(mc::sh->npoints)); if (first) SAMPLE(std::string(p.name) + ": schedule " + sched());
            int np = mc::sh->npoints;
            for (int i = n; i < np; i++) { auto& q = mc::sh->p[i]; for (int t = 1; t <= 4; t++) if ((q.en >> t & 1) && t != q.chosen) { int c = cost(i) + (!q.forced && t != q.cur); if (c > B) continue; if (first && idx++ % g_nshards != g_shard) continue; Item x; x.pre.resize(i + 1); for (int k = 0; k < i; k++) x.pre[k] = mc::sh->p[k].chosen; x.pre[i] = t; stack.push_back(x); } }
            first = false;
        }
    }
    g_stat["programs"] = g_shard == 0 ? progs.size() : 0; drop(); finish(); fflush(stdout); _exit(g_nfail ? 1 : 0);
}
