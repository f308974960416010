// Shared harness plumbing: reporting protocol, conversions, catalogue of fields.
#pragma once
#include "ref.hpp"
#include <e-antic/renf.h>
#include <e-antic/renf_elem.h>
#include <e-antic/fmpz_poly_extra.h>
#include <e-antic/fmpq_poly_extra.h>
#include <flint/fmpq.h>
#include <flint/fmpz_poly_factor.h>
#include <flint/arf.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <ctime>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <algorithm>

using std::string; using std::vector;

// ---------------------------------------------------------------- reporting
inline char g_case[8192] = "startup";
inline volatile unsigned long g_ncase = 0;
inline int g_shard = 0, g_nshards = 1, g_maxfail = 25, g_nfail = 0; inline int g_thorough = 0; // 0 quick, 1 thorough, 2 deep
inline std::map<string, unsigned long> g_stat; inline vector<string> g_samples; inline std::set<uint64_t> g_dummy;
inline std::unordered_set<uint64_t> g_states, g_outcomes;
inline double g_deadline = 0; inline bool g_capped = false;
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
__attribute__((format(printf, 1, 2))) inline void CASE(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(g_case, sizeof g_case, f, a); va_end(a); g_ncase = g_ncase + 1; }
inline uint64_t hashs(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h ^ (h >> 29); }
inline void STATE(const string& s) { g_states.insert(hashs(s)); }
inline void STATEH(uint64_t h) { g_states.insert(h); }
inline void TRANS(unsigned long n = 1) { g_stat["transitions"] += n; }
inline void TRACE(unsigned long n = 1) { g_stat["traces"] += n; }
inline void OUTCOME(const string& s) { g_outcomes.insert(hashs(s)); }
inline void SAMPLE(const string& s) { if (g_samples.size() < 3) g_samples.push_back(s); }
inline void oneline(string& s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; }
void finish();
inline void FAILS(string msg) { string c = g_case; oneline(c); oneline(msg); printf("FAIL %s :: %s\n", c.c_str(), msg.c_str()); fflush(stdout); if (++g_nfail >= g_maxfail) { finish(); fflush(stdout); _exit(1); } }
__attribute__((format(printf, 1, 2))) inline void FAIL(const char* f, ...) { char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); FAILS(b); }
#define EXPECT(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)
inline void finish() {
    g_stat["states"] = g_states.size(); g_stat["outcomes"] = g_outcomes.size();
    for (auto& p : g_stat) printf("STAT %s %lu\n", p.first.c_str(), p.second);
    for (auto& s : g_samples) { string t = s; oneline(t); printf("SAMPLE %s\n", t.c_str()); }
    if (g_capped) printf("CAPPED\n");
    printf("DONE\n");
}
inline void on_signal(int s) {
    const char* n = s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "SIGBUS";
    char b[9000]; int k = snprintf(b, sizeof b, "FAIL %s :: program terminated by %s inside the library\n", g_case, n);
    for (int i = 0; i < k - 1; i++) if (b[i] == '\n') b[i] = ' ';
    fflush(stdout); ssize_t w = write(1, b, k); (void)w; _exit(1);
}
inline unsigned long g_wd_case = ~0ul; inline double g_wd_cpu = 0; inline double g_hang_cpu = 100;
inline void on_tick(int) {
    double c = cpu();
    static double last = -1; static int idle = 0; idle = last >= 0 && g_ncase == g_wd_case && c - last < 0.02 ? idle + 1 : 0; last = c; // a program that uses no CPU time for a minute is blocked
    if (idle >= 12) { char b[9000]; int k = snprintf(b, sizeof b, "FAIL %s :: blocks forever\n", g_case); for (int i = 0; i < k - 1; i++) if (b[i] == '\n') b[i] = ' '; ssize_t w = write(1, b, k); (void)w; _exit(1); }
    if (g_ncase != g_wd_case) { g_wd_case = g_ncase; g_wd_cpu = c; return; }
    if (c - g_wd_cpu > g_hang_cpu) { char b[9000]; int k = snprintf(b, sizeof b, "FAIL %s :: does not terminate (%.0f s of CPU time)\n", g_case, g_hang_cpu); for (int i = 0; i < k - 1; i++) if (b[i] == '\n') b[i] = ' '; ssize_t w = write(1, b, k); (void)w; _exit(1); }
}
inline void init(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc > 1) g_thorough = !strcmp(argv[1], "deep") ? 2 : !strcmp(argv[1], "thorough"); if (argc > 2) g_shard = atoi(argv[2]); if (argc > 3) g_nshards = atoi(argv[3]);
    if (getenv("MC_MAXFAIL")) g_maxfail = atoi(getenv("MC_MAXFAIL"));
    if (getenv("MC_HANG")) g_hang_cpu = atof(getenv("MC_HANG"));
    double budget = getenv("MC_BUDGET") ? atof(getenv("MC_BUDGET")) : 0; if (budget > 0) g_deadline = now() + budget;
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS }) signal(s, on_signal);
    signal(SIGALRM, on_tick); itimerval it = { { 5, 0 }, { 5, 0 } }; setitimer(ITIMER_REAL, &it, nullptr);
}
// memory guard: returns number of work item; shards by item index
inline unsigned long g_item = 0;
inline bool mine() { return (int)(g_item++ % g_nshards) == g_shard; }
inline bool out_of_time() { if (g_deadline && now() > g_deadline) { g_capped = true; return true; } return false; }

// ---------------------------------------------------------------- conversions
inline mpz_class toz(const fmpz_t x) { mpz_class r; fmpz_get_mpz(r.get_mpz_t(), x); return r; }
inline mpq_class toq(const fmpq_t x) { mpq_class r(toz(fmpq_numref(x)), toz(fmpq_denref(x))); return r; }
inline void setz(fmpz_t r, const mpz_class& x) { fmpz_set_mpz(r, x.get_mpz_t()); }
inline void setq(fmpq_t r, const mpq_class& x) { fmpz_set_mpz(fmpq_numref(r), x.get_num_mpz_t()); fmpz_set_mpz(fmpq_denref(r), x.get_den_mpz_t()); }
struct Z { fmpz_t v; Z() { fmpz_init(v); } Z(const mpz_class& x) { fmpz_init(v); setz(v, x); } ~Z() { fmpz_clear(v); } Z(const Z&) = delete; operator fmpz*() { return v; } };
struct Q { fmpq_t v; Q() { fmpq_init(v); } Q(const mpq_class& x) { fmpq_init(v); setq(v, x); } ~Q() { fmpq_clear(v); } Q(const Q&) = delete; operator fmpq*() { return v; } };
inline mpq_class arf2q(const arf_t x) { Z m, e; arf_get_fmpz_2exp(m, e, x); long k = fmpz_get_si(e); mpz_class z = toz(m); mpq_class r = z; if (k >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), k); else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -k); return r; }
inline mpq_class mag2q(const mag_t x) { arf_t t; arf_init(t); arf_set_mag(t, x); mpq_class r = arf2q(t); arf_clear(t); return r; }
inline void setpolyq(fmpq_poly_t p, const ref::Poly& c) { fmpq_poly_zero(p); Q t; for (size_t i = 0; i < c.size(); i++) { setq(t, c[i]); fmpq_poly_set_coeff_fmpq(p, i, t); } }
inline ref::Poly frompolyq(const fmpq_poly_t p) { ref::Poly r; Q t; for (slong i = 0; i < fmpq_poly_length(p); i++) { fmpq_poly_get_coeff_fmpq(t, p, i); r.push_back(toq(t)); } ref::trim(r); return r; }
inline void setpolyz(fmpz_poly_t p, const vector<mpz_class>& c) { fmpz_poly_zero(p); Z t; for (size_t i = 0; i < c.size(); i++) { setz(t, c[i]); fmpz_poly_set_coeff_fmpz(p, i, t); } }
inline vector<mpz_class> frompolyz(const fmpz_poly_t p) { vector<mpz_class> r; Z t; for (slong i = 0; i < fmpz_poly_length(p); i++) { fmpz_poly_get_coeff_fmpz(t, p, i); r.push_back(toz(t)); } return r; }
struct PQ { fmpq_poly_t v; PQ() { fmpq_poly_init(v); } PQ(const ref::Poly& p) { fmpq_poly_init(v); setpolyq(v, p); } ~PQ() { fmpq_poly_clear(v); } PQ(const PQ&) = delete; operator fmpq_poly_struct*() { return v; } };
struct PZ { fmpz_poly_t v; PZ() { fmpz_poly_init(v); } PZ(const vector<mpz_class>& p) { fmpz_poly_init(v); setpolyz(v, p); } ~PZ() { fmpz_poly_clear(v); } PZ(const PZ&) = delete; operator fmpz_poly_struct*() { return v; } };
struct B { arb_t v; B() { arb_init(v); } ~B() { arb_clear(v); } B(const B&) = delete; operator arb_ptr() { return v; } };
inline string balls(const arb_t x) { char* c = arb_get_str(x, 40, 0); string s(c); flint_free(c); return s; }

// does the ball contain the exact value of e?
inline bool contains(const arb_t b, const ref::Elem& e) {
    if (!arb_is_finite(b)) return arf_is_nan(arb_midref(b)) || mag_is_inf(arb_radref(b)); // arb semantics: indeterminate contains everything
    mpq_class m = arf2q(arb_midref(b)), r = mag2q(arb_radref(b));
    return e.cmp(m - r) >= 0 && e.cmp(m + r) <= 0;
}
inline ref::Poly elem_poly(const renf_elem_t a, const renf_t nf) { PQ p; nf_elem_get_fmpq_poly(p, a->elem, nf->nf); return frompolyq(p); }
// canonical representation of the algebraic part?
inline bool canonical(const renf_elem_t a, const renf_t nf) {
    if (nf->nf->flag & NF_LINEAR) return _fmpq_is_canonical(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_DENREF(a->elem));
    if (nf->nf->flag & NF_QUADRATIC) { const fmpz* n = QNF_ELEM_NUMREF(a->elem); Z g; fmpz_gcd(g, n, n + 1); fmpz_gcd(g, g, QNF_ELEM_DENREF(a->elem)); bool ok = fmpz_sgn(QNF_ELEM_DENREF(a->elem)) > 0 && fmpz_is_one(g) && fmpz_is_zero(n + 2); return ok; }
    return fmpq_poly_is_canonical(NF_ELEM(a->elem));
}

// ---------------------------------------------------------------- catalogue of fields
inline ref::Poly parsepoly(const string& s) { // space separated rational coefficients, lowest first; tokens may use 2^k
    ref::Poly p; std::istringstream is(s); string t;
    auto num = [](string u) { bool ng = false; if (u[0] == '-') { ng = true; u = u.substr(1); } mpz_class r = 1; size_t i = 0; while (i < u.size()) { size_t j = u.find('*', i); string f = u.substr(i, j == string::npos ? j : j - i); size_t k = f.find('^'); if (k == string::npos) r *= mpz_class(f); else { mpz_class b(f.substr(0, k)), o; mpz_pow_ui(o.get_mpz_t(), b.get_mpz_t(), std::stoul(f.substr(k + 1))); r *= o; } if (j == string::npos) break; i = j + 1; } return ng ? mpz_class(-r) : r; };
    while (is >> t) { size_t k = t.find('/'); mpq_class q = k == string::npos ? mpq_class(num(t)) : mpq_class(num(t.substr(0, k)), num(t.substr(k + 1))); q.canonicalize(); p.push_back(q); }
    return p;
}
struct Spec { string name; ref::F F; };
// isolate all real roots of p by Sturm + bisection
inline vector<std::pair<mpq_class, mpq_class>> isolate(const ref::Poly& p) {
    static std::map<string, vector<std::pair<mpq_class, mpq_class>>> memo; string key; size_t bits = 0; for (auto& c : p) bits += mpz_sizeinbase(c.get_num_mpz_t(), 2); bool keep = bits > 500; if (keep) { for (auto& c : p) key += c.get_str(62) + " "; auto it = memo.find(key); if (it != memo.end()) return it->second; }
    vector<std::pair<mpq_class, mpq_class>> out; ref::Sturm S(p); mpq_class Bd = ref::ceil_root_bound(p) ;
    std::function<void(mpq_class, mpq_class, int)> rec = [&](mpq_class a, mpq_class b, int n) { if (n == 0) return; if (n == 1) { out.push_back({ a, b }); return; } mpq_class m = (a + b) / 2; if (ref::eval(p, m) == 0) m = (a + 2 * b) / 3; int k = S.count(a, m); rec(a, m, k); rec(m, b, n - k); };
    rec(-Bd, Bd, S.count(-Bd, Bd)); if (keep) memo[key] = out; return out;
}
inline bool irreducible(const ref::Poly& p) { PQ q(p); PZ z; fmpq_poly_get_numerator(z, q); fmpz_poly_factor_t f; fmpz_poly_factor_init(f); fmpz_poly_factor(f, z); bool ok = f->num == 1 && f->exp[0] == 1; fmpz_poly_factor_clear(f); return ok; }
inline Spec mkfield(const string& coeffs, int rootindex) {
    ref::Poly p = parsepoly(coeffs); if (!irreducible(p)) { printf("catalogue error: %s is reducible\n", coeffs.c_str()); exit(3); } string nm = "{" + coeffs + "}#" + std::to_string(rootindex);
    if (p.size() == 2) return { nm, std::make_shared<ref::Field>(p, 0, 0) };
    auto r = isolate(p); if (rootindex < 0) rootindex += r.size();
    return { nm, std::make_shared<ref::Field>(p, r.at(rootindex).first, r.at(rootindex).second) };
}
inline size_t nroots(const string& coeffs) { ref::Poly p = parsepoly(coeffs); return p.size() == 2 ? 1 : isolate(p).size(); }
// set ball e to contain the root and isolate it: midpoint/radius of a dyadic interval of width 2^-k around the root
inline void rootball(arb_t e, const ref::F& F, long k) {
    auto r = F->root(k + 2); arf_t a, b; arf_init(a); arf_init(b); Z t; setz(t, r.first - 1); arf_set_fmpz(a, t); setz(t, r.second + 1); arf_set_fmpz(b, t); arf_mul_2exp_si(a, a, -(k + 2)); arf_mul_2exp_si(b, b, -(k + 2));
    arb_set_interval_arf(e, a, b, 4096); arf_clear(a); arf_clear(b);
}
// bits needed so that a width 2^-k interval around the root isolates it (and excludes critical trouble)
inline long sepbits(const ref::F& F) { if (F->d == 1) return 4; ref::Sturm S(F->f); for (long k = 1;; k++) { auto r = F->root(k + 2); mpq_class a(r.first - 2, mpz_class(1) << (k + 2)), b(r.second + 2, mpz_class(1) << (k + 2)); a.canonicalize(); b.canonicalize(); if (S.count(a, b) == 1) return k; } }
struct CField { // C-level field bound to its reference
    Spec s; renf_t nf; long prec;
    CField(const Spec& sp, long p, long startbits = -1) : s(sp), prec(p) { PQ f(s.F->f); B e; if (startbits < 0) startbits = std::max(sepbits(s.F) + 2, 16L); rootball(e, s.F, startbits); CASE("renf_init field %s prec %ld from ball %s", s.name.c_str(), p, balls(e).c_str()); renf_init(nf, f, e, p); }
    ~CField() { renf_clear(nf); }
    CField(const CField&) = delete;
};
struct CElem { renf_elem_t v; renf* nf; CElem(renf_t k) : nf(k) { renf_elem_init(v, k); } ~CElem() { renf_elem_clear(v, nf); } CElem(const CElem&) = delete; operator renf_elem*() { return v; } };
// dirty: the storage held a dense multi-word element before
inline void soil(renf_elem_t a, renf_t nf) { PQ g; slong d = fmpq_poly_degree(nf->nf->pol); Z t; for (slong i = 0; i < d; i++) { fmpz_set_ui(t, 5 + i); if (i % 2) { fmpz_mul_2exp(t, t, 70); fmpz_sub_ui(t, t, 3); } fmpq_poly_set_coeff_fmpz(g, i, t); } fmpq_poly_scalar_div_ui(g, g, 7); renf_elem_set_fmpq_poly(a, g, nf); }
inline void set_elem(renf_elem_t a, const ref::Elem& e, renf_t nf, bool dirty = true) { if (dirty) { /* small coefficients survive in the storage of zero */ soil(a, nf); if (e.zero()) { renf_elem_zero(a, nf); return; } } PQ p(e.c); renf_elem_set_fmpq_poly(a, p, nf); }
// widen the cached enclosure of a (value unchanged) through public arithmetic: add and subtract 2^j
inline void blur(renf_elem_t a, renf_t nf, long j) { if (j < 0) return; Z t; fmpz_one(t); fmpz_mul_2exp(t, t, j); renf_elem_add_fmpz(a, a, t, nf); renf_elem_sub_fmpz(a, a, t, nf); }
// full check of an element against the reference; what: label
inline bool check_elem(const char* what, const renf_elem_t a, const ref::Elem& e, const renf_t nf, bool enc = true) {
    bool ok = true; ref::Poly p = elem_poly(a, nf);
    if (p != e.c) { FAIL("%s: got %s expected %s", what, ref::str(p).c_str(), ref::str(e.c).c_str()); ok = false; }
    else if (!canonical(a, nf)) { FAIL("%s: %s not in canonical form", what, ref::str(p).c_str()); ok = false; }
    else if (enc && !contains(a->emb, e)) { FAIL("%s: enclosure %s does not contain value of %s", what, balls(a->emb).c_str(), ref::str(e.c).c_str()); ok = false; }
    return ok;
}
