// Stateless model checker for threads: a replacement for the ThreadSanitizer runtime plus pthread/guard interposition.
// Library sources are compiled with -fsanitize=thread (instrumentation only); the functions below receive every plain access,
// every atomic operation, every lock operation and every allocation.  Exactly one thread runs at a time; at each synchronisation
// operation the explorer decides which thread continues.  Data races are detected by vector clocks (C++11 happens-before),
// use after free and double free by a quarantining allocator, deadlock by an empty set of enabled threads.
#pragma once
#include <pthread.h>
#include <semaphore.h>
#include <time.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unordered_map>
#include <map>
#include <vector>
#include <string>
#include <set>
#include <functional>
#include <atomic>
#include <cstdint>
#include <new>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <link.h>
#include <assert.h>
namespace mc {
const int MT = 5, MAXP = 6000; // threads 0 (main) .. 4
struct VC { uint32_t c[MT] = {}; void join(const VC& o) { for (int i = 0; i < MT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Point { uint8_t en, cur, chosen, forced; };
struct Shared { volatile int npoints, nprefix, done, diverged, bad; Point p[MAXP]; uint8_t prefix[MAXP]; char msg[6000]; char outcome[512]; };
inline Shared* sh = nullptr;
struct Thread { sem_t sem; VC vc, acq, rel; bool relf = false, fin = false, started = false; const void* wait_mutex = nullptr; const void* wait_rw = nullptr; int rwkind = 0; const void* wait_cond = nullptr; const void* wait_guard = nullptr; char *slo = nullptr, *shi = nullptr; void* st[256]; int sp = 0; long burst = 0; bool yielded = false; const void* spin = nullptr; uint64_t spinval = 0; int spins = 0; pthread_t h; std::function<void()> fn; };
inline Thread* T = nullptr; inline int N = 0; inline bool on = false; inline thread_local int self = 0; inline thread_local int inrt = 0; inline sem_t mainsem;
struct Mutex { int owner = -1; int depth = 0; VC vc; }; struct RW { int writer = -1; int readers = 0; std::set<int> rs; VC vc, rvc; };
inline std::unordered_map<const void*, Mutex>* M; inline std::unordered_map<const void*, RW>* R; inline std::unordered_map<const void*, VC>* A; inline std::unordered_map<const void*, int>* G; inline std::unordered_map<const void*, VC>* GV;
struct Byte { int8_t wt = -1; uint32_t wc = 0; uint32_t rc[MT] = {}; }; struct Gran { Byte b[8]; };
inline std::unordered_map<uintptr_t, Gran>* S; 
struct Block { size_t n; bool freed; int by; int kind; }; inline std::map<uintptr_t, Block>* B; inline bool track = false; inline long live_new = 0;
struct Rt { Rt() { inrt++; } ~Rt() { inrt--; } };
inline const char* fname(void* pc) { Dl_info i; if (pc && dladdr(pc, &i) && i.dli_sname) return i.dli_sname; return "?"; }
inline std::string where(int t) { std::string s; for (int i = T[t].sp - 1, n = 0; i >= 0 && n < 3; i--) { std::string f = fname((char*)T[t].st[i < 256 ? i : 255]); if (f == "?") continue; if (n++) s += " < "; s += f; } return s; }
__attribute__((format(printf, 1, 2))) inline void bad(const char* f, ...) { if (!sh || sh->bad) return; va_list a; va_start(a, f); vsnprintf(sh->msg, sizeof sh->msg, f, a); va_end(a); sh->bad = 1; _exit(7); }
inline bool enabled(int t) { Thread& x = T[t]; if (!x.started || x.fin) return false; if (x.wait_mutex) return (*M)[x.wait_mutex].owner < 0; if (x.wait_rw) { RW& r = (*R)[x.wait_rw]; return x.rwkind == 2 ? r.writer < 0 && r.readers == 0 : r.writer < 0; } if (x.wait_cond) return false; if (x.wait_guard) return (*G)[x.wait_guard] != 1; return true; }
inline void access(void* addr, size_t n, bool w, void* pc);
// Writes done by code that is not instrumented (FLINT, GMP, the C++ library) to memory the library shares between threads: its
// static variables and its heap objects.  Exactly one thread runs between two scheduling points, so whatever changed in
// between was written by that thread.  Words used as atomics, locks or guards are synchronisation, not data.
extern "C" { extern char __start_eantic_bss[] __attribute__((weak)); extern char __stop_eantic_bss[] __attribute__((weak)); extern char __start_eantic_data[] __attribute__((weak)); extern char __stop_eantic_data[] __attribute__((weak)); }
struct Watch { char* p; size_t n; std::vector<char> old; };
inline std::map<uintptr_t, Watch>* W = nullptr; inline long silent = 0;
inline void watch(void* p, size_t n) { if (!W || !n) return; Watch& w = (*W)[(uintptr_t)p]; w.p = (char*)p; w.n = n; w.old.assign((char*)p, (char*)p + n); }
inline void unwatch(void* p) { if (W) W->erase((uintptr_t)p); }
inline bool issync(uintptr_t a) { // a: address of an aligned word
    for (uintptr_t k = a; k < a + 8; k++) if (A->count((const void*)k) || G->count((const void*)k) || GV->count((const void*)k)) return true;
    for (uintptr_t k = a; k + 64 > a; k -= 8) { if (a - k >= 64) break; if (a - k < sizeof(pthread_mutex_t) && M->count((const void*)k)) return true; if (a - k < sizeof(pthread_rwlock_t) && R->count((const void*)k)) return true; }
    return false; }
inline void flush() {
    if (!on || self <= 0 || inrt || !W) return; std::vector<uintptr_t> ch; { Rt rt; for (auto& kv : *W) { Watch& w = kv.second; if (!memcmp(w.p, w.old.data(), w.n)) continue; for (size_t i = 0; i + 8 <= w.n; i += 8) if (memcmp(w.p + i, &w.old[i], 8)) { if (!issync((uintptr_t)w.p + i)) ch.push_back((uintptr_t)w.p + i); } memcpy(w.old.data(), w.p, w.n); } }
    for (auto a : ch) { silent++; access((void*)a, 8, true, nullptr); } }
// Fairness: a thread that yields (or spins: reads the same value of the same atomic again and again) is not chosen again until
// another thread has changed an atomic, lock or guard, or no other thread can run.
inline void progress() { for (int t = 1; t <= N; t++) { T[t].yielded = false; if (t != self) T[t].spins = 0; } }
const int SPIN = 20;
inline bool spinning(const void* a, uint64_t v) { Thread& t = T[self]; if (t.spin == a && t.spinval == v) return ++t.spins >= SPIN; t.spin = a; t.spinval = v; t.spins = 0; return false; }
// choose who runs next; called by the running thread (which may be blocked or finished)
inline void schedule(bool yield = false) {
    if (!on) return; flush(); Rt rt; int me = self; uint8_t en = 0; for (int t = 1; t <= N; t++) if (enabled(t)) en |= 1 << t;
    if (!en) { bool all = true; for (int t = 1; t <= N; t++) if (!T[t].fin) all = false; if (all) { on = false; sem_post(&mainsem); return; } std::string s; for (int t = 1; t <= N; t++) if (!T[t].fin) s += " thread " + std::to_string(t) + " in " + where(t) + ";"; bad("deadlock:%s", s.c_str()); }
    if (yield) T[me].yielded = true; { uint8_t c = 0; for (int t = 1; t <= N; t++) if ((en >> t & 1) && !T[t].yielded) c |= 1 << t; if (!c) { for (int t = 1; t <= N; t++) T[t].yielded = false; c = en; if (yield && (en & ~(1 << me))) { c &= ~(1 << me); T[me].yielded = true; } } en = c; }
    bool meok = en >> me & 1; bool forced = !meok || yield; if (meok && ++T[me].burst > 400) { forced = true; } int n = sh->npoints; int ch;
    if (n >= MAXP - 1) bad("does not terminate within %d scheduling points", MAXP);
    if (n < sh->nprefix) { ch = sh->prefix[n]; if (!(en >> ch & 1)) { sh->diverged = 1; _exit(9); } }
    else if (!forced) ch = me; else { ch = 0; for (int k = 1; k <= N; k++) { int t = (me + k - 1) % N + 1; if (t == me && (en & ~(1 << me))) continue; if (en >> t & 1) { ch = t; break; } } if (!ch) ch = me; }
    sh->p[n] = { en, (uint8_t)me, (uint8_t)ch, (uint8_t)forced }; sh->npoints = n + 1;
    if (ch != me) { T[me].burst = 0; sem_post(&T[ch].sem); if (!T[me].fin) while (sem_wait(&T[me].sem)) { } }
}
inline bool active() { return on && self > 0 && !inrt; }
inline void tick() { T[self].vc.c[self]++; }
inline Block* find(uintptr_t a) { auto it = B->upper_bound(a); if (it == B->begin()) return nullptr; --it; if (a < it->first + it->second.n) return &it->second; return nullptr; }
inline void access(void* addr, size_t n, bool w, void* pc = nullptr) {
    if (!active() || !n) return; Rt rt; Thread& me = T[self]; char* a = (char*)addr; if (a >= me.slo && a < me.shi) return;
    Block* bl = find((uintptr_t)a); if (bl && bl->freed) bad("use after free: thread %d %s %zu bytes freed by thread %d, in %s", self, w ? "writes" : "reads", n, bl->by, where(self).c_str());
    for (size_t i = 0; i < n;) { uintptr_t g = ((uintptr_t)a + i) >> 3; Gran& G_ = (*S)[g]; int o = ((uintptr_t)a + i) & 7; for (; o < 8 && i < n; o++, i++) { Byte& b = G_.b[o];
            if (b.wt >= 0 && b.wt != self && b.wc > me.vc.c[b.wt]) bad("data race: thread %d %s in %s, not ordered after a write of thread %d", self, w ? "writes" : "reads", where(self).c_str(), b.wt);
            if (w) for (int t = 0; t < MT; t++) if (t != self && b.rc[t] > me.vc.c[t]) bad("data race: thread %d writes in %s, not ordered after a read of thread %d", self, where(self).c_str(), t);
            if (w) { b.wt = self; b.wc = me.vc.c[self]; } else b.rc[self] = me.vc.c[self]; } }
}
// ---- atomics
inline void acq(const void* a, int mo) { Thread& t = T[self]; VC& l = (*A)[a]; if (mo == __ATOMIC_RELAXED || mo == __ATOMIC_RELEASE) t.acq.join(l); else t.vc.join(l); }
inline void rel(const void* a, int mo, bool rmw) { Thread& t = T[self]; VC& l = (*A)[a]; VC n; if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) n = t.vc; else if (t.relf) n = t.rel; if (rmw) l.join(n); else l = n; tick(); }
inline void acheck(const void* a, size_t n) { Block* bl = find((uintptr_t)a); if (bl && bl->freed) bad("use after free: thread %d does an atomic operation on memory freed by thread %d, in %s", self, bl->by, where(self).c_str()); 
    Thread& me = T[self]; for (size_t i = 0; i < n; i++) { uintptr_t p = (uintptr_t)a + i; auto it = S->find(p >> 3); if (it == S->end()) continue; Byte& b = it->second.b[p & 7]; if (b.wt >= 0 && b.wt != self && b.wc > me.vc.c[b.wt]) bad("data race: atomic operation of thread %d in %s, not ordered after a plain write of thread %d", self, where(self).c_str(), b.wt); } }
template <typename X, typename Fn> X atomic(volatile X* a, int mo, bool r, bool w, Fn fn) { if (!active()) return fn(); schedule(); Rt rt; acheck((const void*)a, sizeof(X)); if (r) acq((const void*)a, mo); X old = *a; X v = fn(); bool ch = *a != old; if (w) rel((const void*)a, mo, r); if (ch) { progress(); T[self].spins = 0; T[self].spin = nullptr; } else if (r && spinning((const void*)a, (uint64_t)old)) { T[self].spins = SPIN - 4; inrt--; schedule(true); inrt++; } return v; }
// ---- allocation
inline void* take(size_t n, int kind) { if (inrt) return malloc(n ? n : 1); Rt rt; void* p = malloc(n ? n : 1); if (!p) return p; if (track) { uintptr_t a = (uintptr_t)p; auto it = B->lower_bound(a); (*B)[a] = { n ? n : 1, false, 0, kind }; for (uintptr_t g = a >> 3; g <= (a + n) >> 3; g++) S->erase(g); if (kind) { live_new++; memset(p, 0xa5, n ? n : 1); watch(p, n & ~(size_t)7); } } return p; }
inline void give(void* p, int kind) { if (!p) return; if (!track || inrt) { free(p); return; } auto it = B->find((uintptr_t)p); if (it == B->end()) { Rt rt; free(p); if (kind) live_new--; return; } if (it->second.freed) { if (active()) bad("double free by threads %d and %d in %s", it->second.by, self, where(self).c_str()); return; } access(p, it->second.n, true); Rt rt; it->second.freed = true; it->second.by = self; unwatch(p); if (kind) live_new--; memset(p, 0xdd, it->second.n); }
inline void* fl_malloc(size_t n) { return take(n, 0); } inline void* fl_calloc(size_t k, size_t n) { void* p = take(k * n, 0); if (p) memset(p, 0, k * n); return p; } inline void fl_free(void* p) { give(p, 0); }
inline void* fl_realloc(void* p, size_t n) { if (!p) return take(n, 0); if (!track || inrt) return realloc(p, n); size_t old; { Rt rt; auto it = B->find((uintptr_t)p); if (it == B->end()) return realloc(p, n); old = it->second.n; } void* q = take(n, 0); memcpy(q, p, old < n ? old : n); give(p, 0); return q; }
// ---- real functions
template <typename F> F real(const char* n, F) { static std::map<std::string, void*>* m = new std::map<std::string, void*>; auto it = m->find(n); if (it != m->end()) return (F)it->second; void* p = dlsym(RTLD_NEXT, n); (*m)[n] = p; return (F)p; }
inline bool foreign(const void* m) { static std::unordered_map<const void*, bool> c; auto it = c.find(m); if (it != c.end()) return it->second; Dl_info i; bool r = dladdr(m, &i) && i.dli_fname && strstr(i.dli_fname, ".so"); c[m] = r; return r; }
inline bool ctl(const void* m) { if (!active()) return false; Rt rt; return !foreign(m); }
inline void lock(const void* m) { schedule(); Thread& me = T[self]; { Rt rt; if ((*M)[m].owner == self) { if ((((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { (*M)[m].depth++; return; } bad("thread %d locks a mutex it already holds, in %s", self, where(self).c_str()); } } while (true) { { Rt rt; Mutex& x = (*M)[m]; if (x.owner < 0) { x.owner = self; me.vc.join(x.vc); progress(); return; } me.wait_mutex = m; } schedule(); me.wait_mutex = nullptr; } }
inline void unlock(const void* m) { flush(); { Rt rt; { Mutex& y = (*M)[m]; if (y.owner == self && y.depth > 0) { y.depth--; return; } } Mutex& x = (*M)[m]; if (x.owner != self) bad("thread %d unlocks a mutex it does not hold, in %s", self, where(self).c_str()); x.owner = -1; x.vc.join(T[self].vc); tick(); progress(); } schedule(); }
inline void watch_statics() { Rt rt; W = new std::map<uintptr_t, Watch>; if (__start_eantic_bss) watch(__start_eantic_bss, (__stop_eantic_bss - __start_eantic_bss) & ~7L); if (__start_eantic_data) watch(__start_eantic_data, (__stop_eantic_data - __start_eantic_data) & ~7L); }
// ---- one execution, in a forked child
inline void* body(void* p) { int id = (int)(intptr_t)p; self = id; Thread& t = T[id]; pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* sa; size_t ss; pthread_attr_getstack(&at, &sa, &ss); t.slo = (char*)sa; t.shi = (char*)sa + ss; pthread_attr_destroy(&at); { Rt rt; sem_post(&mainsem); } while (sem_wait(&t.sem)) { } t.fn(); { Rt rt; t.fin = true; } schedule(); return nullptr; }
inline void setup() { Rt rt; T = new Thread[MT]; M = new std::unordered_map<const void*, Mutex>; R = new std::unordered_map<const void*, RW>; A = new std::unordered_map<const void*, VC>; G = new std::unordered_map<const void*, int>; GV = new std::unordered_map<const void*, VC>; S = new std::unordered_map<uintptr_t, Gran>; B = new std::map<uintptr_t, Block>; sem_init(&mainsem, 0, 0); }
inline void run(const std::vector<std::function<void()>>& fns) { { Rt rt; N = fns.size(); for (int i = 0; i < N; i++) { Thread& t = T[i + 1]; sem_init(&t.sem, 0, 0); t.fn = fns[i]; for (int k = 0; k < MT; k++) t.vc.c[k] = 0; t.vc.c[0] = T[0].vc.c[0]; t.vc.c[i + 1] = 1; } T[0].vc.c[0]++; for (int i = 0; i < N; i++) { pthread_create(&T[i + 1].h, nullptr, body, (void*)(intptr_t)(i + 1)); while (sem_wait(&mainsem)) { } T[i + 1].started = true; } if (W) for (auto& kv : *W) memcpy(kv.second.old.data(), kv.second.p, kv.second.n); on = true; 
      // initial choice
      uint8_t en = 0; for (int t = 1; t <= N; t++) en |= 1 << t; int ch = sh->nprefix > 0 ? sh->prefix[0] : 1; sh->p[0] = { en, 0, (uint8_t)ch, 1 }; sh->npoints = 1; sem_post(&T[ch].sem); while (sem_wait(&mainsem)) { } }
    for (int i = 1; i <= N; i++) { Rt rt; pthread_join(T[i].h, nullptr); T[0].vc.join(T[i].vc); } }
} // namespace mc
// ------------------------------------------------------------------ instrumentation entry points
extern "C" {
void __tsan_init() { }
void __tsan_func_entry(void* pc) { if (mc::active()) { auto& t = mc::T[mc::self]; void* f = __builtin_return_address(0); if (t.sp < 256) t.st[t.sp] = f; t.sp++; } }
void __tsan_func_exit() { if (mc::active()) { auto& t = mc::T[mc::self]; if (t.sp > 0) t.sp--; } }
#define RW_(n) void __tsan_read##n(void* a) { mc::access(a, n, false); } void __tsan_write##n(void* a) { mc::access(a, n, true); } void __tsan_volatile_read##n(void* a) { mc::access(a, n, false); } void __tsan_volatile_write##n(void* a) { mc::access(a, n, true); } void __tsan_unaligned_read##n(void* a) { mc::access(a, n, false); } void __tsan_unaligned_write##n(void* a) { mc::access(a, n, true); } void __tsan_unaligned_volatile_read##n(void* a) { mc::access(a, n, false); } void __tsan_unaligned_volatile_write##n(void* a) { mc::access(a, n, true); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_read_range(void* a, unsigned long n) { mc::access(a, n, false); } void __tsan_write_range(void* a, unsigned long n) { mc::access(a, n, true); }
void __tsan_vptr_update(void** a, void*) { mc::access(a, 8, true); } void __tsan_vptr_read(void** a) { mc::access(a, 8, false); }
#define AT_(bits, X) \
X __tsan_atomic##bits##_load(const volatile X* a, int mo) { return mc::atomic<X>((volatile X*)a, mo, true, false, [&] { return __atomic_load_n(a, __ATOMIC_SEQ_CST); }); } \
void __tsan_atomic##bits##_store(volatile X* a, X v, int mo) { mc::atomic<X>(a, mo, false, true, [&] { __atomic_store_n(a, v, __ATOMIC_SEQ_CST); return v; }); } \
X __tsan_atomic##bits##_exchange(volatile X* a, X v, int mo) { return mc::atomic<X>(a, mo, true, true, [&] { return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }); } \
X __tsan_atomic##bits##_fetch_add(volatile X* a, X v, int mo) { return mc::atomic<X>(a, mo, true, true, [&] { return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }); } \
X __tsan_atomic##bits##_fetch_sub(volatile X* a, X v, int mo) { return mc::atomic<X>(a, mo, true, true, [&] { return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }); } \
X __tsan_atomic##bits##_fetch_and(volatile X* a, X v, int mo) { return mc::atomic<X>(a, mo, true, true, [&] { return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }); } \
X __tsan_atomic##bits##_fetch_or(volatile X* a, X v, int mo) { return mc::atomic<X>(a, mo, true, true, [&] { return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }); } \
X __tsan_atomic##bits##_fetch_xor(volatile X* a, X v, int mo) { return mc::atomic<X>(a, mo, true, true, [&] { return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }); } \
X __tsan_atomic##bits##_fetch_nand(volatile X* a, X v, int mo) { return mc::atomic<X>(a, mo, true, true, [&] { return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile X* a, X* e, X v, int mo, int fmo) { if (!mc::active()) return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); mc::schedule(); mc::Rt rt; mc::acheck((const void*)a, sizeof(X)); X old = *a; if (old == *e) { mc::acq((const void*)a, mo); *a = v; mc::rel((const void*)a, mo, true); mc::progress(); return 1; } mc::acq((const void*)a, fmo); *e = old; if (mc::spinning((const void*)a, (uint64_t)old)) { mc::T[mc::self].spins = mc::SPIN - 4; mc::inrt--; mc::schedule(true); mc::inrt++; } return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile X* a, X* e, X v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
X __tsan_atomic##bits##_compare_exchange_val(volatile X* a, X e, X v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT_(8, uint8_t) AT_(16, uint16_t) AT_(32, uint32_t) AT_(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (!mc::active()) return; mc::schedule(); mc::Rt rt; auto& t = mc::T[mc::self]; if (mo != __ATOMIC_RELEASE && mo != __ATOMIC_RELAXED) t.vc.join(t.acq); if (mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME && mo != __ATOMIC_RELAXED) { t.rel = t.vc; t.relf = true; mc::tick(); } }
void __tsan_atomic_signal_fence(int) { }
// ---- locks
int pthread_mutex_lock(pthread_mutex_t* m) { if (!mc::ctl(m)) return mc::real("pthread_mutex_lock", &pthread_mutex_lock)(m); mc::lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!mc::ctl(m)) return mc::real("pthread_mutex_trylock", &pthread_mutex_trylock)(m); mc::schedule(); mc::Rt rt; auto& x = (*mc::M)[m]; if (x.owner == mc::self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.depth++; return 0; } if (x.owner >= 0) { if (mc::spinning(m, 1)) { mc::T[mc::self].spins = mc::SPIN - 4; mc::inrt--; mc::schedule(true); mc::inrt++; } return EBUSY; } x.owner = mc::self; mc::T[mc::self].vc.join(x.vc); mc::progress(); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!mc::ctl(m)) return mc::real("pthread_mutex_unlock", &pthread_mutex_unlock)(m); mc::unlock(m); return 0; }
static int mc_rw(pthread_rwlock_t* m, int kind) { mc::schedule(); auto& me = mc::T[mc::self]; while (true) { { mc::Rt rt; auto& r = (*mc::R)[m]; if (kind == 2 ? r.writer < 0 && r.readers == 0 : r.writer < 0) { if (kind == 2) { r.writer = mc::self; me.vc.join(r.vc); me.vc.join(r.rvc); } else { r.readers++; r.rs.insert(mc::self); me.vc.join(r.vc); } return 0; } me.wait_rw = m; me.rwkind = kind; } mc::schedule(); me.wait_rw = nullptr; } }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!mc::ctl(m)) return mc::real("pthread_rwlock_rdlock", &pthread_rwlock_rdlock)(m); return mc_rw(m, 1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!mc::ctl(m)) return mc::real("pthread_rwlock_tryrdlock", &pthread_rwlock_tryrdlock)(m); { mc::schedule(); mc::Rt rt; if ((*mc::R)[m].writer >= 0) return EBUSY; } return mc_rw(m, 1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!mc::ctl(m)) return mc::real("pthread_rwlock_trywrlock", &pthread_rwlock_trywrlock)(m); { mc::schedule(); mc::Rt rt; auto& r = (*mc::R)[m]; if (r.writer >= 0 || r.readers) return EBUSY; r.writer = mc::self; mc::T[mc::self].vc.join(r.vc); mc::T[mc::self].vc.join(r.rvc); } return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!mc::ctl(m)) return mc::real("pthread_rwlock_wrlock", &pthread_rwlock_wrlock)(m); return mc_rw(m, 2); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!mc::ctl(m)) return mc::real("pthread_rwlock_unlock", &pthread_rwlock_unlock)(m); mc::flush(); { mc::Rt rt; auto& r = (*mc::R)[m]; auto& me = mc::T[mc::self]; if (r.writer == mc::self) { r.writer = -1; r.vc.join(me.vc); } else { r.readers--; r.rs.erase(mc::self); r.rvc.join(me.vc); } mc::tick(); mc::progress(); } mc::schedule(); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!mc::ctl(m)) return mc::real("pthread_cond_wait", &pthread_cond_wait)(c, m); mc::flush(); { mc::Rt rt; auto& x = (*mc::M)[m]; x.owner = -1; x.vc.join(mc::T[mc::self].vc); mc::tick(); mc::T[mc::self].wait_cond = c; } mc::schedule(); mc::lock(m); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (!mc::ctl(c)) return mc::real("pthread_cond_signal", &pthread_cond_signal)(c); { mc::Rt rt; for (int t = 1; t <= mc::N; t++) if (mc::T[t].wait_cond == c) { mc::T[t].wait_cond = nullptr; break; } mc::progress(); } mc::schedule(); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (!mc::ctl(c)) return mc::real("pthread_cond_broadcast", &pthread_cond_broadcast)(c); { mc::Rt rt; for (int t = 1; t <= mc::N; t++) if (mc::T[t].wait_cond == c) mc::T[t].wait_cond = nullptr; mc::progress(); } mc::schedule(); return 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { if (!mc::ctl(o)) return mc::real("pthread_once", &pthread_once)(o, f); auto& me = mc::T[mc::self]; if (*(volatile int*)o == 2) { mc::Rt rt; me.vc.join((*mc::GV)[o]); return 0; } mc::schedule(); while (true) { { mc::Rt rt; int& s = (*mc::G)[o]; if (*(volatile int*)o == 2) { me.vc.join((*mc::GV)[o]); return 0; } if (s != 1) { s = 1; break; } me.wait_guard = o; } mc::schedule(); me.wait_guard = nullptr; } try { f(); } catch (...) { { mc::Rt rt; (*mc::G)[o] = 0; } mc::schedule(); throw; } mc::flush(); *(volatile int*)o = 2; { mc::Rt rt; (*mc::G)[o] = 2; (*mc::GV)[o].join(me.vc); mc::tick(); mc::progress(); } mc::schedule(); return 0; }
int sched_yield() { if (mc::active()) { mc::schedule(true); return 0; } return mc::real("sched_yield", &sched_yield)(); }
int nanosleep(const timespec* r, timespec* m) { if (mc::active()) { mc::schedule(true); return 0; } return mc::real("nanosleep", &nanosleep)(r, m); }
int clock_nanosleep(clockid_t c, int f, const timespec* r, timespec* m) { if (mc::active()) { mc::schedule(true); return 0; } return mc::real("clock_nanosleep", &clock_nanosleep)(c, f, r, m); }
int usleep(useconds_t u) { if (mc::active()) { mc::schedule(true); return 0; } return mc::real("usleep", &usleep)(u); }
// ---- function-local statics: state 0 free, 1 running, 2 done
int __cxa_guard_acquire(long long* g) { if (*(volatile char*)g) { if (mc::active()) { mc::Rt rt; mc::T[mc::self].vc.join((*mc::GV)[g]); } return 0; } if (!mc::active()) return 1; mc::schedule(); auto& me = mc::T[mc::self]; while (true) { { mc::Rt rt; int& s = (*mc::G)[g]; if (*(volatile char*)g) { me.vc.join((*mc::GV)[g]); return 0; } if (s != 1) { s = 1; return 1; } me.wait_guard = g; } mc::schedule(); me.wait_guard = nullptr; } }
void __cxa_guard_release(long long* g) { *(volatile char*)g = 1; if (!mc::active()) return; { mc::Rt rt; (*mc::G)[g] = 2; } mc::flush(); { mc::Rt rt; (*mc::GV)[g].join(mc::T[mc::self].vc); (*mc::A)[g].join(mc::T[mc::self].vc); mc::tick(); mc::progress(); } mc::schedule(); }
void __cxa_guard_abort(long long* g) { if (!mc::active()) return; { mc::Rt rt; (*mc::G)[g] = 0; } mc::schedule(); }
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept { if (mc::sh && mc::T && mc::self > 0) mc::bad("assertion failed in thread %d: %s", mc::self, e); fprintf(stderr, "assertion %s failed (%s)\n", e, fn); abort(); }
}
void* operator new(size_t n) { void* p = mc::take(n, 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { mc::give(p, 1); }
void operator delete[](void* p) noexcept { mc::give(p, 1); }
void operator delete(void* p, size_t) noexcept { mc::give(p, 1); }
void operator delete[](void* p, size_t) noexcept { mc::give(p, 1); }
