// Reference model: exact arithmetic in Q[x]/(f) with a chosen real root, written with GMP only.
// Deliberately boring; shares no code with e-antic or FLINT.
#pragma once
#include <gmpxx.h>
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <stdexcept>
#include <cassert>

namespace ref {
typedef std::vector<mpq_class> Poly;
inline void trim(Poly& p) { while (!p.empty() && p.back() == 0) p.pop_back(); }
inline Poly add(const Poly& a, const Poly& b) { Poly r(std::max(a.size(), b.size())); for (size_t i = 0; i < a.size(); i++) r[i] += a[i]; for (size_t i = 0; i < b.size(); i++) r[i] += b[i]; trim(r); return r; }
inline Poly neg(const Poly& a) { Poly r(a); for (auto& c : r) c = -c; return r; }
inline Poly sub(const Poly& a, const Poly& b) { return add(a, neg(b)); }
inline Poly mul(const Poly& a, const Poly& b) { if (a.empty() || b.empty()) return {}; Poly r(a.size() + b.size() - 1); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] += a[i] * b[j]; trim(r); return r; }
inline Poly scal(const Poly& a, const mpq_class& c) { Poly r(a); for (auto& x : r) x *= c; trim(r); return r; }
inline void divrem(const Poly& a, const Poly& b, Poly& q, Poly& r) {
    r = a; q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, mpq_class(0));
    while (r.size() >= b.size() && !r.empty()) {
        mpq_class c = r.back() / b.back(); size_t s = r.size() - b.size(); q[s] = c;
        for (size_t i = 0; i < b.size(); i++) r[s + i] -= c * b[i];
        trim(r);
    }
    trim(q);
}
inline Poly rem(const Poly& a, const Poly& b) { if (a.size() < b.size()) { Poly r(a); trim(r); return r; } Poly q, r; divrem(a, b, q, r); return r; }
inline Poly deriv(const Poly& a) { Poly r; for (size_t i = 1; i < a.size(); i++) r.push_back(a[i] * (unsigned long)i); trim(r); return r; }
inline mpq_class eval(const Poly& a, const mpq_class& x) { mpq_class r = 0; for (size_t i = a.size(); i--;) r = r * x + a[i]; return r; }
inline Poly gcd(Poly a, Poly b) { trim(a); trim(b); while (!b.empty()) { Poly r = rem(a, b); a = b; b = r; } if (!a.empty()) a = scal(a, 1 / a.back()); return a; }
// number of distinct real roots in (lo, hi] by Sturm
struct Sturm {
    std::vector<Poly> seq;
    explicit Sturm(Poly p) { trim(p); Poly d = deriv(p); seq.push_back(p); if (!d.empty()) seq.push_back(d); while (seq.size() >= 2) { Poly r = neg(rem(seq[seq.size() - 2], seq.back())); if (r.empty()) break; mpq_class c = abs(r.back()); r = scal(r, 1 / c); seq.push_back(r); } }
    static int changes(const std::vector<int>& s) { int c = 0, l = 0; for (int x : s) if (x) { if (l && x != l) c++; l = x; } return c; }
    int var(const mpq_class& x) const { std::vector<int> s; for (auto& p : seq) s.push_back(sgn(eval(p, x))); return changes(s); }
    int varinf(int sg) const { std::vector<int> s; for (auto& p : seq) s.push_back(sgn(p.back()) * ((sg < 0 && p.size() % 2 == 0) ? -1 : 1)); return changes(s); }
    // Sturm for squarefree polynomials: roots in (lo,hi]
    int count(const mpq_class& lo, const mpq_class& hi) const { return var(lo) - var(hi); }
    int count_all() const { return varinf(-1) - varinf(1); }
};
inline mpz_class ceil_root_bound(const Poly& p) { mpq_class m = 0; for (size_t i = 0; i + 1 < p.size(); i++) { mpq_class t = abs(p[i] / p.back()); if (t > m) m = t; } m += 1; mpz_class r = m.get_num() / m.get_den(); return r + 1; }
inline std::string str(const Poly& p) { std::string s = "["; for (size_t i = 0; i < p.size(); i++) { if (i) s += ","; s += p[i].get_str(); } return s + "]"; }
inline std::string pretty(const Poly& p, const std::string& v) { // independent printer
    std::string s; bool first = true;
    for (size_t i = p.size(); i--;) { if (p[i] == 0) continue; mpq_class c = p[i]; if (first) { if (c < 0) s += "-"; } else s += c < 0 ? " - " : " + "; first = false; c = abs(c);
        if (i == 0) s += c.get_str(); else { if (c != 1) s += c.get_str() + "*"; s += v; if (i > 1) s += "^" + std::to_string(i); } }
    return first ? "0" : s;
}
inline mpz_class fdiv(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline mpz_class cdiv(const mpz_class& a, const mpz_class& b) { mpz_class r; mpz_cdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline mpz_class floorq(const mpq_class& q) { return fdiv(q.get_num(), q.get_den()); }
inline mpz_class ceilq(const mpq_class& q) { return cdiv(q.get_num(), q.get_den()); }
inline mpq_class pow2q(long e) { mpq_class r = 1; if (e >= 0) mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), e); else mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), -e); return r; }
inline mpz_class fshr(const mpz_class& a, long k) { mpz_class r; if (k >= 0) mpz_fdiv_q_2exp(r.get_mpz_t(), a.get_mpz_t(), k); else mpz_mul_2exp(r.get_mpz_t(), a.get_mpz_t(), -k); return r; }
inline mpz_class cshr(const mpz_class& a, long k) { mpz_class r; if (k >= 0) mpz_cdiv_q_2exp(r.get_mpz_t(), a.get_mpz_t(), k); else mpz_mul_2exp(r.get_mpz_t(), a.get_mpz_t(), -k); return r; }

struct Field {
    Poly f;                // minimal polynomial as given
    std::vector<mpz_class> fz; // integer multiple
    size_t d;
    mpq_class lo, hi;      // isolating: exactly one root in [lo,hi]; for d==1 lo==hi
    int sl;                // sign of fz at lo
    mutable std::map<long, std::pair<mpz_class, mpz_class>> lev; // K -> [X,Y]/2^K contains root
    mutable mpz_class cx; mutable long ck = -1; // current: root in [cx, cx+1]/2^ck
    static mpq_class quiet(const mpq_class& q) { return q; }
    Field(const Poly& p, const mpq_class& l, const mpq_class& h) : f(p), lo(l), hi(h) {
        trim(f); d = f.size() - 1; mpz_class D = 1; for (auto& c : f) { mpz_class g; mpz_lcm(g.get_mpz_t(), D.get_mpz_t(), c.get_den().get_mpz_t()); D = g; }
        for (auto& c : f) { mpq_class t = c * D; fz.push_back(t.get_num()); }
        if (d == 1) { lo = hi = -f[0] / f[1]; sl = 0; return; }
        Sturm S(f); mpq_class e = pow2q(-2000);
        if (S.count(lo, hi) != 1) throw std::logic_error("reference: interval not isolating: " + str(f) + " count " + std::to_string(S.count(lo, hi)));
        sl = sgn(eval(f, lo)); if (sl == 0 || sgn(eval(f, hi)) == 0) throw std::logic_error("reference: root at endpoint");
    }
    int signAt(const mpz_class& x, long k) const { // sign of fz(x/2^k), k>=0
        mpz_class r = 0, s; size_t i = fz.size(); unsigned long sh = 0;
        while (i--) { mpz_mul_2exp(s.get_mpz_t(), fz[i].get_mpz_t(), sh); r = r * x + s; sh += k; }
        return sgn(r);
    }
    // guess the root at a finer scale (at most K) with a Newton step; accepted only if the exact signs of f at both ends of the guessed interval bracket the root
    bool newton(long K) const {
        long k = ck + 1; mpz_class x = 2 * cx + 1, fx = 0, dx = 0, s; unsigned long sh = 0;
        for (size_t i = fz.size(); i--; sh += k) { mpz_mul_2exp(s.get_mpz_t(), fz[i].get_mpz_t(), sh); fx = fx * x + s; }
        sh = 0; for (size_t i = fz.size(); --i; sh += k) { mpz_class t = fz[i] * (unsigned long)i; mpz_mul_2exp(s.get_mpz_t(), t.get_mpz_t(), sh); dx = dx * x + s; }
        if (dx == 0) return false;
        for (long to = std::min(K, 2 * ck - 8); to > ck + 16; to = ck + (to - ck) / 2) {
            mpz_class g = (x << (to - k)) - fdiv(fx << (to - k), dx), l = cx << (to - ck), h = (cx + 1) << (to - ck);
            for (long o : { 0, -1, 1 }) { mpz_class c = g + o; if (c < l || c + 1 > h) continue; int a = c == l ? sl : signAt(c, to), b = c + 1 == h ? -sl : signAt(c + 1, to); if (a == sl && b == -sl) { cx = c; ck = to; return true; } }
        }
        return false;
    }
    // root in [X,Y]/2^K
    const std::pair<mpz_class, mpz_class>& root(long K) const {
        auto it = lev.find(K); if (it != lev.end()) return it->second;
        if (d == 1) { mpz_class n = lo.get_num() << K; return lev[K] = { fdiv(n, lo.get_den()), cdiv(n, lo.get_den()) }; }
        if (ck < 0 || ck > K) {
            // restart: work at scale 2^K from [lo,hi]
            if (ck > K) { return lev[K] = { fshr(cx, ck - K), cshr(cx + 1, ck - K) }; }
            long k = 0; mpz_class a, b;
            // find scale at which an isolating dyadic interval exists
            for (k = 0;; k += 32 + k / 8) { a = fdiv(lo.get_num() << k, lo.get_den()); b = cdiv(hi.get_num() << k, hi.get_den());
                // shrink to inside [lo,hi]
                a = a + 1; b = b - 1; if (a >= b) continue; int sa = signAt(a, k), sb = signAt(b, k); if (sa * sb < 0 && sa == sl) break; if (k > 60000) throw std::logic_error("reference: bracket"); }
            while (b - a > 1) { mpz_class m = (a + b) / 2; int s = signAt(m, k); assert(s != 0); if (s == sl) a = m; else b = m; }
            cx = a; ck = k; if (ck > K) return lev[K] = { fshr(cx, ck - K), cshr(cx + 1, ck - K) };
        }
        while (ck + 16 < K && newton(K)) ;
        while (ck < K) { mpz_class m = 2 * cx + 1; int s = signAt(m, ck + 1); cx = s == sl ? m : mpz_class(2 * cx); ck++; }
        return lev[K] = { cx, cx + 1 };
    }
};
typedef std::shared_ptr<const Field> F;

struct Elem {
    F K; Poly c; // deg < d, trimmed
    mutable long ek = -1; mutable mpz_class ea, eb; // cached enclosure [ea,eb]/2^ek
    Elem() {}
    Elem(F k, Poly p) : K(k), c(rem(p, k->f)) {}
    Elem(F k, const mpq_class& q) : K(k) { if (q != 0) c.push_back(q); }
    bool zero() const { return c.empty(); }
    bool rational() const { return c.size() <= 1; }
    mpq_class rat() const { return c.empty() ? mpq_class(0) : c[0]; }
    bool integer() const { return rational() && rat().get_den() == 1; }
    bool operator==(const Elem& o) const { return c == o.c; }
    std::string s() const { return str(c); }
    mpz_class den() const { mpz_class D = 1; for (auto& x : c) { mpz_class g; mpz_lcm(g.get_mpz_t(), D.get_mpz_t(), x.get_den().get_mpz_t()); D = g; } return D; }
    void enclose(long k) const { // set [ea,eb]/2^k
        if (ek == k) return;
        mpz_class D = den(); auto& r = K->root(k); mpz_class a = 0, b = 0;
        for (size_t i = c.size(); i--;) { // [a,b] = [a,b]*[X,Y]/2^k + c_i*2^k (times D)
            mpz_class p[4] = { a * r.first, a * r.second, b * r.first, b * r.second }; mpz_class mn = p[0], mx = p[0]; for (int j = 1; j < 4; j++) { if (p[j] < mn) mn = p[j]; if (p[j] > mx) mx = p[j]; }
            mpz_class n = c[i].get_num() * (D / c[i].get_den()); a = fshr(mn, k) + (n << k); b = cshr(mx, k) + (n << k);
        }
        ea = fdiv(a, D); eb = cdiv(b, D); ek = k;
    }
    int cmp(const mpq_class& q) const {
        if (rational()) { int s = ::cmp(rat(), q); return (s > 0) - (s < 0); }
        for (long k = ek < 0 ? 192 : ek;; k *= 2) { enclose(k); mpz_class t = q.get_num() << k; if (ea * q.get_den() > t) return 1; if (eb * q.get_den() < t) return -1; if (k > (1 << 21)) throw std::logic_error("reference: cmp does not separate"); }
    }
    int sgn() const { return cmp(0); }
    mpz_class floor() const { if (rational()) return floorq(rat()); for (long k = ek < 0 ? 192 : ek;; k *= 2) { enclose(k); mpz_class a = fshr(ea, k), b = fshr(eb, k); if (a == b) return a; } }
    mpz_class ceil() const { return -neg().floor(); }
    Elem neg() const { Elem r(*this); r.ek = -1; r.c = ref::neg(c); return r; }
    Elem mk(const Poly& p) const { return Elem(K, p); }
    Elem operator+(const Elem& o) const { return mk(ref::add(c, o.c)); }
    Elem operator-(const Elem& o) const { return mk(ref::sub(c, o.c)); }
    Elem operator*(const Elem& o) const { return mk(ref::mul(c, o.c)); }
    Elem operator*(const mpq_class& q) const { return mk(scal(c, q)); }
    Elem inv() const { // extended Euclid
        if (zero()) throw std::logic_error("ref inv zero");
        Poly r0 = K->f, r1 = c, t0, t1 = { mpq_class(1) };
        while (r1.size() > 1) { Poly q, r; divrem(r0, r1, q, r); Poly t = ref::sub(t0, ref::mul(q, t1)); r0 = r1; r1 = r; t0 = t1; t1 = t; if (r1.empty()) throw std::logic_error("ref inv: not coprime"); }
        return mk(scal(t1, 1 / r1[0]));
    }
    Elem operator/(const Elem& o) const { return *this * o.inv(); }
    Elem pow(unsigned long e) const { Elem r(K, mpq_class(1)), b(*this); while (e) { if (e & 1) r = r * b; b = b * b; e >>= 1; } return r; }
    int cmp(const Elem& o) const { return (*this - o).sgn(); }
};
} // namespace ref
