// Elements that are extremely close to zero, to integers, to each other; and the variants of cached enclosure / field state.
#pragma once
#include "alphabet.hpp"
// positive and negative tiny elements of absolute value about 2^-k
inline vector<ref::Elem> tinies(const ref::F& F, bool thorough) {
    vector<ref::Elem> r; if (F->d == 1) { for (long k : { 3, 70, 300 }) { r.push_back(ref::Elem(F, ref::pow2q(-k))); r.push_back(ref::Elem(F, mpq_class(-ref::pow2q(-k) / 3))); } return r; }
    ref::Elem g(F, ref::Poly{ 0, 1 });
    for (long k : thorough ? vector<long>{ 5, 30, 62, 66, 130, 260, 700 } : vector<long>{ 30, 66, 260 }) { mpz_class f = (g * mpq_class(mpz_class(1) << k)).floor(); mpq_class q(f, mpz_class(1) << k); q.canonicalize(); r.push_back(g - ref::Elem(F, q)); mpq_class q1(f + 1, mpz_class(1) << k); q1.canonicalize(); r.push_back(g - ref::Elem(F, q1)); }
    if (F->d > 12) { r.resize(2); return r; }
    ref::Elem fr = g - ref::Elem(F, mpq_class(g.floor())); if (fr.cmp(mpq_class(1, 2)) > 0) fr = ref::Elem(F, mpq_class(1)) - fr;
    for (int k : { 3, 40 }) { ref::Elem p = fr.pow(k); r.push_back(p); r.push_back(p.neg()); }
    if (F->d > 2) { ref::Elem h = g * g - g; ref::Elem hf = h - ref::Elem(F, mpq_class(h.floor())); r.push_back(hf.pow(7)); }
    return r;
}
// elements so close to zero that thousands of bits are needed
inline vector<ref::Elem> abyss(const ref::F& F, long maxk = 100000) {
    vector<ref::Elem> r; for (long k : vector<long>{ 1500, 4200, 20000, 70000 }) { if (k > maxk) continue; if (F->d == 1) { r.push_back(ref::Elem(F, ref::pow2q(-k))); continue; } if ((k > 5000 && F->d > 5) || (k > 30000 && F->d > 3)) continue; ref::Elem g(F, ref::Poly{ 0, 1 }); mpz_class f = (g * mpq_class(mpz_class(1) << k)).floor(); mpq_class q(f + (k & 64 ? 1 : 0), mpz_class(1) << k); q.canonicalize(); r.push_back(g - ref::Elem(F, q)); }
    return r;
}
// the states in which an operand's enclosure may be when a function is called
enum { FRESH, BLUR1, BLUR2, TIGHT, COARSE, NVAR };
inline const char* varname(int v) { static const char* n[] = { "fresh", "slightly blurred", "useless enclosure", "tight", "coarse" }; return n[v]; }
inline void vary(renf_elem_t a, renf_t nf, int v) {
    if (v == BLUR1) blur(a, nf, nf->prec / 2); else if (v == BLUR2) blur(a, nf, nf->prec + 40); else if (v == COARSE) renf_elem_set_evaluation(a, nf, 3);
    else if (v == TIGHT) { renf_refine_embedding(nf, 300); renf_elem_set_evaluation(a, nf, 300); }
}
struct Work { // fresh copy of a field with one or two elements prepared in given enclosure states
    renf_t nf; renf_elem_t a, b; bool own;
    Work(CField& K, const ref::Elem& x, int vx, const ref::Elem& y, int vy, bool shared = false) { own = !shared; if (own) renf_init_set(nf, K.nf); else nf[0] = K.nf[0]; mk(x, vx, y, vy); if (!own) K.nf[0] = nf[0]; kp = &K; }
    CField* kp; void mk(const ref::Elem& x, int vx, const ref::Elem& y, int vy) { renf_elem_init(a, nf); renf_elem_init(b, nf); set_elem(a, x, nf, !own); set_elem(b, y, nf, !own); vary(a, nf, vx); vary(b, nf, vy); }
    renf* f() { return own ? nf : kp->nf; }
    ~Work() { renf_elem_clear(a, f()); renf_elem_clear(b, f()); if (own) renf_clear(nf); }
};
// fields for the ordering checks: catalogue plus ill-conditioned and extreme ones
inline vector<Spec> order_fields(bool thorough) {
    auto r = fields(thorough);
    for (auto s : { "-2 2000 -500000 1", "-2 0 0 0 -512 65536 -2097152 1", "-2 2^302 -2^601 1" }) { if (!irreducible(parsepoly(s))) continue; size_t n = nroots(s); for (size_t i = 0; i < n; i++) if (thorough || i == 0) r.push_back(mkfield(s, i)); }
    return r;
}
inline int sg(int x) { return (x > 0) - (x < 0); }
inline vector<ref::Elem> order_elements(const ref::F& F, bool thorough) {
    vector<ref::Elem> all = elements(F, thorough, 0), r; size_t i = 0; for (auto& e : all) { if (thorough || F->d < 3 || i < 16 || i % 3 == 0) r.push_back(e); i++; }
    return r;
}
