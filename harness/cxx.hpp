// C++ level helpers: fields and elements bound to their references
#pragma once
#include "near.hpp"
#include <e-antic/renf_class.hpp>
#include <e-antic/renf_elem_class.hpp>
#include <limits>
#include <cmath>
#include <climits>
typedef eantic::renf_elem_class RE; typedef eantic::renf_class RC; typedef boost::intrusive_ptr<const RC> RP;
struct XF { Spec s; string var; RP K; };
// tight = bits of the starting ball
inline RP xmake(const Spec& s, const string& var, long prec = 64, long bits = -1) { CField c(s, prec, bits); CASE("renf_class::make field %s prec %ld", s.name.c_str(), prec); return RC::make(c.nf, var); }
inline XF xf(const Spec& s, const string& var = "x", long prec = 64, long bits = -1) { return { s, var, xmake(s, var, prec, bits) }; }
inline RE xe(const RC& K, const ref::Elem& e) { RE r(K); PQ p(e.c); renf_elem_set_fmpq_poly(r.renf_elem_t(), p, K.renf_t()); return r; }
inline RE xe(const XF& f, const ref::Elem& e) { return xe(*f.K, e); }
inline ref::Poly xpoly(const RE& a) { return elem_poly(a.renf_elem_t(), a.parent().renf_t()); }
inline bool xcheck(const char* what, const RE& a, const ref::Elem& e, const RC& K) {
    if (&a.parent() != &K) { FAIL("%s: result lives in field %s instead of %s", what, a.parent().to_string().c_str(), K.to_string().c_str()); return false; }
    return check_elem(what, a.renf_elem_t(), e, a.parent().renf_t());
}
inline void xvary(const RE& a, int v) { vary(a.renf_elem_t(), a.parent().renf_t(), v); }
// the reference of the trivial field Q = Q[a]/(a-1)
inline const Spec& specQ() { static Spec s = mkfield("-1 1", 0); return s; }
inline ref::Elem rq(const mpq_class& q) { return ref::Elem(specQ().F, q); }
// silence std::cerr (deprecation notes on mixed-field arithmetic)
struct Hush { std::streambuf* b; Hush() { b = std::cerr.rdbuf(nullptr); } ~Hush() { std::cerr.rdbuf(b); } };
