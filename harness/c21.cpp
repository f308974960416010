// C21: value semantics; all histories of value operations on three variables
#include "cxx.hpp"
#include <new>
static vector<Spec> S; static vector<string> V; static vector<RP> H; static bool g_handles;
static RP handle(int f) { if (f == 0) return RP(&RC::make()); return H[f] ? H[f] : xmake(S[f], V[f], 64, 40); }
struct Val { int f = -1; ref::Elem e; }; // f == -1: moved from
struct Vars { alignas(RE) char mem[3][sizeof(RE)]; RE& operator[](int i) { return *reinterpret_cast<RE*>(mem[i]); } };
struct OpD { int k, i, j; string n; };
enum { COPY, MOVE, SWAP, CTORCOPY, CTORMOVE, RESET, SETINT, SETQ, ADD, SUB, MUL, NEG, STDSWAP, RVAL, GEN, TEXT, DIVI, CHAIN, NOPS };
static vector<OpD> ops;
static bool applicable(const OpD& o, const Val* m) { const Val &a = m[o.i], &b = m[o.j];
    switch (o.k) { case COPY: case CTORCOPY: case RVAL: return b.f >= 0; case CHAIN: return b.f >= 0; case ADD: case SUB: case MUL: return a.f >= 0 && b.f >= 0 && (a.f == b.f || a.e.rational() || b.e.rational()); case NEG: case GEN: case TEXT: case DIVI: return a.f >= 0; default: return true; } }
static void setv(Val& a, int f, const ref::Elem& e) { a.f = f; a.e = e; }
static void apply(const OpD& o, Vars& v, Val* m) { RE &a = v[o.i], &b = v[o.j]; Val &x = m[o.i], &y = m[o.j]; const RE* ret = nullptr;
    switch (o.k) {
    case COPY: ret = &(a = b); x = y; break;
    case MOVE: ret = &(a = std::move(b)); { Val t = y; if (o.i != o.j) y = Val(); x = t; } break;
    case SWAP: swap(a, b); std::swap(x, y); break;
    case STDSWAP: if (o.i != o.j) { std::swap(a, b); std::swap(x, y); } break;
    case CTORCOPY: { RE t(b); a = t; x = y; } break;
    case CTORMOVE: { RE t(std::move(b)); Val u = y; y = Val(); a = std::move(t); x = u; } break;
    case RVAL: a = RE(b); x = y; break;
    case CHAIN: { int k = 3 - o.i - o.j; v[k] = a = b; x = y; m[k] = y; } break;
    case RESET: a.~RE(); new (&a) RE(); setv(x, 0, rq(0)); break;
    case SETINT: ret = &(a = -7); setv(x, 0, rq(-7)); break;
    case SETQ: ret = &(a = mpq_class(22, 7)); setv(x, 0, rq(mpq_class(22, 7))); break;
    case ADD: case SUB: case MUL: { int f = x.f; if (x.f != y.f && !y.e.rational()) f = y.f; ref::Elem p(S[f].F, x.e.c), q(S[f].F, y.e.c); ret = o.k == ADD ? &(a += b) : o.k == SUB ? &(a -= b) : &(a *= b); ref::Elem r = o.k == ADD ? p + q : o.k == SUB ? p - q : p * q; setv(x, f, r); } break;
    case NEG: a = -a; setv(x, x.f, x.e.neg()); break;
    case DIVI: ret = &(a /= 3); setv(x, x.f, x.e * mpq_class(1, 3)); break;
    case GEN: { ret = &(a = a.parent().gen()); setv(x, x.f, ref::Elem(S[x.f].F, ref::Poly{ 0, 1 })); } break;
    case TEXT: { a = RE(a.parent(), a.to_string(EANTIC_STR_ALG)); } break;
    }
    if (ret && ret != &a) FAIL("%s does not return its target", o.n.c_str());
}
static bool check(Vars& v, Val* m) { for (int i = 0; i < 3; i++) if (m[i].f >= 0) { RE& a = v[i]; const RC& K = a.parent(); if (K.gen_name() != V[m[i].f]) { FAIL("variable %d lives in the field of generator %s instead of %s", i, K.gen_name().c_str(), V[m[i].f].c_str()); return false; }
        if (g_handles && &K != &*handle(m[i].f)) { FAIL("variable %d lives in another field object", i); return false; } if (!check_elem(("variable " + std::to_string(i)).c_str(), a.renf_elem_t(), m[i].e, K.renf_t())) return false; } return true; }
static Val mkv(int f, ref::Poly p) { Val v; v.f = f; v.e = ref::Elem(S[f].F, p); return v; }
static void start(Vars& v, Val* m, const Val* ini) { for (int i = 0; i < 3; i++) { m[i] = ini[i]; RP K = handle(ini[i].f); PQ p(ini[i].e.c); new (&v[i]) RE(*K); renf_elem_set_fmpq_poly(v[i].renf_elem_t(), p, K->renf_t()); } }
static unsigned long n_hist = 0;
static void explore(const Val* ini, vector<int>& path, int depth) {
    // stateless: replay the whole path on fresh objects
    { Vars v; Val m[3]; start(v, m, ini); string d; for (int k : path) d += " ; " + ops[k].n; CASE("v0=%s[%s] v1=%s[%s] v2=%s[%s]%s%s", ini[0].e.s().c_str(), V[ini[0].f].c_str(), ini[1].e.s().c_str(), V[ini[1].f].c_str(), ini[2].e.s().c_str(), V[ini[2].f].c_str(), d.c_str(), g_handles ? "" : " (fields held by the elements only)");
      bool ok = true; for (size_t i = 0; i < path.size() && ok; i++) { TRANS(); apply(ops[path[i]], v, m); if (i + 1 == path.size()) ok = check(v, m); } for (int i = 0; i < 3; i++) v[i].~RE(); n_hist++; TRACE(); string st; for (int i = 0; i < 3; i++) st += m[i].f < 0 ? "-|" : V[m[i].f] + m[i].e.s() + "|"; STATE(st); OUTCOME(st); if (!ok) return;
      if ((int)path.size() == depth) return; Val mm[3] = { m[0], m[1], m[2] };
      for (size_t k = 0; k < ops.size(); k++) { if (path.size() == 0 && !mine()) continue; if (!applicable(ops[k], mm)) continue; path.push_back(k); explore(ini, path, depth); path.pop_back(); } }
}
int main(int argc, char** argv) {
    init(argc, argv); Hush h; bool th = g_thorough; const char* nm[] = { "v%d=v%d", "v%d=move(v%d)", "swap(v%d,v%d)", "t(v%d<-v%d)", "t(move) v%d<-v%d", "reset v%d", "v%d=-7", "v%d=22/7", "v%d+=v%d", "v%d-=v%d", "v%d*=v%d", "v%d=-v%d", "std::swap(v%d,v%d)", "v%d=copy(v%d)", "v%d=gen", "v%d=text", "v%d/=3", "chain v%d=v%d" };
    for (int k = 0; k < NOPS; k++) for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { bool un = k == RESET || k == SETINT || k == SETQ || k == NEG || k == GEN || k == TEXT || k == DIVI; if (un && j != i) continue; if ((k == SWAP || k == STDSWAP) && i > j) continue; if (k == CHAIN && i == j) continue; if ((k == RVAL || k == CTORCOPY) && !th && i != (j + 1) % 3 && i != j) continue; if ((k == SUB || k == MUL) && !th && i != j && i != 0) continue; char b[64]; snprintf(b, sizeof b, nm[k], i, j); ops.push_back({ k, i, j, b }); }
    S = { specQ(), mkfield("-2 0 1", -1), mkfield("-2 0 0 1", -1), mkfield("7 3", 0), mkfield("-4 0 0 0 2", 0) }; V = { "a", "s", "c", "l", "q" };
    vector<vector<Val>> ini; mpq_class big(p2(70)); ini.push_back({ mkv(1, { 1, mpq_class(1, 2) }), mkv(2, { 0, 1, -big }), mkv(0, { mpq_class(3, 4) }) }); ini.push_back({ mkv(1, { big, 1 }), mkv(1, { 0, -1 }), mkv(2, { 0, mpq_class(2, 3) }) }); ini.push_back({ mkv(3, { -big }), mkv(4, { 1, 0, 0, mpq_class(5, 7) }), mkv(2, { 9 }) });
    if (th) ini.push_back({ mkv(4, { 0, mpq_class(1, 3), big }), mkv(4, { 2 }), mkv(1, { 0 }) });
        for (auto& in : ini) for (int hd : { 1, 0 }) { if (!th && hd == (&in - &ini[0]) % 2) continue; g_handles = hd; H.assign(S.size(), RP()); if (hd) for (size_t f = 1; f < S.size(); f++) H[f] = xmake(S[f], V[f], 64, 40); vector<int> p; explore(in.data(), p, th && hd && &in == &ini[0] ? 4 : 3); }
    H.clear(); SAMPLE("v0=move(v1) ; swap(v1,v2) ; v1=v0"); finish(); return g_nfail ? 1 : 0;
}
