// C02: explicit-state search over operation histories of two registers in one field; after every transition the balls of
// both registers and of the field must contain the exact values, and the field's ball must isolate its root.
#include "alphabet.hpp"
using ref::Elem;
struct St { renf_t nf; renf_elem_t r[2]; Elem e[2]; };
static Spec S; static std::unordered_set<uint64_t> seen; static size_t OPS; static vector<const char*> names;
static std::map<string, bool> isol;
static void copy(St& d, const St& s) { renf_init_set(d.nf, s.nf); for (int i = 0; i < 2; i++) { renf_elem_init(d.r[i], d.nf); renf_elem_set(d.r[i], s.r[i], d.nf); d.e[i] = s.e[i]; } }
static void clear(St& d) { for (int i = 0; i < 2; i++) renf_elem_clear(d.r[i], d.nf); renf_clear(d.nf); }
static mpz_class HUGE_; 
// apply op k to the state; returns false if not enabled
static bool apply(St& s, size_t k) {
    renf* nf = s.nf; renf_elem *a = s.r[0], *b = s.r[1]; Elem &x = s.e[0], &y = s.e[1]; Z h(HUGE_), t; Q q(mpq_class(-22, 7));
    switch (k) {
    case 0: renf_elem_add(a, a, b, nf); x = x + y; break;
    case 1: renf_elem_sub(a, a, b, nf); x = x - y; break;
    case 2: renf_elem_mul(a, a, b, nf); x = x * y; break;
    case 3: if (y.zero()) return false; renf_elem_div(a, a, b, nf); x = x / y; break;
    case 4: renf_elem_swap(a, b); std::swap(x, y); break;
    case 5: renf_elem_set(b, a, nf); y = x; break;
    case 6: renf_elem_neg(a, a, nf); x = x.neg(); break;
    case 7: if (x.zero()) return false; renf_elem_inv(a, a, nf); x = x.inv(); break;
    case 8: renf_elem_add_fmpz(a, a, h, nf); x = x + Elem(x.K, HUGE_); break;
    case 9: renf_elem_sub_fmpz(a, a, h, nf); x = x - Elem(x.K, HUGE_); break;
    case 10: renf_elem_mul_fmpq(a, a, q, nf); x = x * mpq_class(-22, 7); break;
    case 11: renf_elem_fmpq_sub(a, q, a, nf); x = Elem(x.K, mpq_class(-22, 7)) - x; break;
    case 12: renf_elem_refine: renf_refine_embedding(nf, nf->prec * 2 + 10); break;
    case 13: { B z; renf_elem_get_arb(z, a, nf, 40); if (!contains(z, x)) FAIL("get_arb result does not contain the value"); } break;
    case 14: { int c = renf_elem_cmp(a, b, nf); if ((c > 0) - (c < 0) != x.cmp(y)) FAIL("cmp wrong"); } break;
    case 15: renf_elem_floor(t, a, nf); if (toz(t) != x.floor()) FAIL("floor wrong"); break;
    case 16: renf_elem_get_d(a, nf, ARF_RND_NEAR); break;
    case 17: renf_elem_set_evaluation(a, nf, 5); break;
    case 18: renf_elem_gen(a, nf); x = Elem(x.K, ref::Poly{ 0, 1 }); break;
    case 19: renf_elem_pow(a, a, 3, nf); x = x.pow(3); break;
    case 20: renf_elem_sub_si(a, a, -3, nf); x = x + Elem(x.K, mpq_class(3)); break;
    case 21: renf_elem_div_ui(a, a, 7, nf); x = x * mpq_class(1, 7); break;
    case 22: renf_elem_fdiv: if (y.zero()) return false; renf_elem_fdiv(t, a, b, nf); if (toz(t) != (x / y).floor()) FAIL("fdiv wrong"); break;
    case 23: if (x.zero()) return false; renf_elem_fmpq_div(b, q, a, nf); y = Elem(x.K, mpq_class(-22, 7)) / x; break;
    case 24: { PQ p(y.c); renf_elem_set_fmpq_poly(a, p, nf); x = y; } break;
    case 25: renf_elem_sgn(a, nf); break;
    case 26: renf_elem_sub(b, a, b, nf); y = x - y; break;
    case 27: renf_elem_mul(b, b, b, nf); y = y * y; break;
    case 28: renf_elem_div_fmpz(a, a, h, nf); { mpq_class i(mpz_class(1), HUGE_); x = x * i; } break;
    case 29: renf_elem_ceil(t, b, nf); break;
    default: return false;
    }
    return true;
}
static uint64_t key(const St& s) { string k = s.e[0].s() + "|" + s.e[1].s(); for (auto* b : { s.r[0]->emb, s.r[1]->emb, s.nf->emb }) { char* c = arb_dump_str(b); k += "|"; k += c; flint_free(c); } return hashs(k); }
static void checkstate(const St& s, const string& h) {
    for (int i = 0; i < 2; i++) check_elem(i ? "register 1" : "register 0", s.r[i], s.e[i], s.nf);
    char* c = arb_dump_str(s.nf->emb); string k(c); flint_free(c);
    if (!isol.count(k)) { bool ok; Elem g(S.F, ref::Poly{ 0, 1 }); ok = contains(s.nf->emb, g);
        if (ok && S.F->d > 1) { ref::Sturm T(S.F->f); mpq_class m = arf2q(arb_midref(s.nf->emb)), r = mag2q(arb_radref(s.nf->emb)); ok = T.count(m - r, m + r) == 1; }
        isol[k] = ok; if (!ok) FAIL("the field's ball %s does not isolate the generator", balls(s.nf->emb).c_str()); }
}
static bool toobig(const St& s) { for (auto& e : s.e) { size_t b = 0; for (auto& c : e.c) b += mpz_sizeinbase(c.get_num_mpz_t(), 2) + mpz_sizeinbase(c.get_den_mpz_t(), 2); if (b > 6000) return true; } return s.nf->prec > 2000 || arb_rel_accuracy_bits(s.nf->emb) > 3000; }
static void search(const St& s, int depth, const string& hist) {
    if (depth == 0 || toobig(s)) return;
    for (size_t k = 0; k < OPS; k++) {
        CASE("field %s history %s;%s", S.name.c_str(), hist.c_str(), names[k]);
        St n; copy(n, s);
        if (apply(n, k)) { TRANS(); string h = hist + ";" + names[k]; checkstate(n, h);
            if (seen.insert(key(n)).second) { STATEH(key(n) * 31 + depth); if (depth > 1) search(n, depth - 1, h); else TRACE(); } else TRACE(); }
        clear(n);
    }
}
static void run(const Spec& sp, long prec, long start, int depth) {
    S = sp; seen.clear(); isol.clear(); HUGE_ = p2(prec + 3);
    CField K(S, prec, start); auto g = Elem(S.F, ref::Poly{ 0, 1 });
    vector<std::pair<Elem, Elem>> init = { { g, Elem(S.F, ref::Poly{ mpq_class(-3, 2), 1 }) } };
    if (S.F->d > 2) init.push_back({ Elem(S.F, ref::Poly{ 1, mpq_class(1, 3), -2 }), Elem(S.F, mpq_class(0)) });
    for (auto& in : init) {
        CASE("field %s prec %ld start %ld init", S.name.c_str(), prec, start);
        St s; renf_init_set(s.nf, K.nf); for (int i = 0; i < 2; i++) { renf_elem_init(s.r[i], s.nf); s.e[i] = i ? in.second : in.first; set_elem(s.r[i], s.e[i], s.nf); }
        string h = "prec " + std::to_string(prec) + " from " + std::to_string(start) + " (" + in.first.s() + "," + in.second.s() + ")";
        checkstate(s, h); search(s, depth, h); clear(s);
    }
    SAMPLE("field " + S.name + " prec " + std::to_string(prec) + ": all histories of length " + std::to_string(depth) + " over {" + names[0] + "," + names[3] + ",...}");
}
int main(int argc, char** argv) {
    init(argc, argv);
    names = { "a+=b", "a-=b", "a*=b", "a/=b", "swap", "b=a", "a=-a", "a=1/a", "a+=H", "a-=H", "a*=-22/7", "a=-22/7-a", "refine", "get_arb", "cmp", "floor", "get_d", "evaluate5", "a=gen", "a=a^3", "a-=-3", "a/=7", "fdiv", "b=(-22/7)/a", "a=poly(b)", "sgn", "b=a-b", "b*=b", "a/=H", "ceil(b)" };
    OPS = names.size();
    vector<std::pair<string, int>> fs = { { "-2 0 1", -1 }, { "-3 0 4", 0 }, { "-2 0 0 1", 0 }, { "1 -3 0 1", 1 }, { "1 0 -10 0 1", 2 }, { "-1 2", 0 }, { "-3 0 2^90", 1 }, { "-1 -1 0 0 0 1", 0 } };
    if (g_thorough) for (auto& f : vector<std::pair<string, int>>{ { "-2^91 0 1", 1 }, { "-1/3 0 1/2", 0 }, { "-1 1/2 0 3", 0 }, { "7 3", 0 }, { "-4 0 0 0 2", 1 }, { "-2 4000 -2000000 1", 0 }, { "-2 4000 -2000000 1", 1 }, { "5 0 -5 0 1", 1 }, { "1 -2 -1 1", 2 }, { "-2^200 0 0 1", 0 } }) fs.push_back(f);
    vector<long> precs = g_thorough ? vector<long>{ 64, 2, 10, 30, 128 } : vector<long>{ 64, 8 };
    for (auto& f : fs) { Spec sp = mkfield(f.first, f.second); long sb = sepbits(sp.F); for (long p : precs) for (long st : { sb + 1, 0L }) { if (st == 0 && !g_thorough && p == 64) st = 100; else if (st == 0) st = sb; if (mine()) run(sp, p, st, 3 + (g_thorough && p <= 10)); } }
    finish(); return g_nfail ? 1 : 0;
}
