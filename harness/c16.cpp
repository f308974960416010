// C16: serialization of all short sequences of fields and elements
#include "cxx.hpp"
#include <e-antic/cereal.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/vector.hpp>
struct FD { Spec s; string var; long prec, bits; }; static vector<FD> FS; struct Item { bool field; int f; ref::Elem e; string n; }; static vector<Item> IT;
static bool sameroot(const RC& K, const FD& d) { return frompolyq(K.renf_t()->nf->pol) == d.s.F->f && K.gen_name() == d.var && contains(K.renf_t()->emb, ref::Elem(d.s.F, ref::Poly{ 0, 1 })); }
// the field as described; bits -7: with the enclosure that renf_set_embeddings finds
static RP fmake(const FD& d) { if (d.bits != -7) return xmake(d.s, d.var, d.prec, d.bits); PQ f(d.s.F->f); PZ z; fmpq_poly_get_numerator(z, f); vector<renf> nf(d.s.F->d); slong n = renf_set_embeddings_fmpz_poly(nf.data(), z, nf.size(), d.prec); RP K; for (slong i = 0; i < n; i++) { if (contains(nf[i].emb, ref::Elem(d.s.F, ref::Poly{ 0, 1 }))) K = RC::make(&nf[i], d.var); renf_clear(&nf[i]); } if (!K) { FAIL("no such embedding"); return xmake(d.s, d.var, d.prec, -1); } return K; }
template <typename O, typename I> void run(const char* fmt, const vector<int>& seq, bool alive, bool vec) {
    string n; for (int k : seq) n += IT[k].n + " "; CASE("%s archive of %s(%s%s)", fmt, n.c_str(), alive ? "originals alive" : "originals destroyed", vec ? ", as vector" : ""); TRANS(); TRACE(); STATE(n + fmt + (alive ? "1" : "0") + (vec ? "v" : "")); std::map<int, RP> fs; vector<RP> hf; vector<RE> el; std::stringstream io;
    for (int k : seq) { int f = IT[k].f; if (!fs.count(f)) fs[f] = fmake(FS[f]); } CASE("%s archive of %s(%s%s)", fmt, n.c_str(), alive ? "originals alive" : "originals destroyed", vec ? ", as vector" : "");
    try {
        for (int k : seq) if (!IT[k].field) el.push_back(xe(*fs[IT[k].f], IT[k].e));
        { O ar(io); size_t j = 0; if (vec) ar(el); else for (int k : seq) { if (IT[k].field) { RP p = fs[IT[k].f]; ar(p); } else ar(el[j++]); } }
        OUTCOME(io.str()); std::map<int, const RC*> old; for (auto& p : fs) old[p.first] = &*p.second; if (!alive) { el.clear(); fs.clear(); }
        vector<RP> lf; vector<RE> le; vector<const RC*> at; vector<RE> all; { I ar(io); if (vec) { ar(le); for (auto& x : le) all.push_back(x); } else for (int k : seq) { if (IT[k].field) { RP p; ar(p); lf.push_back(p); at.push_back(&*p); all.push_back(RE()); } else { RE x; ar(x); all.push_back(x); at.push_back(&all.back().parent()); } } }
        if (vec) { if (all.size() != seq.size()) { FAIL("%zu elements come back", all.size()); return; } for (auto& x : all) at.push_back(&x.parent()); }
        for (size_t i = 0; i < seq.size(); i++) { const Item& t = IT[seq[i]]; if (!sameroot(*at[i], FS[t.f])) FAIL("object %zu comes back in field %s", i, at[i]->to_string().c_str()); else if (alive && at[i] != old[t.f]) FAIL("object %zu does not come back in the original field object", i); else if (!t.field) xcheck("element", all[i], t.e, *at[i]); for (size_t j = 0; j < i; j++) if ((at[i] == at[j]) != (t.f == IT[seq[j]].f)) FAIL("sharing of fields between objects %zu and %zu is not preserved", j, i); }
        if (!alive) for (size_t i = 0; i < seq.size(); i++) { RP K = xmake(FS[IT[seq[i]].f].s, FS[IT[seq[i]].f].var, 64); if (&*K != at[i]) FAIL("field of object %zu is not the field", i); }
        // reading one object after the other, each dropped (and its memory reused) before the next one is read
        if (!vec) { lf.clear(); le.clear(); all.clear(); fs.clear(); el.clear(); io.clear(); io.seekg(0); CASE("%s archive of %sread one by one, dropping each object", fmt, n.c_str()); TRACE(); I ar(io); std::map<int, string> seen;
            for (size_t i = 0; i < seq.size(); i++) { const Item& t = IT[seq[i]]; RP other = RC::make("u^3-7", "u", "1.9 +/- 0.1", 64); if (t.field) { RP p; ar(p); if (!sameroot(*p, FS[t.f])) FAIL("field %zu comes back as %s", i, p->to_string().c_str()); } else { RE x; ar(x); if (!sameroot(x.parent(), FS[t.f])) FAIL("object %zu comes back in field %s", i, x.parent().to_string().c_str()); else xcheck("element", x, t.e, x.parent()); } } }
    } catch (const std::exception& ex) { FAIL("raised %s", ex.what()); }
}
// every object is created, written and destroyed before the next one is created, so that fields may reuse memory while the archive is being written
template <typename O, typename I> void temporary(const char* fmt, const vector<int>& seq) {
    string n; for (int k : seq) n += IT[k].n + " "; CASE("%s archive of %swritten one by one, each object destroyed before the next is created", fmt, n.c_str()); TRANS(); TRACE(); STATE(n + fmt + "t"); std::stringstream io;
    try { { O ar(io); for (int k : seq) { RP K = fmake(FS[IT[k].f]); if (IT[k].field) ar(K); else { RE x = xe(*K, IT[k].e); K.reset(); ar(x); } } } CASE("%s archive of %swritten one by one, each object destroyed before the next is created", fmt, n.c_str()); OUTCOME(io.str());
        I ar(io); std::map<int, RP> keep; for (size_t i = 0; i < seq.size(); i++) { const Item& t = IT[seq[i]]; RP K; if (t.field) ar(K); else { RE x; ar(x); K = RP(&x.parent()); if (sameroot(*K, FS[t.f])) xcheck("element", x, t.e, *K); } if (!sameroot(*K, FS[t.f])) FAIL("object %zu comes back in field %s", i, K->to_string().c_str()); else if (keep.count(t.f) && keep[t.f] != K) FAIL("object %zu comes back in another object of its field", i); keep[t.f] = K; }
    } catch (const std::exception& ex) { FAIL("raised %s", ex.what()); } }
static bool g_temp = getenv("C16_TEMPORARY");
static void all(const vector<int>& seq) { if (g_temp || seq.size() < 3 || seq.size() > 8) { temporary<cereal::JSONOutputArchive, cereal::JSONInputArchive>("JSON", seq); temporary<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>("binary", seq); temporary<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>("portable binary", seq); temporary<cereal::XMLOutputArchive, cereal::XMLInputArchive>("XML", seq); } if (g_temp) return;
    bool elems = true; for (int k : seq) if (IT[k].field) elems = false; for (bool alive : { true, false }) for (bool vec : { false, true }) { if (vec && !elems) continue;
    run<cereal::JSONOutputArchive, cereal::JSONInputArchive>("JSON", seq, alive, vec); run<cereal::BinaryOutputArchive, cereal::BinaryInputArchive>("binary", seq, alive, vec); run<cereal::PortableBinaryOutputArchive, cereal::PortableBinaryInputArchive>("portable binary", seq, alive, vec); run<cereal::XMLOutputArchive, cereal::XMLInputArchive>("XML", seq, alive, vec); } }
static void legacy() { CASE("JSON archive written by e-antic before 1.0"); TRANS(); std::stringstream s; s << R"({"cereal":{"cereal_class_version": 0, "parent": {"shared": 2147483649, "name": "c", "embedding": "[1.414213562373095 +/- 4.15e-12]", "minpoly": "c^2 - 2", "precision": 64}, "value": "292/33*c - 5"}})"; RE x; try { cereal::JSONInputArchive ar(s); ar(x); XF K = xf(mkfield("-2 0 1", 1), "c"); xcheck("element", x, ref::Elem(K.s.F, ref::Poly{ -5, mpq_class(292, 33) }), *K.K); } catch (const std::exception& e) { FAIL("raised %s", e.what()); } }
int main(int argc, char** argv) {
    init(argc, argv); Hush h; bool th = g_thorough; auto F = [&](const string& c, int i, const string& v, long p, long b) { Spec s = mkfield(c, i); FS.push_back({ s, v, p, std::max(b, sepbits(s.F) + 2) }); };
    F("-2 0 1", 1, "x", 64, 4); F("-2 0 1", 0, "x", 64, 100); F("-2 0 0 1", 0, "alpha", 8, 4); F("7 3", 0, "a", 64, 10); F("1 0 -10 0 1", 2, "x_1", 128, 50); F("-2 2000 -500000 1", 1, "x", 64, 4); F("-2 0 1", 1, "y", 4, 4); if (th) { F("-2^200 0 0 1", 0, "x", 64, 4); F("-3 0 2^90", 0, "x", 64, 4); F("-2 2000 -500000 1", 0, "x", 300, 400); F("-1 1", 0, "a", 64, 10); }
    for (size_t f = 0; f < FS.size(); f++) { auto& K = FS[f].s.F; IT.push_back({ true, (int)f, ref::Elem(), "field" + std::to_string(f) }); auto put = [&](ref::Poly p) { ref::Elem e(K, p); IT.push_back({ false, (int)f, e, e.s() + "@" + std::to_string(f) }); }; put({ mpq_class(-7, 3) }); if (K->d > 1) put({ 0, 1 }); if (f < 2 || th) { put({}); put({ mpq_class(p2(70)), mpq_class(-5, 9) }); } if (K->d > 2) { ref::Poly t(K->d); t[K->d - 1] = -1; t[0] = mpq_class(1, 3); put(t); } }
    if (mine()) legacy(); int n = IT.size(); for (int i = 0; i < n; i++) { if (mine()) all({ i }); for (int j = 0; j < n; j++) { if (mine()) all({ i, j }); if (th || (i + j) % 3 == 0) for (int k = 0; k < n; k++) { if (!th && (k + i) % 4) continue; if (mine()) all({ i, j, k }); } } }
    // every element alone, in every field of the catalogue
    for (auto& s : fields(th)) { FS.push_back({ s, "x", 64, -1 }); int f = FS.size() - 1; for (auto& e : elements(s.F, th, th ? 1 : 0)) { IT.push_back({ false, f, e, e.s() + "@" + s.name }); if (mine()) all({ (int)IT.size() - 1 }); } }
    // pairs of close roots, with the enclosures that root isolation finds
    for (long k : { 1, 20, 64, 70, 130, 300 }) for (long c : { 0, 1, 3 }) { mpz_class A = p2(2 * k + 1); string t = mpz_class(A * c * c - 1).get_str() + " " + mpz_class(-2 * A * c).get_str() + " " + A.get_str(); if (!irreducible(parsepoly(t))) continue; vector<int> both; for (int i : { 0, 1 }) for (long prec : { 64L, 8L }) { FS.push_back({ mkfield(t, i), prec == 64 ? "x" : "y", prec, -7 }); ref::Elem e(FS.back().s.F, ref::Poly{ mpq_class(1, 3), -2 }); IT.push_back({ false, (int)FS.size() - 1, e, e.s() + "@" + t + "#" + std::to_string(i) }); both.push_back(IT.size() - 1); IT.push_back({ true, (int)FS.size() - 1, e, "field " + t + "#" + std::to_string(i) }); both.push_back(IT.size() - 1); } if (mine()) { all(both); for (int b : both) all({ b }); } }
    // long archives: many objects, many fields, in several orders
    { vector<int> ff, ee; for (int k = 0; k < n; k++) (IT[k].field ? ff : ee).push_back(k); size_t f0 = FS.size(); { auto all_f = fields(th); for (int rep = 0; rep < 3; rep++) for (auto& s : all_f) { FS.push_back({ s, "v" + std::to_string(rep), 64, -1 }); } } vector<int> many; for (size_t f = f0; f < FS.size(); f++) { ref::Elem e(FS[f].s.F, FS[f].s.F->d == 1 ? ref::Poly{ mpq_class((long)f, 3) } : ref::Poly{ mpq_class((long)f), mpq_class(-1, 7) }); if (FS[f].s.F->d == 1) e.c[0].canonicalize(); IT.push_back({ f % 3 == 0, (int)f, e, "many" + std::to_string(f) }); many.push_back(IT.size() - 1); }
        for (int len : { 5, 9, 17, 33, 66, 129, 300 }) for (int stride : { 1, 2, 5 }) if (mine()) { vector<int> a, b, c; for (int i = 0; i < len; i++) { a.push_back(ee[i * stride % ee.size()]); b.push_back((i * stride) % n); c.push_back(i < 20 ? ff[i * stride % ff.size()] : ee[(i + stride) % ee.size()]); } all(a); all(b); all(c); }
        for (int stride : { 1, 7, 11 }) if (mine()) { vector<int> a; for (size_t i = 0; i < 2 * many.size(); i++) a.push_back(many[i * stride % many.size()]); all(a); } }
    SAMPLE("field0 [0,1]@1 field0"); finish(); return g_nfail ? 1 : 0;
}
