// Independent reading of polynomial strings
#pragma once
#include "common.hpp"
struct PolyParse { // verdict: 0 = must be an error, 1 = must be read as p, 2 = sloppy spelling: error or p are both acceptable
    int verdict = 0; std::map<long, mpq_class> p; const string s, var; size_t i = 0;
    PolyParse(const string& str, const string& v) : s(str), var(v) { run(); }
    void sp() { while (i < s.size() && s[i] == ' ') i++; }
    bool dig() const { return i < s.size() && s[i] >= '0' && s[i] <= '9'; }
    static bool isvar(const string& v) { if (v.empty() || !(isalpha((unsigned char)v[0]) || v[0] == '_')) return false; for (unsigned char c : v) if (!(isalnum(c) || c == '_')) return false; return true; }
    bool skip = false, huge = false; long expo(const string& x) { mpz_class z(x, 10); if (z > 200000) { if (z.fits_slong_p()) skip = true; else huge = true; return 0; } return z.get_si(); }
    string number() { string r; while (dig()) r += s[i++]; return r; }
    void run() {
        if (!isvar(var)) { verdict = 0; return; } bool sloppy = false; sp(); if (i == s.size()) { verdict = s.empty() ? 2 : 2; return; } // empty text: zero or error
        bool first = true;
        while (i < s.size()) {
            int sg = 1, n = 0; while (i < s.size() && (s[i] == '+' || s[i] == '-' || s[i] == ' ')) { if (s[i] != ' ') n++; if (s[i] == '-') sg = -sg; i++; }
            if (n > 1) sloppy = true; if (!first && n == 0) { verdict = 0; return; } if (i == s.size()) { verdict = 0; return; } first = false;
            mpq_class c = 1; bool hc = false, star = false; if (dig()) { hc = true; string a = number(), b = "1"; if (i < s.size() && s[i] == '/') { i++; b = number(); if (b.empty() || mpz_class(b, 10) == 0) { verdict = 0; return; } } if (i < s.size() && s[i] == '/') { verdict = 0; return; } c = mpq_class(mpz_class(a, 10), mpz_class(b, 10)); c.canonicalize(); }
            sp(); if (i < s.size() && s[i] == '*') { star = true; i++; sp(); } long e = 0;
            if (s.compare(i, var.size(), var) == 0) { i += var.size(); e = 1; if (star && !hc) sloppy = true; if (dig()) { sloppy = true; e = expo(number()); } else { sp(); if (i < s.size() && s[i] == '^') { i++; sp(); string x = number(); if (x.empty()) { verdict = 0; return; } e = expo(x); } } }
            else if (!hc || star) { verdict = 0; return; }
            sp(); if (i < s.size() && s[i] != '+' && s[i] != '-') { verdict = 0; return; }
            p[e] += sg * c;
        }
        verdict = huge ? 0 : sloppy ? 2 : 1;
    }
    ref::Poly poly() const { ref::Poly r; for (auto& t : p) if (t.second != 0) { if ((long)r.size() <= t.first) r.resize(t.first + 1); r[t.first] = t.second; } return r; }
};
