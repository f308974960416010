# C25: bounded-exhaustive exploration of the Python interface, run on the working tree's pyeantic and freshly built libraries.
# Oracle: arithmetic of Fractions modulo the minimal polynomial, exact signs by bisection of the root.
import sys, os, warnings, gc, itertools, pickle, math, faulthandler
tier, shard, nsh = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); thorough = tier in ("thorough", "deep")
warnings.simplefilter("ignore")
from fractions import Fraction as Q
sys.set_int_max_str_digits(0)
CASE = "startup"; nfail = 0; stat = {"transitions": 0, "traces": 0}; states = set(); outcomes = set(); samples = []
def out(s): sys.stdout.write(s.replace("\n", " ") + "\n"); sys.stdout.flush()
def fail(msg):
    global nfail
    out("FAIL %s :: %s" % (CASE, msg)); nfail += 1
    if nfail >= 10: finish(); os._exit(1)
def finish():
    for k, v in stat.items(): out("STAT %s %d" % (k, v))
    out("STAT states %d" % len(states)); out("STAT outcomes %d" % len(outcomes))
    for s in samples[:2]: out("SAMPLE " + s)
    out("DONE")
MARK = os.environ.get("MC_MARK")
def case(s):
    global CASE
    CASE = s
    os.pwrite(markfd, (s + " " * 400)[:400].encode(), 0)
import tempfile
markf = tempfile.TemporaryFile(); markfd = markf.fileno()
# ---------------------------------------------------------------- supervise a child: a crash of the interpreter is a failure of the case it was in
pid = os.fork()
if pid:
    import signal, time
    t0 = time.time(); last = None; lastt = t0
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p: break
        time.sleep(0.05); m = os.pread(markfd, 400, 0)
        if m != last: last, lastt = m, time.time()
        if time.time() - lastt > 240:
            os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); out("FAIL %s :: no progress for 240 s" % os.pread(markfd, 400, 0).decode().strip()); sys.exit(1)
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) not in (0, 1): out("FAIL %s :: the interpreter was terminated (status %d)" % (os.pread(markfd, 400, 0).decode().strip(), st)); sys.exit(1)
    sys.exit(os.WEXITSTATUS(st))
case("import pyeantic")
import cppyy
from pyeantic import eantic
std = cppyy.gbl.std
mpz = lambda n: cppyy.gbl.mpz_class(std.string(str(n)))
mpq = lambda q: cppyy.gbl.mpq_class(std.string(str(q)))
# ---------------------------------------------------------------- reference
def trim(p):
    p = list(p)
    while p and p[-1] == 0: p.pop()
    return tuple(p)
def padd(a, b): n = max(len(a), len(b)); return trim([(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])
def pscale(a, c): return trim([x * c for x in a])
def pmul(a, b):
    r = [Q(0)] * max(0, len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i + j] += x * y
    return trim(r)
def pdivmod(a, b):
    a = list(a); q = [Q(0)] * max(0, len(a) - len(b) + 1)
    while len(a) >= len(b) and a:
        c = a[-1] / b[-1]; k = len(a) - len(b); q[k] = c
        for i, y in enumerate(b): a[k + i] -= c * y
        a = list(trim(a))
    return trim(q), trim(a)
def peval(p, x):
    r = Q(0)
    for c in reversed(p): r = r * x + c
    return r
class Fld:
    def __init__(self, coeffs, name, lo, hi):  # root in (lo, hi)
        self.f = trim([Q(c) for c in coeffs]); self.name = name; self.lo, self.hi = Q(lo), Q(hi); self.d = len(self.f) - 1
        if self.d == 1: self.lo = self.hi = -self.f[0] / self.f[1]
        else: assert peval(self.f, self.lo) * peval(self.f, self.hi) < 0
    def refine(self):
        if self.d == 1: return
        m = (self.lo + self.hi) / 2; v = peval(self.f, m)
        if v * peval(self.f, self.lo) > 0: self.lo = m
        else: self.hi = m
    def red(self, p): return pdivmod(p, self.f)[1]
    def inv(self, a):
        r0, r1, s0, s1 = self.f, a, (), (Q(1),)
        while r1:
            q, r = pdivmod(r0, r1); r0, r1, s0, s1 = r1, r, s1, padd(s0, pscale(pmul(q, s1), Q(-1)))
        return self.red(pscale(s0, 1 / r0[0]))
    def bounds(self, a):
        lo = hi = Q(0)
        for c in reversed(a):
            ps = [lo * self.lo, lo * self.hi, hi * self.lo, hi * self.hi]; lo, hi = min(ps) + c, max(ps) + c
        return lo, hi
    def sgn(self, a):
        if not a: return 0
        if len(a) == 1: return (a[0] > 0) - (a[0] < 0)
        while True:
            l, h = self.bounds(a)
            if l > 0: return 1
            if h < 0: return -1
            self.refine()
    def dbl(self, a):
        if not a: return 0.0
        if len(a) == 1: return float(a[0])
        while True:
            l, h = self.bounds(a)
            if l * h > 0 and float(l) == float(h): return float(l)
            self.refine()
    def polystr(self): return " + ".join("%s*%s^%d" % (c, self.name, i) for i, c in enumerate(self.f) if c).replace("+ -", "- ")
    def make(self, digits=3):
        while self.d > 1 and self.hi - self.lo > Q(1, 10 ** digits): self.refine()
        m = (self.lo + self.hi) / 2; m = Q(math.floor(m * 10 ** (digits + 1)), 10 ** (digits + 1))
        dec = "%s%d.%0*d" % ("-" if m < 0 else "", abs(m) // 1, digits + 1, (abs(m) % 1) * 10 ** (digits + 1))
        return eantic.renf(self.polystr(), self.name, "[%s +/- %se-%d]" % (dec, 2, digits))
FIELDS = [Fld([-3, 0, 1], "x", 1, 2), Fld([-2, 0, 0, 1], "a", 1, 2), Fld([-1, 2], "x", 0, 1), Fld([-3, 0, 1], "x", -2, -1), Fld([2, 0, -4, 0, 1], "alpha_1", 1, 2), Fld([1, -3, 0, 1], "y2", -2, -1), Fld([-7, -14, 12, 0, 0, 1], "t", 1, 2), Fld([-1, -5, Q(7, 3), Q(1, 2)], "z", 1, 2)]
import re
def parse(s, var):  # the algebraic text form
    c = {}; s = s.replace(" ", "")
    if s == "0": return ()
    for sg, num, den, v, e in re.findall(r"([+-]?)(\d*)(?:/(\d+))?\*?(" + re.escape(var) + r"(?![A-Za-z0-9_]))?(?:\^(\d+))?", s):
        if not num and not v: continue
        k = int(e) if e else (1 if v else 0); q = Q(int(num or 1), int(den or 1)); c[k] = c.get(k, 0) + (-q if sg == "-" else q)
    return trim([Q(c.get(i, 0)) for i in range(max(c) + 1)]) if c else ()
def value(e, F):
    s = str(e.to_string(1)); p = parse(s, str(e.parent().gen_name())); return p
def expect(what, e, F, p):
    stat["transitions"] += 1
    if value(e, F) != p: fail("%s gave %s, expected %s" % (what, e, p))
    else: outcomes.add(hash(p))
def guard(f, allowed=()):
    try: return True, f()
    except allowed as ex: return False, ex
# ---------------------------------------------------------------- the exploration
INTS = [0, 1, -1, 2, 7, -12, 2**15, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**40, -2**40, 2**53 + 1, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, -2**64, 10**30, -10**30]
FRACS = [Q(1, 2), Q(-1, 2), Q(4, 2), Q(2**70, 3), Q(-1, 2**40), Q(2**31, 5), Q(0), Q(10**20 + 1, 10**20), Q(3**50, 2**70 + 1)]
CH = []
def unit(f): CH.append(f)
def elems(F):
    d = F.d; base = [(), (Q(1),), (Q(-3, 4),), (Q(2**65),)]
    if d > 1:
        base += [(Q(0), Q(1)), (Q(0), Q(-1)), (Q(1, 2), Q(1)), (Q(-2**40, 3), Q(2**35)), (Q(5), Q(-7, 3)), (Q(0), Q(1, 10**25))]
    if d > 2: base += [tuple(Q((-1) ** i * (i + 1), 1 + (i % 3)) for i in range(d)), (Q(0),) * (d - 1) + (Q(1),)]
    r = []
    for b in base:
        b = trim(b)
        if b not in r: r.append(b)
    return r
def text(p, F): return " + ".join("%s*%s^%d" % (c, F.name, i) for i, c in enumerate(p)) if p else "0"
def mkelem(K, F, p):
    return eantic.renf_elem(K, text(p, F).replace("+ -", "- "))
def u_construct(F):
    case("construct field %s" % F.polystr()); K = F.make(); x = K.gen()
    expect("gen()", x, F, (Q(0), Q(1)) if F.d > 1 else trim([F.lo])); expect("one()", K.one(), F, (Q(1),)); expect("zero()", K.zero(), F, ())
    if K.degree() != F.d: fail("degree %s" % K.degree())
    expect("renf_elem(K)", eantic.renf_elem(K), F, ()); expect("renf_elem()", eantic.renf_elem(), F, ())
    for n in INTS:
        case("renf_elem from the integer %d" % n); p = trim([Q(n)]); states.add(("i", n))
        expect("renf_elem(K, n)", eantic.renf_elem(K, n), F, p); expect("renf_elem(n)", eantic.renf_elem(n), F, p); expect("renf_elem(K, mpz)", eantic.renf_elem(K, mpz(n)), F, p); expect("renf_elem(mpz)", eantic.renf_elem(mpz(n)), F, p); expect("renf_elem(K, str)", eantic.renf_elem(K, str(n)), F, p)
        if F.d > 1:
            for L in ([n], (n,), [0, n], [n, 1], (n, n)): expect("renf_elem(K, %r)" % (L,), eantic.renf_elem(K, L), F, trim([Q(c) for c in L]))
    for q in FRACS:
        case("renf_elem from the fraction %s" % q); p = trim([q]); states.add(("q", q))
        expect("renf_elem(K, Fraction)", eantic.renf_elem(K, q), F, p); expect("renf_elem(Fraction)", eantic.renf_elem(q), F, p); expect("renf_elem(K, mpq)", eantic.renf_elem(K, mpq(q)), F, p); expect("renf_elem(mpq)", eantic.renf_elem(mpq(q)), F, p)
        if F.d > 1:
            for L in ([q, 1], (2**40, q), [q, q]): expect("renf_elem(K, %r)" % (L,), eantic.renf_elem(K, L), F, trim([Q(c) for c in L]))
    for p in elems(F):
        e = mkelem(K, F, p); expect("renf_elem(K, str)", e, F, p); expect("renf_elem(K, elem)", eantic.renf_elem(K, e), F, p)
        if F.d > 1 and p: expect("renf_elem(K, list)", eantic.renf_elem(K, list(p)), F, p)
        if len(p) <= 1: expect("renf_elem(elem)", eantic.renf_elem(e), F, p)
        s = str(e)
        if s.startswith("(") and parse(s[1:].split(" ~")[0], F.name) != p: fail("str gave %s for %s" % (s, p))
        if not eantic.renf_elem(K, str(e.to_string(1))) == e: fail("text of %s does not read back" % s)
import operator as op
def u_pairs(F, half):
    case("pairs in %s" % F.polystr()); K = F.make(); E = elems(F); obj = [mkelem(K, F, p) for p in E]
    for i, (p, a) in enumerate(zip(E, obj)):
        if i % 2 != half: continue
        case("unary operators on %s in %s" % (p, F.polystr()))
        expect("-a", -a, F, pscale(p, Q(-1))); 
        if bool(a) != bool(p): fail("bool")
        if float(a) != F.dbl(p): fail("float gave %r expected %r" % (float(a), F.dbl(p)))
        for n in range(-3, 6):
            if n < 0 and not p: continue
            r = (Q(1),)
            for _ in range(abs(n)): r = F.red(pmul(r, p if n >= 0 else F.inv(p)))
            expect("a**%d" % n, a ** n, F, r)
        for q, b in zip(E, obj):
            case("%s and %s in %s" % (p, q, F.polystr())); states.add((F.f, p, q)); stat["traces"] += 1
            expect("a+b", a + b, F, padd(p, q)); expect("a-b", a - b, F, padd(p, pscale(q, Q(-1)))); expect("a*b", a * b, F, F.red(pmul(p, q)))
            if q: expect("a/b", a / b, F, F.red(pmul(p, F.inv(q))))
            s = F.sgn(padd(p, pscale(q, Q(-1)))); got = (a < b, a <= b, a == b, a != b, a >= b, a > b)
            if got != (s < 0, s <= 0, s == 0, s != 0, s >= 0, s > 0): fail("comparison gave %s, sign of the difference is %d" % (got, s))
            if s == 0 and hash(a) != hash(mkelem(K, F, q)): fail("hash differs for equal elements")
            expect("operand a afterwards", a, F, p); expect("operand b afterwards", b, F, q)
def u_scalars(F, half):
    case("scalars in %s" % F.polystr()); K = F.make(); E = elems(F)
    SC = [(n, Q(n), "int") for n in INTS] + [(q, q, "Fraction") for q in FRACS] + [(mpz(n), Q(n), "mpz") for n in INTS[3::4]] + [(mpq(q), q, "mpq") for q in FRACS[::2]]
    for p in E:
        a = mkelem(K, F, p)
        for k, (s, q, kind) in enumerate(SC):
            if k % 2 != half: continue
            case("%s and the %s %s in %s" % (p, kind, q, F.polystr())); states.add((F.f, p, q, kind)); stat["traces"] += 1; c = trim([q])
            expect("a+s", a + s, F, padd(p, c)); expect("a-s", a - s, F, padd(p, pscale(c, Q(-1)))); expect("a*s", a * s, F, pscale(p, q))
            if kind in ("int", "Fraction"): expect("s+a", s + a, F, padd(p, c)); expect("s-a", s - a, F, padd(c, pscale(p, Q(-1)))); expect("s*a", s * a, F, pscale(p, q))
            if q: expect("a/s", a / s, F, pscale(p, 1 / q))
            if p and kind in ("int", "Fraction"): expect("s/a", s / a, F, pscale(F.inv(p), q))
            sg = F.sgn(padd(p, pscale(c, Q(-1))))
            # comparisons are exact
            for name, f, want in (("<", op.lt, sg < 0), ("<=", op.le, sg <= 0), ("==", op.eq, sg == 0), ("!=", op.ne, sg != 0), (">=", op.ge, sg >= 0), (">", op.gt, sg > 0)):
                for rev in (False, True):
                    if rev and kind in ("mpz", "mpq"): continue
                    ok, r = guard((lambda: f(a, s)) if not rev else (lambda: {"<": op.gt, "<=": op.ge, "==": op.eq, "!=": op.ne, ">=": op.le, ">": op.lt}[name](s, a)), (TypeError,))
                    stat["transitions"] += 1
                    if ok and bool(r) != want: fail("a %s s %sgave %s" % (name, "(reversed) " if rev else "", r))
                    if not ok: fail("comparison %s with the %s was refused: %s" % (name, kind, r))
def u_cross():
    case("elements of different fields"); F, G = FIELDS[0], FIELDS[1]; K, L = F.make(), G.make(); x, y = K.gen(), L.gen(); 
    for q in [Q(0), Q(3), Q(-1, 2), Q(2**70)]:
        r = eantic.renf_elem(L, q); c = trim([q]); states.add(("cross", q))
        expect("x+r", x + r, F, padd((Q(0), Q(1)), c)); expect("r*x", r * x, F, pscale((Q(0), Q(1)), q)); expect("r-x", r - x, F, padd(c, (Q(0), Q(-1))))
        if q: expect("x/r", x / r, F, (Q(0), 1 / q))
        s = F.sgn(padd((Q(0), Q(1)), pscale(c, Q(-1))))
        if (x < r, x == r, x > r) != (s < 0, s == 0, s > 0): fail("comparison across fields")
        if hash(r) != hash(eantic.renf_elem(K, q)): fail("hash of equal rationals")
        if not (r == eantic.renf_elem(K, q)): fail("equality of rationals")
    # irrationals of different fields and values of other types are refused in every history of two such operations, and same-field results stay right
    CROSS = [(n, g) for n, g in (("+", op.add), ("-", op.sub), ("*", op.mul), ("/", op.truediv), ("<", op.lt), ("<=", op.le), ("==", op.eq), ("!=", op.ne), (">=", op.ge), (">", op.gt))]
    M, H = eantic.renf("x^2 - 8", "x", "[2.8 +/- 0.1]"), FIELDS[3]; N = H.make(); others = [y, M.gen(), y + 1, N.gen(), y * y]
    same = [x, x + 0, x + 1, x - 1, -x, x * x]
    for n1, f1 in CROSS:
        for k, o in enumerate(others):
            for u, v in ((x, o), (o, x)):
                case("%s of irrationals of different fields (%s, %s)" % (n1, u, v)); states.add(("cross", n1, k, u is x)); stat["traces"] += 1
                try: r = f1(u, v); fail("combining irrationals of different fields gave %s" % r)
                except Exception: stat["transitions"] += 1
                vals = [(Q(0), Q(1)), (Q(0), Q(1)), (Q(1), Q(1)), (Q(-1), Q(1)), (Q(0), Q(-1)), (Q(3),)]
                for n2, f2 in CROSS[4:]:
                    for i, a in enumerate(same):
                        for j, b in enumerate(same):
                            s = F.sgn(padd(vals[i], pscale(vals[j], Q(-1)))); stat["transitions"] += 1
                            if bool(f2(a, b)) != {"<": s < 0, "<=": s <= 0, "==": s == 0, "!=": s != 0, ">=": s >= 0, ">": s > 0}[n2]: fail("%s %s %s is wrong afterwards" % (a, n2, b))
addr = lambda K: cppyy.addressof(K)
def u_histories(part, nparts):
    # all histories up to a depth over field handles, elements, references into fields and pickling; a freed field is overwritten (MALLOC_PERTURB_)
    F = FIELDS[0]; OPS = []
    def o(f): OPS.append(f)
    @o
    def renf(S): S["K"] = eantic.renf("x^2 - 3", "x", "[1.7 +/- 0.1]")
    @o
    def gen(S): S["x"] = S["K"].gen()
    @o
    def elem(S): S["x"] = eantic.renf_elem(S["K"], "x")
    @o
    def parent(S): S["K"] = S["x"].parent()
    @o
    def touch(S): S["x"].parent()
    @o
    def pickleK(S): S["K"] = pickle.loads(pickle.dumps(S["K"]))
    @o
    def pickle_x(S): S["x"] = pickle.loads(pickle.dumps(S["x"]))
    @o
    def pickle_both(S): S["K"], S["x"] = pickle.loads(pickle.dumps([S["K"], S["x"]]))
    @o
    def store(S): S["data"] = pickle.dumps((S["x"], S["K"], S["x"] + 1))
    @o
    def load(S): S["x"], S["K"], _ = pickle.loads(S["data"])
    @o
    def arith(S): S["x"] = (S["x"] + 1) - 1
    @o
    def dropK(S): del S["K"]
    @o
    def dropx(S): del S["x"]
    needs = dict(renf=(), gen=("K",), elem=("K",), parent=("x",), touch=("x",), pickleK=("K",), pickle_x=("x",), pickle_both=("K", "x"), store=("K", "x"), load=("data",), arith=("x",), dropK=("K",), dropx=("x",))
    gives = dict(renf="K", gen="x", elem="x", parent="K", pickleK="K", pickle_x="x", pickle_both="Kx", store=("data",), load="Kx")
    depth = 5 if thorough else 4
    hist = []
    def rec(h, have):
        if len(h) == depth: hist.append(tuple(h)); return
        for f in OPS:
            n = f.__name__
            if not set(needs[n]) <= have: continue
            hv = set(have) | set(gives.get(n, ()))
            if n == "dropK": hv.discard("K")
            if n == "dropx": hv.discard("x")
            if h and h[-1].__name__ == n and n in ("touch", "renf"): continue
            rec(h + [f], frozenset(hv))
    rec([OPS[0]], frozenset("K"))
    for i, h in enumerate(hist):
        if i % nparts != part: continue
        case("history " + " ".join(f.__name__ for f in h)); S = {}; states.add(tuple(f.__name__ for f in h)); stat["traces"] += 1
        for f in h:
            f(S); stat["transitions"] += 1
            churn = eantic.renf("x^2 - 5", "x", "[2.2 +/- 0.1]")  # reuses the memory of a field that was freed
            if "K" in S:
                K = S["K"]
                if K.degree() != 2 or str(K.gen_name()) != "x" or str(K.gen().to_string(1)) != "x" or not (K.gen() * K.gen() == 3): fail("field handle is corrupt after %s: %s" % (f.__name__, K))
                if addr(eantic.renf("x^2 - 3", "x", "[1.7 +/- 0.1]")) != addr(K): fail("a live field is not unique after %s" % f.__name__)
                del K
            if "x" in S:
                x = S["x"]
                if str(x.to_string(1)) != "x" or not (x * x == 3): fail("element is corrupt after %s: %s" % (f.__name__, x))
                if "K" in S and addr(x.parent()) != addr(S["K"]): fail("element has another field after %s" % f.__name__)
                del x
            del churn
        S.clear()
        if i % 256 == 0: gc.collect()
    if hist: samples.append("history " + " ".join(f.__name__ for f in hist[len(hist) // 2]))
def u_pickle_all(F):
    case("pickling in %s" % F.polystr()); K = F.make(); E = [mkelem(K, F, p) for p in elems(F)]
    for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
        E2, K2 = pickle.loads(pickle.dumps((E, K), proto)); stat["traces"] += 1
        if addr(K2) != addr(K): fail("unpickled field differs")
        for p, e, e2 in zip(elems(F), E, E2):
            states.add(("pickle", F.f, p, proto)); expect("unpickled", e2, F, p)
            if not (e == e2) or hash(e) != hash(e2) or addr(e2.parent()) != addr(K): fail("unpickled element differs: %s %s" % (e, e2))
    d = pickle.dumps((E, K)); f0 = str(K); del E, E2, K, K2, e, e2; gc.collect()
    E, K = pickle.loads(d)
    for p, e in zip(elems(F), E): expect("unpickled after everything is gone", e, F, p)
    del E, K, e
def u_realalg(part, nparts):
    from pyeantic.realalg_conversion import realalg_nf_to_eantic, realalg_nf_elem_to_eantic
    import realalg
    polys = [c for d in (2, 3) for c in itertools.product(range(-3, 4), repeat=d + 1) if c[-1] in (1, 2) and c[0]][:: (1 if thorough else 5)]
    polys += [(-2 * 10**12, 0, 1), (1, -10**6, 0, 1), (-10**15 - 1, 0, 1), (-101, 0, 1), (-2, 0, 0, 0, 1), (-1, -1, 0, 0, 0, 1), (-5, 0, 10**6), (-1, 10, -30, 5), (-123456789012, 0, 0, 1), (-7, 1000, 1), (1, -4, 1), (5, -10**3, 1)]
    for i, c in enumerate(polys):
        if i % nparts != part: continue
        case("realalg field %s" % (c,))
        try: R = realalg.RealNumberField(list(c))
        except ValueError: continue
        K = realalg_nf_to_eantic(R); g = K.gen(); stat["traces"] += 1; states.add(("realalg", c)); f = trim([Q(v) for v in c])
        if K.degree() != len(c) - 1: fail("degree")
        v = eantic.renf_elem(K, 0)
        for cf in reversed(c): v = v * g + cf
        if not (v == 0): fail("the generator is not a root")
        # realalg uses the largest real root: no larger root exists iff the derivative chain keeps its sign; count with Sturm
        seq = [f, trim([k * f[k] for k in range(1, len(f))])]
        while seq[-1]: seq.append(pscale(pdivmod(seq[-2], seq[-1])[1], Q(-1)))
        seq.pop()
        def var(x): s = [y for y in (peval(q, x) for q in seq) if y]; return sum(1 for a, b in zip(s, s[1:]) if a * b < 0)
        top = Q(1) + max(abs(q / f[-1]) for q in f)
        # bracket g by rationals using exact comparisons of the element
        lo, hi = -top, top
        while var(lo) - var(hi) > 1 or (var(lo) - var(top)) > 1:
            m = (lo + hi) / 2
            if g > mpq(m): lo = m
            else:
                hi = m
                if var(m) - var(top) >= 1: fail("not the largest root"); break
            if hi - lo < Q(1, 10**40): break
        for coeffs in ([0, 1], [1, -1], [2, 0], [-7, 3], [10**20, -10**18]):
            e = realalg_nf_elem_to_eantic(K, R(coeffs)); expect("converted element %s" % coeffs, e, None, trim([Q(v) for v in coeffs]))
        for n in (0, -3, 10**20, 2**40): expect("converted integer", realalg_nf_elem_to_eantic(K, n), None, trim([Q(n)]))
        expect("converted string", realalg_nf_elem_to_eantic(K, "2*a - 1"), None, (Q(-1), Q(2)))
units = []
for F in (FIELDS if thorough else FIELDS):
    units.append((3, lambda F=F: u_construct(F))); units += [(4, lambda F=F, h=h: u_pairs(F, h)) for h in (0, 1)]; units += [(4, lambda F=F, h=h: u_scalars(F, h)) for h in (0, 1)]; units.append((2, lambda F=F: u_pickle_all(F)))
units.append((1, u_cross)); NP = 16
units += [(3, lambda i=i: u_histories(i, NP)) for i in range(NP)]; units += [(2, lambda i=i: u_realalg(i, 8)) for i in range(8)]
for i, (w, f) in enumerate(units):
    if i % nsh == shard:
        try: f()
        except Exception as ex:
            import traceback
            fail("raised %s: %s [%s]" % (type(ex).__name__, str(ex)[:300], traceback.extract_tb(ex.__traceback__)[-1].lineno))
        gc.collect()
finish(); sys.stdout.flush(); os._exit(1 if nfail else 0)
