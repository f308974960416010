#!/usr/bin/env python3
"""Driver:  check.py <property> [--tier quick|thorough]
Builds the library and the property's harness from /repo's current working tree, runs the bounded-exhaustive exploration
in parallel shards, writes evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines. Exit status is always 0 or 1."""
import sys, os, json, time, hashlib, subprocess, shutil, glob, tempfile, concurrent.futures as cf, traceback, signal
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("MC_REPO", "/repo"); LIB = os.path.join(REPO, "libeantic")
BUILD = os.path.join(HERE, "build"); OUT = os.path.join(HERE, "out"); NCPU = os.cpu_count() or 8
sys.path.insert(0, HERE)
from checks import CHECKS, FLAVOURS

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def sources():
    c = sorted(glob.glob(LIB + "/src/**/*.c", recursive=True)); cxx = sorted(glob.glob(LIB + "/srcxx/**/*.cpp", recursive=True)); return c, cxx
def treehash(extra):
    h = hashlib.sha256(extra.encode())
    for root in ("src", "srcxx", "e-antic"):
        for d, ds, fs in sorted(os.walk(os.path.join(LIB, root))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".c", ".cpp", ".h", ".hpp", ".in")): h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]
class BuildError(Exception): pass
def generated(dirn):
    os.makedirs(dirn + "/e-antic", exist_ok=True)
    t = open(LIB + "/e-antic/local.h.in").read().replace("@libdir@", "/nonexistent"); open(dirn + "/e-antic/local.h", "w").write(t)
    open(dirn + "/e-antic/config.generated.h", "w").write("/* stub */\n")
def build_lib(flavour):
    """compile every library source of the working tree; content-addressed, so an unchanged tree is not rebuilt"""
    fl = FLAVOURS[flavour]; key = treehash(json.dumps(fl)); final = os.path.join(BUILD, "lib-%s-%s" % (flavour, key))
    if os.path.exists(final + "/ok"): return final
    os.makedirs(BUILD, exist_ok=True); tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD); generated(tmp)
    inc = ["-I" + tmp, "-I" + LIB, "-I" + tmp + "/e-antic", "-I" + LIB + "/e-antic"]; jobs = []; c, cxx = sources()
    for i, s in enumerate(cxx + c):
        o = "%s/%d.o" % (tmp, i); isx = s.endswith(".cpp")
        jobs.append(([fl["cxx"] if isx else fl["cc"]] + (["-std=c++17"] if isx else []) + fl["cxxflags" if isx else "cflags"] + ["-DBUILD_LIBEANTIC", "-D_GNU_SOURCE", "-w", "-c", s, "-o", o] + inc, o))
    with cf.ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(lambda j: sh(j[0]), jobs))
    bad = [r.stdout for r in rs if r.returncode]
    if bad: shutil.rmtree(tmp, ignore_errors=True); raise BuildError(bad[0][-4000:])
    r = sh(["ar", "rcs", tmp + "/libe.a"] + [j[1] for j in jobs])
    if r.returncode: raise BuildError(r.stdout)
    for j in jobs: os.unlink(j[1])
    if fl.get("statics"): # own sections for the library's static variables, so that a harness can watch them
        r = sh(["objcopy", "--rename-section", ".bss=eantic_bss,alloc", "--rename-section", ".data=eantic_data,alloc,load,data,contents", tmp + "/libe.a"])
        if r.returncode: raise BuildError(r.stdout)
    open(tmp + "/ok", "w").close()
    try: os.rename(tmp, final)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return final
def build_harness(src, flavour, extra=()):
    lib = build_lib(flavour); fl = FLAVOURS[flavour]; srcs = [os.path.join(HERE, "harness", s) for s in ([src] if isinstance(src, str) else src)]
    h = hashlib.sha256((lib + json.dumps(list(extra))).encode())
    for s in srcs + sorted(glob.glob(HERE + "/harness/*.hpp")): h.update(open(s, "rb").read())
    exe = os.path.join(lib, os.path.basename(srcs[0]).split(".")[0] + "-" + h.hexdigest()[:16])
    if os.path.exists(exe): return exe
    tmp = exe + ".%d" % os.getpid(); inc = ["-I" + lib, "-I" + lib + "/e-antic", "-I" + LIB, "-I" + LIB + "/e-antic", "-I" + HERE + "/harness"]
    hf = fl.get("hflags", fl["cxxflags"])
    r = sh([fl["cxx"], "-std=c++17", "-w"] + hf + srcs + ["-o", tmp] + inc + list(extra) + ["-Wl,--start-group", lib + "/libe.a", "-Wl,--end-group", "-lflint", "-lmpfr", "-lgmpxx", "-lgmp", "-lpthread", "-lm", "-ldl"])
    if r.returncode: raise BuildError(r.stdout[-6000:])
    os.rename(tmp, exe); return exe
def prune():
    ls = sorted(glob.glob(BUILD + "/lib-*"), key=os.path.getmtime)
    for p in ls[:-12]: shutil.rmtree(p, ignore_errors=True)

def run_shard(exe, args, env, timeout):
    t0 = time.time()
    try: r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout); rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or ""); rc, out, err = "timeout", dec(e.stdout), dec(e.stderr)
    return rc, out, err, time.time() - t0
def parse(out):
    st, fails, samples, done, capped = {}, [], [], False, False
    for l in out.splitlines():
        if l.startswith("STAT "):
            _, k, v = l.split(" ", 2); st[k] = st.get(k, 0) + int(v)
        elif l.startswith("FAIL "): fails.append(l[5:])
        elif l.startswith("SAMPLE "): samples.append(l[7:])
        elif l == "DONE": done = True
        elif l == "CAPPED": capped = True
    return st, fails, samples, done, capped

def main():
    pid = sys.argv[1]; tier = "thorough" if "thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" and "quick" not in sys.argv[2:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time(); c = CHECKS[pid]; os.makedirs(OUT, exist_ok=True); os.makedirs(HERE + "/evidence", exist_ok=True)
    known = [k for k in json.load(open(HERE + "/known_findings.json")) if k["status"] == "known" and k["property"] == pid]
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=4096:symbolize=0", UBSAN_OPTIONS="print_stacktrace=0:abort_on_error=1", LC_ALL="C.UTF-8", MC_REPO=REPO, MC_LIBINC=LIB)
    env.pop("LIBEANTIC_STRICT_BINOP", None)
    stats, fails, samples, capped, infra = {}, [], [], False, []
    parts = c["parts"]; limit = 780 if tier == "quick" else 6 * 3600
    work = []
    try:
        for part in parts:
            if tier == "quick" and part.get("thorough_only"): continue
            if part.get("python"): exe = [part["python"](sys.modules[__name__], env)]; exe = exe[0]
            else: exe = build_harness(part["src"], part["flavour"], part.get("extra", ()))
            n = part.get("shards", NCPU); e = dict(env); e.update(part.get("env", {}))
            b = part.get("budget_quick" if tier == "quick" else "budget_thorough")
            if b: e["MC_BUDGET"] = str(b)
            level = part.get("quick", c.get("quick", "quick")) if tier == "quick" else part.get("thorough", c.get("thorough", "thorough"))
            for i in range(n): work.append((part, exe, [level, str(i), str(n)], e))
    except BuildError as ex:
        # The tree does not compile: nothing was explored.  This is reported as a violation of the check's premise.
        print("the working tree could not be built:\n" + str(ex)); rp = os.path.join(OUT, pid + ".replay"); open(rp, "w").write("build failure\n" + str(ex))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1
    tb = time.time() - t0
    def job(w):
        part, exe, args, e = w; pre = exe if isinstance(exe, list) else [exe]
        return w, run_shard(pre[0], pre[1:] + args, e, max(60, limit - (time.time() - t0)))
    with cf.ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(job, work))
    for (part, exe, args, e), (rc, out, err, dt) in results:
        st, fl, sm, done, cp = parse(out); capped |= cp
        for k, v in st.items(): stats[k] = stats.get(k, 0) + v
        samples += sm[:2]; label = "%s shard %s/%s" % (part.get("name", part.get("src")), args[1], args[2]); extra = ""
        if err.strip(): extra = "\n--- stderr ---\n" + err[-6000:]
        for f in fl: fails.append((f, label, extra, exe, args, e))
        if not fl and (rc != 0 or not done):
            if rc == "timeout": infra.append(label + " ran out of time"); capped = True
            else: fails.append(("%s ended with status %s %s" % (label, rc, " ".join(err.strip().split("\n")[-3:])[-600:]), label, extra, exe, args, e))
    new, old = [], []
    for f in fails:
        m = [k for k in known if k["match"] in f[0]]
        (old if m else new).append((f, m))
    for k in known:
        if any(k in m for _, m in old): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    status = 0; rp = None
    if new:
        f, label, extra, exe, args, e = new[0][0]
        # replay the failing shard once, to make sure the failure is reproducible
        if not c.get("noreplay"):
            e2 = dict(e); pre = exe if isinstance(exe, list) else [exe]
            rc, out, err, dt = run_shard(pre[0], pre[1:] + args, e2, max(120, limit + 60 - (time.time() - t0)))
            st2, fl2, _, done2, _ = parse(out)
            again = [x for x in fl2 if not any(k["match"] in x for k in known)]
            rep = bool(again) or (not fl2 and (rc != 0))
        else: rep = True
        rp = os.path.join(OUT, pid + ".replay")
        with open(rp, "w") as g:
            g.write("property %s, tier %s\nreplay: cd %s && %s\n(the harness enumerates deterministically; the case below is reported again)\nreproduced on replay: %s\n\n" % (pid, tier, HERE, " ".join((exe if isinstance(exe, list) else [exe]) + args), rep))
            for (ff, lb, ext, *_), _m in new[:50]: g.write("[%s] %s%s\n" % (lb, ff, ext)); 
        for (ff, lb, *_), _m in new[:5]: print("  failing: [%s] %s" % (lb, ff[:1500]))
        if rep: status = 1
        else: print("not reproduced on replay; not reported as a violation"); new = []
    cov = dict(states=stats.pop("states", 0), transitions=stats.pop("transitions", 0), traces_validated_against_impl=stats.pop("traces", 0), distinct_outcomes=stats.pop("outcomes", 0), samples=samples[:6], exhaustive=not capped, bounds=c["bounds"])
    cov.update(stats)
    if infra: cov["not_completed"] = infra
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), assumptions=c.get("assumptions", []) + ["GMP and FLINT behave as documented", "the compiler is correct"], violations=len(new))
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1); prune()
    print("%s: states=%d transitions=%d traces=%d outcomes=%d build=%.1fs wall=%.1fs%s" % (pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["distinct_outcomes"], tb, time.time() - t0, " (capped)" if capped else ""))
    if status: print("VIOLATION property=%s replay=%s" % (pid, rp))
    return status
if __name__ == "__main__":
    try: rc = main()
    except Exception: traceback.print_exc(); rc = 2
    sys.exit(rc)
