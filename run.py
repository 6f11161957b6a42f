#!/usr/bin/env python3
"""run.py <property> --tier quick|thorough : build /repo's working tree, explore, confirm, report."""
import threading, sys, os, re, json, hashlib, subprocess, shutil, time, fcntl, glob, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get("LIBO_REPO", "/repo"); B = os.path.join(V, "build")
H = os.path.join(V, "harness")
CC = "clang"; CXX = "clang++"
BASE = ["-std=c99", "-DLINUX_VERSION", "-D_XOPEN_SOURCE=500", "-w", "-g1", "-fno-omit-frame-pointer", "-fwrapv", "-fno-strict-aliasing"]
FLAVORS = {
  "asan": ["-O1", "-fsanitize=address"],
  "sched": ["-O0", "-fsanitize=address", "-fno-sanitize-address-globals-dead-stripping", "-fsanitize-coverage=func,trace-pc-guard,trace-loads,trace-stores"],
}
WRAPS = "__asan_memcpy __asan_memmove __asan_memset memcmp strcpy strncpy strcat strncat strlen strcmp strncmp vsnprintf snprintf sprintf printf gmtime localtime strtok asctime strerror setlocale setenv unsetenv putenv tzset mktime rand qsort malloc calloc realloc free pthread_mutex_lock pthread_spin_lock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_once".split()
def sh(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    if p.returncode: sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), p.stdout[-4000:])); sys.exit(2)
    return p.stdout
def sources():
    fs = []
    for d in ("", "contrib"):
        for e in ("c", "h", "y", "l", "r"): fs += glob.glob(os.path.join(R, d, "*." + e))
    return sorted(fs) + [os.path.join(R, "Makefile")]
def fhash(files, *extra):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.basename(f).encode()); h.update(b"\0")
        with open(f, "rb") as fd: h.update(fd.read())
        h.update(b"\0")
    for e in extra: h.update(repr(e).encode())
    return h.hexdigest()[:20]
def basenames():
    m = re.search(r"^LIBO_BASENAMES\s*=\s*(.*)$", open(os.path.join(R, "Makefile")).read(), re.M)
    return m.group(1).split()
PARSERS = ["osc_expr_parser", "osc_parser", "osc_legacy_parser"]; SCANNERS = ["osc_expr_scanner", "osc_scanner", "osc_legacy_scanner"]
def build_lib(flavor):
    flags = BASE + FLAVORS[flavor]
    d = os.path.join(B, "lib-%s-%s" % (flavor, fhash(sources(), flags)))
    lib = os.path.join(d, "libo.a")
    if os.path.exists(lib): return d
    tmp = d + ".tmp%d" % os.getpid(); shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp + "/gen")
    g = tmp + "/gen/"
    jobs = [["bison", "-p", p + "_", "-d", "-o", g + p + ".c", os.path.join(R, p + ".y")] for p in PARSERS]
    jobs += [["flex", "-o", g + s + ".c", "--prefix=" + s + "_", "--header-file=" + g + s + ".h", os.path.join(R, s + ".l")] for s in SCANNERS]
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    names = [b for b in basenames() if os.path.exists(os.path.join(R, b + ".c")) or os.path.exists(g + b + ".c")]
    srcs = {}
    for b in names + PARSERS + SCANNERS:
        p = g + b + ".c"; srcs[b] = p if os.path.exists(p) else os.path.join(R, b + ".c")
    objs = []
    cj = []
    for b, s in sorted(srcs.items(), key=lambda kv: -os.path.getsize(kv[1])):
        o = os.path.join(tmp, b.replace("/", "_") + ".o"); objs.append(o)
        cj.append([CC] + flags + ["-I" + g, "-I" + R, "-c", s, "-o", o])
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, cj))
    if flavor == "sched":
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda o: sh(["objcopy", "--rename-section", ".data=libodata", "--rename-section", ".bss=libobss", o]), objs))
    sh(["ar", "rcs", tmp + "/libo.a"] + objs)
    for o in objs: os.unlink(o)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d
VCO = threading.Lock()
def drivers():
    return sorted(os.path.basename(f)[:-4] for f in glob.glob(H + "/c[0-9][0-9].cpp"))
def flavor_of(prop): return "sched" if prop == "c28" else "asan"
def build_driver(prop, libd):
    fl = flavor_of(prop)
    flags = ["-std=c++17", "-g1", "-w", "-DLINUX_VERSION", "-fwrapv", "-fno-strict-aliasing", "-fno-omit-frame-pointer"]
    flags += ["-O1", "-fsanitize=address"]
    own = sorted(glob.glob(H + "/*.hpp")) + [os.path.join(H, prop + ".cpp"), os.path.join(H, "vc.cpp" )]
    d = os.path.join(B, "drv"); os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, "%s-%s" % (prop, fhash(own, flags, os.path.basename(libd))))
    if os.path.exists(exe): return exe
    vco = os.path.join(d, "vc-%s.o" % fhash([os.path.join(H, "vc.hpp"), os.path.join(H, "vc.cpp")], flags))
    t = "%s.tmp%d" % (exe, os.getpid())
    with VCO:
        if not os.path.exists(vco):
            sh([CXX] + flags + ["-c", os.path.join(H, "vc.cpp"), "-o", vco + ".%d" % os.getpid()]); os.rename(vco + ".%d" % os.getpid(), vco)
    # compile against /repo's headers
    sh([CXX] + flags + ["-I" + R, "-I" + libd + "/gen", "-I" + H, os.path.join(H, prop + ".cpp")] + [vco, libd + "/libo.a"] + (["-Wl,--wrap=" + w for w in WRAPS] if fl == "sched" else []) + [ "-lm", "-lpthread", "-o", t])
    os.rename(t, exe)
    return exe
def prune():
    for pat, keep in ((B + "/lib-*", 6), (B + "/drv/*", 90)):
        fs = sorted(glob.glob(pat), key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            if os.path.isdir(f): shutil.rmtree(f, ignore_errors=True)
            else:
                try: os.unlink(f)
                except OSError: pass
def locked(f):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX); return f()
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:detect_stack_use_after_return=0:symbolize=1:handle_sigfpe=1:handle_abort=1:max_allocation_size_mb=2048:strict_string_checks=0:fast_unwind_on_malloc=1:malloc_context_size=2", LC_ALL="C", TZ="VCT-5:30VCD,M3.2.0,M11.1.0")
def findings(prop):
    r = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(.*?) :: (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop: r[m.group(2)] = m.group(3)
    return r
def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        def go():
            ds = drivers(); fl = sorted(set(flavor_of(d) for d in ds)); libs = {f: build_lib(f) for f in fl}
            with ThreadPoolExecutor(8) as ex: list(ex.map(lambda d: build_driver(d, libs[flavor_of(d)]), ds))
            prune()
        locked(go); return 0
    prop = a[0]; tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    drv = prop.lower(); t0 = time.time()
    def go():
        l = build_lib(flavor_of(drv)); e = build_driver(drv, l); prune(); return e
    exe = locked(go); tb = time.time() - t0
    if "--replay" in a:
        i = a[a.index("--replay") + 1]
        return subprocess.run([exe, "--tier", tier, "--replay", i], env=ENV).returncode
    tmp = tempfile.mkdtemp(prefix="vc-", dir=B)
    try:
        return explore(prop, tier, exe, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def explore(prop, tier, exe, tmp, t0, tb):
    out = os.path.join(tmp, "out.json"); budget = "560" if tier == "quick" else "5400"
    p = subprocess.run([exe, "--tier", tier, "--out", out, "--tmp", tmp, "--budget", budget, "--workers", str(os.cpu_count() or 8)], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if not os.path.exists(out): sys.stderr.write(p.stdout); return 2
    r = json.load(open(out))
    if p.returncode: sys.stderr.write(p.stdout); return 2
    known = findings(prop); viol = []; kf = []; flaky = []
    for f in sorted(r["failures"], key=lambda f: f["idx"]):
        if f["desc"] in known: kf.append(f); continue
        if len(viol) >= 12: continue
        try:
            q = subprocess.run([exe, "--tier", tier, "--replay", str(f["idx"])], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=130)
            rc, o, e = q.returncode, q.stdout, q.stderr
        except subprocess.TimeoutExpired:
            rc, o, e = -1, "timeout", ""
        if rc == 0 or rc == 4: flaky.append(f); continue
        f["replay_exit"] = rc; f["replay_stdout"] = o[-2000:]; f["replay_stderr"] = e[-6000:]; viol.append(f)
    rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
    for f in kf: print("KNOWN-FINDING: property=%s %s -- %s" % (prop, known[f["desc"]], f["desc"]))
    for f in viol[:6]:
        rp = os.path.join(rd, "%s-%s-%d.json" % (prop, tier, f["idx"]))
        f["property"] = prop; f["tier"] = tier; f["how"] = "python3 run.py %s --tier %s --replay %d" % (prop, tier, f["idx"])
        json.dump(f, open(rp, "w"), indent=1)
        print("  case: %s\n  what: %s" % (f["desc"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, V)))
    for f in flaky: print("not reproduced in a fresh process (not reported): %s: %s" % (f["desc"], f["msg"]))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
      "coverage": {"states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["cases"],
        "samples": r["samples"][:30] or ["(none)"], "exhaustive": not (r["capped"] or r["statefull"]), "bounds": r["bounds"],
        "observed_outcomes": r["outcomes"], "state_set_overflowed": bool(r["statefull"]),
        "meaning": "states: distinct model states reached; transitions: library operations executed and compared with the model; traces: complete cases run from scratch on the real code",
        "known_findings_seen": len(kf), "not_reproduced": len(flaky)},
      "assumptions": ["bounds as stated; values outside the alphabet are not explored", "clang -O1 -fwrapv -fsanitize=address build of the working tree, Linux x86-64, C locale"],
      "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d transitions, %d states, %.1fs (build %.1fs)%s %s" % (prop, tier, r["cases"], r["transitions"], r["states"], time.time() - t0, tb, " CAPPED" if r["capped"] else "", json.dumps(r["outcomes"])))
    return 1 if viol else 0
if __name__ == "__main__": sys.exit(main())
