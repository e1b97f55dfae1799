#!/usr/bin/env python3
"""Decide one property of nla3d by symbolic execution of its compiled IR (see DESIGN.md).

usage: check.py ID [--only H_entry] [--keep] | check.py --replay FILE
exit 0: held on everything explored   1: VIOLATION printed   2: no verdict (budget, unsupported code, build error)
"""
import sys, os, json, subprocess, tempfile, shutil, time, glob, concurrent.futures as cf, fnmatch, hashlib, resource, re
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NLA3D_REPO", "/repo")
ENG = os.path.join(HERE, "engine"); BUILD = os.path.join(HERE, "build"); EV = os.path.join(HERE, "evidence")
LIB = os.path.join(REPO, "src", "lib"); NCPU = os.cpu_count() or 8
IRFLAGS = ["-O1", "-fno-pic", "-fno-pie", "-emit-llvm", "-c", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-w", "-DSYMX"]
CXXIR = ["clang++", "-std=gnu++11"] + IRFLAGS + ["-D__NO_CTYPE", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DEIGEN_DONT_VECTORIZE", "-fno-access-control", "-isystem", ENG + "/stub", "-I" + LIB, "-isystem", "/usr/include/eigen3", "-I" + ENG, "-I" + HERE + "/harness"]
CXXNAT = ["clang++", "-std=gnu++11", "-O0", "-DELPP_FEATURE_PERFORMANCE_TRACKING", "-w", "-fsanitize=address", "-fsanitize-coverage=edge,trace-pc-guard", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-ffp-contract=off", "-fno-access-control", "-I" + LIB, "-isystem", "/usr/include/eigen3", "-I" + ENG, "-I" + HERE + "/harness"]
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
class NoVerdict(Exception): pass
def need(r, what):
    if r.returncode != 0: raise NoVerdict("%s failed:\n%s" % (what, r.stdout[-4000:]))
def build_engine():
    r = sh(["make", "-C", ENG, "-j", str(NCPU), "OUT=" + BUILD]); need(r, "engine build")
def sources():
    s = [f for f in glob.glob(LIB + "/**/*.cpp", recursive=True)]
    return sorted(s)
def objname(f): return os.path.relpath(f, LIB).replace("/", "_").replace(".cpp", "")
class Ctx: pass
_hdrkey = None
def objkey(src):
    """content hash of the unit and everything it could include: an object compiled from exactly these bytes may be reused"""
    global _hdrkey
    if _hdrkey is None:
        h = hashlib.sha256(); h.update(repr((CXXIR, CXXNAT)).encode())
        fs = [f for f in glob.glob(LIB + "/**/*", recursive=True) if os.path.isfile(f) and not f.endswith(".cpp")] + glob.glob(ENG + "/stub/**", recursive=True)
        for f in sorted(fs):
            if os.path.isfile(f): h.update(f.encode()); h.update(open(f, "rb").read())
        for f in sources():
            t = open(f, "rb").read()
            for x in re.findall(rb'#\s*include\s*"([^"]*\.cpp)"', t): h.update(f.encode() + t)   # a unit included by others counts as a header
            if any(os.path.basename(f).encode() in open(g, "rb").read() for g in sources() if g != f): h.update(f.encode() + t)
        _hdrkey = h.hexdigest()
    return hashlib.sha256((_hdrkey + src).encode() + open(src, "rb").read()).hexdigest()[:20]
def cached(cmd, src, out, name):
    d = os.path.join(BUILD, "cache"); p = os.path.join(d, name + "_" + hashlib.sha256(repr((cmd, objkey(src))).encode()).hexdigest()[:20])
    if os.path.exists(p): shutil.copyfile(p, out); os.utime(p); return subprocess.CompletedProcess(cmd, 0, "")
    r = sh(cmd + ["-c", src, "-o", out])
    if r.returncode == 0:
        try:
            os.makedirs(d, exist_ok=True); t = p + ".%d" % os.getpid(); shutil.copyfile(out, t); os.rename(t, p)
        except OSError: pass
    return r
def prune():
    ds = sorted(glob.glob(os.path.join(BUILD, "cache", "*")), key=os.path.getmtime)
    for d in ds[:-400]:
        try: shutil.rmtree(d) if os.path.isdir(d) else os.remove(d)
        except OSError: pass
def compile_ir(c, ex):
    jobs = []
    out = []
    for f in sources():
        o = os.path.join(c.dir, "ir_" + objname(f) + ".bc"); out.append(o); jobs.append(ex.submit(cached, CXXIR + c.flags, f, o, "ir_" + objname(f)))
    for f in (ENG + "/rt.cpp", ENG + "/harness_rt.cpp", c.harness):
        o = os.path.join(c.dir, "h_" + os.path.basename(f)[:-4] + ".bc"); out.append(o); jobs.append(ex.submit(sh, CXXIR + c.flags + c.defs + [f, "-o", o]))
    o = os.path.join(c.dir, "h_rt_c.bc"); out.append(o); jobs.append(ex.submit(sh, ["clang"] + IRFLAGS + ["-fno-builtin", ENG + "/rt_c.c", "-o", o]))
    for j in jobs: need(j.result(), "compilation of /repo to IR")
    c.hbc = os.path.join(c.dir, "h_" + os.path.basename(c.harness)[:-4] + ".bc")
    return out
def link_ir(c, objs):
    c.bc = os.path.join(c.dir, "all.bc")
    need(sh(["llvm-link-18" if shutil.which("llvm-link-18") else "/usr/lib/llvm-18/bin/llvm-link", "-o", c.bc] + objs), "linking IR")
def native_jobs(c, ex):
    jobs = []; c.nobjs = []
    for f in sources() + ["/usr/include/easylogging++.cc"]:
        n = "n_" + (objname(f) if f.startswith(LIB) else "elpp"); o = os.path.join(c.dir, n + ".o"); c.nobjs.append(o)
        jobs.append(ex.submit(cached, ["nice", "-n", "5"] + CXXNAT + c.flags, f, o, n))
    for f in [c.harness, ENG + "/native.cpp"]:
        o = os.path.join(c.dir, "n_" + os.path.basename(f)[:-4] + ".o"); c.nobjs.append(o)
        jobs.append(ex.submit(sh, ["nice", "-n", "5"] + CXXNAT + c.flags + c.defs + ["-c", f, "-o", o]))
    return jobs
def native_link(c, jobs):
    for j in jobs: need(j.result(), "native build of /repo")
    c.nat = os.path.join(c.dir, "native")
    need(sh(["clang++", "-rdynamic", "-fsanitize=address"] + c.ldflags + ["-o", c.nat] + c.nobjs + ["-ldl"]), "native link")
def run_native(c, entry, model, timeout=60, dirty=False):
    d = tempfile.mkdtemp(dir=c.dir); mf = os.path.join(d, "model.tsv"); rep = os.path.join(d, "report.txt")
    with open(mf, "w") as f:
        for k, v in model.items(): f.write("%s\t%s\n" % (k, v if not isinstance(v, float) else repr(v)))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=100000000:malloc_fill_byte=254:detect_stack_use_after_return=1:handle_abort=0:handle_segv=1:alloc_dealloc_mismatch=0", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=0")
    if dirty: env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("after_return=1", "after_return=0"); env["SYMX_DIRTY_STACK"] = "1"   # old stack contents are not zero
    try:
        p = subprocess.run([c.nat, entry, mf, rep, str(timeout)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout + 30)
        rc, log = p.returncode, p.stdout
    except subprocess.TimeoutExpired: rc, log = 124, "timeout"
    out = open(rep).read() if os.path.exists(rep) else ""
    shutil.rmtree(d, ignore_errors=True)
    fails = [l[5:] for l in out.splitlines() if l.startswith("FAIL ")]
    if rc == 99 or "AddressSanitizer" in log: fails.append("memory | " + next((l for l in log.splitlines() if "AddressSanitizer" in l), "asan"))
    ub = [l for l in log.splitlines() if "runtime error:" in l]
    return dict(rc=rc, fails=fails, ub=ub, out=out, log=log[-3000:], obs={l.split(" ", 2)[1]: l.split(" ", 2)[2] for l in out.splitlines() if l.startswith("OBS ")}, reach=[l[6:] for l in out.splitlines() if l.startswith("REACH ")])
def run_entry(c, entry, procs, budget):
    res = os.path.join(c.dir, entry + ".jsonl"); err = os.path.join(c.dir, entry + ".err")
    def lim(): resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    cmd = [BUILD + "/symx", "--entry", entry, "--out", res, "--procs", str(procs), "--budget", str(budget)] + c.symopts + [c.bc]
    try:
        with open(err, "w") as e: p = subprocess.run(cmd, stdout=e, stderr=e, preexec_fn=lim, timeout=budget + 120)
        rc = p.returncode
    except subprocess.TimeoutExpired: rc = 124
    lines = []
    if os.path.exists(res):
        for l in open(res, errors="replace"):
            try: lines.append(json.loads(l))
            except ValueError: lines.append(dict(type="inconclusive", reason="garbled result line", entry=entry))
    if rc != 0 or not any(l["type"] == "summary" for l in lines): lines.append(dict(type="inconclusive", entry=entry, reason="symbolic executor ended with code %d: %s" % (rc, open(err).read()[-600:])))
    return lines
def meta(hfile):
    m = {}
    for l in open(hfile):
        x = re.match(r"//\s*@(\w+)\s+(.*)", l)
        if x: m.setdefault(x.group(1), []).append(x.group(2).strip())
    return m
def prepare(pid, tier):
    c = Ctx(); c.pid = pid; c.tier = tier; c.harness = (glob.glob(os.path.join(HERE, "harness", pid + "_*.cpp")) + [None])[0]
    if not c.harness: raise NoVerdict("no harness for " + pid)
    c.meta = meta(c.harness); c.defs = ["-DTHOROUGH=%d" % (1 if tier == "thorough" else 0)]
    c.dir = tempfile.mkdtemp(prefix="nla3d_" + pid + "_"); c.symopts = []; c.flags = []; c.ldflags = []
    for o in c.meta.get("symopts", []): c.symopts += o.split()
    for o in c.meta.get("cxxflags", []): c.flags += o.split()   # build configuration of the library, e.g. with MKL
    return c
def generate(c):
    """sources generated from /repo by its build, e.g. the Python wrapper"""
    if "swig" not in c.meta: return
    need(sh(["swig", "-python", "-c++", "-I" + REPO + "/src", "-I" + LIB, "-outdir", c.dir, "-o", c.dir + "/nla3d_wrapper.cxx", REPO + "/python/nla3d.swg"]), "swig")
    py = sorted(glob.glob("/usr/include/python3*"))[-1]; c.defs += ["-I" + c.dir, "-isystem", py]; c.ldflags += ["-l" + os.path.basename(py)]
def close(a, b):
    try: a = float(a); b = float(b)
    except (TypeError, ValueError): return str(a) == str(b)
    if a != a or b != b: return a != a and b != b
    return a == b or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
def check(pid, tier, seed, only=None, keep=False):
    t0 = time.time(); c = prepare(pid, tier); violations = []; incon = []; known_hit = []
    known = json.load(open(os.path.join(HERE, "known_findings.json"))) if os.path.exists(os.path.join(HERE, "known_findings.json")) else []
    known = [k for k in known if k["property"] == pid and k.get("status") == "known"]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage={}, assumptions=c.meta.get("assume", []), wall_s=0, violations=0)
    rc = 0; notes = []; summ = []; validated = mism = 0; samples = []
    try:
        prune()
        with cf.ThreadPoolExecutor(NCPU) as ex, cf.ThreadPoolExecutor(NCPU) as ex2:
            generate(c); objkey(sources()[0]); eng = ex.submit(build_engine)
            objs = compile_ir(c, ex); nj = native_jobs(c, ex2); link_ir(c, objs); eng.result()
            r = sh([BUILD + "/symx", "--list", c.hbc]); need(r, "listing"); entries = r.stdout.split()
            if only: entries = [e for e in entries if fnmatch.fnmatch(e, only)]
            if not entries: raise NoVerdict("no entries")
            budget = float(c.meta.get("budget", ["500"])[0]) if tier == "quick" else float(c.meta.get("budget_thorough", ["3000"])[0])
            procs = max(1, NCPU // len(entries)) if len(entries) < NCPU else 1
            procs = max(procs, int(c.meta.get("procs", ["2"])[0]))
            futs = {e: ex.submit(run_entry, c, e, procs, budget) for e in entries}
            results = {e: f.result() for e, f in futs.items()}
            native_link(c, nj)
            t_sym = time.time() - t0
            # replay violations on the real library
            cand = []; 
            for e in entries:
                per = {}
                for l in results[e]:
                    if l["type"] == "violation":
                        n = per.get(l["label"], 0); per[l["label"]] = n + 1
                        if n < 3: cand.append((e, l))
                    elif l["type"] == "inconclusive": incon.append(l)
                    elif l["type"] == "summary": summ.append(l)
            confirmed = lambda n: bool(n["fails"]) or n["rc"] in (99, 124) or (n["rc"] not in (0, 77, 3))
            def rep(x):
                e, l = x; n = run_native(c, e, l.get("model", {}), 20 if l["kind"] == "nontermination" else 60)
                if not confirmed(n):
                    n2 = run_native(c, e, l.get("model", {}), 60, dirty=True)
                    if confirmed(n2): n = n2
                return x, n
            seen = {}
            for (e, l), n in ex.map(rep, cand):
                ok = confirmed(n)
                l["native"] = dict(rc=n["rc"], fails=n["fails"][:5], ub=n["ub"][:3]); key = (e, l["label"])
                if ok: seen.setdefault(key, l)
                else: seen.setdefault(("?",) + key, l)
            for key, l in sorted(seen.items(), key=str):
                if key[0] == "?":
                    if key[1:] not in seen: incon.append(dict(type="inconclusive", entry=key[1], reason="counterexample not reproduced natively: %s (%s) native=%s" % (l["label"], l["detail"], l["native"]), model=l["model"], where=l["where"]))
                    continue
                k = next((k for k in known if k["entry"] == key[0] and fnmatch.fnmatch(key[1], k["label"].replace("[", "[[]"))), None)
                if k: known_hit.append(k); continue
                violations.append((key, l))
            # validate sampled paths against the implementation
            sp = []
            for e in entries: sp += [(e, l) for l in results[e] if l["type"] == "sample"][: (4 if tier == "quick" else 20)]
            def val(x): return x, run_native(c, x[0], x[1]["model"])
            for (e, l), n in ex.map(val, sp):
                bad = [k for k, v in l["obs"].items() if k in n["obs"] and not close(v, n["obs"][k])] + [k for k in l["obs"] if k not in n["obs"]]
                if n["rc"] == 0 and not n["fails"] and not bad and n["reach"] == l["reach"]: validated += 1
                elif n["rc"] == 77: pass      # rounding of a model value broke an assumption: nothing to compare
                elif n["rc"] in (0, 1) and all(f.startswith("eq ") for f in n["fails"]):
                    mism += 1; notes.append("NOTE %s: sampled path differs natively (rounding?): obs=%s fails=%s reach=%s/%s" % (e, {k: (l["obs"][k], n["obs"].get(k)) for k in bad[:4]}, n["fails"][:2], l["reach"], n["reach"]))
                else: incon.append(dict(type="inconclusive", entry=e, reason="native replay of a path failed: rc=%s %s %s model=%s" % (n["rc"], n["fails"][:2], n["log"][-500:], l["model"])))
            samples = [dict(entry=e, input=l["model"], observed=l["obs"], reached=l["reach"]) for e, l in sp[:6]]
            # vacuity: every entry must have reached its end on a path the solver says is feasible
            for s in summ:
                if s["violations"] == 0 and s["inconclusive"] == 0 and s["goals"] == 0 and s["fatal_expected"] == 0: incon.append(dict(type="inconclusive", entry=s["entry"], reason="no assertion reached (vacuous)"))
        S = lambda k: sum(s[k] for s in summ)
        fns = sorted(set(f for s in summ for f in s["functions"]))
        ev["coverage"] = dict(states=S("paths"), transitions=S("instructions"), traces_validated_against_impl=validated, samples=samples,
            entries=[dict(entry=s["entry"], paths=s["paths"], goals=s["goals"], goals_decided_concretely=s["goals_concrete"], goals_by_solver=s["goals_solver"], goals_identical_terms=s["goals_syntactic"], queries=s["queries"], wall=round(s["wall"], 2), feasible_witness=s["witness"] > 0) for s in summ],
            paths=S("paths"), paths_outside_assumptions=S("assume_killed"), paths_ending_in_expected_fatal=S("fatal_expected"), goals=S("goals"), queries=S("queries"), sat=S("sat"), unsat=S("unsat"), unknown=S("unknown"), solver_seconds=round(S("solver_us") / 1e6, 3), raw_cross_checks=S("raw_crosschecks"), raw_cross_checks_agreeing=S("raw_agree"), divisions_assumed_nonzero=S("divisions_assumed_nonzero"), functions_encoded=fns, n_functions_encoded=len(fns), bounds=c.meta.get("bounds", []), outside=c.meta.get("outside", []), solver="z3 (lib) over IR of clang-18 -O1", sample_mismatches=mism, inconclusive=len(incon), known_findings=[k["what"] for k in known_hit],
            note="states = symbolic paths, transitions = IR instructions interpreted, summed over entries")
    except NoVerdict as x:
        incon.append(dict(type="inconclusive", entry="-", reason=str(x))); ev["coverage"] = ev["coverage"] or dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], error=str(x)[:2000])
    ev["wall_s"] = round(time.time() - t0, 2); ev["violations"] = len(violations)
    os.makedirs(EV, exist_ok=True); rd = os.path.join(EV, "replay"); os.makedirs(rd, exist_ok=True)
    for k in {k["what"]: k for k in known_hit}.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for i, (key, l) in enumerate(violations):
        p = os.path.join(rd, "%s_%d.json" % (pid, i)); json.dump(dict(property=pid, entry=key[0], label=key[1], kind=l["kind"], detail=l["detail"], where=l["where"], model=l["model"], native=l["native"], tier=tier), open(p, "w"), indent=1)
        if i < 5: print("VIOLATION property=%s replay=%s" % (pid, p)); print("  %s %s: %s %s" % (key[0], l["kind"], key[1], l["native"]["fails"][:2]))
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for l in notes[:6]: print(l[:400])
    for l in incon[:12]: print("INCONCLUSIVE %s: %s [%s] %s" % (l.get("entry"), l.get("reason"), l.get("where", ""), str(l.get("model", ""))[:600]))
    cov = ev["coverage"]
    print("%s %s: paths=%s goals=%s queries=%s solver=%.1fs validated=%s wall=%.1fs -> %s" % (pid, tier, cov.get("paths"), cov.get("goals"), cov.get("queries"), cov.get("solver_seconds", 0) or 0, validated, ev["wall_s"], "VIOLATED" if violations else "no verdict" if incon else "holds within bounds"))
    if os.environ.get("VERBOSE"):
        for s in summ: print("   %-34s paths=%d killed=%d goals=%d (conc %d solv %d syn %d) q=%d unk=%d solver=%.1fs wall=%.1fs instr=%d wit=%d warm=%d" % (s["entry"], s["paths"], s["assume_killed"], s["goals"], s["goals_concrete"], s["goals_solver"], s["goals_syntactic"], s["queries"], s["unknown"], s["solver_us"] / 1e6, s["wall"], s["instructions"], s["witness"], s["warm"]))
    if keep: print("kept", c.dir)
    else: shutil.rmtree(c.dir, ignore_errors=True)
    return 1 if violations else 2 if incon else 0
def replay(path):
    j = json.load(open(path)); c = prepare(j["property"], j.get("tier", "quick"))
    generate(c)
    with cf.ThreadPoolExecutor(NCPU) as ex: native_link(c, native_jobs(c, ex))
    n = run_native(c, j["entry"], j["model"]); print(n["out"]); print(n["log"]); shutil.rmtree(c.dir, ignore_errors=True)
    return 1 if n["fails"] or n["rc"] not in (0, 77) else 0
if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay": sys.exit(replay(a[1]))
    only = a[a.index("--only") + 1] if "--only" in a else None
    tier = "thorough" if "--thorough" in a else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(a[0], tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1") or 1), only, "--keep" in a))
