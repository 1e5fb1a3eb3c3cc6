#!/usr/bin/env python3
"""check.py ID [--thorough] | check.py --replay FILE
Compiles /repo's current sources and the harnesses of one property to LLVM IR, runs the symbolic executor on every
entry, replays counterexamples (and sample paths) natively, writes evidence/ID.json.
exit 0: held on everything explored; 1: violation (confirmed on machine code); 2: no answer."""
import json, os, re, subprocess, sys, time, shutil, concurrent.futures as cf, resource
R = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("RF_REPO", "/repo")
sys.path.insert(0, R + "/tools")
CXX = "/usr/bin/clang++-16"
COMMON = ["-std=c++2a", "-fcoroutines-ts", "-stdlib=libstdc++", "-fPIC", "-pthread", "-DLIBRF_DYNAMIC_EXPORTS=1", "-Wno-everything",
          "-I" + REPO + "/include", "-I" + REPO, "-I" + R + "/engine"]
BC = COMMON + ["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-g1", "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c"]
RFSYM = R + "/build/rfsym"
JOBS = int(os.environ.get("RF_JOBS", "8"))
pool = cf.ThreadPoolExecutor(JOBS)

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
def run(cmd, timeout=600, lim=False):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=limit if lim else None, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")

class NoAnswer(Exception): pass

def sources(): return sorted(REPO + "/source/" + f for f in os.listdir(REPO + "/source") if f.endswith(".cpp"))

def must(cmd, what):
    rc, out = run(cmd)
    if rc != 0: raise NoAnswer(what + " failed (%d)\n" % rc + (out if len(out) < 1600 else out[:800] + "\n...\n" + out[-600:]))

# a harness name may end in @variant: the same harness and library compiled with the library's configuration macros set otherwise
VARIANTS = {"": [], "st": ["-DRESUMEF_DISABLE_MULT_THREAD=1"], "nd": ["-DNDEBUG"], "ks": ["-DRF_KS", "-D_WITH_LOCK_FREE_Q_KEEP_REAL_SIZE=1"]}
def var_of(h): return h.split("@") if "@" in h else (h, "")

class Build:
    def __init__(self, wd): self.wd = wd; self.nat = {}; self.lock = __import__("threading").Lock()
    def bitcode(self, harnesses):
        w = self.wd; jobs = []; lib = {}
        for h in harnesses:
            f, v = var_of(h); jobs.append(pool.submit(must, [CXX] + BC + VARIANTS[v] + [R + "/harness/" + f + ".cpp", "-o", w + "/h_" + h + ".bc"], "compiling harness " + h)); lib.setdefault(v, [])
        for v in lib:
            for s in sources():
                o = w + "/l_" + v + os.path.basename(s)[:-4] + ".bc"; lib[v].append(o)
                jobs.append(pool.submit(must, [CXX] + BC + VARIANTS[v] + [s, "-o", o], "compiling " + s))
        for j in jobs: j.result()
        jobs = [pool.submit(must, [RFSYM, "prep", w + "/p_" + h + ".bc", w + "/h_" + h + ".bc", R + "/build/support.bc"] + lib[var_of(h)[1]], "prep " + h) for h in harnesses]
        for j in jobs: j.result()
    def native(self, h, threaded, san="asan"):
        """machine code of the same sources: ASan build for sequential harnesses, scheduled build for threaded ones"""
        key = (h, threaded, san)
        with self.lock:
            if key in self.nat: return self.nat[key]
            w = self.wd; out = w + "/n_%s_%d_%s" % (h, threaded, san); f, v = var_of(h)
            if not threaded:
                fl = ["-g1", "-O0", "-fsanitize=address", "-fno-omit-frame-pointer"] + VARIANTS[v]
                todo = [(s, w + "/nl_" + v + os.path.basename(s)[:-4] + ".o") for s in sources()] + [(R + "/engine/native.cpp", w + "/nn_native.o")]
                todo = [t for t in todo if not os.path.exists(t[1])] + [(R + "/harness/" + f + ".cpp", w + "/n_" + h + ".o")]
                js = [subprocess.Popen([CXX] + COMMON + fl + ["-c", s, "-o", o]) for s, o in todo]
                if any([j.wait() for j in js]): raise NoAnswer("native compile of " + h)
                must([CXX, "-stdlib=libstdc++", "-pthread", "-fsanitize=address", "-rdynamic", w + "/n_" + h + ".o", w + "/nn_native.o"] + [w + "/nl_" + v + os.path.basename(s)[:-4] + ".o" for s in sources()] + ["-ldl", "-o", out], "native link")
            self.nat[key] = out; return out
    def native_threaded(self, h, sites, tag, san="asan"):
        w = self.wd; out = w + "/t_%s_%s_%s" % (h, tag, san); no = w + "/t_native_%s.o" % san; fs = "-fsanitize=" + {"asan": "address", "tsan": "thread"}[san]
        with self.lock:
            if not os.path.exists(no): must([CXX] + COMMON + ["-g1", "-O0"] + (["-DRF_TSAN"] if san == "tsan" else []) + ["-c", R + "/engine/native.cpp", "-o", no], "native.cpp")
        sf = out + ".sites"; open(sf, "w").write("\n".join(map(str, sites)) + "\n")
        must([RFSYM, "instr", w + "/p_" + h + ".bc", out + ".bc", "--sites", sf, "--san", san], "instr")
        must([CXX, "-stdlib=libstdc++", "-pthread", fs, "-fPIC", "-rdynamic", "-Wno-everything", "-O0", "-c", out + ".bc", "-o", out + ".o"], "codegen")
        must([CXX, "-stdlib=libstdc++", "-pthread", fs, "-rdynamic", out + ".o", no, "-ldl", "-o", out], "native link")
        return out

def write_replay(path, e, tr, header=""):
    with open(path, "w") as f:
        for l in header.splitlines(): f.write("# " + l + "\n")
        f.write("# harness %s threaded %d san %s sites %s\n" % (e["h"], e["threaded"], "tsan" if tr.get("kind") == "race" else "asan", json.dumps(tr.get("site_list", []))))
        f.write("entry " + e["e"] + "\n")
        for k, v in e.get("params", {}).items(): f.write("param %s %d\n" % (k, v))
        for i in tr.get("inputs", []): f.write("sym %s %s\n" % (i[0], i[1]))
        for s in tr.get("sched", []): f.write("sched %d %d %d\n" % tuple(s))

FAILS = {42: "check failed", 44: "terminate", 45: "hang", 47: "leak", 48: "bad free", 49: "sanitizer report", 66: "race report"}
def native_run(exe, rp):
    rc, out = run(["/usr/bin/setarch", "-R", exe, rp], timeout=60)
    if rc == 124: return 45, out
    return rc, out
def verdict(rc): return FAILS.get(rc) or ("signal %d" % -rc if rc < 0 else ("abort" if rc == 134 else None))

def key_of(e): return e["e"] + (var_of(e["h"])[1] and "_" + var_of(e["h"])[1]) + "".join("_%s%s" % kv for kv in sorted(e.get("params", {}).items())) + ("_P%d" % e["preempt"] if "preempt" in e else "") + ("_race" if e.get("race") else "")

FAST = os.environ.get("RF_FAST"); stopnow = []
def explore(wd, e, tier, seed):
    if stopnow: return dict(entry=e, rc=0, log="skipped", r=None, t=0, bounds={}, skipped=1)
    o = dict(e); o.update(e.get(tier, {}))
    out = wd + "/r_" + key_of(e) + ".json"
    mt = o.get("time", 90 if tier == "quick" else 3000)
    cmd = [RFSYM, "run", wd + "/p_" + e["h"] + ".bc", "--entry", e["e"], "--out", out, "--max-time", str(mt), "--samples", str(o.get("samples", 2)), "--seed", str(seed)]
    if "preempt" in o: cmd += ["--preempt", str(o["preempt"])]
    if "fair" in o: cmd += ["--fair", str(o["fair"])]
    if o.get("race"): cmd += ["--race"]
    if o.get("nodedup"): cmd += ["--no-dedup"]
    if o.get("nospin"): cmd += ["--no-spin"]
    if tier == "thorough": cmd += ["--max-paths", "20000000"]
    if "max_ins" in o: cmd += ["--max-ins", str(o["max_ins"])]
    for k, v in o.get("params", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
    t = time.time(); rc, log = run(cmd, timeout=mt + 120, lim=True)
    r = None
    if os.path.exists(out):
        try: r = json.load(open(out))
        except Exception as x: log += "\nbad json " + str(x)
    if FAST and r and r["violations"]: stopnow.append(1) # mutation runs end at the first violation
    return dict(entry=e, rc=rc, log=log, r=r, t=time.time() - t, bounds={k: o[k] for k in ("preempt", "params", "race") if k in o})

def findings():
    p = R + "/known_findings.jsonl"
    return [json.loads(l) for l in open(p) if l.strip()] if os.path.exists(p) else []

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return replay(a[1])
    pid = a[0]; tier = "thorough" if "--thorough" in a else "quick"; only = [x[7:] for x in a if x.startswith("--only=")]
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time(); keep = "--keep" in a
    from checks import CHECKS
    spec = CHECKS[pid]
    subprocess.check_call(["bash", R + "/setup.sh"])
    wd = R + "/work/%s-%d" % (pid, os.getpid()); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd); os.makedirs(R + "/evidence", exist_ok=True)
    try: rc = check(pid, tier, seed, spec, wd, t0, only)
    except NoAnswer as x: print("NO-ANSWER property=%s %s" % (pid, x)); rc = 2
    finally:
        if not keep: shutil.rmtree(wd, ignore_errors=True)
    return rc

def check(pid, tier, seed, spec, wd, t0, only):
    ents = []
    for e in spec["entries"]:
        if tier == "quick" and e.get("thorough_only"): continue
        if only and e["e"] not in only: continue
        ps = [{}]
        grid = dict(e.get("grid", {})); 
        if tier == "thorough": grid.update(e.get("grid_thorough", {}))
        for k, vs in grid.items(): ps = [dict(p, **{k: v}) for p in ps for v in vs]
        for p in ps:
            x = dict(e); x["params"] = dict(e.get("params", {}), **(e.get("params_thorough", {}) if tier == "thorough" else {}), **p); x.setdefault("threaded", False); ents.append(x)
    b = Build(wd); b.bitcode(sorted({e["h"] for e in ents})); tb = time.time() - t0
    futs = [pool.submit(explore, wd, e, tier, seed) for e in ents]
    # native build of sequential harnesses goes on meanwhile
    seqh = sorted({e["h"] for e in ents if not e["threaded"]})
    nats = {h: None for h in seqh}
    natf = cf.ThreadPoolExecutor(1).submit(lambda: [b.native(h, False) for h in seqh])
    res = [f.result() for f in futs]; natf.result()
    linecov = {}
    def cov(r):
        for f, l in r.get("lines", {}).items():
            m = re.search(r"(include/librf/.*|source/[^/]*|asio/asio_task[^/]*)$", f)
            if m: linecov.setdefault(m.group(1), set()).update(l)
    tot = dict(paths=0, pruned=0, instructions=0, forks=0, sched_forks=0, queries=0); solver = 0.0; fns = set(); lines = 0
    problems = []; viols = []; incomplete = []; races = set(); unconf = []
    for x in res:
        r = x["r"]; k = key_of(x["entry"])
        if x.get("skipped"): continue
        if r is None or x["rc"] not in (0, 1, 2): problems.append("%s: engine exit %s: %s" % (k, x["rc"], x["log"][-600:])); continue
        for t in tot: tot[t] += r.get(t, 0)
        solver += r.get("solver_s", 0); cov(r); fns |= set(r.get("functions", []) if isinstance(r.get("functions"), list) else []); races |= set(map(str, r.get("races", [])))
        if r["status"] == "incomplete": incomplete.append(k + ": " + r.get("incomplete", "budget"))
        if r.get("unreached") and not r["violations"] and r["status"] == "ok": problems.append("%s: vacuous, never reached: %s" % (k, r["unreached"]))
    # replay
    validated = 0; mism = []; nsamp = 0; samples = []; tn = {}
    def exe_for(x, san="asan"):
        e = x["entry"]
        if not e["threaded"]: return b.native(e["h"], False)
        k = (key_of(e), san)
        if k not in tn: tn[k] = b.native_threaded(e["h"], x["r"].get("site_list", []), k[0], san)
        return tn[k]
    kf = [f for f in findings() if f.get("status") == "known" and f["property"] == pid]
    known_hit = {}
    def one(x):
        r = x["r"]; e = x["entry"]; k = key_of(e); out = []
        if r is None: return out
        if e["threaded"] and not r["violations"] and (not r.get("samples") or e.get("noreplay")): return out
        try: exe = exe_for(x)
        except NoAnswer as ex: return [("build", None, None, 2, str(ex))]
        for i, v in enumerate(r["violations"]):
            if v["kind"] == "race": exe = exe_for(x, "tsan") # a race shows natively only to a race detector
            v["site_list"] = r.get("site_list", []); rp = "%s/v_%s_%d.txt" % (wd, k, i)
            write_replay(rp, e, v, "%s: %s\n%s at %s\nreproduce: python3 check.py --replay THIS_FILE" % (pid, v["kind"], v["msg"], v["where"])); rc, o = native_run(exe, rp); out.append(("v", v, rp, rc, o))
        for i, s in enumerate(r.get("samples", [])[: (2 if e["threaded"] else 4)]):
            s["site_list"] = r.get("site_list", []); rp = "%s/s_%s_%d.txt" % (wd, k, i); write_replay(rp, e, s); rc, o = native_run(exe, rp); out.append(("s", s, rp, rc, o))
        return out
    for x, rs in zip(res, list(pool.map(one, res))):
        e = x["entry"]; k = key_of(e)
        for kind, tr, rp, rc, o in rs:
            if kind == "build": problems.append(o); continue
            if kind == "v":
                vd = verdict(rc) or ("engine only: native tools do not see overruns of thread-local buffers" if e.get("tls") and tr["kind"] == "memory" else None); tr["native"] = vd or "exit %d" % rc
                f = next((f for f in kf if re.fullmatch(f["entry"], e["e"]) and re.search(f["match"], tr["kind"] + ": " + tr["msg"] + " @ " + tr["where"])), None)
                if f: known_hit[f["id"]] = f; continue
                if vd is None:
                    unconf.append("%s: %s: %s at %s (native %s)" % (k, tr["kind"], tr["msg"], tr["where"], tr["native"])); shutil.copy(rp, R + "/evidence/unconfirmed-%s-%d.txt" % (pid, len(unconf))); continue
                dst = R + "/evidence/replay-%s-%d.txt" % (pid, len(viols)); shutil.copy(rp, dst); viols.append((dst, k, tr, vd, o))
            else:
                nsamp += 1; logs = [int(l.split()[1]) for l in o.splitlines() if l.startswith("RF-LOG")]
                if rc == 0 and logs == [int(v) for v in tr.get("log", [])]:
                    validated += 1
                    if len(samples) < 6: samples.append(dict(entry=k, inputs=[list(i) for i in tr["inputs"]], log=tr.get("log", [])[:24], switches=len(tr.get("sched", []))))
                else: mism.append("%s: native exit %d log %s vs %s" % (k, rc, logs[:12], tr.get("log", [])[:12]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", wall_s=round(time.time() - t0, 2), coverage=dict(
        states=tot["paths"] + tot["pruned"], transitions=tot["forks"] + tot["sched_forks"] + tot["paths"], traces_validated_against_impl=validated,
        samples=samples or [dict(note="no sample")], symbolic_paths=tot["paths"], pruned_by_state_hash=tot["pruned"], ir_instructions=tot["instructions"], branch_forks=tot["forks"], schedule_forks=tot["sched_forks"],
        solver_queries=tot["queries"], solver_s=round(solver, 3), functions_encoded=sorted(f for f in fns if "librf" in f or "rf_" not in f)[:400], functions_encoded_count=len(fns), source_lines_executed={f: len(l) for f, l in sorted(linecov.items())},
        bounds=[dict(entry=key_of(x["entry"]), what=x["entry"].get("what", ""), status=x["r"]["status"] if x["r"] else "error", paths=x["r"]["paths"] if x["r"] else 0, wall_s=round(x["t"], 2), **x["bounds"]) for x in res],
        outside_bounds=spec.get("outside", ""), assumptions=spec.get("assume", ""), sample_replays=nsamp, sample_mismatches=mism[:10], incomplete=incomplete, unconfirmed=unconf, races_reported_benign=sorted(races)[:40], build_s=round(tb, 2)))
    if viols: ev["violations"] = [dict(replay=d, entry=k, kind=tr["kind"], msg=tr["msg"], where=tr["where"], stack=tr.get("stack", [])[:12], inputs=[list(i) for i in tr["inputs"]], native=vd) for d, k, tr, vd, o in viols[:20]]
    if known_hit: ev["known_findings"] = sorted(known_hit)
    json.dump(ev, open(R + "/evidence/%s.json" % pid, "w"), indent=1)
    for x in res:
        r = x["r"]
        print("  %-34s %-10s paths %-6d pruned %-6d q %-6d %.1fs" % (key_of(x["entry"])[:60], r["status"] if r else "ERROR", r["paths"] if r else 0, r.get("pruned", 0) if r else 0, r["queries"] if r else 0, x["t"]))
    if os.environ.get("RF_COV"): json.dump({f: sorted(l) for f, l in linecov.items()}, open(os.environ["RF_COV"], "w"))
    print("%s: paths %d, solver queries %d (%.2fs), functions %d, validated %d/%d, build %.1fs, total %.1fs" % (pid, tot["paths"], tot["queries"], solver, len(fns), validated, nsamp, tb, time.time() - t0))
    for m in mism: print("MODEL-MISMATCH " + m)
    for m in incomplete: print("INCOMPLETE " + m)
    for m in unconf: print("UNCONFIRMED " + m)
    for f in known_hit.values(): print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    if viols:
        for d, k, tr, vd, o in viols[:10]:
            print("  %s: %s: %s at %s [native: %s]" % (k, tr["kind"], tr["msg"], tr["where"], vd))
            print("VIOLATION property=%s replay=%s" % (pid, d))
        return 1
    for p in problems: print("NO-ANSWER property=%s %s" % (pid, p))
    return 2 if problems or unconf else 0

def replay(path):
    """re-runs one counterexample on machine code built from the current tree"""
    txt = open(path).read(); m = re.search(r"# harness (\S+) threaded (\d) san (\S+) sites (.*)", txt); h, th, san, sites = m.group(1), m.group(2) == "1", m.group(3), json.loads(m.group(4))
    subprocess.check_call(["bash", R + "/setup.sh"]); wd = R + "/work/replay-%d" % os.getpid(); os.makedirs(wd)
    try:
        b = Build(wd)
        if th: b.bitcode([h]); exe = b.native_threaded(h, sites, "r", san)
        else: exe = b.native(h, False)
        rc, o = native_run(exe, path); print(o); print("exit", rc, verdict(rc)); return 1 if verdict(rc) else 0
    finally: shutil.rmtree(wd, ignore_errors=True)
if __name__ == "__main__": sys.exit(main())
