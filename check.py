#!/usr/bin/env python3
"""Runs one property's check: compiles the harnesses of the property against /repo's working tree to LLVM bitcode,
executes them symbolically (gmsym + Z3), replays every counterexample on a native build, and writes evidence."""
import sys, os, json, time, subprocess, shutil, hashlib, re, threading, fcntl
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OPENGM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
import jobs as J

SYMFLAGS = ("-std=gnu++17 -O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -fno-strict-aliasing "
            "-fno-threadsafe-statics -gline-tables-only -D_GLIBCXX_EXTERN_TEMPLATE=0 -DNDEBUG -emit-llvm -w").split()
NATFLAGS = "-std=gnu++17 -O1 -DNDEBUG -DSYM_NATIVE -w -ffp-contract=off".split()

def sh(cmd, timeout=None, env=None, mem=None):
    pre = None
    if mem:
        import resource
        def pre(): resource.setrlimit(resource.RLIMIT_AS, (mem << 20, mem << 20))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, preexec_fn=pre)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")

def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(HERE, "engine")
    h = hashlib.sha1()
    for f in ["gmsym.cpp", "expr.hpp", "solver.hpp", "interp.inc", "main.inc", "rt/rt.cpp", "shim/gm_ios.h", "build.sh"]:
        h.update(open(os.path.join(eng, f), "rb").read())
    stamp = os.path.join(BUILD, "engine.stamp")
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(os.path.join(BUILD, "gmsym")) and os.path.exists(os.path.join(BUILD, "rt.bc")):
            return
        p = subprocess.Popen(["clang++-18"] + SYMFLAGS + ["-isystem", eng + "/shim", "-I" + eng + "/include", "-c", eng + "/rt/rt.cpp", "-o", BUILD + "/rt.bc"])
        q = subprocess.Popen(["clang++-18", "-O1", "-w", "-std=gnu++17", "-DSYM_NATIVE", "-c", eng + "/rt/native.cpp", "-o", BUILD + "/native.o"])
        r = subprocess.run([eng + "/build.sh", BUILD], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.wait() or q.wait() or r.returncode:
            print("ENGINE BUILD FAILED\n" + r.stdout.decode()[-3000:]); sys.exit(2)
        open(stamp, "w").write(h.hexdigest())

def incs(src):
    return ["-I" + HERE + "/engine/include", "-I" + HERE + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/src/unittest"]

def src_meta(src):
    """first lines of a harness may say //FLAGS-SYM: ... //FLAGS-NAT: ... //LINK-NAT: ..."""
    m = {"SYM": [], "NAT": [], "LINK": []}
    for l in open(os.path.join(HERE, "harness", src)).read().splitlines()[:10]:
        for k, t in (("SYM", "//FLAGS-SYM:"), ("NAT", "//FLAGS-NAT:"), ("LINK", "//LINK-NAT:")):
            if l.startswith(t): m[k] += l[len(t):].replace("@HERE@", HERE).replace("@REPO@", REPO).split()
    return m

def errlines(err):
    l = [x for x in err.split("\n") if "error:" in x or "undefined reference" in x]
    return "\n".join(x[:400] for x in (l or err.split("\n")[-5:])[:6])

class Builder:
    def __init__(self, wd): self.wd = wd; self.lock = threading.Lock(); self.locks = {}; self.res = {}
    def get(self, key, fn):
        with self.lock: l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.res: self.res[key] = fn()
            return self.res[key]
    def bc(self, src):
        def f():
            o = os.path.join(self.wd, src.replace(".cpp", ".bc")); m = src_meta(src)
            rc, _, err = sh(["clang++-18"] + SYMFLAGS + m["SYM"] + ["-isystem", HERE + "/engine/shim"] + incs(src) + ["-c", os.path.join(HERE, "harness", src), "-o", o], timeout=300)
            return (o, None) if rc == 0 else (None, errlines(err))
        return self.get(("bc", src), f)
    def nat(self, src, kind="plain"):
        def f():
            o = os.path.join(self.wd, src.replace(".cpp", "." + kind)); m = src_meta(src)
            fl = {"plain": [], "asan": ["-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], "vg": ["-g1", "-gdwarf-4", "-O0"]}[kind]
            cmd = ["clang++-18"] + NATFLAGS + fl + m["NAT"] + incs(src) + [os.path.join(HERE, "harness", src), HERE + "/build/native.o", "-o", o] + m["LINK"]
            rc, _, err = sh(cmd, timeout=400)
            return (o, None) if rc == 0 else (None, errlines(err))
        return self.get((kind, src), f)

def pargs(params): return ["%s=%d" % kv for kv in sorted(params.items())]

def confirm(B, job, fd):
    """replays a solver counterexample on the natively compiled real code"""
    kind, msg, fn = fd["kind"], fd["msg"], fd["file"]
    def run(exe, pre=[], to=60, env=None): return sh(pre + [exe, job["entry"], fn, "-"] + pargs(job["params"]), timeout=to, env=env)
    exe, err = B.nat(job["src"])
    if not exe: return False, "native build failed: " + err[-300:]
    rc, _, er = run(exe)
    if kind == "assert":
        if rc == 3: return True, "native run fails: " + er.strip()[-300:]
        return False, "native rc=%s %s" % (rc, er.strip()[-200:])
    if kind == "nontermination":
        return (rc == -999), "native run rc=%s after 60 s limit" % rc
    if kind in ("exception", "abort", "arith", "stack"):
        if rc in (6, 134, 136, 139) or (rc < 0 and rc != -999): return True, "native run ends with %s: %s" % (rc, er.strip()[-300:])
        if kind != "arith": return False, "native rc=%s" % rc
    if kind == "memory" or kind == "arith":
        if rc < 0 and rc != -999: return True, "native run dies with signal %d" % -rc
        exe, err = B.nat(job["src"], "asan")
        if not exe: return False, "asan build failed"
        env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=99:alloc_dealloc_mismatch=0"
        rc, _, er = run(exe, env=env, to=120)
        m = re.search(r"ERROR: AddressSanitizer: (\S+).*?(#\d[^\n]*opengm[^\n]*)", er, re.S)
        if rc == 99 or "AddressSanitizer" in er: return True, "AddressSanitizer: " + (m.group(1) + " " + m.group(2) if m else er[:200])
    if kind in ("memory", "uninit"):
        exe, err = B.nat(job["src"], "vg")
        if not exe: return False, "valgrind build failed"
        rc, _, er = run(exe, pre=["valgrind", "-q", "--error-exitcode=77"], to=300)
        if "uninitialised" in er or "Invalid read" in er or "Invalid write" in er: return True, "valgrind: " + er.strip()[:300]
        return False, "valgrind clean rc=%s" % rc
    return False, "native rc=%s" % rc

def main():
    if sys.argv[1] == "--setup": ensure_engine(); return
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = os.environ.get("VERIF_ONLY")  # debugging: restrict to entries containing this text
    t0 = time.time(); ensure_engine()
    spec = J.PROPS[prop]; jl = J.jobs_for(prop, tier)
    if only: jl = [j for j in jl if only in j["entry"]]
    wd = os.path.join(BUILD, "run_" + prop); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    B = Builder(wd); deadline = t0 + spec.get("deadline", {}).get(tier, 420 if tier == "quick" else 3000)
    results = []; errors = []; rawfinds = []
    def runjob(i, job):
        threading.Thread(target=B.nat, args=(job["src"],), daemon=True).start()  # native build in parallel with the symbolic one
        bc, err = B.bc(job["src"])
        if not bc: return i, None, "harness %s does not compile against this tree: %s" % (job["src"], err)
        jd = os.path.join(wd, "j%03d" % i); os.makedirs(jd)
        tl = min(job["time"], max(5, deadline - time.time()))
        cmd = [BUILD + "/gmsym", "--entry", job["entry"], "--time", str(tl), "--out", jd + "/out.json", "--cex", jd, "--wit", jd, "--maxwit", str(job.get("wit", 4)), "--maxfind", "3", "--seed", str(seed), "--insts", str(job.get("insts", 60000000))] + job.get("opts", [])
        for p in pargs(job["params"]): cmd += ["--param", p]
        rc, so, se = sh(cmd + [bc, BUILD + "/rt.bc"], timeout=tl + 120, mem=job.get("mem", 6000))
        if rc not in (0, 1) or not os.path.exists(jd + "/out.json"): return i, None, "gmsym rc=%s on %s %s: %s" % (rc, job["entry"], job["params"], se[-500:])
        try: o = json.load(open(jd + "/out.json"))
        except Exception as e: return i, None, "bad output of %s: %s" % (job["entry"], e)
        # witnesses: compare the symbolic run's prediction with the native run
        o["wit_ok"] = 0; o["wit_bad"] = []
        if o["witnesses"]:
            exe, err = B.nat(job["src"])
            if exe:
                for w in o["witnesses"]:
                    rc, _, er = sh([exe, job["entry"], w, w + ".obs"] + pargs(job["params"]), timeout=60)
                    exp = open(w + ".exp").read().split("\n"); got = open(w + ".obs").read().split("\n") if os.path.exists(w + ".obs") else []
                    ok = rc == 0 and len(exp) == len(got)
                    if ok:
                        for a, b in zip(exp, got):
                            if a == b: continue
                            try:
                                x, y = float(a[2:]), float(b[2:])
                                if a[0] == "d" == b[0] and (abs(x - y) <= 1e-6 * max(1, abs(x), abs(y)) or (x != x and y != y)): continue
                            except ValueError: pass
                            ok = False
                    if ok: o["wit_ok"] += 1
                    else: o["wit_bad"].append("%s rc=%s %s" % (os.path.relpath(w, wd), rc, er.strip()[-150:]))
            else: o["wit_bad"].append("native build failed: " + err[-300:])
        return i, o, None
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for f in as_completed([ex.submit(runjob, i, j) for i, j in enumerate(jl)]):
            i, o, err = f.result()
            if err:
                if err not in errors: errors.append(err)
            else:
                results.append((i, o))
                for fd in o["findings"]: rawfinds.append((jl[i], fd))
                if os.environ.get("VERIF_VERBOSE"):
                    j = jl[i]; print("  %-28s %-28s complete=%s paths=%d disc=%d inc=%d err=%d pend=%d asserts=%d q=%d %.1fs wit=%d/%d %s" % (j["entry"], " ".join(pargs(j["params"])), o["complete"], o["paths"], o["paths_discarded"], o["paths_incomplete"], o["paths_error"], o["pending"], o["asserts"], o["queries"], o["wall_s"], o["wit_ok"], len(o["witnesses"]), (o["wit_bad"] or "")), o["incomplete_reasons"] or "", flush=True)
    results.sort()
    # ---- counterexamples ----
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    viol = []; unconf = []; knownhit = {}
    seen = {}
    for job, fd in sorted(rawfinds, key=lambda x: (x[0]["entry"], str(x[0]["params"]), x[1]["msg"])):
        key = (job["entry"], fd["kind"], fd["msg"])
        if seen.get(key) == "confirmed" or list(seen.values()).count("confirmed") >= 5: continue
        ok, how = confirm(B, job, fd)
        rec = {"entry": job["entry"], "src": job["src"], "params": job["params"], "kind": fd["kind"], "msg": fd["msg"], "loc": fd["loc"], "inputs": fd["inputs"], "native": how, "file": fd["file"]}
        if not ok: unconf.append(rec); continue
        k = None
        for kf in known:
            if kf.get("status") != "known" or kf["property"] != prop: continue
            if kf["entry"] == job["entry"] and kf["kind"] == fd["kind"] and re.search(kf["match"], fd["msg"] + " @ " + fd["loc"]): k = kf; break
        if k: knownhit[k["id"]] = k
        else: viol.append(rec); seen[key] = "confirmed"
    rd = os.path.join(BUILD, "replays", prop); shutil.rmtree(rd, ignore_errors=True)
    for n, v in enumerate(viol):
        d = os.path.join(rd, str(n)); os.makedirs(d); shutil.copy(v["file"], d + "/input.txt"); m = src_meta(v["src"])
        with open(d + "/replay.sh", "w") as f:
            f.write("#!/bin/bash\n# %s: %s\n# location: %s\n# native: %s\nset -e\ncd \"$(dirname \"$0\")\"\n" % (v["kind"], v["msg"].replace("\n", " "), v["loc"], v["native"].replace("\n", " ")))
            f.write("clang++-18 %s -g -fsanitize=address,undefined %s %s %s/harness/%s %s/engine/rt/native.cpp -o ./a.out %s\n" % (" ".join(NATFLAGS), " ".join(m["NAT"]), " ".join(incs(v["src"])), HERE, v["src"], HERE, " ".join(m["LINK"])))
            f.write("./a.out %s input.txt - %s\n" % (v["entry"], " ".join(pargs(v["params"]))))
        os.chmod(d + "/replay.sh", 0o755); json.dump(v, open(d + "/violation.json", "w"), indent=1); v["replay"] = d + "/replay.sh"
    # ---- evidence ----
    R = [o for _, o in results]; S = lambda k: sum(o[k] for o in R)
    funcs = sorted(set(f for o in R for f in o["functions"])); lines = {}
    for o in R:
        for k, v in o["lines"].items(): lines.setdefault(k, set()).update(v)
    reached = {}
    for o in R:
        for k, v in o["reached"].items(): reached[k] = reached.get(k, 0) + v
    vac = [jl[i]["entry"] + " " + " ".join(pargs(jl[i]["params"])) for i, o in results if o["asserts"] == 0 and not o["findings"]]
    inc = {}
    for o in R:
        for k, v in o["incomplete_reasons"].items(): inc[k] = inc.get(k, 0) + v
    uf = {}
    for o in R:
        for k, v in o["uninterpreted"].items(): uf[k] = uf.get(k, 0) + v
    samples = []
    for i, o in results[:6]:
        s = {"entry": jl[i]["entry"], "params": jl[i]["params"], "paths": o["paths"]}
        if o["witnesses"]:
            try: s["inputs"] = [l for l in open(o["witnesses"][-1]).read().split("\n") if l and l[0] != "#"][:40]
            except OSError: pass
        samples.append(s)
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2), "violations": len(viol),
      "assumptions": spec.get("assumptions", []) + J.COMMON_ASSUMPTIONS,
      "coverage": {
        "states": S("paths") + S("paths_discarded") + S("paths_error") + S("paths_incomplete"),
        "transitions": S("instructions"),
        "traces_validated_against_impl": S("wit_ok"),
        "samples": samples,
        "states_meaning": "path classes of symbolic inputs explored to their end", "transitions_meaning": "LLVM instructions executed symbolically",
        "jobs": len(jl), "jobs_exhausted": sum(1 for o in R if o["complete"]), "exhaustive": bool(R) and all(o["complete"] for o in R) and not errors,
        "jobs_not_exhausted": [{"entry": jl[i]["entry"], "params": jl[i]["params"], "pending_states": o["pending"], "reasons": o["incomplete_reasons"]} for i, o in results if not o["complete"]],
        "forks": S("forks"), "assertions_evaluated": S("asserts"), "assertions_decided_by_solver": S("assert_queries"), "assertions_decided_by_simplification": S("asserts_trivial"),
        "solver_queries": S("queries"), "solver_sat": S("sat"), "solver_unsat": S("unsat"), "solver_unknown": S("unknown"), "solver_s": round(sum(o["solver_s"] for o in R), 2),
        "functions_encoded": funcs, "functions_encoded_count": len(funcs), "source_lines_encoded": {k: len(v) for k, v in sorted(lines.items())},
        "bounds": spec.get("bounds", ""), "outside": spec.get("outside", ""), "reach_points": reached, "vacuous_jobs": vac,
        "uninterpreted_functions": uf, "unconfirmed_counterexamples": [{k: u[k] for k in ("entry", "params", "kind", "msg", "loc", "native")} for u in unconf][:20],
        "encoding_mismatches": [w for o in R for w in o["wit_bad"]][:20], "incomplete_reasons": inc, "errors": errors[:10],
        "known_findings_seen": sorted(knownhit), "violations": [{k: v[k] for k in ("entry", "params", "kind", "msg", "loc", "inputs", "native", "replay")} for v in viol]}}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in knownhit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in unconf: print("note: unconfirmed counterexample (not reported): %s %s %s [%s] @ %s" % (u["entry"], u["kind"], u["msg"], u["native"], u["loc"]))
    for e in errors: print("ERROR: " + e)
    print("%s %s: jobs %d (exhausted %d), paths %d, asserts %d, queries %d (%.1fs solver), witnesses validated %d, mismatches %d, %.1fs" % (prop, tier, len(jl), ev["coverage"]["jobs_exhausted"], ev["coverage"]["states"], S("asserts"), S("queries"), ev["coverage"]["solver_s"], S("wit_ok"), len(ev["coverage"]["encoding_mismatches"]), wall))
    if viol:
        for v in viol: print("VIOLATION property=%s replay=%s" % (prop, v["replay"])); print("  %s: %s @ %s" % (v["kind"], v["msg"], v["loc"]))
        sys.exit(1)
    if errors: sys.exit(2)
    if vac and not only: print("VACUOUS: " + "; ".join(vac)); sys.exit(2)
    sys.exit(0)
main()
