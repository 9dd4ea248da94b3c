#!/usr/bin/env python3
"""Decide one property by symbolic execution of the real code.

check.py ID [--tier quick|thorough] [--entry NAME] [--keep]   exit 0 held / 1 violated / 2 no answer
Everything (IR of /repo's sources, harness) is rebuilt from the working tree on every run.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
LB = "/usr/lib/llvm-18/bin/"; CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-emit-llvm", "-c", "-g1", "-gno-column-info", "-w",
        "-include", V + "/stubs/noextern.h", "-I" + V + "/stubs", "-I" + V + "/rt", "-I" + V + "/harness", "-I" + REPO]
NPROC = 8; NS_ = int(os.environ.get('VERIF_SAMPLES', '10')) // 5
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
class Fail(Exception): pass

def parse(path):
    h = {"path": path, "sources": [], "defs": [], "entries": [], "assume": [], "bounds": []}
    for ln in open(path):
        if not ln.startswith("//"):
            if ln.strip(): break
            continue
        m = re.match(r"//\s*(SOURCES|DEFS|ENTRY|ASSUME|BOUND):\s*(.*)", ln)
        if not m: continue
        k, r = m.group(1), m.group(2).strip()
        if k == "SOURCES": h["sources"] += r.split()
        elif k == "DEFS": h["defs"] += r.split()
        elif k == "ASSUME": h["assume"].append(r)
        elif k == "BOUND": h["bounds"].append(r)
        else:
            t = r.split(); e = {"name": t[0], "quick": 60.0, "thorough": 600.0, "reach": [], "defs": [], "tdefs": [], "tier": "both", "max_instr": 0, "hang": True, "property": [], "st": 0}
            for o in t[1:]:
                a, _, b = o.partition("=")
                if a in ("quick", "thorough"): e[a] = float(b)
                elif a in ("reach", "property"): e[a] = b.split(",")
                elif a in ("defs", "tdefs"): e[a] = ["-D" + x for x in b.split(",")]
                elif a in ("max_instr", "st"): e[a] = int(b)
                elif a == "tier": e[a] = b
                else: raise Fail("bad entry option " + o)
            h["entries"].append(e)
    return h

def groups():
    g = {}
    for ln in open(V + "/harness/groups.txt"):
        ln = ln.split("#")[0].strip()
        if not ln: continue
        n, _, r = ln.partition(":"); g.setdefault(n, []).extend(r.split())
    return g
def expand(srcs, g, seen=None):
    out = []
    for s in srcs:
        if s.startswith("@"): out += expand(g[s[1:]], g)
        elif s not in out: out.append(s)
    r = []
    for s in out:
        if s not in r: r.append(s)
    return r

class Build:
    def __init__(self, work): self.work = work; self.objs = {}; self.pool = cf.ThreadPoolExecutor(NPROC)
    def comp(self, src, defs):
        key = hashlib.sha1((src + "|" + " ".join(defs)).encode()).hexdigest()[:16]
        if key not in self.objs: self.objs[key] = self.pool.submit(self._comp, src, defs, os.path.join(self.work, key + ".bc"))
        return self.objs[key]
    def _comp(self, src, defs, out):
        r = sh([CXX] + BASE + defs + [src, "-o", out])
        if r.returncode: raise Fail("compile failed: %s\n%s" % (src, r.stdout[-3000:]))
        return out
    def module(self, h, defs, g):
        fs = [self.comp(h["path"], h["defs"] + defs), self.comp(V + "/rt/models.cpp", [])]
        for s in expand(h["sources"], g):
            p = s if s.startswith("/") else (os.path.join(V, s[6:]) if s.startswith("verif/") else os.path.join(REPO, s)); fs.append(self.comp(p, h["defs"]))
        bcs = [f.result() for f in fs]
        key = hashlib.sha1((h["path"] + " ".join(defs)).encode()).hexdigest()[:12]; a = os.path.join(self.work, key + ".all.bc"); b = os.path.join(self.work, key + ".mod.bc")
        r = sh([LB + "llvm-link"] + bcs + ["-o", a])
        if r.returncode: raise Fail("link failed: " + r.stdout[-2000:])
        r = sh([LB + "opt", "-passes=function(sroa,early-cse,simplifycfg)", a, "-o", b])
        if r.returncode: raise Fail("opt failed: " + r.stdout[-2000:])
        return b

def limit(): resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
def run_symex(mod, e, budget, out, seed, jobs):
    cmd = [V + "/build/symex", mod, "--entry", e["name"], "--out", out, "--budget", str(budget), "--samples", os.environ.get("VERIF_SAMPLES", "6"), "--max-viol", "8", "--jobs", str(jobs)]
    if e["max_instr"]: cmd += ["--max-instr", str(e["max_instr"])]
    if e["st"]: cmd += ["--solver-timeout", str(e["st"])]
    try: r = sh(cmd, timeout=budget + 150, preexec_fn=limit)
    except subprocess.TimeoutExpired: return None, "symex timeout"
    if not os.path.exists(out): return None, "symex failed (%s): %s" % (r.returncode, r.stdout[-1500:])
    j = json.load(open(out))
    for k in range(1, jobs):
        if os.path.exists("%s.%d" % (out, k)): merge(j, json.load(open("%s.%d" % (out, k))))
    del j["violations"][8:]; return j, r.stdout
def merge(j, o):
    for k in ("paths", "infeasible", "abort_paths", "forks", "instructions", "asserts", "assert_queries", "visible_points", "crashes", "queries", "sat", "unsat", "unknown", "cache_hits", "model_hits", "solver_s"): j[k] += o[k]
    for k in ("max_path_instructions", "wall_s"): j[k] = max(j[k], o[k])
    if o["incomplete"] and not j["incomplete"]: j["incomplete"] = True; j["incomplete_why"] = o["incomplete_why"]
    j["errors"] = (j["errors"] + o["errors"])[:20]; seen = {(v["msg"], v["where"]) for v in j["violations"]}
    j["violations"] += [v for v in o["violations"] if (v["msg"], v["where"]) not in seen]; j["samples"] = (j["samples"] + o["samples"][:NS_])[:NS_ * 5]
    for k in ("reached", "assert_sites"):
        for a, n in o[k].items(): j[k][a] = j[k].get(a, 0) + n
    fs = {f[0] for f in j["functions"]}; j["functions"] += [f for f in o["functions"] if f[0] not in fs]

def build_native(work, mod, entries, tag):
    inst = os.path.join(work, tag + ".inst.bc"); exe = os.path.join(work, tag + ".native"); tab = os.path.join(work, tag + ".tab.cpp")
    r = sh([V + "/build/symex", mod, "--instrument", inst])
    if r.returncode: raise Fail("instrument: " + r.stdout[-1000:])
    with open(tab, "w") as f:
        for n in entries: f.write('extern "C" void %s();\n' % n)
        f.write("struct SymEntry { const char* name; void (*fn)(); };\nextern SymEntry sym_entries[];\nSymEntry sym_entries[] = {" + "".join('{"%s", %s}, ' % (n, n) for n in entries) + "{nullptr, nullptr}};\n")
    objs = []
    for n, src in enumerate((inst, tab, V + "/rt/rt.cpp")):
        o = os.path.join(work, "%s.%d.o" % (tag, n)); objs.append(o)
        r = sh([CXX, "-std=c++17", "-O0", "-w", "-fsanitize=address", "-I" + V + "/rt", "-c", src, "-o", o])
        if r.returncode: raise Fail("native build: " + r.stdout[-3000:])
    link = [CXX, "-fsanitize=address", "-Wl,--no-demangle"] + objs + ["-o", exe, "-lpthread"]
    r = sh(link)
    if r.returncode:  # symbols outside the encoded sources: trap if they are ever called
        und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stdout)))
        if not und: raise Fail("native link: " + r.stdout[-3000:])
        asm = os.path.join(work, tag + ".und.s")
        with open(asm, "w") as f:
            f.write(".text\n" + "".join(".globl %s\n%s:\n" % (u, u) for u in und) + "ud2\n" + '.section .note.GNU-stack,"",@progbits\n')
        r = sh(link + [asm])
        if r.returncode: raise Fail("native link: " + r.stdout[-3000:])
    return exe
def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, w, v in inputs: f.write("%s %d %d\n" % (n, w, v))
def replay(exe, entry, path, timeout=20, uar=0):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:exitcode=99:detect_stack_use_after_return=%d:max_allocation_size_mb=4096:allocator_may_return_null=1" % uar)
    d = tempfile.mkdtemp(prefix="rp-", dir=os.path.dirname(exe))
    try: r = sh([exe, path, entry], timeout=timeout, env=env, cwd=d)
    except subprocess.TimeoutExpired: return "hang", ""
    return r.returncode, r.stdout
KIND = {10: "assertion", 12: "unexpected termination", 13: "deadlock or lock misuse", 14: "signal", 99: "memory error (AddressSanitizer)", "hang": "no termination"}

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--entry"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("--no-native", action="store_true"); ap.add_argument("--budget", type=float)
    a = ap.parse_args(); t0 = time.time(); tier = a.tier if a.tier in ("quick", "thorough") else "quick"; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    if not os.path.exists(V + "/build/symex"):
        r = sh(["bash", V + "/symex/build.sh"])
        if r.returncode: print(r.stdout[-3000:]); return 2
    g = groups(); hs = []
    for f in sorted(os.listdir(V + "/harness")):
        if f.endswith(".cpp"):
            h = parse(V + "/harness/" + f); h["use"] = [e for e in h["entries"] if a.id in e["property"] and (e["tier"] in ("both", tier)) and (not a.entry or e["name"] == a.entry)]
            if h["use"]: hs.append(h)
    if not hs: print("no harness for", a.id); return 2
    work = tempfile.mkdtemp(prefix="verif-%s-" % a.id); known = []
    try:
        for ln in open(V + "/known_findings.txt"):
            if ln.startswith("{"): known.append(json.loads(ln))
    except FileNotFoundError: pass
    rc = 0; results = []; problems = []; viols = []; knowns = set(); val = 0; samples = []
    try:
        B = Build(work); jobs = []
        # start all compilations first
        tod = lambda e: (e["tdefs"] if tier == "thorough" and e["tdefs"] else e["defs"]) + (["-DSYM_THOROUGH=1"] if tier == "thorough" else [])
        for h in hs:
            for s in expand(h["sources"], g):
                B.comp(s if s.startswith("/") else (os.path.join(V, s[6:]) if s.startswith("verif/") else os.path.join(REPO, s)), h["defs"])
        mods = {}
        for h in hs:
            for e in h["use"]:
                k = (h["path"], tuple(tod(e)))
                if k not in mods: mods[k] = {"mod": B.module(h, tod(e), g), "entries": [], "h": h, "tag": "m%d" % len(mods)}
                mods[k]["entries"].append(e)
        tb = time.time() - t0
        nat = {}; ex = cf.ThreadPoolExecutor(NPROC + 8)
        sem = __import__("threading").Semaphore(NPROC)
        pj = max(1, -(-NPROC // max(1, sum(len(m["entries"]) for m in mods.values()))))
        def one(m, e):
            with sem: return run_symex(m["mod"], e, a.budget or e[tier], os.path.join(work, m["tag"] + "." + e["name"] + ".json"), seed, pj)
        for m in mods.values():
            for e in m["entries"]: jobs.append((m, e, ex.submit(one, m, e)))
            if not a.no_native: nat[m["tag"]] = ex.submit(build_native, work, m["mod"], [e["name"] for e in m["entries"]], m["tag"])
        for m, e, fu in jobs:
            j, log = fu.result()
            if j is None: problems.append("%s: %s" % (e["name"], log)); continue
            j["_e"] = e; j["_m"] = m; results.append(j)
            if a.v: print(e["name"], {k: j[k] for k in ("paths", "infeasible", "abort_paths", "forks", "instructions", "assert_queries", "queries", "solver_s", "wall_s", "incomplete", "incomplete_why", "unknown")}, j["reached"], [s["end"] for s in j["samples"]]); [print("   ERR", x) for x in j["errors"]]
            for x in j["errors"]: problems.append("%s: %s" % (e["name"], x))
            if a.no_native:
                for v in j["violations"]: print("   VIOL", v["msg"], v["where"], v["inputs"][:40], *v["stack"], sep="\n      ")
                continue
            exe = nat[m["tag"]].result(); hangs = 0
            for n, v in enumerate(j["violations"]):
                rp = "%s/evidence/replay/%s-%s-%d.txt" % (V, a.id, e["name"], n); write_inputs(rp, v["inputs"]); code, o = replay(exe, e["name"], rp)
                if code not in KIND and "memory error" in v["msg"]: code, o = replay(exe, e["name"], rp, uar=1)
                if a.v: print("   VIOL", v["msg"], v["where"], v["inputs"][:60], "-> native", code, o[-300:], *v["stack"], sep="\n      ")
                if code not in KIND and "suspected hang" in v["msg"]: continue
                if code not in KIND: problems.append("%s: counterexample not reproduced natively (%s): %s at %s" % (e["name"], code, v["msg"], v["where"])); continue
                with open(rp, "a") as f: pass
                kf = [k for k in known if k.get("property") == a.id and k.get("status") == "known" and k["entry"] == e["name"] and k["match"] in v["msg"] and k.get("where", "") in v["where"] + " ".join(v["stack"])]
                if kf: knowns.add((kf[0]["id"], kf[0]["what"])); continue
                viols.append({"entry": e["name"], "msg": v["msg"], "where": v["where"], "native": KIND[code], "replay": rp, "stack": v["stack"], "inputs": v["inputs"]})
            for n, s in enumerate(j["samples"]):
                rp = os.path.join(work, "s-%s-%d.txt" % (e["name"], n)); write_inputs(rp, s["inputs"]); code, o = replay(exe, e["name"], rp)
                obs = [int(x) for x in re.findall(r"^OBS (\d+)", o, re.M)]
                ok = code == 0 and obs == [x for x in s["obs"]] if s["end"] != "abort" else code == 0
                if not ok: problems.append("%s: sample path %d diverges natively (%s, end %s): %s expected %s\n%s\n%s" % (e["name"], n, code, s["end"], obs, s["obs"], s["inputs"][:50], o[-800:]))
                else: val += 1
                if len(samples) < 6: samples.append({"entry": e["name"], "inputs": [[x[0], x[2]] for x in s["inputs"][:24]], "observations": s["obs"][:16], "end": s["end"], "native_agrees": ok})
            miss = [l for l in e["reach"] if l not in j["reached"]]
            if miss and not j["violations"] and not j["incomplete"]: problems.append("%s: labels not reached: %s" % (e["name"], miss))
            elif miss and not j["violations"]: problems.append("%s: labels not reached within the budget: %s" % (e["name"], miss))
        ex.shutdown()
    except Fail as x: problems.append(str(x))
    finally:
        if a.keep: print("work", work)
        else: shutil.rmtree(work, ignore_errors=True)
    inc = [(j["entry"], j["incomplete_why"]) for j in results if j["incomplete"]]
    fn = {}
    for j in results:
        for n, f, c in j["functions"]:
            if f.startswith(REPO + "/"): fn[n] = f[len(REPO) + 1:]
    S = lambda k: sum(j[k] for j in results)
    cov = {"states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": val, "samples": samples or [{"note": "no sample path"}],
           "queries_discharged": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "assertions_decided_by_solver": S("assert_queries"), "assertion_evaluations": S("asserts"), "solver_s": round(S("solver_s"), 2),
           "infeasible_paths": S("infeasible"), "crash_branches": S("crashes"), "exhaustive": bool(results) and not inc and not problems, "incomplete_entries": inc,
           "functions_encoded": sorted("%s (%s)" % x for x in fn.items()), "functions_encoded_count": len(fn),
           "bounds": sorted({b for h in hs for b in h["bounds"]}), "entries": [{"entry": j["entry"], "paths": j["paths"], "queries": j["queries"], "solver_s": round(j["solver_s"], 2), "wall_s": round(j["wall_s"], 2), "complete": not j["incomplete"], "reached": j["reached"], "assertions": j["assert_sites"]} for j in results],
           "rule": "states = symbolic paths completed, transitions = IR instructions executed symbolically; each path stands for all inputs satisfying its path condition"}
    ev = {"property": a.id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": sorted({x for h in hs for x in h["assume"]}) + ["sequentially consistent memory", "score_baselibs replaced by the stand-ins in /verif/stubs"], "wall_s": round(time.time() - t0, 2), "violations": len(viols), "known_findings": sorted(k[0] for k in knowns), "problems": problems[:20]}
    json.dump(ev, open(V + "/evidence/%s.json" % a.id, "w"), indent=1)
    for i, w in sorted(knowns): print("KNOWN-FINDING: property=%s %s" % (a.id, w))
    for v in viols[:4]:
        rp = v["replay"][:-4] + ".json"; json.dump(dict(v, property=a.id, how="check.py builds harness entry natively and feeds these inputs"), open(rp, "w"), indent=1)
        print("%s: %s at %s [%s]" % (v["entry"], v["msg"], v["where"], v["native"])); [print("    ", s) for s in v["stack"][:6]]
        print("VIOLATION property=%s replay=%s" % (a.id, rp))
    for p in problems[:10]: print("PROBLEM:", p)
    print("%s %s: paths=%d queries=%d solver=%.1fs validated=%d incomplete=%s wall=%.1fs" % (a.id, tier, S("paths"), S("queries"), S("solver_s"), val, [i[0] for i in inc], time.time() - t0))
    if viols: return 1
    return 2 if problems else 0
if __name__ == "__main__": sys.exit(main())
