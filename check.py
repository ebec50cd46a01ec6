#!/usr/bin/env python3
"""Driver: decides one property by discharging the obligations of its contracts
against /repo's current source.   usage: check.py <property-id> [--tier quick|thorough]"""
import sys, os, json, subprocess, threading, time, fnmatch, shutil, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
REPO = os.environ.get("VF_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin"
NCPU = os.cpu_count() or 4

class BuildError(Exception):
    def __init__(self, what, out): self.what, self.out = what, out

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)

def build_engine(work):
    out = os.path.join(HERE, "build", "vfe")
    r = sh(["bash", os.path.join(HERE, "engine/build.sh"), out])
    if r.returncode: raise BuildError("engine", r.stdout)
    return out

COMMON_INC = lambda: ["-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(REPO, "runtime"), "-I" + HERE]

def src_path(unit, work):
    src = unit["src"]
    if callable(src):            # generated unit
        return src(REPO, work)
    return os.path.join(HERE, "contracts", src)

def compile_unit(unit, work):
    """real source + contracts -> LLVM IR (clang -O0, then mem2reg/simplifycfg only)"""
    path = src_path(unit, work)
    name = os.path.join(work, unit["name"])
    flags = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-access-control", "-include", os.path.join(HERE, "rt/vf_pre.h"), "-include", "array",
             "-DVF_SYM", "-I" + os.path.join(HERE, "rt/stub"), "-fno-threadsafe-statics", "-fno-builtin", "-emit-llvm", "-c"]
    pre = unit.get("preinc", [])
    r = sh([LL + "/clang++"] + flags + pre + unit.get("flags", []) + COMMON_INC() + [path, "-o", name + ".bc"])
    if r.returncode: raise BuildError("contract unit " + unit["name"] + " against the current source", r.stdout[-6000:])
    lib = os.path.join(work, "vf_lib.bc")
    if not os.path.exists(lib):
        r = sh([LL + "/clang", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-builtin", "-emit-llvm", "-c",
                os.path.join(HERE, "rt/vf_lib.c"), "-o", lib + ".%s.tmp" % unit["name"]])
        if r.returncode: raise BuildError("vf_lib", r.stdout)
        os.replace(lib + ".%s.tmp" % unit["name"], lib)
    r = sh([LL + "/llvm-link", name + ".bc", lib, "-o", name + ".l.bc"])
    if r.returncode: raise BuildError("link " + unit["name"], r.stdout)
    r = sh([LL + "/opt", "-passes=" + unit.get("passes", "sroa,mem2reg,simplifycfg"), name + ".l.bc", "-o", name + ".o.bc"])
    if r.returncode: raise BuildError("opt " + unit["name"], r.stdout)
    r = sh([LL + "/llvm-nm", "--defined-only", name + ".o.bc"])
    ents = sorted(l.split()[-1] for l in r.stdout.splitlines() if l.split() and l.split()[-1].startswith("prove_"))
    return name + ".o.bc", ents

def compile_native(unit, work):
    """the same contracts and the same real source, natively (ASan), to replay counterexamples"""
    exe = os.path.join(work, unit["name"] + ".native")
    path = src_path(unit, work)
    if unit.get("instrument"):
        bc = os.path.join(work, unit["name"] + ".n")
        flags = ["-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-fno-access-control", "-include", "array", "-emit-llvm", "-c"]
        r = sh([LL + "/clang++"] + flags + unit.get("preinc", []) + unit.get("flags", []) + COMMON_INC() + [path, "-o", bc + ".bc"])
        if r.returncode == 0: r = sh([os.path.join(HERE, "build", "vfe"), "--instrument", bc + ".i.bc", bc + ".bc"])
        if r.returncode == 0: r = sh([LL + "/clang++", "-std=c++17", "-g", "-O0", "-w", bc + ".i.bc", os.path.join(HERE, "rt/vf_native.cc"), "-I" + os.path.join(HERE, "rt"),
                                      "-o", exe, "-rdynamic", "-ldl", "-lpthread", "-lrt"])
    else:
        r = sh(["g++", "-std=c++17", "-O0", "-g", "-w", "-fno-access-control", "-include", "array", "-fsanitize=address", "-rdynamic"] + unit.get("preinc", []) + unit.get("flags", []) + COMMON_INC() +
               [path, os.path.join(HERE, "rt/vf_native.cc"), "-o", exe, "-ldl", "-lpthread", "-lrt"])
    if r.returncode: return None, r.stdout[-3000:]
    return exe, ""

def run_entry(engine, bc, entry, work, tl, unit, tier):
    out = os.path.join(work, unit["name"] + "." + entry + ".json")
    cmd = [engine, bc, "--entry", entry, "--out", out, "--time", str(tl)]
    cmd += unit.get("engine_flags", []) + (["-v"] if os.environ.get("VF_V") else [])
    log = ""
    try:
        if STOP.is_set(): raise RuntimeError("skipped: a violation was already confirmed")
        pr = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        RUNNING.append(pr)
        try: log = pr.communicate(timeout=tl + 60)[0].decode(errors="replace")
        except subprocess.TimeoutExpired: pr.kill(); pr.communicate(); raise
        finally: RUNNING.remove(pr)
        d = json.load(open(out))
        d["log"] = log[-2000:]
    except Exception as e:
        d = {"entry": entry, "fatal": str(e) if STOP.is_set() else "engine died: %r %s" % (e, log[-800:]), "obligations": 0, "discharged": 0,
             "failures": [], "unknown": [], "unsupported": [], "functions": [], "covers": {}, "asserts": {}, "solver_s": 0, "queries": 0, "paths": 0, "syntactic": 0,
             "replaced_by_contract": [], "loops_cut": [], "bounded_cutoffs": 0}
        if STOP.is_set(): d["skipped"] = True
    return d
STOP = threading.Event(); RUNNING = []
def stop_all():
    STOP.set()
    for pr in list(RUNNING):
        try: pr.kill()
        except Exception: pass

def replay(exe, entry, inputs, work, tag):
    f = os.path.join(work, "in_%s_%s.txt" % (entry, tag))
    open(f, "w").write(inputs)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
    try:
        r = subprocess.run([exe, entry, f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, env=env, cwd=work)
        out = r.stdout.decode(errors="replace")[-3000:]
        rc = r.returncode
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace")[-2000:] + "\n[no termination within 60 s]"
    if rc == 42: return "confirmed", out
    if "AddressSanitizer" in out or rc < 0: return "confirmed", out + "\n[rc %d]" % rc
    if rc in (0, 60, 61, 62, 64): return "not-confirmed", out + "\n[rc %d]" % rc
    return "confirmed" if rc in (1, 134) else "not-confirmed", out + "\n[rc %d]" % rc

def fuzz(exe, entry, work, seed, secs):
    """bounded stand-in when an obligation is left undecided: run the same contract natively on random inputs"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", VF_FUZZ_SECS=str(secs))
    n = 0; t0 = time.time(); s = seed
    while time.time() - t0 < secs and n < 4000:
        f = os.path.join(work, "fz_%s.txt" % entry)
        try:
            r = subprocess.run([exe, entry, "--random", str(s), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30, env=env, cwd=work)
        except subprocess.TimeoutExpired:
            s += 1; continue
        n += 1; s += 1
        out = r.stdout.decode(errors="replace")
        if r.returncode == 42 or "AddressSanitizer" in out or r.returncode < 0:
            inp = open(f).read() if os.path.exists(f) else ""
            st, o2 = replay(exe, entry, inp, work, "fz")
            if st == "confirmed": return inp, o2, n
    return None, "", n

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replay", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.path.join(HERE, "build"))
    viol = []          # (obligation text, replay path, confirmed?)
    results, builderrs, bounded = [], [], []
    def save_replay(obj):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%d.json" % len(os.listdir(rdir)))
        json.dump(obj, open(p, "w"), indent=1)
        return p
    try:
        engine = build_engine(work)
        units = P["units"]
        jobs = []
        def comp(u):
            try: return u, compile_unit(u, work), None
            except BuildError as e: return u, None, e
        with ThreadPoolExecutor(NCPU) as ex:
            comped = list(ex.map(comp, units))
        exes = {}; nlock = threading.Lock()
        def native(u):
            with nlock:
                if u["name"] not in exes: exes[u["name"]] = compile_native(u, work)
                return exes[u["name"]]
        tl = P.get("time", {}).get(tier, 590 if tier == "quick" else 2500)
        for u, c, err in comped:
            if err: builderrs.append(err); continue
            bc, ents = c
            pats = u["entries"] + (u.get("entries_thorough", []) if tier == "thorough" else [])
            sel = [e for e in ents if any(fnmatch.fnmatch(e, p) for p in pats)]
            if not sel: builderrs.append(BuildError("no contract entries in " + u["name"], str(ents)))
            for e in sel:
                if only and not fnmatch.fnmatch(e, only): continue
                jobs.append((u, bc, e))
        weights = P.get("heavy", [])
        jobs.sort(key=lambda j: 0 if any(fnmatch.fnmatch(j[2], w) for w in weights) else 1)
        with ThreadPoolExecutor(NCPU) as ex:
            total = 600 if tier == "quick" else 7200          # keep the whole check within its time limit
            def one(j):
                left = total - (time.time() - t0)
                d = run_entry(engine, j[1], j[2], work, max(5, int(min(tl, left))), j[0], tier)
                if d["failures"] and not STOP.is_set():      # replay at once; a confirmed violation ends the run
                    exe, err = native(j[0])
                    d["replays"] = []
                    for i, f in enumerate(d["failures"][:12]):
                        d["replays"].append(("no-native", err) if not exe else replay(exe, d["entry"], f["inputs"], work, j[0]["name"] + str(i)))
                        if d["replays"][-1][0] in ("confirmed", "hang"): stop_all(); break
                d["shown"] = j[2] + j[0].get("label", "")
                return (j[0], d)
            results = list(ex.map(one, jobs))
        fuzz_end = time.time() + 150
        for e in builderrs:
            p = save_replay({"property": pid, "obligation": "contracts attach to the current source: " + e.what, "verifier_output": e.out})
            viol.append(("contracts could not be attached: " + e.what, p, False))
        confirmed = False
        for u, d in sorted(results, key=lambda x: (not any(r[0] in ("confirmed", "hang") for r in x[1].get("replays", [])), not x[1]["failures"])):
            e = d["shown"]
            undecided = ([d["fatal"]] if d["fatal"] else []) + d["unknown"] + d["unsupported"]
            vac = []
            if not d["failures"] and not undecided:
                if d["obligations"] == 0: vac.append("no obligations generated")
                for cname in u.get("covers", ["end"]):
                    if not d["covers"].get(cname): vac.append("vacuous: end of contract '%s' unreachable" % cname)
            undecided += vac
            d["undecided"] = undecided
            hit = False
            if d["failures"]:
                exe, err = native(u)
                unconf = []
                for i, f in enumerate(d["failures"][:len(d["replays"]) if "replays" in d else 2]):
                    st, out = d["replays"][i] if "replays" in d else ("no-native", err) if not exe else replay(exe, e, f["inputs"], work, str(i))
                    rec = {"property": pid, "entry": e, "obligation": "%s: %s" % (f["kind"], f["label"]), "location": f["loc"], "stack": f["stack"],
                           "inputs": f["inputs"], "native_replay": st, "native_output": out,
                           "how_to_replay": "contract %s, entry %s, inputs as listed in call order" % (u["name"], e)}
                    if st in ("confirmed", "hang"):
                        viol.append(("%s: %s [%s]" % (f["kind"], f["label"], e), save_replay(rec), True)); hit = confirmed = True
                        break
                    unconf.append((f, rec))
                if not hit:
                    inp = None
                    if exe and not confirmed: inp, out, n = fuzz(exe, e, work, seed, min(20, fuzz_end - time.time()))
                    f, rec = unconf[0]
                    if inp is not None:
                        rec.update(inputs=inp, native_replay="confirmed", native_output=out)
                        viol.append(("%s: %s [%s]" % (f["kind"], f["label"], e), save_replay(rec), True)); hit = confirmed = True
                    else:
                        viol.append(("%s: %s [%s]" % (f["kind"], f["label"], e), save_replay(rec), False))
            elif undecided and not d.get("skipped"):
                exe, err = native(u)
                inp = None; n = 0; out = err
                if exe and not confirmed: inp, out, n = fuzz(exe, e, work, seed, min(30, fuzz_end - time.time()))
                rec = {"property": pid, "entry": e, "obligation": "all obligations of %s discharged" % e, "verifier_output": undecided, "random_native_runs": n,
                       "inputs": inp or "", "native_output": out, "log": d.get("log", "")}
                viol.append(("undecided obligations in %s: %s" % (e, undecided[0][:200]), save_replay(rec), inp is not None)); confirmed = confirmed or inp is not None
    finally:
        if "--keep" not in sys.argv: shutil.rmtree(work, ignore_errors=True)
        else: print("work dir", work)
    ob = sum(d["obligations"] for _, d in results); di = sum(d["discharged"] for _, d in results)
    fns = sorted({f for _, d in results for f in d["functions"] if props.is_repo_fn(f)})
    cov = {"obligations": ob, "discharged": di,
           "checker_cmd": "check.py %s --tier %s (vfe: VC generation from clang-18 LLVM IR of /repo; back end z3 5.3.2)" % (pid, tier),
           "trusted_base": props.TRUSTED + P.get("trusted", []),
           "contracts": [{"entry": d["shown"], "obligations": d["obligations"], "discharged": d["discharged"], "syntactic": d["syntactic"], "paths": d["paths"],
                          "queries": d["queries"], "solver_s": round(d["solver_s"], 2), "asserts": d["asserts"], "failures": len(d["failures"]),
                          "undecided": d.get("undecided", []), "callees_by_contract": d["replaced_by_contract"], "loops_cut": d["loops_cut"],
                          "kind": "bounded" if d.get("bounded_cutoffs") or any(fnmatch.fnmatch(d["entry"], b) for b in P.get("bounded_entries", [])) else "proved"} for _, d in results],
           "functions_under_contract": fns, "solver_s": round(sum(d["solver_s"] for _, d in results), 2), "queries": sum(d["queries"] for _, d in results)}
    if P["level"] == "other":
        cov["explanation"] = "bounded stand-in, not counted as proved: every obligation of the contracts was discharged on all %d paths within the stated bound (%s)" % (sum(d["paths"] for _, d in results), "; ".join(P.get("assumptions", [])))
        cov["exhaustive"] = False
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov, "assumptions": props.ASSUMPTIONS + P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for u, d in results:
        print("  %-44s oblig %7d/%-7d paths %5d queries %6d solver %6.1fs wall %6.1fs %s" % (d["shown"], d["discharged"], d["obligations"], d["paths"], d["queries"], d["solver_s"], d.get("wall_s", 0),
              ("FAILURES %d" % len(d["failures"])) if d["failures"] else ("UNDECIDED " + str(d.get("undecided"))[:300]) if d.get("undecided") else "ok"))
    known = props.known_findings(pid)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("property %s: %d/%d obligations discharged in %d contracts, %.1f s" % (pid, di, ob, len(results), time.time() - t0))
    if viol:
        viol.sort(key=lambda v: not v[2])
        for what, path, conf in viol:
            print("failed obligation: " + what)
        what, path, conf = viol[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if conf else " no-failing-input-found"))
        sys.exit(1)
    sys.exit(0)

main()
