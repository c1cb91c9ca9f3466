#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough] [--only HARNESS] | run.py setup

Decides one property by symbolic execution of /repo's current code:
 1. the harness crate (path dependency on /repo) is compiled with fat LTO; rustc's LTO input bitcode
    (the whole program: harness + rust-3d + dependencies + std) is what the executor reads;
 2. engine/symx executes every harness of the property symbolically, z3 decides branches and checks;
 3. every counterexample, and a sample of the witnesses of the verified paths, is replayed natively
    (dev and release builds of the same harness); only reproduced counterexamples are reported.
Exit: 0 held, 1 violation, 2 no answer."""
import sys, os, json, time, subprocess, hashlib, shutil, re, glob, threading, concurrent.futures as cf
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
sys.path.insert(0, ROOT)
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
NJ = os.cpu_count() or 4

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(f for f in glob.glob(p + "/**/*", recursive=True) if os.path.isfile(f))
        for f in fs:
            if "/target/" in f or "/.git/" in f: continue
            h.update(os.path.relpath(f, "/").encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

class Broken(Exception): pass

def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"): e.pop(k, None)
    return e

def engine():
    src = [os.path.join(ROOT, "engine", f) for f in ("expr.h", "expr.cpp", "symx.cpp", "build.sh")]
    out = os.path.join(BUILD, "symx-" + tree_hash(src))
    if not os.path.exists(out):
        r = sh(["sh", os.path.join(ROOT, "engine", "build.sh"), out], env=env())
        if r.returncode or not os.path.exists(out): raise Broken("engine build failed:\n" + r.stdout[-3000:])
    return out

def manifest_dir():
    """the harness crate, redirected when VP_REPO points elsewhere"""
    h = os.path.join(ROOT, "harness")
    if REPO == "/repo": return h
    d = os.path.join(BUILD, "harness-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(h, d)
    p = os.path.join(d, "Cargo.toml"); t = open(p).read().replace('"/repo"', '"%s"' % REPO); open(p, "w").write(t)
    return d

def cargo(args, target, flags, md):
    e = env(); e["RUSTFLAGS"] = flags; e["CARGO_TARGET_DIR"] = target
    r = sh(["cargo"] + args, cwd=md, env=e)
    if r.returncode: raise Broken("cargo %s failed:\n%s" % (" ".join(args), r.stdout[-4000:]))

def build_bitcode(feature, key, md, eng_future):
    t = os.path.join(BUILD, "t-" + key + "-sym")
    out = os.path.join(BUILD, "bc-%s-%s.bc" % (key, feature))
    deps = os.path.join(t, "release", "deps")
    for f in glob.glob(deps + "/harness*.lto.input.bc"): os.remove(f)
    for f in glob.glob(deps + "/libharness*.a"): os.remove(f)
    # the harness is always relinked so that save-temps writes its bitcode
    for f in glob.glob(os.path.join(t, "release", ".fingerprint", "harness-*")): shutil.rmtree(f, ignore_errors=True)
    cargo(["rustc", "--release", "--offline", "--lib", "--crate-type", "staticlib", "--features", feature], t, "--cap-lints allow -C save-temps -C no-prepopulate-passes", md)
    bcs = glob.glob(deps + "/harness*.lto.input.bc")
    if len(bcs) != 1: raise Broken("expected one LTO input bitcode, found %r" % bcs)
    r = sh([eng_future.result(), "prep", bcs[0], out])
    if r.returncode: raise Broken("prep failed: " + r.stdout[-2000:])
    return out

def build_native(feature, key, profile, md):
    t = os.path.join(BUILD, "t-" + key + "-nat")
    cargo(["build", "--offline", "--bin", "replay", "--profile", profile, "--features", "native," + feature], t, "--cap-lints allow", md)
    src = os.path.join(t, "debug" if profile == "dev" else profile, "replay")
    dst = os.path.join(BUILD, "replay-%s-%s-%s" % (key, feature, profile))
    shutil.copy2(src, dst)
    return dst

def native_run(binary, harness, streams, timeout=120):
    """replay input streams; one result per stream (crashes and hangs included)"""
    res = []; tmp = os.path.join(BUILD, "rp-%d-%d" % (os.getpid(), threading.get_ident()))
    with open(tmp, "w") as f:
        for s in streams: f.write(",".join(map(str, s)) + "\n")
    while len(res) < len(streams):
        cmd = "ulimit -v 6000000; ulimit -c 0; exec %s %s %s %d" % (binary, harness, tmp, len(res))
        p = subprocess.Popen(["sh", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        lines = []; err = []
        th = threading.Thread(target=lambda: err.append(p.stderr.read())); th.start()
        killed = [False]
        def kill(): killed[0] = True; p.kill()
        last = [time.time()]
        def watch():
            while p.poll() is None:
                if time.time() - last[0] > 20: kill(); return
                time.sleep(0.2)
        w = threading.Thread(target=watch); w.start()
        for l in p.stdout: lines.append(l); last[0] = time.time()
        p.wait(); th.join(); w.join()
        for l in lines:
            try: res.append(json.loads(l))
            except Exception: res.append({"kind": "garbled", "raw": l})
        if len(res) < len(streams):
            if killed[0]: res.append({"kind": "hang"})
            elif p.returncode: res.append({"kind": "crash", "rc": p.returncode, "stderr": (err[0] or "")[-600:]})
            elif not lines: raise Broken("replay made no progress")
    os.remove(tmp)
    return res

def reproduces(detail, nat):
    kind, _, rest = detail.partition("|"); k = nat["kind"]
    if kind == "check": return rest in nat.get("failed", []) or k == "crash"
    if kind == "panic": return k.startswith("panic") or k == "crash" and "overflowed its stack" in nat.get("stderr", "") or k == "crash"
    if kind == "oom": return k == "crash" or (k.startswith("panic") and True)
    if kind == "ub": return k == "crash" or k.startswith("panic")
    if kind == "hang": return k in ("hang", "crash")
    return False

def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = [re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in r.stdout.splitlines()]
    return out

def load_findings(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == pid]

def check(pid, tier, only=None):
    from spec import SPEC
    t0 = time.time(); sp = SPEC[pid]; feature = sp["feature"]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    hs = [h for h in sp["harnesses"] if (tier == "thorough" or h.get("tier", "quick") == "quick") and not (tier == "thorough" and h.get("tier") == "quickonly")]
    if only: hs = [h for h in sp["harnesses"] if h["name"] in only]
    key = tree_hash([REPO + "/src", REPO + "/Cargo.toml", os.path.join(ROOT, "harness/Cargo.toml")])
    # drop build products of other trees
    for f in glob.glob(BUILD + "/t-*") + glob.glob(BUILD + "/bc-*") + glob.glob(BUILD + "/replay-*"):
        if ("-" + key) not in f:
            shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.remove(f)
    for f in glob.glob(BUILD + "/symx-*"):
        pass
    md = manifest_dir()
    deadline = t0 + (sp.get("budget", 700 if tier == "quick" else 3000))
    problems = []; out = {}
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(engine)
        fb = ex.submit(build_bitcode, feature, key, md, fe)
        def natives(): return [build_native(feature, key, p, md) for p in ("dev", "relnative")]
        fn = ex.submit(natives)
        eng = fe.result(); bc = fb.result()
        def run1(h):
            o = os.path.join(BUILD, "out-%s-%s.jsonl" % (pid, h["name"]))
            for f in (o, o + ".sum"):
                if os.path.exists(f): os.remove(f)
            tmo = min(h.get("t", 120) * (1 if tier == "quick" else h.get("tf", 3)), max(20, deadline - time.time()))
            cmd = [eng, "run", bc, h["name"], o, "-t", str(tmo), "-j", str(h.get("j", 4)), "-q", str(h.get("q_ms", 60000)), "-m", str(h.get("maxviol", 8)), "-s", str(h.get("samples", 120))] + h.get("args", [])
            e = env(); e.update(h.get("env", {}))
            try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo + 200, env=e)
            except subprocess.TimeoutExpired:
                subprocess.run(["pkill", "-9", "-f", o]); return h, None, [], "executor did not stop in time"
            if not os.path.exists(o + ".sum"): return h, None, [], "executor failed: " + r.stdout[-1500:]
            s = json.load(open(o + ".sum")); recs = [json.loads(l) for l in open(o)]
            return h, s, recs, r.stdout[-1500:]
        order = sorted(hs, key=lambda h: -h.get("t", 120))
        results = list(ex.map(run1, order, timeout=None)) if False else None
        with cf.ThreadPoolExecutor(sp.get("parallel", 4)) as ex2: results = list(ex2.map(run1, order))
        bins = fn.result()
    viol = []; replayed = 0; nontriv = []
    tot = dict(paths=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, instrs=0, solver_s=0.0, checks=0)
    fns = set(); perh = {}; samples = []
    for h, s, recs, log in results:
        nm = h["name"]
        if s is None: problems.append("%s: %s" % (nm, log)); continue
        for k in tot: tot[k] += s[k]
        fns.update(s["functions"])
        perh[nm] = {k: s[k] for k in ("paths", "ok", "forks", "queries", "unsat", "solver_s", "wall_s", "checks", "checks_symbolic", "covers")}
        perh[nm]["what"] = h["q"]; perh[nm]["bounds"] = h["bounds"]
        bad = [r for r in recs if r["kind"] not in ("ok", "violation")]
        vs = [r for r in recs if r["kind"] == "violation"]
        oks = [r for r in recs if r["kind"] == "ok"]
        if s["errors"] or s["unknown"] or bad:
            problems.append("%s: %d paths without an answer (%s)" % (nm, s["errors"], "; ".join(sorted(set(r["kind"] + ": " + r["detail"] + " @ " + r.get("stack", "")[:160] for r in bad[:6]))) + log[-300:]))
        if s["stop"] == 1: problems.append("%s: stopped" % nm)
        if not vs:
            if not s["ok"]: problems.append("%s: vacuous, no path completed" % nm)
            for c in h.get("covers", []):
                if str(c) not in s["covers"]: problems.append("%s: cover %s never reached" % (nm, c))
        # witnesses of verified paths must behave the same natively
        if oks:
            for b in bins:
                for r, n in zip(oks, native_run(b, nm, [r["inputs"] for r in oks])):
                    replayed += 1
                    pan = n["kind"].startswith("panic") and n.get("panic_ok")
                    if not (n["kind"] == "ok" or pan) or n.get("failed") or (n["kind"] == "ok" and (n["obs"] != r["obs"] or n["left"] or n["underflow"])):
                        problems.append("%s: native replay of a verified path disagrees: inputs=%s engine obs=%s native=%s" % (nm, r["inputs"][:40], r["obs"][:20], json.dumps(n)[:500])); break
            samples.append({"harness": nm, "witness_inputs": oks[-1]["inputs"][:64], "obs": oks[-1]["obs"][:16], "path_decisions": oks[-1]["depth"]})
        for r in vs:
            ok = False; nats = []
            for b in bins:
                n = native_run(b, nm, [r["inputs"]])[0]; nats.append(n); ok = ok or reproduces(r["detail"], n)
            if ok: viol.append((h, r, nats))
            else: problems.append("%s: counterexample %s does not reproduce natively: %s inputs=%s" % (nm, r["detail"], json.dumps(nats)[:600], r["inputs"][:60]))
    known = load_findings(pid); reported = []; kf = {}
    for h, r, nats in viol:
        m = None
        for f in known:
            if f.get("status") == "open" and f["harness"] == h["name"] and re.fullmatch(f["detail"], r["detail"]): m = f
        if m: kf.setdefault(m["id"], (m, r))
        else: reported.append((h, r, nats))
    for m, r in kf.values(): print("KNOWN-FINDING: property=%s %s: %s" % (pid, m["id"], m["what"]))
    for f in known:
        if f.get("status") == "open" and f["id"] not in kf and any(h["name"] == f["harness"] for h in hs): print("note: known finding %s no longer reproduces" % f["id"])
    rdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*.json")): os.remove(f)
    seen = {}
    for h, r, nats in reported:
        d = h["name"] + " " + r["detail"]
        if d in seen: continue
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, h["name"], len(seen))); seen[d] = path
        json.dump({"property": pid, "harness": h["name"], "detail": r["detail"], "what": h["q"], "bounds": h["bounds"], "inputs": r["inputs"], "symbolic_stack": demangle([re.sub(r":\d+$", "", x) for x in r.get("stack", "").split(";")]), "native": nats,
                   "how_to_replay": "echo %s > /tmp/in && %s %s /tmp/in" % (",".join(map(str, r["inputs"])), os.path.relpath(bins[0], ROOT), h["name"])}, open(path, "w"), indent=1)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(seen),
          "coverage": {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": replayed, "samples": samples[:12] or ["none"],
                       "explanation": "states = symbolic paths run to completion (each stands for every input satisfying its path condition); transitions = symbolic forks decided by z3; traces = path witnesses replayed natively in dev and release builds with equal observations",
                       "queries_discharged": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "queries_unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2), "ir_instructions_executed": tot["instrs"], "assertions_decided": tot["checks"],
                       "functions_encoded": len(fns), "functions": sorted(set(demangle(sorted(fns))))[:400], "harnesses": perh, "incomplete": problems[:20], "known_findings": [k for k in kf]},
          "assumptions": sp.get("assumptions", []) + COMMON}
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for d, p in seen.items(): print("VIOLATION property=%s replay=%s  (%s)" % (pid, p, d))
    for p in problems: print("NO-ANSWER: " + p[:1800])
    print("%s %s: paths=%d queries=%d solver=%.1fs replayed=%d violations=%d problems=%d wall=%.1fs" % (pid, tier, tot["paths"], tot["queries"], tot["solver_s"], replayed, len(seen), len(problems), time.time() - t0))
    return 1 if seen else 2 if problems else 0

COMMON = ["bounded: only inputs within each harness' stated bounds are covered", "execution semantics: rustc's LLVM IR of the lto build (overflow checks on), x86-64, IEEE-754 round-to-nearest; heap addresses abstracted, allocation succeeds below the stated limit",
          "hashers' finish() is modelled as a constant (every value is a legal hash), so hash-table iteration order is the insertion order", "z3 4.8.12 and the executor are trusted for 'unsat'; every 'sat' is replayed natively"]

def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        os.makedirs(BUILD, exist_ok=True)
        try: print(engine())
        except Broken as b: print(b); return 2
        return 0
    if not a or a[0] != "check": print(__doc__); return 2
    tier = "quick"; only = None
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1].split(",")
    try: return check(a[1], tier, only)
    except Broken as b: print("NO-ANSWER: %s" % b); return 2
sys.exit(main())
