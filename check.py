#!/usr/bin/env python3
"""Decide one property: build /repo + its harnesses to LLVM IR, explore every path symbolically (symx + z3),
replay what the solver finds against the real code, write evidence.  usage: check.py P01 [quick|thorough]"""
import sys, os, re, json, subprocess, time, glob, shutil, threading
V = os.path.dirname(os.path.abspath(__file__))
PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
pkg = "h" + PID.lower(); crate = os.path.join(V, "h", PID.lower())
B = os.path.join(V, "build"); TG = os.path.join(B, "target"); OUT = os.path.join(B, "out", PID)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
BUDGET = float(os.environ.get("VERIF_BUDGET", "520" if TIER == "quick" else "9000"))
env = dict(os.environ, CARGO_TARGET_DIR=TG, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
           RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -C target-cpu=x86-64", CARGO_INCREMENTAL="0")
for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"): env.pop(k, None)

def log(*a): print(*a, flush=True)
def fail(msg):
    log("CHECK-ERROR property=%s %s" % (PID, msg)); sys.exit(2)
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return p.returncode, p.stdout.decode("utf8", "replace")
def build_engine(res):
    res["engine"] = run(["make", "-j4", "-C", os.path.join(V, "symx"), "OUT=" + os.path.join(B, "symx")])
def build_ir(res):
    ll = os.path.join(TG, "release", "deps", pkg + ".ll")
    if os.path.exists(ll): os.remove(ll)
    for d in glob.glob(os.path.join(TG, "release", ".fingerprint", pkg + "-*")): shutil.rmtree(d, ignore_errors=True)
    res["ir"] = run(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-ir"], cwd=crate, env=env)
def build_replay(res):
    res["replay"] = run(["cargo", "build", "--offline", "--bin", "replay"], cwd=crate, env=env)

def native(exe, lines, timeout=60, vmem=8 << 30):
    """Run replay cases; returns one result per line ('crash ...' / 'timeout' where it did not answer)."""
    import resource
    res = []; i = 0
    def lim(): resource.setrlimit(resource.RLIMIT_AS, (vmem, vmem)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    while i < len(lines):
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=lim)
        try:
            o, _ = p.communicate(("\n".join(lines[i:]) + "\n").encode(), timeout=timeout); to = False
        except subprocess.TimeoutExpired:
            p.kill(); o, _ = p.communicate(); to = True
        got = o.decode("utf8", "replace").split("\n")[:-1]
        res += got; i += len(got)
        if i < len(lines):
            res.append("timeout" if to else "crash signal %s" % (-p.returncode if p.returncode < 0 else p.returncode)); i += 1
    return res
def shown(exe, line):
    """What the harness observed (documents written or read) on one case."""
    try:
        p = subprocess.run(["timeout", "20", exe], input=(line + "\n").encode(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(os.environ, VS_SHOW="1"))
        return "".join("  " + l[:2000] + "\n" for l in p.stderr.decode("utf8", "replace").split("\n")[:40] if l)
    except Exception: return ""
def case(h, r): return " ".join([h] + [s[1] for s in r["syms"]])
def text(b):
    try: return bytes.fromhex(b).decode("utf8")
    except Exception: return "hex:" + b

STEPS = 400000000 if PID == "P28" else 50000000  # P28 is about big documents
def main():
    os.makedirs(B, exist_ok=True)
    sys.path.insert(0, os.path.join(V, "tools")); import dict as words; words.write(os.path.join(B, "dict.rs"))
    for f in glob.glob(os.path.join(V, "evidence", "replay", PID + "_*")): os.remove(f)
    res = {}; ths = [threading.Thread(target=f, args=(res,)) for f in (build_engine, build_ir, build_replay)]
    for t in ths: t.start()
    ths[0].join(); ths[1].join()
    for k in ("engine", "ir"):
        if res[k][0]: ths[2].join(); fail("build of %s failed:\n%s" % (k, res[k][1][-3000:]))
    ll = os.path.join(TG, "release", "deps", pkg + ".ll")
    names = sorted(set(re.findall(r"^define [^@\n]*@([qtk]_\w+)\(", open(ll, errors="replace").read(), re.M)))
    qs = [n for n in names if n[0] == "q" or (n[0] == "t" and TIER == "thorough")]; ks = [n for n in names if n[0] == "k"]
    only = os.environ.get("VERIF_ONLY")
    if only: qs = [n for n in qs if re.fullmatch(only, n)]; ks = [n for n in ks if re.fullmatch(only, n)]
    shutil.rmtree(OUT, ignore_errors=True); os.makedirs(OUT)
    t_build = time.time() - T0; 
    left = max(30.0, BUDGET - t_build)
    cmd = [os.path.join(B, "symx", "symx"), ll, "--out", OUT, "--jobs", str(JOBS), "--time", str(left), "--seed", str(SEED), "--samples", "6", "--max-steps", str(STEPS)]
    p = subprocess.run(cmd + qs + ks, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    err = p.stderr.decode("utf8", "replace")
    t_sym = time.time() - T0 - t_build
    ths[2].join()
    if res["replay"][0]: fail("build of replay failed:\n" + res["replay"][1][-3000:])
    exe = os.path.join(TG, "debug", "replay")
    H = {}
    for n in qs + ks:
        parts = [json.load(open(f)) for f in glob.glob(os.path.join(OUT, n + ".*.json"))]
        m = {"parts": len(parts), "violations": [], "samples": [], "functions": set(), "covers": 0, "incomplete": not parts, "why": "no result" if not parts else ""}
        for d in parts:
            for k in ("paths", "assumed_away", "forks", "instructions", "symbolic_branches", "concretizations", "z3_queries", "table_proofs", "cache_hits", "domain_decided", "unsat", "sat", "unknown", "z3_s"):
                m[k] = m.get(k, 0) + d[k]
            m["max_path_steps"] = max(m.get("max_path_steps", 0), d["max_path_steps"])
            m["covers"] |= d["covers"]; m["violations"] += d["violations"]; m["samples"] += d["samples"]; m["functions"] |= set(d["functions"])
            if d["incomplete"]: m["incomplete"] = True; m["why"] = d["why"]
        H[n] = m
    known = [l.strip() for l in open(os.path.join(V, "known_findings.txt")) if l.strip() and not l.startswith("#")] if os.path.exists(os.path.join(V, "known_findings.txt")) else []
    kf = {}
    for l in known:
        m = re.match(r"finding: property=(\S+) harness=(\S+) kind=(\S+) message=\"(.*?)\" (.*)$", l)
        if m and m.group(1) == PID: kf[m.group(2)] = m.groups()
    bad = []; found = []; errors = []
    if p.returncode not in (0,): errors.append("engine exit %d: %s" % (p.returncode, err[-600:]))
    # ---- violations: replay against the real build
    for n in qs + ks:
        m = H[n]; vs = sorted(m["violations"], key=lambda v: (v["kind"], v["msg"]))[:6]
        if not vs: continue
        rs = []
        for v in vs:
            rs.append(native(exe, [case(n, v)], timeout=20)[0])
        for v, r in zip(vs, rs):
            conf = r.startswith("violation") or r.startswith("panic") or r == "timeout" or r.startswith("crash")
            if not conf: errors.append("%s: engine reports %s (%s) but the real code answers '%s' for %s" % (n, v["kind"], v["msg"], r[:200], case(n, v))); continue
            k = kf.get(n)
            kind = "hang" if r == "timeout" else r.split(" ")[0]; msg = r[len(kind) + 1:] if kind != "hang" else ""
            if k and k[2] == kind and (k[3] == msg or (kind in ("panic", "crash") and k[3] in msg) or kind == "hang"): found.append((n, k)); continue
            bad.append((n, v, r))
    # ---- completed paths: compare with the real code
    val = 0; samples_out = []
    lines = [(n, s) for n in qs for s in H[n]["samples"][:40]]
    rs = native(exe, [case(n, s) for n, s in lines]) if lines else []
    for (n, s), r in zip(lines, rs):
        want = "ok covers=%d obs=%s" % (s["covers"], s["obs"])
        if r != want:
            errors.append("%s: engine path and real code disagree on %s\n  engine: %s\n  real:   %s" % (n, case(n, s), want[:600], r[:600]))
        else: val += 1
    seen = set()
    for (n, s) in lines:
        if n in seen: continue
        seen.add(n)
        samples_out.append({"harness": n, "assignment": {a: b for a, b in s["syms"]}, "observed": [text(x) for x in s["obs"].split(";") if x][:4]})
    for n in qs:
        if H[n]["incomplete"]: errors.append("%s: exploration incomplete: %s" % (n, H[n]["why"]))
        elif not H[n]["violations"] and not (H[n]["covers"] & 1): errors.append("%s: assertion never reached (vacuous)" % n)
    if not qs: errors.append("no harness")
    # ---- evidence
    tot = lambda k: sum(H[n].get(k, 0) for n in H)
    fns = sorted(set().union(*[H[n]["functions"] for n in H]) if H else [])
    dem = run(["c++filt"], input=("\n".join(fns)).encode())[1].split("\n") if fns else []
    repo_f = sorted(set(f for f in dem if "yaserde" in f or re.search(r"\bh%s\b" % PID.lower(), f)))
    meta = {}
    mp = os.path.join(crate, "meta.json")
    if os.path.exists(mp): meta = json.load(open(mp))
    ev = {"property": PID, "tier": TIER, "seed": SEED, "level": "model_checking", "wall_s": round(time.time() - T0, 2), "violations": len(bad),
      "coverage": {"states": tot("paths") + tot("assumed_away"), "transitions": tot("symbolic_branches"), "traces_validated_against_impl": val, "samples": samples_out[:12],
        "paths_completed": tot("paths"), "paths_outside_assumptions": tot("assumed_away"), "instructions_executed": tot("instructions"), "harnesses": {n: {k: H[n].get(k) for k in ("paths", "assumed_away", "symbolic_branches", "instructions", "max_path_steps", "incomplete")} for n in H},
        "solver": {"name": "z3 (C API)", "queries": tot("z3_queries"), "unsat": tot("unsat"), "sat": tot("sat"), "unknown": tot("unknown"), "byte_condition_proofs": tot("table_proofs"), "decided_from_proved_byte_tables": tot("domain_decided"), "cache_hits": tot("cache_hits"), "time_s": round(tot("z3_s"), 3)},
        "functions_encoded_total": len(fns), "functions_encoded_repo": repo_f[:400], "bounds": meta.get("bounds", []), "build_s": round(t_build, 1), "explore_s": round(t_sym, 1),
        "exhaustive": not errors and not bad,
        "explanation": "states = feasible paths explored, transitions = branch decisions on symbolic data; every path is decided for all input bytes that follow it"},
      "assumptions": meta.get("assumptions", []) + ["LLVM IR of rustc -O2 (overflow checks on) for x86-64 is the code under analysis", "the engine's IR semantics (cross-checked by native replay of sampled paths) and z3 are trusted", "allocation succeeds; HashMap seeds are fixed", "path length limit %.0e instructions: exceeding it is reported as a hang" % STEPS]}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", PID + ".json"), "w"), indent=1)
    for n in qs + ks: log("%-28s paths=%-7d assumed=%-6d branches=%-7d queries=%-6d steps<=%-8d%s" % (n, H[n].get("paths", 0), H[n].get("assumed_away", 0), H[n].get("symbolic_branches", 0), H[n].get("z3_queries", 0), H[n].get("max_path_steps", 0), " INCOMPLETE " + H[n]["why"] if H[n]["incomplete"] and n[0] != "k" else ""))
    for n, k in sorted(set((n, k) for n, k in found)): log("KNOWN-FINDING: property=%s %s" % (PID, k[4]))
    if bad:
        rd = os.path.join(V, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, (n, v, r) in enumerate(bad):
            if (n, v["msg"]) in seen: continue
            seen.add((n, v["msg"]))
            path = os.path.join(rd, "%s_%s_%d.txt" % (PID, n, i))
            with open(path, "w") as f:
                f.write("property %s, harness %s (%s/src)\nsolver model of the symbolic bytes:\n" % (PID, n, crate))
                for a, b in v["syms"]: f.write("  %s = %s  %r\n" % (a, b, text(b)))
                f.write(shown(exe, case(n, v)))
                f.write("engine: %s %s\n  at %s\nreal code (dev build): %s\nreplay: echo '%s' | %s\n" % (v["kind"], v["msg"], v["stack"], r, case(n, v), exe))
            log("  %s: %s" % (n, r[:300])); log("VIOLATION property=%s replay=%s" % (PID, path))
        log("total %.1fs" % (time.time() - T0)); sys.exit(1)
    if errors:
        fail("\n  ".join(errors[:12]))
    log("property=%s %s: held on %d paths, %d solver queries, %d paths replayed on the real code; build %.1fs explore %.1fs total %.1fs" % (PID, TIER, tot("paths"), tot("z3_queries"), val, t_build, t_sym, time.time() - T0))
main()
