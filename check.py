#!/usr/bin/env python3
"""Decides one property: builds the code of /repo to LLVM IR, runs its harnesses through the symbolic
engine, replays every counterexample natively, compares sampled symbolic paths with native runs, and
writes evidence/<id>.json.   usage: check.py P01 [--tier quick|thorough] [--only HARNESS] [--no-build]"""
import sys, os, json, subprocess, time, concurrent.futures as cf, fcntl, shutil, tempfile, threading

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
REPO = "/repo"
TRIPLE = "riscv64gc-unknown-linux-gnu"
sys.path.insert(0, V)
from specs import PROPS, BASE_ASSUMPTIONS

T0 = time.time()
BUDGET = 840


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def fail(msg, code=2):
    print("ERROR", msg, flush=True)
    sys.exit(code)


def env(flags, target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC"):
            del e[k]
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_TARGET_DIR"] = target
    if flags is not None:
        e["RUSTFLAGS"] = "-A warnings -W dependency_on_unit_never_type_fallback " + flags
    return e


def cargo(args, cwd, e, what):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        fail("building %s failed" % what)
    return r.stdout


def build_engine():
    cargo(["build", "--release", "--offline"], V + "/engine", env(None, B + "/engine"), "the engine")
    return B + "/engine/release/irsx"


def build_ir():
    e = env("--cfg irsx --cfg shims --cfg verif --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp", B + "/sx")
    e["RUSTC_BOOTSTRAP"] = "1"
    out = cargo(["build", "-Zbuild-std=std,panic_abort", "--target", TRIPLE, "--offline", "--message-format=json"],
                V + "/sx", e, "the IR of /repo")
    deps = os.path.join(B, "sx", TRIPLE, "debug", "deps")
    lls, sx = [], None
    for line in out.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-artifact":
            continue
        for f in m["filenames"]:
            if f.startswith(deps) and (f.endswith(".rlib") or f.endswith(".rmeta")):
                ll = os.path.join(deps, os.path.basename(f)[3:].rsplit(".", 1)[0] + ".ll")
                if os.path.exists(ll) and ll not in lls:
                    lls.append(ll)
    own = [x for x in lls if os.path.basename(x).startswith("sx-")]
    if not own:
        c = [os.path.join(deps, x) for x in os.listdir(deps) if x.startswith("sx-") and x.endswith(".ll")]
        if not c:
            fail("no IR for the harness crate")
        sx = max(c, key=os.path.getmtime)
        lls.append(sx)
    else:
        sx = own[0]
    lls.sort(key=lambda x: x != sx)
    path = B + "/modules.txt"
    with open(path, "w") as f:
        f.write("\n".join(lls) + "\n")
    return path


def build_replay(model):
    d = "replay_model" if model else "replay"
    cargo(["build", "--offline"], V + "/" + d, env("--cfg verif" + (" --cfg shims" if model else ""), B + "/" + d), d)
    return "%s/%s/debug/%s" % (B, d, d)


def run_native(exe, harness, inp, hashes, tier, extra=()):
    d = tempfile.mkdtemp(prefix="vreplay")
    try:
        p = os.path.join(d, "in.bin")
        with open(p, "wb") as f:
            f.write(bytes.fromhex(inp))
        cmd = [exe, harness, p, "--trace"] + list(extra)
        if tier == "thorough":
            cmd.append("--thorough")
        if hashes is not None:
            h = os.path.join(d, "hashes.txt")
            with open(h, "w") as f:
                for k, i, o in hashes:
                    f.write("%d %s %s\n" % (k, i, o))
            cmd += ["--hashes", h]
        e = dict(os.environ, HOME=d)
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
        tr, res = None, ""
        for line in r.stdout.splitlines():
            if line.startswith("TRACE "):
                tr = line[6:].split("|") if line[6:] else []
            elif line == "TRACE":
                tr = []
            elif line.startswith("RESULT "):
                res = line[7:]
        return r.returncode, res, tr, r.stderr[-2000:]
    except subprocess.TimeoutExpired:
        return 99, "timeout", None, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_engine(exe, mods, h, tier, limit):
    out = "%s/out/%s.%s.json" % (B, h["name"], tier)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "--list", mods, "--entry", h["name"], "--out", out, "--tier", tier, "--max-seconds", str(int(limit)),
           "--query-ms", "20000" if tier == "quick" else "60000", "--fallback-ms", "60000" if tier == "quick" else "240000"]
    cmd += h.get("opts", [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit + 120)
    except subprocess.TimeoutExpired:
        return {"status": "inconclusive", "inconclusive": ["engine did not stop in time"], "entry": h["name"]}
    if not os.path.exists(out):
        return {"status": "error", "inconclusive": ["engine failed: " + r.stderr[-800:]], "entry": h["name"]}
    return json.load(open(out))


def known():
    p = V + "/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("status") == "open"]


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        os.makedirs(B, exist_ok=True)
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(build_ir), ex.submit(build_engine), ex.submit(build_replay, True), ex.submit(build_replay, False)]:
                f.result()
        return
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--only") + 1] if "--only" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = PROPS[pid]
    prop = [q for q in map(json.loads, open(V + "/properties.jsonl")) if q["id"] == pid][0]
    hs = [h for h in p["harnesses"] if (only is None or h["name"] == only) and (tier == "thorough" or not h.get("thorough_only"))]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    lock = open(B + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if "--no-build" in a:
        exe, mods, model = B + "/engine/release/irsx", B + "/modules.txt", B + "/replay_model/debug/replay_model"
    else:
        with cf.ThreadPoolExecutor(3) as ex:
            f1, f2, f3 = ex.submit(build_ir), ex.submit(build_engine), ex.submit(build_replay, True)
            mods, exe, model = f1.result(), f2.result(), f3.result()
    fcntl.flock(lock, fcntl.LOCK_UN)
    log("built")
    build_s = time.time() - T0
    total = BUDGET if tier == "quick" else 6 * 3600
    results = {}
    hs_sorted = sorted(hs, key=lambda h: -h.get("cost", 1))

    def job(h):
        lim = h.get("limit", {}).get(tier, 400 if tier == "quick" else 3600)
        lim = max(10, min(lim, total - (time.time() - T0) - 100))
        r = run_engine(exe, mods, h, tier, lim)
        log("%-44s %-12s paths %-6s asserts %-7s queries %-6s solver %.1fs wall %.1fs" % (
            h["name"], r["status"], r.get("paths"), r.get("assertions"), r.get("queries"), r.get("solver_s", 0), r.get("wall_s", 0)))
        return h, r

    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for h, r in ex.map(job, hs_sorted):
            results[h["name"]] = (h, r)

    errors, incomplete, violations, knowns = [], [], [], []
    validated, mismatches = 0, []
    opens = [k for k in known() if k["property"] == pid]
    real = None
    for h in hs:
        _, r = results[h["name"]]
        if r["status"] == "error":
            incomplete.append("%s: the engine could not run it: %s" % (h["name"], r["inconclusive"]))
            continue
        for v in r.get("violations", []):
            k = [k for k in opens if k["harness"] == h["name"] and k["label"] == v["label"] and k.get("msg", "") in v["msg"]]
            if k:
                knowns.append((k[0], v))
                continue
            # replay against the real code, first with the real cryptography and store
            if real is None:
                real = build_replay(False)
            code, res, _, err = run_native(real, h["name"], v["input"], None, tier) if not h.get("model_only") else (0, "", None, "")
            how = "real dependencies"
            if code != 1:
                code, res, _, err = run_native(model, h["name"], v["input"], v["hashes"], tier)
                how = "ideal hash and signature stand-ins"
            if code != 1 and v["label"] == "panic" and res.startswith("panic"):
                code = 1
            if code == 1:
                d = "%s/build/violations" % V
                os.makedirs(d, exist_ok=True)
                path = "%s/%s-%s-%d.json" % (d, pid, h["name"], len(violations))
                json.dump({"property": pid, "harness": h["name"], "label": v["label"], "msg": v["msg"], "fields": v["fields"],
                           "input_hex": v["input"], "hashes": v["hashes"], "backtrace": v["backtrace"], "native": res, "native_stderr": err,
                           "replayed_with": how, "tier": tier}, open(path, "w"), indent=1)
                violations.append(path)
                log("violation in %s: %s | %s | native: %s (%s)" % (h["name"], v["label"], v["msg"], res, how))
                for n, x in v["fields"][:40]:
                    log("    %s = %s" % (n, x))
            else:
                errors.append("%s: counterexample did not reproduce natively (%s, %s; native said: %s)" % (h["name"], v["label"], v["msg"], res))
        if r["status"] != "violation" and r.get("inconclusive"):
            incomplete.append("%s: %s" % (h["name"], "; ".join(r["inconclusive"][:4])))
        if not r.get("violations"):
            # an exploration that was cut short is reported as incomplete; one that ended must have reached everything
            short = incomplete if r.get("inconclusive") else errors
            for c in h.get("covers", []):
                if c not in r.get("covers", {}):
                    short.append("%s: never reached '%s' (the harness would pass vacuously)" % (h["name"], c))
            if not r.get("assertions") and not h.get("panic_only"):
                short.append("%s: no assertion was reached" % h["name"])
        # a spread of the explored paths, run on the natively compiled code
        if not r.get("violations"):
            for s in r.get("samples", []):
                code, res, tr, err = run_native(model, h["name"], s["input"], s["hashes"], tier)
                if tr == s["trace"] and code == 0:
                    validated += 1
                else:
                    mismatches.append("%s: input %s engine %s native %s (%s) %s" % (h["name"], s["input"][:400], s["trace"], tr, res, err[-300:]))
    for m in mismatches[:5]:
        errors.append("symbolic and native runs disagree: " + m)
    wall = time.time() - T0
    rs = [r for _, r in results.values()]
    tot = lambda k: sum(r.get(k, 0) or 0 for r in rs)
    cov = {
        "states": int(tot("paths")),
        "transitions": int(tot("instructions")),
        "traces_validated_against_impl": validated,
        "samples": [],
        "obligations": int(tot("assertions")),
        "obligations_folded_without_solver": int(tot("assertions_folded")),
        "queries": int(tot("queries")), "sat": int(tot("sat")), "unsat": int(tot("unsat")), "unknown": int(tot("unknown")),
        "solver_s": round(tot("solver_s"), 3), "build_s": round(build_s, 1),
        "exhaustive": not incomplete and not errors,
        "incomplete": incomplete,
        "functions_encoded": sorted({f for r in rs for f in r.get("functions", [])}),
        "bounds": p.get("bounds") or prop["quantifier"]["text"],
        "outside_bounds": p.get("outside") or "larger sizes, longer histories, and what the stand-ins leave out (DESIGN.md)",
        "explanation": "states = symbolic paths explored to an end, transitions = IR instructions executed symbolically; each path stands for every input that satisfies its path condition. Assertions are decided by z3 (cvc5 as second opinion on timeouts) over all values within the bounds.",
        "harnesses": {},
    }
    for h in hs:
        _, r = results[h["name"]]
        cov["harnesses"][h["name"]] = {k: r.get(k) for k in (
            "status", "paths", "ended_ok", "ended_panic_ok", "assumed_away", "forks", "instructions", "assertions", "queries", "unsat",
            "solver_s", "wall_s", "hash_applications", "covers")}
        cov["harnesses"][h["name"]]["what"] = h.get("what", "")
        for s in r.get("samples", [])[:1]:
            cov["samples"].append({"harness": h["name"], "input_hex": s["input"][:2000], "trace": s["trace"][:40]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": BASE_ASSUMPTIONS + p.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(violations)}
    with open("%s/evidence/%s.json" % (V, pid), "w") as f:
        json.dump(ev, f, indent=1)
    done = set()
    for k, v in knowns:
        if k["id"] not in done:
            done.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for x in incomplete:
        print("INCOMPLETE", x)
    log("%d paths, %d obligations, %d queries (%.1fs in solvers), %d traces validated natively" % (
        cov["states"], cov["obligations"], cov["queries"], cov["solver_s"], validated))
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (pid, v))
        sys.exit(1)
    if not cov["obligations"] and incomplete:
        errors.append("nothing was decided")
    if errors:
        for e in errors:
            print("ERROR", e)
        sys.exit(2)
    print("OK property=%s%s" % (pid, " (incomplete: see above)" if incomplete else ""))
    sys.exit(0)


main()
