#!/usr/bin/env python3
"""Decide one property: build LLVM IR of the harness + figment from /repo's current
tree, execute it symbolically (figsym/Z3), replay natively, write evidence."""
import sys, os, json, subprocess, glob, time, shutil, re, random

V = os.path.dirname(os.path.abspath(__file__))
TGT = "x86_64-unknown-linux-gnu"
sys.path.insert(0, V)
from props_config import CONFIG


def env(extra=None):
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(extra or {})
    return e


def die(msg, code=2):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    os._exit(code)


def spawn(cmd, cwd, e, log):
    f = open(log, "w")
    return subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT)


def tail(path, n=40):
    try:
        return "\n".join(open(path, errors="replace").read().splitlines()[-n:])
    except OSError:
        return ""


def demangle(s):
    if s.startswith("_ZN"):
        out, i = [], 3
        while i < len(s) and s[i].isdigit():
            j = i
            while s[j].isdigit():
                j += 1
            n = int(s[i:j])
            out.append(s[j:j + n])
            i = j + n
        if out and re.fullmatch(r"h[0-9a-f]{16}", out[-1]):
            out.pop()
        r = "::".join(out)
        for a, b in (("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$u20$", " "), ("$u7b$", "{"), ("$u7d$", "}"), ("$C$", ","), ("$BP$", "*"), ("$LP$", "("), ("$RP$", ")"), ("..", "::")):
            r = r.replace(a, b)
        return r
    if s.startswith("_R"):
        out, i = [], 2
        while i < len(s):
            m = re.match(r"(?:s[0-9A-Za-z]*_)?(\d+)_?", s[i:])
            if m and (int(m.group(1)) > 1 or True) and s[i].isdigit():
                n = int(m.group(1))
                st = i + m.end()
                if 0 < n <= 80 and st + n <= len(s):
                    out.append(s[st:st + n])
                    i = st + n
                    continue
            i += 1
        return "::".join(out)
    return s


def build(pid, cfg, tier, out):
    """returns (engine, ll, native)"""
    ht = os.path.join(V, "harness", "target")
    os.makedirs(ht, exist_ok=True)
    b = cfg["bin"]
    procs = []
    procs.append(("engine", spawn(["cargo", "build", "--offline", "--release", "-q"], os.path.join(V, "engine"),
                                  env({"CARGO_TARGET_DIR": os.path.join(V, "engine", "target")}), out + "/build-engine.log")))
    e = env({"RUSTFLAGS": "--cfg figsym -C no-vectorize-loops -C no-vectorize-slp", "CARGO_TARGET_DIR": ht + "/sym", "FSH_TIER": tier})
    procs.append(("llvm-ir", spawn(["cargo", "rustc", "--offline", "--release", "--target", TGT, "--bin", b, "--", "--emit=llvm-ir", "-C", "linker=true"],
                                   os.path.join(V, "harness"), e, out + "/build-ir.log")))
    e = env({"RUSTFLAGS": "", "CARGO_TARGET_DIR": ht + "/native", "FSH_TIER": tier})
    procs.append(("native", spawn(["cargo", "build", "--offline", "--target", TGT, "--bin", b],
                                  os.path.join(V, "harness"), e, out + "/build-native.log")))
    bad = []
    for n, p in procs:
        if p.wait() != 0:
            bad.append(n)
    for n in bad:
        f = {"engine": "build-engine", "llvm-ir": "build-ir", "native": "build-native"}[n]
        print("--- %s build failed:\n%s" % (n, tail("%s/%s.log" % (out, f))))
    if bad:
        die("build of %s failed" % ", ".join(bad))
    lls = sorted(glob.glob("%s/sym/%s/release/deps/%s-*.ll" % (ht, TGT, b)), key=os.path.getmtime)
    if not lls:
        die("no LLVM IR produced")
    return os.path.join(V, "engine/target/release/figsym"), lls[-1], "%s/native/%s/debug/%s" % (ht, TGT, b)


def native_replay(native, files, timeout=600):
    r = {}
    if not files:
        return r
    for i in range(0, len(files), 64):
        try:
            p = subprocess.run([native] + files[i:i + 64], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, cwd="/tmp")
        except subprocess.TimeoutExpired:
            die("native replay timed out")
        cur = None
        for l in p.stdout.decode(errors="replace").splitlines():
            if l.startswith("BEGIN "):
                cur = l[6:]
                r[cur] = []
            elif cur is not None:
                r[cur].append(l)
    return r


def write_replay(path, inputs, comment):
    with open(path, "w") as f:
        for c in comment:
            f.write("# " + c.replace("\n", " ") + "\n")
        for n, h in inputs:
            f.write("%s %s\n" % (n, h))


def failing_native(nat, files, known, confirmed, knownhits):
    """native runs that fail a check of their own are violations, whatever the engine made of the path"""
    for f in files:
        ev = nat.get(f, [])
        fail = [l for l in ev if l.startswith(("FAIL", "PANIC"))]
        if not fail:
            continue
        hit = [k for k in known if re.search(k["match"], fail[0]) and not k.get("inputs")]
        if hit:
            knownhits[hit[0]["what"]] = f
        else:
            confirmed.append(({"msg": "native run"}, f, fail[0]))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CONFIG[pid]
    t0 = time.time()
    out = os.path.join(V, "out", "%s-%s" % (pid, tier))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    engine, ll, native = build(pid, cfg, tier, out)
    tb = time.time()
    lim = cfg.get("time", {}).get(tier, 420 if tier == "quick" else 3000)
    cmd = [engine, "--ll", ll, "--out", out + "/parts", "--jobs", str(cfg.get("jobs", 8)), "--time", str(lim), "--keep", "24" if tier == "quick" else "64",
           "--seed", str(seed), "--switches", str(cfg.get("switches", {}).get(tier, 3)), "--max-viols", "4"] + cfg.get("args", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    eng_out = p.stdout.decode(errors="replace")
    print(eng_out.strip()[-2000:])
    parts = [json.load(open(f)) for f in sorted(glob.glob(out + "/parts/part.*.json"))]
    tot = {}
    reach, used, samples, viols, incomplete, inc_inputs = {}, set(), [], [], [], []
    for d in parts:
        for k, v in d.items():
            if isinstance(v, int):
                tot[k] = max(tot.get(k, 0), v) if k in ("maxsteps",) else tot.get(k, 0) + v
        for k, v in d["reach"].items():
            reach[k] = reach.get(k, 0) + v
        used |= set(d["used"])
        samples += d["samples"]
        viols += d["viols"]
        incomplete += d["incomplete"]
        inc_inputs += d["inc_inputs"]
    if p.returncode != 0 or not parts:
        die("engine failed: rc=%s\n%s" % (p.returncode, eng_out[-3000:]))
    te = time.time()

    # --- replay counterexamples natively ---------------------------------
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json"))) if k["property"] == pid and k["status"] == "known"]
    confirmed, unconfirmed, knownhits = [], [], {}
    os.makedirs(out + "/replay", exist_ok=True)
    files = []
    seen = set()
    vv = []
    for v in viols:
        key = v["msg"]
        if sum(1 for x in vv if x[0]["msg"] == key) >= 6 or len(vv) >= 60:
            continue
        f = "%s/replay/violation-%d.txt" % (out, len(vv))
        write_replay(f, v["inputs"], ["property " + pid, v["msg"], "schedule " + v["sched"], "stack " + " < ".join(demangle(x) for x in v["trace"][:8]), "run: %s %s" % (native, f)])
        vv.append((v, f))
    nat = native_replay(native, [f for _, f in vv])
    for v, f in vv:
        ev = nat.get(f, [])
        end = ev[-1] if ev else "END ?"
        fail = [l for l in ev if l.startswith(("FAIL", "PANIC"))]
        if cfg.get("concurrent") and not fail and v["sched"]:
            # a schedule cannot be forced natively: stress the same inputs
            for _ in range(cfg.get("stress", 60)):
                ev = native_replay(native, [f]).get(f, [])
                fail = [l for l in ev if l.startswith(("FAIL", "PANIC"))]
                if fail:
                    break
        if fail or end not in ("END 0", "END 3"):
            what = fail[0] if fail else end
            hit = None
            for k in known:
                if re.search(k["match"], v["msg"] + " | " + what) and all(any(n == kn and re.fullmatch(kh, h) for n, h in v["inputs"]) for kn, kh in k.get("inputs", {}).items()):
                    hit = k
            if hit:
                knownhits[hit["what"]] = f
            else:
                confirmed.append((v, f, what))
        else:
            unconfirmed.append((v, f, ev[-3:]))

    # --- paths the engine could not follow to their end: run one input of each natively
    files = []
    for i, ins in enumerate(inc_inputs[:256]):
        f = "%s/replay/undecided-%d.txt" % (out, i)
        write_replay(f, ins, ["property " + pid, "a path the engine could not follow to its end", "run: %s %s" % (native, f)])
        files.append(f)
    failing_native(native_replay(native, files), files, known, confirmed, knownhits)

    # --- validate sampled paths natively ---------------------------------
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    by = {}
    sel = []
    for s in samples:  # prefer variety of reached labels
        k = tuple(s["reach"])
        by[k] = by.get(k, 0) + 1
        if by[k] <= 4:
            sel.append(s)
    for s in samples:
        if len(sel) >= (150 if tier == "quick" else 600):
            break
        if s not in sel:
            sel.append(s)
    sel = sel[:600]
    files = []
    os.makedirs(out + "/traces", exist_ok=True)
    for i, s in enumerate(sel):
        f = "%s/traces/%d.txt" % (out, i)
        write_replay(f, s["inputs"], ["path sample"])
        files.append(f)
    nat = native_replay(native, files)
    failing_native(nat, files, known, confirmed, knownhits)
    validated, mismatches = 0, []
    for s, f in zip(sel, files):
        ev = nat.get(f, [])
        logs = [l for l in ev if l.startswith("LOG ")]
        rs = [l[6:] for l in ev if l.startswith("REACH ")]
        exp = ["LOG %s %s" % (n, h) for n, h in s["log"]]
        if cfg.get("concurrent"):
            ok = "OK" in ev
        else:
            ok = [l.rstrip() for l in logs] == [l.rstrip() for l in exp] and rs == s["reach"] and "OK" in ev
        if ok:
            validated += 1
        else:
            mismatches.append((f, ev[-6:], exp[-4:], s["reach"]))
    wall = time.time() - t0
    missing = [r for r in cfg["reach"] if not reach.get(r)]
    fns = sorted({demangle(u) for u in used})
    fig = [f for f in fns if "figment" in f]
    shown = []
    for s in sel[:12]:
        shown.append({"inputs": {n: h for n, h in s["inputs"][:24]}, "labels": s["reach"][:12], "instructions": s["steps"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": validated,
            "samples": shown,
            "exhaustive": not incomplete, "paths_not_decided": len(incomplete),
            "technique": "symbolic execution of the LLVM IR compiled from /repo, decided by Z3",
            "instructions_executed_symbolically": tot.get("steps", 0),
            "assertions_decided_by_solver": tot.get("asserts_sym", 0), "assertions_reduced_to_constants_by_path": tot.get("asserts_const", 0),
            "path_conditions_confirmed_by_solver": tot.get("path_confirm", 0),
            "solver_queries": tot.get("queries", 0), "solver_queries_from_cache": tot.get("cached", 0), "solver_sat": tot.get("sat", 0), "solver_unsat": tot.get("unsat", 0), "solver_unknown": tot.get("unknown", 0), "solver_queries_retried_with_tactics": tot.get("retried", 0),
            "solver_seconds": round(tot.get("solver_ns", 0) / 1e9, 3), "single_byte_domain_decisions": tot.get("domain", 0),
            "concretisations": tot.get("concretize", 0), "thread_switch_points": tot.get("switches", 0),
            "functions_encoded": fig[:400], "functions_encoded_total": len(fns), "functions_encoded_figment": len(fig),
            "bounds": cfg["bounds"].get(tier, cfg["bounds"]["quick"]) if isinstance(cfg["bounds"], dict) else cfg["bounds"],
            "outside": cfg["outside"], "reach_labels": reach,
            "engine_seconds": round(te - tb, 2), "build_seconds": round(tb - t0, 2),
            "known_findings_hit": sorted(knownhits),
        },
        "assumptions": cfg.get("assumptions", []) + COMMON,
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: paths=%d forks=%d queries=%d (%.1fs) asserts=%d+%d validated=%d/%d build=%.0fs engine=%.0fs" % (
        pid, tier, tot.get("paths", 0), tot.get("forks", 0), tot.get("queries", 0), tot.get("solver_ns", 0) / 1e9,
        tot.get("asserts_sym", 0), tot.get("asserts_const", 0), validated, len(sel), tb - t0, te - tb))
    for w, f in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if confirmed:
        for v, f, what in confirmed[:5]:
            print("  %s -> native: %s" % (v["msg"], what))
        v, f, what = confirmed[0]
        print("VIOLATION property=%s replay=%s" % (pid, f))
        sys.stdout.flush()
        os._exit(1)
    if unconfirmed:
        for v, f, e in unconfirmed[:5]:
            print("  unconfirmed: %s %s native=%s stack=%s" % (v["msg"], f, e, [demangle(x) for x in v["trace"][:4]]))
        die("solver counterexample did not reproduce natively", 3)
    if mismatches:
        for m in mismatches[:5]:
            print("  mismatch:", m)
        die("native run of a sampled path disagrees with the symbolic execution", 4)
    if incomplete:
        # every path that was explored satisfies the property, but not all were
        for m in sorted(set(incomplete))[:5]:
            print("  not explored:", m)
        print("INCOMPLETE property=%s: held on the %d paths explored, %d not decided" % (pid, tot.get("paths", 0), len(incomplete)))
        sys.stdout.flush()
        os._exit(0)
    if missing:
        die("vacuous: labels never reached: %s" % missing, 6)
    print("PASS property=%s" % pid)
    sys.stdout.flush()
    os._exit(0)


COMMON = [
    "rustc/LLVM compile the harness and figment faithfully to the analysed LLVM IR (release, opt-level 1, overflow checks and debug assertions on)",
    "figsym's IR semantics and Z3 4.8.12 are trusted; sampled paths and every counterexample are replayed against a native build",
    "memory allocation never fails; uninitialised memory reads as zero; RandomState keys are fixed",
]

if __name__ == "__main__":
    main()
