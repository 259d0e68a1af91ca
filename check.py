#!/usr/bin/env python3
"""check.py PROPERTY : decides one property by symbolic execution of the real code.

Builds the engine (llsym) and the harness crate (which links /repo's current tree), runs the
property's harnesses symbolically, replays counterexamples on the native binary, writes
evidence/<PROPERTY>.json.  Exit 0 held on everything explored, 1 violation, 2 no answer."""
import concurrent.futures as cf, glob, json, os, shutil, subprocess, sys, time

D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from jobs import PROPS, COMMON_ASSUMPTIONS  # noqa: E402

T0 = time.time()
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SPEC = PROPS[PID]
TARGET = os.path.join(D, "target")
RUN = os.path.join(TARGET, "run", PID)
EV = os.path.join(D, "evidence", PID + ".json")
BUDGET = 800 if TIER == "quick" else 6 * 3600


def fail(msg, code=2):
    print("ERROR: " + msg)
    sys.exit(code)


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    env.pop("RUSTFLAGS", None)
    p = subprocess.Popen(["cargo", "build", "--release", "--offline", "-q"], cwd=D + "/llsym",
                         env=dict(env, CARGO_TARGET_DIR=TARGET + "/e"),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    henv = dict(env, RUSTFLAGS="--cfg perception_verif -Awarnings", CARGO_TARGET_DIR=TARGET + "/h")
    q = subprocess.run(["cargo", "rustc", "--offline", "-q", "--", "--emit=llvm-ir,link", "-Awarnings"],
                       cwd=D + "/harness", env=henv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = p.communicate()[0]
    if p.returncode:
        fail("engine does not build\n" + out[-3000:])
    if q.returncode:
        fail("harness does not build against /repo\n" + q.stdout[-3000:])
    lls = sorted(glob.glob(TARGET + "/h/debug/deps/vharness-*.ll"), key=os.path.getmtime)
    for x in lls[:-1]:
        os.remove(x)
    return TARGET + "/e/release/llsym", lls[-1], TARGET + "/h/debug/vharness"


def jobs():
    out = []
    for j in SPEC["jobs"]:
        if TIER == "quick" and j.get("tier", "quick") != "quick":
            continue
        n = j.get("shards", 1)
        for i in range(n):
            out.append(dict(j, shard=i, shards=n))
    # the longest first
    out.sort(key=lambda j: -j.get("weight", 1))
    return out


def run(j, eng, ll, bin_, deadline):
    tag = j["h"] + ("_%d" % j["shard"] if j["shards"] > 1 else "") + ("_k%s" % j["hash"] if j.get("hash") else "")
    js = os.path.join(RUN, tag + ".json")
    left = max(20, deadline - time.time())
    secs = int(min(j.get("secs", 300 if TIER == "quick" else 3600), left))
    cmd = [eng, ll, j["h"], "--bin", bin_, "--json", js, "--replay-dir", RUN, "--secs", str(secs),
           "--timeout", str(j.get("timeout", 8000)), "--validate-secs", str(j.get("validate", 20)),
           "--keep", str(j.get("keep", 16))]
    if j["shards"] > 1:
        cmd += ["--shard", "%d/%d" % (j["shard"], j["shards"])]
    if j.get("bits"):
        cmd += ["--bits", "1"]
    if j.get("hash"):
        cmd += ["--hash", str(j["hash"] + SEED)]
    if TIER == "thorough" and j.get("xcheck"):
        cmd += ["--xcheck", "1"]
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 200)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 4, "hard timeout"
    try:
        r = json.load(open(js))
    except Exception:
        r = None
    return dict(job=j, tag=tag, rc=rc, out=out, r=r, wall=time.time() - t)


def main():
    shutil.rmtree(RUN, ignore_errors=True)
    os.makedirs(RUN)
    os.makedirs(os.path.dirname(EV), exist_ok=True)
    if os.path.exists(EV):
        os.remove(EV)
    eng, ll, bin_ = build()
    tb = time.time() - T0
    deadline = T0 + BUDGET
    res = []
    viol = None
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = [ex.submit(run, j, eng, ll, bin_, deadline) for j in jobs()]
        for f in cf.as_completed(futs):
            x = f.result()
            res.append(x)
            if x["r"] and x["r"]["violations"] and not os.environ.get("VERIF_ALL"):
                if not all(known(v) for v in x["r"]["violations"]):
                    viol = x
                    for g in futs:
                        g.cancel()
                    break
        if viol:
            subprocess.run(["pkill", "-P", str(os.getpid()), "llsym"], stderr=subprocess.DEVNULL)
    return eng, res, tb


KNOWN = []
kf = os.path.join(D, "known_findings.json")
if os.path.exists(kf):
    KNOWN = [k for k in json.load(open(kf))["findings"] if k["property"] == PID]


def known(v):
    """a violation listed in known_findings.json, identified by harness and obligation"""
    h = os.path.basename(v["input"]).rsplit("_", 1)[0].split("_k")[0]
    for k in KNOWN:
        if h.startswith(k["harness"]) and k["native"] in v["native"]:
            return k
    return None


eng, res, tb = main()
res.sort(key=lambda x: x["tag"])
tot = dict((k, 0) for k in ("paths", "pruned", "forks", "instructions", "asserts", "asserts_trivial", "queries", "cached",
                            "by_eval", "sat", "unsat", "unknown", "unknown_branches", "validated", "mismatched", "no_model"))
solver = 0.0
fns, samples, notes, errors, viols, kfound = set(), [], [], [], [], []
per = {}
for x in res:
    r = x["r"]
    if r is None:
        errors.append("%s: engine ended with %s: %s" % (x["tag"], x["rc"], x["out"][-300:]))
        continue
    for k in tot:
        tot[k] += r.get(k, 0)
    solver += r["solver_s"]
    fns.update(r["functions"])
    samples += r["samples"][:1]
    per[x["tag"]] = dict(bounds=x["job"].get("bounds", ""), paths=r["paths"], obligations=r["obligations"], queries=r["queries"],
                         solver_s=r["solver_s"], wall_s=round(x["wall"], 1), reach=r["reach"], inconclusive=r["inconclusive"][:3])
    for v in r["violations"]:
        k = known(v)
        (kfound if k else viols).append(dict(v, harness=x["job"]["h"], known=k))
    for u in r["unconfirmed"]:
        errors.append("%s: counterexample does not reproduce on the binary: %s" % (x["tag"], u))
    for m in r["mismatches"]:
        errors.append("%s: engine and binary disagree: %s" % (x["tag"], m))
    for s in r["solver_errors"]:
        errors.append("%s: solver error: %s" % (x["tag"], s))
    for i in r["inconclusive"]:
        if "time limit" in i or "undecided" in i or "unknown" in i or "path limit" in i or "solver gave no answer" in i:
            notes.append("%s: %s" % (x["tag"], i))
        elif i.startswith("unsupported:") and "step limit" not in i and r["reach"] and r["validated"]:
            # the engine could not follow some paths; they are left out, and named
            notes.append("%s: paths left out: %s" % (x["tag"], i))
        else:
            errors.append("%s: %s" % (x["tag"], i))
if not viols:
    # vacuity: every harness has to reach its witnesses
    want = {}
    for j in jobs():
        want.setdefault(j["h"], set()).update(str(t) for t in j.get("reach", [1]))
    for h, tags in want.items():
        got = set()
        for x in res:
            if x["job"]["h"] == h and x["r"]:
                got |= set(k for k, v in x["r"]["reach"].items() if v)
        if tags - got and not any(k["harness"] == h for k in kfound):
            errors.append("%s: witness %s not reached (vacuous)" % (h, sorted(tags - got)))

discharged = tot["asserts"] - len(viols) - len(kfound) - sum(1 for n in notes if "undecided" in n or "unknown" in n)
cov = dict(
    explanation="Symbolic execution of the LLVM IR of /repo's current tree (compiled on this run); every assertion is decided for all "
                "values of the symbolic inputs on each explored path by an SMT solver (z3, nonlinear reals / bit-vectors / IEEE floats) "
                "or by the term simplifier when it reduces to true.",
    states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=tot["validated"],
    samples=samples[:8] or ["(no completed path)"],
    obligations=tot["asserts"], discharged=max(0, discharged), simplified_to_true=tot["asserts_trivial"],
    solver_queries=tot["queries"], solver_sat=tot["sat"], solver_unsat=tot["unsat"], solver_unknown=tot["unknown"],
    answered_from_cache=tot["cached"], answered_by_evaluation=tot["by_eval"], solver_seconds=round(solver, 2),
    instructions_interpreted=tot["instructions"], unknown_branches_explored_both_ways=tot["unknown_branches"],
    pruned_paths=tot["pruned"], paths_without_model=tot["no_model"],
    functions_encoded=sorted(fns), n_functions_encoded=len(fns),
    bounds=SPEC["bounds"], outside=SPEC["outside"], per_harness=per, incomplete=notes, errors=errors,
    known_findings=[k["known"]["id"] for k in kfound], build_s=round(tb, 1))
ev = dict(property=PID, tier=TIER, seed=SEED, level="model_checking", coverage=cov,
          assumptions=SPEC.get("assumptions", []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(viols))
json.dump(ev, open(EV, "w"), indent=1)

for k in {k["known"]["id"]: k for k in kfound}.values():
    print("KNOWN-FINDING: property=%s %s" % (PID, k["known"]["what"]))
for n in notes[:20]:
    print("INCOMPLETE: " + n)
print("%s %s: %d paths, %d obligations, %d solver queries (%.1f s), %d paths replayed on the binary, %.0f s"
      % (PID, TIER, tot["paths"], tot["asserts"], tot["queries"], solver, tot["validated"], time.time() - T0))
if viols:
    v = viols[0]
    for v in viols[:3]:
        print("violated: %s: %s; native run: %s" % (v["harness"], v["what"], v["native"]))
    print("VIOLATION property=%s replay=%s" % (PID, viols[0]["input"]))
    print("  (replay: %s/target/h/debug/vharness %s %s)" % (D, viols[0]["harness"], viols[0]["input"]))
    sys.exit(1)
if errors:
    for e in errors[:20]:
        print("ERROR: " + e)
    sys.exit(2)
sys.exit(0)
