#!/usr/bin/env python3
"""run_check.py <property id>: decide one property on /repo's working tree.

1. govc generates verification conditions from /repo's current source and the contracts in
   contracts/, and discharges them with SMT solvers.  Every obligation discharged => proved.
2. the property's replay harness (harness/<id>) executes the real code against an oracle. It looks
   for a failing input when the proof fails, and is a bounded supplement when it does not.
"""
import json, os, subprocess, sys, time, hashlib, shutil, tempfile

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
pid = sys.argv[1]
tier = os.environ.get("VERIF_TIER", "quick")
if len(sys.argv) > 2:
    tier = sys.argv[2]
if tier not in ("quick", "thorough"):
    tier = "quick"
seed = int(os.environ.get("VERIF_SEED", "1") or "1")
env = dict(os.environ, HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
           GOENV="off", GO111MODULE="on", GOTOOLCHAIN="local", GOWORK="off", GOPROXY="off", GOFLAGS="-mod=readonly",
           VERIF_TIER=tier, VERIF_SEED=str(seed))
env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin")
t0 = time.time()
EV = os.path.join(V, "evidence")
os.makedirs(EV, exist_ok=True)
work = tempfile.mkdtemp(prefix="vcheck_" + pid + "_")


def build_govc():
    b = os.path.join(V, "govc", "govc")
    srcs = [os.path.join(V, "govc", f) for f in os.listdir(os.path.join(V, "govc")) if f.endswith(".go")]
    if not os.path.exists(b) or any(os.path.getmtime(s) > os.path.getmtime(b) for s in srcs):
        e = dict(env, GOFLAGS="")
        subprocess.run(["go", "build", "-o", b, "."], cwd=os.path.join(V, "govc"), env=e, check=True)
    return b


def read(p):
    try:
        return json.load(open(p))
    except Exception:
        return None


def run(cmd, **kw):
    to = kw.pop("timeout", None)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=to)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, _ = p.communicate()
        return -9, (o or "") + "\n[time limit]"


# ---- 1. replay harness ----
hdir = os.path.join(V, "harness", pid.lower())
hres, hcov, htxt, hstate = None, None, "", "none"
if os.path.isdir(hdir):
    ov = {}

    def add(src, dst):
        for root, _, fs in os.walk(src):
            for f in fs:
                if f.endswith(".go"):
                    ov[os.path.join(dst, os.path.relpath(os.path.join(root, f), src))] = os.path.join(root, f)
    add(os.path.join(V, "harness", "vh"), REPO + "/verifh/vh")
    lib = os.path.join(V, "harness", "lib")
    if os.path.isdir(lib):
        add(lib, REPO + "/verifh/lib")
    add(hdir, REPO + "/verifh/" + pid.lower())
    ovf = os.path.join(work, "overlay.json")
    json.dump({"Replace": ov}, open(ovf, "w"))
    rp, cv = os.path.join(work, "replay.json"), os.path.join(work, "cov.json")
    exe = os.path.join(work, "h.test")
    rc, htxt = run(["go", "test", "-vet=off", "-overlay", ovf, "-c", "-o", exe, "./verifh/" + pid.lower()], cwd=REPO, env=env, timeout=600)
    if rc != 0:
        hstate = "does-not-build"
    else:
        lim = 240 if tier == "quick" else 3000
        e = dict(env, VERIF_REPLAY=rp, VERIF_COV=cv, GOMEMLIMIT="8GiB")
        sc = os.path.join(work, "scratch")
        os.makedirs(sc)
        rc, htxt = run([exe, "-test.run", "^TestVerif", "-test.timeout", "%ds" % lim], cwd=sc, env=e, timeout=lim + 60)
        hcov = read(cv)
        hres = read(rp)
        hstate = "passed" if rc == 0 and hres is None else ("failed" if hres is not None else "crashed")
        if hstate == "crashed":
            hres = {"kind": "crash", "observed": htxt[-4000:], "input": "see output"}

# ---- 2. proof ----
govc = build_govc()
outj = os.path.join(work, "govc.json")
gcmd = [govc, "-repo", REPO, "-specs", os.path.join(V, "contracts"), "-prop", pid, "-tier", tier, "-out", outj]
if hstate in ("failed", "crashed"):
    gcmd.append("-fast")  # a failing input is known: only name the failed obligations
has_contracts = any(("property " + pid + " ") in open(os.path.join(V, "contracts", f)).read() for f in os.listdir(os.path.join(V, "contracts")) if f.endswith(".spec"))
gres, gtxt, grc = {}, "", 0
if has_contracts:
    grc, gtxt = run(gcmd, env=env, timeout=600 if tier == "quick" else 3000)
    gres = read(outj) or {}
failed = [dict(obligation=f["Func"] + ": " + f["Label"], at=f["Pos"], solver=f["Backend"], output=f["Out"]) for f in gres.get("Failed") or []]
errors = list(gres.get("Errors") or []) + ["vacuous: " + v for v in gres.get("Vacuous") or []]
if has_contracts and grc != 0 and not failed and not errors:
    errors.append("the verifier did not produce a result: " + gtxt[-2000:])
obl = len(gres.get("VCs") or [])
if has_contracts and grc == 0 and obl == 0:
    errors.append("no obligations were generated")
proved = has_contracts and grc == 0 and not failed and not errors

# ---- known findings ----
known = []
kf = os.path.join(V, "known_findings.txt")
for line in open(kf) if os.path.exists(kf) else []:
    line = line.strip()
    if line.startswith("known: property=" + pid + " "):
        known.append(line[len("known: property=" + pid + " "):])

# ---- verdict ----
viol = None
rpath = os.path.join(EV, "replay-%s.json" % pid)
if os.path.exists(rpath):
    os.remove(rpath)
if hstate in ("failed", "crashed"):
    viol = "VIOLATION property=%s replay=%s" % (pid, rpath)
elif has_contracts and not proved:
    viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)
elif hstate == "does-not-build" and not has_contracts:
    viol = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rpath)
if viol:
    json.dump({"property": pid, "failed_obligations": failed, "verifier_errors": errors, "failing_input": hres,
               "harness": {"state": hstate, "output": htxt[-6000:], "rerun": "VERIF_SEED=%d python3 %s/run_check.py %s %s" % (seed, V, pid, tier)},
               "verifier_output": gtxt[-20000:]}, open(rpath, "w"), indent=1)

level = "proof" if has_contracts else "exploration"
fns = gres.get("Functions") or []
trusted = []
for k, v in sorted((gres.get("Trusted") or {}).items()):
    trusted.append("trusted contract %s: %s" % (k, v))
for a in gres.get("Axioms") or []:
    trusted.append("axiom " + a)
for a in gres.get("External") or []:
    trusted.append("library function model: " + a)
trusted += ["govc's verification-condition generator (Go semantics, /verif/govc)", "SMT solvers z3 5.x, z3 4.8.12, cvc5 1.1.2",
            "float64 arithmetic is exact real arithmetic extended with -Inf, +Inf and NaN (no rounding, no overflow of finite values)",
            "integers are mathematical (no wrap-around)"]
cov = {}
if has_contracts:
    cov.update({"obligations": obl, "discharged": sum(1 for v in gres.get("VCs") or [] if v["Status"] == "proved"),
                "checker_cmd": " ".join(gcmd), "trusted_base": trusted,
                "functions_under_contract": [{"function": f["Key"], "obligations": f["N"], "discharged": f["Proved"], "inlined": f["Inlined"] or []} for f in fns],
                "lemmas": [{"lemma": f["Key"], "obligations": f["N"], "discharged": f["Proved"]} for f in gres.get("Lemmas") or []],
                "by_back_end": gres.get("Backends") or {}, "solver_s": round(gres.get("SolverS", 0), 2),
                "vacuity_checks": gres.get("Smoke", 0)})
if hcov:
    cov.update({"evaluations": hcov["evaluations"], "distinct_nontrivial": hcov["distinct_nontrivial"], "samples": hcov["samples"],
                "rule": "bounded replay harness on the real code (not counted as proof): cases distinct by their full input text; trivial ones (empty or single-element) not counted; harness state: " + hstate})
elif not has_contracts:
    cov.update({"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rule": "harness state: " + hstate})
ass = list(gres.get("Assumes") or [])
json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ass,
           "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
shutil.rmtree(work, ignore_errors=True)
print("%s: %d/%d obligations discharged over %d functions; harness %s%s; %.1fs" % (
    pid, cov.get("discharged", 0), obl, len(fns), hstate, (" (%d cases)" % hcov["evaluations"]) if hcov else "", time.time() - t0))
for k in known:
    print("KNOWN-FINDING: property=%s %s" % (pid, k))
if viol:
    for f in failed[:20]:
        print("failed obligation:", f["obligation"], "at", f["at"])
    for e in errors[:20]:
        print("verifier:", e)
    if hres:
        print("failing input:", json.dumps(hres)[:2000])
    print(viol)
    sys.exit(1)
sys.exit(0)
