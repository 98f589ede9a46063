#!/usr/bin/env python3
"""check.py PROPERTY TIER: decides one property on /repo's current tree.

1. builds the verifier (gocv) and runs it on everything the property's
   contracts rest on (their own functions, the callees whose contracts were
   used, theorems, refinements);
2. runs the bounded stand-ins of the property, if it has any;
3. if an obligation is not discharged, looks for a concrete failing input on
   the real code (oracle program), and reports the violation with or without it.

Exit 0: the property held. Exit 1: VIOLATION line."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
T0 = time.time()
LIMIT = 860.0          # a check has 900 s


def left():
    return LIMIT - (time.time() - T0)


def goenv():
    e = dict(os.environ)
    e.setdefault("GOPATH", "/root/go")
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOTOOLCHAIN"] = "local"
    e.pop("GOWORK", None)
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def build_verifier():
    src = glob.glob(V + "/gocv/*")
    d = digest(src)
    out = V + "/bin/gocv"
    stamp = V + "/bin/gocv.sha"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == d:
        return out
    os.makedirs(V + "/bin", exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    p = run(["go", "build", "-o", tmp, "."], cwd=V + "/gocv", env=goenv())
    if p.returncode != 0:
        print(p.stdout)
        sys.exit("the verifier does not build")
    os.replace(tmp, out)
    with open(stamp, "w") as f:
        f.write(d)
    return out


def modcopy(tmp):
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(tmp, f))
    return os.path.join(tmp, "go.mod")


def known_findings(prop):
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: property=%s " % prop):])
    return out


def build_oracle(tmp, mod, prop=""):
    """The oracle program is compiled into /repo's module through an overlay."""
    rep = {}
    tags = []
    if prop == "C20":
        # the shell's handlers are not exported: a file in the package reaches them
        rep[REPO + "/cmd/GoBCDiceREPL/repl/zz_verif_export.go"] = V + "/oracle/repl/export.go"
        tags = ["-tags", "verifrepl"]
    for f in glob.glob(V + "/oracle/*.go"):
        rep[REPO + "/cmd/zzverif/" + os.path.basename(f)] = f
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(tmp, "oracle")
    p = run(["go", "build", *tags, "-overlay", ov, "-modfile", mod, "-o", out, "./cmd/zzverif"], cwd=REPO, env=goenv())
    if p.returncode != 0:
        return None, p.stdout
    return out, ""


def start_oracle(exe, prop, mode, secs, seed, out):
    d = out + ".d"
    os.makedirs(d, exist_ok=True)
    cmd = "ulimit -v 14000000; exec timeout -k 5 %d %s %s -prop %s -secs %d -seed %d -out %s" % (
        secs + 30, exe, mode, prop, secs, seed, out)
    e = goenv()
    e["GOMEMLIMIT"] = "3GiB"
    e["GOMAXPROCS"] = "2"
    log = open(out + ".log", "w")
    return subprocess.Popen(["bash", "-c", cmd], env=e, cwd=d, stdout=log, stderr=log), out


def end_oracle(h):
    """Returns (status, data): 0 nothing found, 1 found, None no answer."""
    p, out = h
    p.wait()
    log = open(out + ".log", errors="replace").read()
    data = None
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = None
    if data is None:
        # the process died: the case under way is the failing one
        cur = out + ".cur"
        if p.returncode not in (0, 124, 137) and os.path.exists(cur):
            try:
                c = json.load(open(cur))
                return 1, {"found": True, "case": c, "what": "the process died while running this case: " + log[-1500:], "evaluations": 0}
            except ValueError:
                pass
        return None, {"output": log[-2000:]}
    return (1 if data.get("found") else 0), data


class Oracles:
    """n oracle processes with seeds of their own, run at the same time."""

    def __init__(self, exe, prop, mode, secs, seed, n, tmp):
        self.hs = [start_oracle(exe, prop, mode, secs, seed * 1000 + i, os.path.join(tmp, "%s%d.json" % (mode, i))) for i in range(n)]

    def found(self):
        for p, out in self.hs:
            if p.poll() is not None and os.path.exists(out):
                try:
                    if json.load(open(out)).get("found"):
                        return True
                except ValueError:
                    pass
        return False

    def end(self):
        rs = [end_oracle(h) for h in self.hs]
        got = [d for st, d in rs if st == 1]
        ans = [d for st, d in rs if st is not None]
        none = [d for st, d in rs if st is None]
        stats = {"processes": len(rs), "evaluations": sum(d.get("evaluations", 0) for d in ans),
                 "distinct_nontrivial": sum(d.get("distinct", 0) for d in ans),
                 "samples": [x for d in ans for x in (d.get("samples") or [])[:3]][:8]}
        return (got[0] if got else None), stats, none


def verify(cmd, orc, log):
    """Runs the verifier. Once the oracle has a failing input the verdict
    stands: the verifier gets another 75 s to name the obligation."""
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=goenv(), start_new_session=True)
    cut = None
    while True:
        try:
            p.wait(1)
            break
        except subprocess.TimeoutExpired:
            pass
        if orc and cut is None and orc.found():
            cut = time.time() + 75
        if cut and time.time() > cut or left() < 40:
            os.killpg(p.pid, 9)
            p.wait()
            break
    return open(log, errors="replace").read()


def main():
    if sys.argv[1:] == ["--setup"]:
        build_verifier()
        # warm the build cache and see that the oracle builds
        with tempfile.TemporaryDirectory() as tmp:
            build_oracle(tmp, modcopy(tmp))
        print("setup done")
        return 0
    if sys.argv[1] == "--replay":
        prop = json.load(open(sys.argv[2])).get("property", "")
        with tempfile.TemporaryDirectory() as tmp:
            exe, msg = build_oracle(tmp, modcopy(tmp), prop)
            if exe is None:
                print(msg)
                return 2
            p = run(["bash", "-c", "ulimit -v 14000000; exec timeout -k 5 120 %s replay %s" % (exe, os.path.abspath(sys.argv[2]))], env=goenv())
            print(p.stdout)
            return p.returncode
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = json.load(open(V + "/tools/props.json"))[prop]
    gocv = build_verifier()
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        return decide(prop, tier, seed, cfg, gocv, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, cfg, gocv, tmp):
    mod = modcopy(tmp)
    repf = os.path.join(tmp, "report.json")
    per = 300 if tier == "quick" else 500
    budget = int(min(620 if tier == "quick" else 700, left() - 60))
    bounded = cfg.get("bounded")
    oexe = msg = orc = None
    thorough = tier != "quick"
    if bounded or thorough:
        oexe, msg = build_oracle(tmp, mod, prop)
        if oexe:
            orc = Oracles(oexe, prop, "bounded", cfg.get("bounded_secs", 40) * (6 if thorough else 1), seed, 3 if cfg.get("verify", True) else 7, tmp)
    rep = {"reports": [], "trusted": {}}
    out = ""
    if cfg.get("verify", True):
        cmd = [gocv, "-repo", REPO, "-spec", V + "/contracts", "-modfile", mod, "-prop", prop, "-t", str(per), "-budget", str(budget), "-o", repf]
        out = verify(cmd, orc, os.path.join(tmp, "gocv.log"))
        print(out)
    failed = []          # (obligation, reason)
    if not cfg.get("verify", True):
        pass
    elif os.path.exists(repf):
        rep = json.load(open(repf))
        if not rep["reports"]:
            failed.append(("no obligations", "nothing was generated for this property"))
    else:
        # stopped early, or the tree does not load
        at = [l for l in out.splitlines() if l[:11].strip() in ("failed", "unsupported", "missing", "undecided") or l.startswith("      ") and " instances: " in l]
        bad = [l for l in at if not l.rstrip().endswith("(helper)")] or at
        failed.extend(("verifier", l.strip()) for l in bad[:20])
        if not bad and orc and orc.found():
            failed.append(("verifier", "stopped before an obligation was settled"))
        elif not bad:
            failed.append(("verifier", out[-3000:]))
    nobl = ndis = 0
    for r in rep["reports"]:
        f = 0
        for o in r["obligations"] or []:
            nobl += 1
            if o["failed"]:
                f += 1
                if not r.get("helper"):
                    failed.append((r["key"] + " " + o["name"], json.dumps({k: o.get(k) for k in ("reason", "path", "model")})[:3000]))
            else:
                ndis += 1
        if r["status"] not in ("ok", "failed") and not r.get("helper"):
            failed.append((r["key"], r["status"] + ": " + r.get("why", "")))
        elif r["status"] == "failed" and not f and not r.get("helper"):
            failed.append((r["key"], r.get("why", "failed")))
    # helper contracts that failed are not used by anyone: their obligations
    # do not count at all
    for r in rep["reports"]:
        if r.get("helper") and r["status"] != "ok":
            for o in r["obligations"] or []:
                nobl -= 1
                if not o["failed"]:
                    ndis -= 1
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "gocv -prop %s (verification conditions from go/ssa of /repo; z3 4.8.12, z3 5.3.2, cvc5 1.1.2)" % prop,
        "trusted_base": cfg.get("trusted", []) + [
            "gocv's translation of go/ssa to logic and its rewriting engine; go/types, go/ssa; z3/cvc5 (unsat answers)",
            "extern contracts: " + ", ".join(rep.get("trusted", {}).get("extern_contracts") or []),
            "axioms and lemmas given: " + ", ".join(rep.get("trusted", {}).get("axioms") or []),
        ],
        "functions_under_contract": [r["key"] for r in rep["reports"] if r["status"] == "ok"],
        "helper_contracts_dropped": [r["key"] for r in rep["reports"] if r.get("helper") and r["status"] != "ok"],
        "functions_inlined": sorted({i for r in rep["reports"] for i in (r.get("inlined") or [])}),
        "queries": sum(r["queries"] for r in rep["reports"]),
        "by_rewriting": sum(r["rewrites"] for r in rep["reports"]),
        "by_z3_5_3_2": sum(r["by_z3"] for r in rep["reports"]),
        "by_cvc5": sum(r["by_cvc5"] for r in rep["reports"]),
        "by_z3_4_8_12": sum(r["by_z3_new"] for r in rep["reports"]),
        "solver_seconds": round(sum(r["solver_seconds"] for r in rep["reports"]), 1),
        "paths": sum(r["paths"] for r in rep["reports"]),
        "verifier_notes": sorted({n for r in rep["reports"] for n in (r.get("notes") or [])}),
    }
    # vacuity: a property without obligations, or with none of its own, is an error
    if not failed and ndis == 0 and cfg.get("verify", True):
        failed.append(("vacuous", "no obligation was discharged"))
    viol = None
    os.makedirs(V + "/.cache/replay", exist_ok=True)
    replay = "%s/.cache/replay/%s.json" % (V, prop)
    found = None
    if orc:
        found, stats, none = orc.end()
        stats["what"] = bounded or "the property's cases, as a cross-check of the proof"
        cov["bounded_standins"] = stats
        if bounded and found is None and none:
            failed.append(("bounded stand-in", "no answer: " + str(none)[:1500]))
    elif bounded:
        cov["oracle"] = "does not build: " + msg[-1500:]
        print(cov["oracle"])
        failed.append(("bounded stand-in", "the harness does not build against this tree: " + msg[-1500:]))
    if found is None and failed:
        if oexe is None and not bounded:
            oexe, msg = build_oracle(tmp, mod, prop)
        secs = int(min(100, left() - 45))
        if oexe and secs > 5:
            found, stats, _ = Oracles(oexe, prop, "search", secs, seed, 7, tmp).end()
            cov["search_after_failure"] = stats
    if found is not None:
        viol = {"property": prop, "failed_obligations": failed[:20], "failing_input": found, "replay_cmd": "tools/replay.sh " + replay}
    elif failed:
        viol = {"property": prop, "failed_obligations": failed[:50], "failing_input": None, "verifier_output": out[-6000:]}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
        "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": 1 if viol else 0,
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        with open(replay, "w") as f:
            json.dump(viol, f, indent=1, ensure_ascii=False)
        for o, why in failed[:10]:
            print("not discharged: %s: %s" % (o, why[:600]))
        if found is not None:
            print("failing input: " + json.dumps(found, ensure_ascii=False)[:2000])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    print("property %s held: %d obligations discharged, %.0f s" % (prop, ndis, time.time() - T0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
