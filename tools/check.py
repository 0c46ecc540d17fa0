#!/usr/bin/env python3
"""check.py PROP            decide property PROP on the current tree of /repo
   check.py --replay FILE   run the failing case of a replay file again

1. Builds gvc, the verification condition generator, and has it generate and
   discharge every obligation of the property's contracts (/verif/spec) from
   /repo's current source.
2. Builds the harness against /repo's current source and runs it: a bounded
   search for a failing input.  It stands in for the functions which are not
   under contract, and finds the input which replays a failed obligation.
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import meta

REPO = "/repo"

def env(tmp, mod):
    e = dict(os.environ)
    e.update(GOFLAGS=mod, GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", TMPDIR=tmp, GO111MODULE="on", GOWORK="off")
    return e

def run(cmd, cwd, e, limit):
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -9, out + "\n(ended after %ds)" % limit

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.m = meta.PROPS[prop]
        self.tmp = tempfile.mkdtemp(prefix="check-%s-" % prop)
        self.t0 = time.time()

    def build(self, what):
        exe = os.path.join(self.tmp, what)
        rc, out = run(["go", "build", "-o", exe, "."], os.path.join(HERE, what), env(self.tmp, "-mod=mod"), 300)
        if rc != 0:
            return None, out
        return exe, out

    def prove(self):
        """the report of gvc, or None where the property has no contracts"""
        if not self.m.get("proof"):
            return None
        exe, out = self.build("gvc")
        if exe is None:
            raise SystemExit("gvc does not build:\n" + out)
        rep = os.path.join(self.tmp, "report.json")
        scale = "1" if self.tier == "quick" else "3"
        rc, out = run([exe, "-repo", REPO, "-spec", os.path.join(HERE, "spec"), "-prop", self.prop, "-out", rep, "-scale", scale,
                       "-keep", os.path.join(self.tmp, "q")], REPO, env(self.tmp, ""), 600 if self.tier == "quick" else 3600)
        self.proof_out = out
        try:
            return json.load(open(rep))
        except Exception:
            return {"ok": False, "functions": [], "obligations": 0, "discharged": 0, "failures": [{"Fn": "", "Name": "no obligations can be generated", "Solver": out[-3000:]}]}

    def harness(self, budget, seed):
        exe = getattr(self, "vh", None)
        if exe is None:
            exe, out = self.build("harness")
            if exe is None:
                return {"broken": out[-3000:]}
            self.vh = exe
        res = os.path.join(self.tmp, "result.json")
        if os.path.exists(res):
            os.remove(res)
        rc, out = run([exe, "-seed", str(seed), "-tier", self.tier, "-budget", "%ds" % budget, "-out", res, self.prop], self.tmp, env(self.tmp, "-mod=mod"), budget + 250)
        try:
            r = json.load(open(res))
        except Exception:
            return {"broken": out[-3000:]}
        if r.get("failed"):
            r["confirmed"] = any(self.again(seed, r["case"]) for _ in range(1 if "does not return" in r["msg"] else 5))
        return r

    def again(self, seed, case):
        rc, out = run([self.vh, "-seed", str(seed), "-tier", self.tier, "-case", str(case), self.prop], self.tmp, env(self.tmp, "-mod=mod"), 150)
        return rc != 0

    def replay_file(self, d):
        p = os.path.join(HERE, "replay")
        os.makedirs(p, exist_ok=True)
        f = os.path.join(p, "%s.json" % self.prop)
        json.dump(d, open(f, "w"), indent=1)
        return f

    def main(self):
        m, quick = self.m, self.tier == "quick"
        pr = self.prove()
        bad = pr is not None and not pr["ok"]
        h = None
        if m.get("harness", True):
            h = self.harness(m.get("budget", 20) if quick else 300, self.seed)
            if bad and not h.get("failed") and not h.get("broken"):
                # look longer for an input which shows the failed obligation
                h2 = self.harness(100, self.seed + 1000)
                h2["evaluations"] = h2.get("evaluations", 0) + h["evaluations"]
                h = h2
        code = 0
        found = h is not None and h.get("failed") and h.get("confirmed")
        kf = [l for l in open(os.path.join(HERE, "known-findings.txt")) if l.startswith("known: property=%s " % self.prop)]
        for l in kf:
            print("KNOWN-FINDING: " + l[len("known: "):].strip())
        fails = []
        if pr is not None:
            fails = [dict(function=d.get("Fn"), obligation=d.get("Name"), position=d.get("Pos"), path=d.get("Trace"), solver=(d.get("Solver") or "")[:6000]) for d in pr.get("failures") or []]
            print("%s: %d of %d obligations discharged, %d functions and lemmas" % (self.prop, pr.get("proved", 0), pr.get("obligations", 0), len(pr.get("functions") or [])))
            for f in fails[:10]:
                print("  not discharged: %s: %s" % (f["function"], f["obligation"]))
        if h is not None and "evaluations" in h:
            print("%s: bounded search: %d cases, %d distinct" % (self.prop, h["evaluations"], h.get("distinct_nontrivial", 0)))
        if found:
            f = self.replay_file(dict(property=self.prop, kind="failing input", what=h["msg"], seed=h["seed"], case=h["case"], tier=self.tier, log=h["log"], failed_obligations=fails,
                                      replay="python3 tools/check.py --replay FILE"))
            print(h["msg"][:2000])
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
            code = 1
        elif bad or (h is not None and h.get("broken")):
            f = self.replay_file(dict(property=self.prop, kind="failed obligations", failed_obligations=fails, harness=(h or {}).get("broken"), verifier=getattr(self, "proof_out", "")[-20000:]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (self.prop, f))
            code = 1
        self.evidence(pr, h, code)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return code

    def evidence(self, pr, h, code):
        m = self.m
        cov = {}
        if pr is not None:
            fns = pr.get("functions") or []
            cov.update(obligations=pr.get("obligations", 0), discharged=pr.get("proved", 0),
                       checker_cmd="gvc -repo /repo -spec /verif/spec -prop %s (z3-new, cvc5, z3)" % self.prop,
                       trusted_base=meta.TRUSTED + ["assumed contract of " + t for t in pr.get("trusted") or []] + ["assumed in a contract: " + a for a in pr.get("assumed") or []] + ["axiom " + a for a in pr.get("axioms") or []],
                       functions_under_contract=[f["name"] for f in fns if f["kind"] == "function"],
                       lemmas=[f["name"] for f in fns if f["kind"] == "lemma"],
                       inlined_functions=pr.get("inlined") or [],
                       discharged_by=pr.get("by_solver") or {}, solver_s=round(pr.get("solver_ms", 0) / 1000.0, 1),
                       vacuity_checks=pr.get("vacuity_checks", 0),
                       not_under_contract=m.get("unverified", ""))
        if h is not None and "evaluations" in h:
            b = dict(evaluations=h["evaluations"], distinct_nontrivial=h.get("distinct_nontrivial", 0), rule=h.get("rule", ""), samples=[s[:1500] for s in (h.get("samples") or [])[:2]])
            if m["level"] in ("exploration", "other"):
                cov.update(b)
            cov["bounded_stand_in"] = dict(b, label="bounded: a random search, not counted as proved", seconds=round(h.get("wall_s", 0), 1))
            if h.get("failed") and not h.get("confirmed"):
                cov["not_reproduced"] = dict(case=h["case"], msg=h["msg"][:500])
        if m["level"] == "other":
            cov["explanation"] = m["note"]
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=m["level"], coverage=cov,
                  assumptions=meta.ASSUMPTIONS + m.get("assumptions", []), wall_s=round(time.time() - self.t0, 1), violations=code)
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        c = Check(d["property"], d.get("tier", "quick"), d.get("seed", 1))
        if d["kind"] != "failing input":
            print(d.get("verifier"))
            return 1
        c.vh, out = c.build("harness")
        rc, out = run([c.vh, "-seed", str(d["seed"]), "-tier", c.tier, "-case", str(d["case"]), c.prop], c.tmp, env(c.tmp, "-mod=mod"), 300)
        print(out)
        shutil.rmtree(c.tmp, ignore_errors=True)
        return 1 if rc else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return Check(sys.argv[1], tier, seed).main()

sys.exit(main())
