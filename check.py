#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo's current working tree.

Order: (1) the deductive verifier discharges the property's obligations over the LLVM IR of the real
sources (vfv/, run with python3-vt); (2) the native drivers replay counterexamples, search for a failing
input, validate assumed contracts and stand in, bounded, for what the verifier does not reach.
Exit 0: held on everything explored. Exit 1: "VIOLATION property=<id> replay=<path>". Exit 2: the check broke.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vfv import native

# property -> list of (driver, software half float variant, share of the processes)
DRIVERS = {
    "C01": [("drv_value", False, 1), ("drv_value", True, 1)],
    "C02": [("drv_value", False, 1), ("drv_value", True, 1)],
    "C03": [("drv_value", False, 1), ("drv_value", True, 1)],
    "C04": [("drv_value", False, 1), ("drv_conv", False, 1)],
    "C05": [("drv_format", False, 1)], "C06": [("drv_format", False, 1)], "C07": [("drv_format", False, 1)],
    "C08": [("drv_conv", False, 1)], "C09": [("drv_conv", False, 1)], "C10": [("drv_conv", False, 1)],
    "C11": [("drv_conv", False, 1)], "C12": [("drv_conv", False, 1)], "C13": [("drv_conv", False, 1)],
    "C14": [("drv_tool", False, 1)], "C15": [("drv_tool", False, 1)], "C16": [("drv_tool", False, 1)],
    "C17": [("drv_tool", False, 1)],
}


def known_findings():
    keys = {}
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m:
            keys[(m.group(1), m.group(2))] = m.group(3).strip()
    return keys


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.budget = 6.0 if self.tier == "quick" else 150.0
        os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, ".build"))
        self.scratch = set()
        self.violations = []
        self.known = {}
        self.evals = self.distinct = 0
        self.samples, self.covers = [], {}
        self.procs = 0

    # ---- native ------------------------------------------------------------------------------
    def build(self):
        b = native.Builder(self.work)
        specs = DRIVERS[self.prop]
        for d, sw, _ in specs:
            b.driver_obj(d)
        for d, sw, _ in specs:
            b.lib_objs(sw)
            if d == "drv_tool":
                b.tool_objs()
        self.exe = {}
        for d, sw, _ in specs:
            self.exe[(d, sw)] = b.driver(d, sw)
        self.tool = b.tool() if self.prop == "C17" else None

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        if self.tool:
            e["VFC_TOOL"] = self.tool
        return e

    def drive(self, spec, seed, budget, extra=()):
        out = os.path.join(self.work, "replay-%s-%d-%d" % (spec[0], int(spec[1]), seed))
        cmd = [self.exe[spec], self.prop, "--seed", str(seed), "--budget", str(budget), "--out", out] + list(extra)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env(), cwd=self.work,
                               timeout=budget*4 + 240)
            rc, so, se = p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
        except subprocess.TimeoutExpired as e:
            rc, so, se = "timeout", (e.stdout or b"").decode("latin1"), (e.stderr or b"").decode("latin1")
        for m in re.finditer(r"^SCRATCH (/tmp/vfctool\w+)$", so, re.M):
            self.scratch.add(m.group(1))
        return rc, so, se, out

    def native_run(self, budget):
        specs = [(d, sw) for d, sw, _ in DRIVERS[self.prop]]
        n = 8
        jobs = [(specs[i % len(specs)], self.seed*8 + i) for i in range(n)]
        with cf.ThreadPoolExecutor(n) as pool:
            res = list(pool.map(lambda j: (j, self.drive(j[0], j[1], budget)), jobs))
        for (spec, seed), (rc, so, se, out) in res:
            self.procs += 1
            m = re.search(r"^RESULT evals=(\d+) distinct=(\d+)", so, re.M)
            if m:
                self.evals += int(m.group(1))
                self.distinct += int(m.group(2))
            for m in re.finditer(r"^KNOWN (\S+)\t(.*)$", so, re.M):
                self.known[m.group(1)] = m.group(2)
            for m in re.finditer(r"^SAMPLE (.*)$", so, re.M):
                if len(self.samples) < 24:
                    self.samples.append(m.group(1)[:600])
            for m in re.finditer(r"^COVER (.*) (\d+)$", so, re.M):
                self.covers[m.group(1)] = self.covers.get(m.group(1), 0) + int(m.group(2))
            f = re.search(r"^FAIL (.*)$", so, re.M)
            if f:
                self.add_violation(f.group(1), out, spec, seed, so, se)
            elif rc == "timeout":
                raise RuntimeError("driver %s seed %d timed out" % (spec[0], seed))
            elif rc != 0:
                again = self.drive(spec, seed, budget)
                if again[0] in (0, "timeout"):
                    raise RuntimeError("driver %s seed %d ended with %s once\n%s" % (spec[0], seed, rc, se[-2000:]))
                self.add_violation("the code under test ended the process (%s)" % rc, out, spec, seed, so, se)

    def add_violation(self, why, out, spec, seed, so, se):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d.txt" % (self.prop, len(self.violations)))
        case = ""
        if os.path.exists(out):
            case = open(out, errors="replace").read()
        with open(path, "w") as f:
            f.write("%s\n# %s\n# driver %s%s seed %d; replay: python3 check.py %s --replay %s\n# stderr:\n" %
                    (case, why, spec[0], " (software half floats)" if spec[1] else "", seed, self.prop, path))
            f.write("\n".join("# " + l for l in se[-3000:].splitlines()) + "\n")
        self.violations.append((path, why, ""))

    # ---- proofs ------------------------------------------------------------------------------
    def start_proof(self):
        self.proof_out = os.path.join(self.work, "proof.json")
        cmd = ["python3-vt", "-m", "vfv.prove", self.prop, "--work", self.work, "--out", self.proof_out,
               "--tier", self.tier, "--deadline", "560" if self.tier == "quick" else "2900"]
        if not os.path.exists(os.path.join(VERIF, "vfv", "prove.py")):
            return None
        return subprocess.Popen(cmd, cwd=VERIF, stdout=open(os.path.join(self.work, "proof.log"), "w"),
                                stderr=subprocess.STDOUT, start_new_session=True,
                                env=dict(os.environ, PYTHONHASHSEED="0"))

    def finish_proof(self, p):
        if p is None:
            return None
        try:
            p.wait(timeout=600 if self.tier == "quick" else 3000)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        try:
            return json.load(open(self.proof_out))
        except (OSError, ValueError):
            log = open(os.path.join(self.work, "proof.log"), errors="replace").read()[-3000:]
            return {"broken": log, "functions": [], "obligations": [], "assumptions": []}

    def replay_proof_cases(self, proof):
        """Replays the verifier's counterexamples against the real code."""
        if not proof:
            return
        for o in proof["obligations"]:
            if o["status"] != "failed":
                continue
            for case in o.get("cases", []):
                f = os.path.join(self.work, "cex.txt")
                with open(f, "w") as h:
                    h.write(case + "\n")
                for spec in self.exe:
                    rc, so, se, out = self.drive(spec, self.seed, 1, ["--replay", f])
                    m = re.search(r"^FAIL (.*)$", so, re.M)
                    if m:
                        self.add_violation(o["name"] + ": " + m.group(1), out, spec, self.seed, so, se)
                        return

    def run(self):
        proc = self.start_proof()
        try:
            self.build()
            self.native_run(self.budget)
            proof = self.finish_proof(proc)
        finally:
            if proc and proc.poll() is None:
                os.killpg(proc.pid, 9)
        self.replay_proof_cases(proof)
        failed = [o for o in proof["obligations"] if o["status"] == "failed"] if proof else []
        undecided = proof and (failed or proof.get("broken") or proof["bounded"] or
                               any(o["status"] == "unknown" for o in proof["obligations"]))
        if undecided and not self.violations:
            # search longer where the verifier does not decide, or gives no failing input
            self.seed += 1000
            self.native_run(self.budget*4)
            self.seed -= 1000
        if failed and not self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-obligations.txt" % self.prop)
            with open(path, "w") as f:
                for o in failed:
                    f.write("failed obligation %s\n%s\n\n" % (o["name"], o.get("detail", "")))
            self.violations.append((path, "obligation " + failed[0]["name"], " no-failing-input-found"))
        listed = known_findings()
        for key, text in sorted(self.known.items()):
            if (self.prop, key) in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, listed[(self.prop, key)]))
            else:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                path = os.path.join(VERIF, "replays", "%s-%s.txt" % (self.prop, key))
                with open(path, "w") as f:
                    f.write(text + "\n")
                self.violations.append((path, text, ""))
        self.evidence(proof)
        for path, why, suffix in self.violations[:3]:
            print("# " + why)
            print("VIOLATION property=%s replay=%s%s" % (self.prop, path, suffix))
        return 1 if self.violations else 0

    def level(self):
        """The level that the manifest claims."""
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == self.prop:
                return c["level"]
        return "exploration"

    def evidence(self, proof):
        cov = {
            "evaluations": self.evals, "distinct_nontrivial": self.distinct,
            "rule": "native drivers run the real, sanitised code on enumerated and random cases; a case counts as "
                    "distinct by a hash of its input and only when the property applied to it",
            "samples": self.samples[:12], "native_processes": self.procs, "native_covers": self.covers,
        }
        assumptions = []
        level = self.level()
        if proof and proof["obligations"]:
            obs = proof["obligations"]
            done = [o for o in obs if o["status"] == "proved"]
            by = {}
            for o in done:
                by[o.get("by", "?")] = by.get(o.get("by", "?"), 0) + 1
            cov.update({
                "obligations": len(obs), "discharged": len(done),
                "checker_cmd": "python3-vt -m vfv.prove %s --work DIR --out FILE" % self.prop,
                "trusted_base": proof.get("trusted", []),
                "discharged_by": by,
                "solver_seconds": round(sum(o.get("time", 0) for o in obs), 2),
                "functions_under_contract": proof.get("functions", []),
                "bounded_or_out_of_reach": proof.get("bounded", []),
                "undecided": [o["name"] for o in obs if o["status"] == "unknown"][:40],
                "vacuity_checks": proof.get("vacuity", 0),
                "proof_seconds": proof.get("seconds"),
                "obligation_samples": [o["name"] for o in obs[::max(1, len(obs)//20)]][:24],
            })
            assumptions = proof.get("assumptions", [])
        elif proof and level == "proof":
            level = "exploration"
            cov["proof_note"] = "no obligation could be generated: " + str(proof.get("broken", ""))[-800:]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))

    def replay(self, path):
        self.build()
        bad = 0
        for spec in self.exe:
            rc, so, se, out = self.drive(spec, self.seed, 1, ["--replay", path])
            sys.stdout.write(so)
            bad |= "FAIL " in so
        return 1 if bad else 0

    def clean(self):
        for d in self.scratch:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(self.work, ignore_errors=True)


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in DRIVERS:
        print("usage: check.py PROPERTY [--replay FILE]")
        return 2
    c = Check(sys.argv[1])
    try:
        if len(sys.argv) == 4 and sys.argv[2] == "--replay":
            return c.replay(sys.argv[3])
        return c.run()
    except native.BuildError as e:
        print("the check could not be built:\n%s" % e)
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        return 2
    finally:
        c.clean()


if __name__ == "__main__":
    sys.exit(main())
