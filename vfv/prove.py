"""prove.py PROPERTY --work DIR --out FILE --tier TIER: generates and discharges the obligations of one property
from /repo's current sources, and writes them as JSON for check.py."""
import argparse, json, multiprocessing as mp, os, signal, sys, time, traceback
from . import ir, sym, solve, native, vprofile, fprofile, pathprofile, b64profile, cprofile, cvprofile, convert, output

ASSUME_TOOLCHAIN = [
    "clang 18's lowering of C++ to LLVM IR, and the sroa, simplifycfg and jump-threading passes of opt 18, preserve the meaning of the "
    "sources; the engine's reading of the IR (vfv/ir.py, vfv/sym.py) is correct",
    "the shipped library is compiled from the same sources by another compiler or with other options without changing "
    "their meaning (x86-64, SSE2 floating point, default rounding mode)",
]
TRUSTED = ["clang-18", "opt-18 (sroa, simplifycfg, jump-threading)", "vfv/ir.py and vfv/sym.py (VC generation)", "z3", "cvc5"]


CONVERTER = ("C08", "C09", "C10", "C11", "C12", "C13")


def sources(prop):
    lib = lambda *n: [("lib", x) for x in n]
    if prop in ("C01", "C02", "C03", "C04"):
        return lib("VertexValue", "HalfFloat") + (lib("Converter", "VertexFormat") + [("tu", "accessors")] if prop == "C04" else [])
    if prop in ("C05", "C06"):
        return [("tu", "headers")] + lib("VertexFormat")
    if prop == "C07":
        return [("tu", "headers")]
    if prop in CONVERTER:
        return lib("Converter", "VertexFormat", "VertexValue", "HalfFloat") + [("tu", "accessors")]
    if prop == "C15":
        return [("tool", "Path")]
    if prop == "C14":
        return [("tool", "Base64")]
    return []


def extract(prop, work):
    b = native.stub_headers(work)
    mods, procs = [], []
    for kind, name in sources(prop):
        src = os.path.join(native.REPO, "lib/src" if kind == "lib" else "tool", name + ".cpp")
        if kind == "tu":
            src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "tu", name + ".cpp")
        out = os.path.join(work, name + ".ll")
        inc = [os.path.join(native.REPO, "lib/include"), b]
        if kind == "tool":
            inc += [os.path.join(native.REPO, "tool"), "/opt/vp/deps/include"]
        ir.extract(src, out, inc)
        mods.append(ir.Module(out))
    return mods


class Result:
    def __init__(self):
        self.obligations, self.functions, self.assumptions, self.bounded = [], set(), set(), []
        self.vacuity = 0


CODE = None
LIMIT = 30.0
START, RETRY_UNTIL = time.time(), 240


class OutOfTime(BaseException):
    pass


def run_task(t):
    """Runs a task; one that leaves obligations open is run again with more solver time, while time remains (so that
    a slow machine does not turn a proof into an alarm)."""
    res = run_once(t)
    left = int(START + RETRY_UNTIL - time.time())
    if all(o["status"] == "proved" for o in res["obligations"]) or left < 10 or t[0] == "vprofile":
        return res

    def stop(*_):
        raise OutOfTime()
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(left)
    cprofile.CEngine.effort = 4
    try:
        again = run_once(t)
    except OutOfTime:
        return res
    finally:
        signal.alarm(0)
        cprofile.CEngine.effort = 1
    proved = lambda r: sum(o["status"] == "proved" for o in r["obligations"])
    if again["bounded"] and not res["bounded"] or proved(again) < proved(res) and len(again["obligations"]) <= len(res["obligations"]):
        return res
    return again


def named_task(t):
    return repr(t), run_task(t)


def run_once(t):
    modname, fname, args = t
    res = {"obligations": [], "functions": [], "assumptions": [], "bounded": [], "vacuity": 0}
    label = "%s%r" % (fname, args)
    solve.STALLED[0], cprofile.MATCHING[0] = 0, False
    try:
        mod = sys.modules["vfv." + modname]
        e = getattr(mod, fname)(CODE[modname == "vprofile"], *args)
        if isinstance(e, dict):
            return e
        collect(e, res, label)
    except sym.OutOfReach as x:
        res["bounded"].append("%s: %s" % (label, x))
    except Exception:
        res["bounded"].append("%s: internal error: %s" % (label, traceback.format_exc()[-600:]))
    return res


def discharge_all(e, lim):
    """Discharges the obligations, in several processes when there are many."""
    fn = getattr(e, "discharge", solve.discharge)
    n = 6 if len(e.obligations) > 60 and fn is not solve.discharge else 1
    kids = []
    for k in range(1, n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            try:
                for ob in e.obligations[k::n]:
                    fn(ob, lim)
                    out.append((ob.status, ob.by, ob.time, None if ob.model is None else str(ob.model)[:3000]))
            finally:
                with os.fdopen(w, "w") as f:
                    json.dump(out, f)
                os._exit(0)
        os.close(w)
        kids.append((k, pid, r))
    try:
        for ob in e.obligations[0::n]:
            fn(ob, lim)
        for k, pid, r in kids:
            with os.fdopen(r) as f:
                done = json.load(f)
            os.waitpid(pid, 0)
            for ob, (s, by, t, model) in zip(e.obligations[k::n], done):
                ob.status, ob.by, ob.time, ob.model = s, by, t, model
            for ob in e.obligations[k::n][len(done):]:
                ob.status, ob.time = "unknown", 0
    except OutOfTime:
        for k, pid, r in kids:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
        raise


def collect(e, res, label):
    # vacuity: some execution reaches a normal return
    if e.obligations:
        last = e.obligations[-1]
        if getattr(e, "sat_check", True):
            s = sym.z3.Solver()
            s.set("timeout", 4000)
            for c in last.pc:
                s.add(c)
            r = s.check()
            if r == sym.z3.unsat and last.cond is not False:
                res["bounded"].append("%s: vacuous contract" % label)
                return
            res["vacuity"] += r == sym.z3.sat
    lim = getattr(e, "limit", LIMIT)*getattr(e, "effort", 1)
    discharge_all(e, lim)
    for ob in e.obligations:
        if ob.status == "failed" and solve.STALLED[0]:
            ob.status = "unknown"       # an invariant may have been lost to a lack of time
        o = {"name": ob.name, "status": ob.status, "by": ob.by, "time": round(ob.time, 3)}
        if ob.status == "failed":
            o["detail"] = "condition: %s\n%s" % (str(ob.cond)[:1500], str(ob.model)[:3000])
            if ob.model is not None and not isinstance(ob.model, str) and getattr(e, "case", None):
                try:
                    o["cases"] = e.case(ob.model)
                except Exception as x:
                    o["detail"] += "\n(no case: %r)" % (x,)
        elif ob.status != "proved":
            o["detail"] = str(ob.cond)[:600]
        res["obligations"].append(o)
    res["functions"] = sorted(e.touched)
    res["assumptions"] = sorted(e.contracts_used)


def tasks(prop, tier):
    if prop == "C01":
        return [("vprofile",) + t for t in vprofile.c01_tasks()]
    if prop == "C02":
        return [("vprofile",) + t for t in vprofile.c02_tasks()]
    if prop == "C03":
        return [("vprofile",) + t for t in vprofile.c03_tasks()]
    if prop == "C04":
        return [("vprofile",) + t for t in vprofile.c04_tasks()] + [("cvprofile",) + t for t in cvprofile.c04_tasks()] + [("output",) + t for t in output.c04_tasks(tier)]
    if prop in ("C05", "C06", "C07"):
        return [("fprofile",) + t for t in getattr(fprofile, prop.lower() + "_tasks")()]
    if prop in CONVERTER:
        return [(n,) + t for n, mod in (("convert", convert), ("cvprofile", cvprofile)) if hasattr(mod, prop.lower() + "_tasks")
                for t in getattr(mod, prop.lower() + "_tasks")()] + [("output",) + t for t in getattr(
                    output, prop.lower() + "_tasks", lambda tier: [])(tier)]
    if prop == "C15":
        return [("pathprofile",) + t for t in pathprofile.c15_tasks()]
    if prop == "C14":
        return [("b64profile",) + t for t in b64profile.c14_tasks()]
    return []


def main():
    global CODE
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--work", required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--deadline", type=float, default=1e9, help="seconds after which unfinished tasks are given up")
    a = ap.parse_args()
    t0 = time.time()
    r = Result()
    out = {"obligations": [], "functions": [], "assumptions": [], "trusted": TRUSTED, "bounded": [], "vacuity": 0}
    try:
        mods = extract(a.prop, a.work)
        CODE = (fprofile.CCode(mods), vprofile.Code(mods))
        ts = tasks(a.prop, a.tier)
    except (ir.IRError, OSError) as x:
        out["broken"] = str(x)
        json.dump(out, open(a.out, "w"))
        return
    if a.only:
        ts = [t for t in ts if a.only in repr(t)]
    late, left = False, set(map(repr, ts))
    with mp.get_context("fork").Pool(a.j, maxtasksperchild=4) as pool:
        results = pool.imap_unordered(named_task, ts, chunksize=1)
        while left:
            try:
                name, one = results.next(timeout=max(.1, t0 + a.deadline - time.time()))
            except mp.TimeoutError:
                late = True
                out["bounded"] += ["%s: not finished in time" % t for t in sorted(left)]
                break
            left.discard(name)
            out["obligations"] += one["obligations"]
            r.functions.update(one["functions"])
            r.assumptions.update(one["assumptions"])
            out["bounded"] += one["bounded"]
            out["vacuity"] += one["vacuity"]
    out["obligations"].sort(key=lambda o: o["name"])
    out["functions"] = sorted(r.functions)
    out["assumptions"] = ASSUME_TOOLCHAIN + sorted(r.assumptions)
    out["seconds"] = round(time.time() - t0, 1)
    with open(a.out + ".tmp", "w") as f:
        json.dump(out, f, indent=1)
    os.replace(a.out + ".tmp", a.out)
    if late and os.getpgrp() == os.getpid():
        os.killpg(0, signal.SIGKILL)      # the processes that tasks left behind


if __name__ == "__main__":
    main()
