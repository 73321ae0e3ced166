"""Discharging obligations: simplification, then an abstraction of the floating-point operations as uninterpreted
functions, then bit-precise z3, then exhaustive evaluation (few input bits), then cvc5."""
import os, subprocess, time
import z3
from .sym import to_bool, is_fp

CVC5 = "cvc5"
HEAVY = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_REM, z3.Z3_OP_FPA_FMA,
         z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_ROUND_TO_INTEGRAL, z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_SBV,
         z3.Z3_OP_FPA_TO_UBV, z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BSDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSREM}


RATE = 3000            # solver steps for each millisecond of a limit
STALLED = [0]          # queries that ran into the wall-clock limit: the machine is too slow for the step limits

STEPS = [0]            # the solver's count of steps so far


def limit(s, ms):
    """Limits a solver by its own count of steps, so that the result doesn't depend on the machine's load."""
    s.set("rlimit", max(1000, int(ms*RATE)))
    s.set("timeout", int(ms*10) + 2000)


def answer(s):
    r = s.check()
    if r == z3.unknown and s.reason_unknown() == "timeout":
        STALLED[0] += 1
    try:
        STEPS[0] = s.statistics().get_key_value("rlimit count")
    except z3.Z3Exception:
        pass
    return r


def free_vars(e, cache=None):
    out, seen, work = {}, set(), [e]
    while work:
        x = work.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = x
        else:
            work.extend(x.children())
    return out


def is_value(e, x):
    if not z3.is_fp_value(e) or e.isNaN() or e.isInf():
        return False
    if x == 0.0:
        return e.isZero() and e.isNegative() == (str(x)[0] == "-")
    return z3.is_true(z3.simplify(z3.fpEQ(e, z3.FPVal(x, e.sort()))))


_abs_fn = {}


class Abstract:
    def __init__(self):
        self.memo = {}

    def __call__(self, e):
        stack = [e]
        memo = self.memo
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            ch = x.children() if z3.is_app(x) else []
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            nc = [memo[c.get_id()][1] for c in ch]
            k = x.decl().kind() if z3.is_app(x) else None
            if k in HEAVY and not (k == z3.Z3_OP_FPA_TO_FP and len(ch) == 1):
                name = x.decl().name()
                if k == z3.Z3_OP_FPA_SUB:       # x - y is x + (-y)
                    k, name = z3.Z3_OP_FPA_ADD, "fp.add"
                    nc = [nc[0], nc[1], z3.simplify(z3.fpNeg(nc[2]))]
                same = None
                if k == z3.Z3_OP_FPA_ADD:               # x + (-0) is x
                    same = next((nc[3 - j] for j in (1, 2) if is_value(nc[j], -0.0)), None)
                if k in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV):    # x*1 and x/1 are x
                    same = next((nc[3 - j] for j in (2, 1)[:2 if k == z3.Z3_OP_FPA_MUL else 1] if is_value(nc[j], 1.0)), None)
                if same is not None:
                    memo[i] = (x, same)
                    continue
                if k in (z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL):   # commutative: constants first
                    nc = [nc[0]] + sorted(nc[1:], key=lambda c: (not z3.is_fp_value(c), c.get_id()))
                args = [c for c in nc if c.sort().kind() != z3.Z3_ROUNDING_MODE_SORT]
                modes = [str(c) for c in nc if c.sort().kind() == z3.Z3_ROUNDING_MODE_SORT]
                if all(z3.is_fp_value(a) or z3.is_bv_value(a) for a in args):
                    r = z3.simplify(x)
                else:
                    key = (name, k, tuple(modes), tuple(a.sort().sexpr() for a in args), x.sort().sexpr())
                    if key not in _abs_fn:
                        _abs_fn[key] = z3.Function("abs%d_%s" % (len(_abs_fn), name), *[a.sort() for a in args],
                                                   x.sort())
                    r = _abs_fn[key](*args)
            elif nc and any(not a.eq(b) for a, b in zip(ch, nc)):
                r = x.decl()(*nc)
            else:
                r = x
            memo[i] = (x, r)
        return memo[e.get_id()][1]


def relevant(pc, goal):
    """The facts connected to the goal by shared variables (dropping facts is sound for a proof)."""
    facts = [(f, set(free_vars(f))) for f in pc]
    vs = set(free_vars(goal))
    out, rest = [], facts
    # only one step: facts all of whose variables occur in the goal, then facts sharing a fresh variable
    changed = True
    while changed:
        changed = False
        keep = []
        for f, fv in rest:
            if fv & vs:
                out.append(f)
                if not fv <= vs:
                    vs |= fv
                    changed = True
            else:
                keep.append((f, fv))
        rest = keep
    return out


class Deadline:
    def __init__(self, t):
        self.t = t

    def left(self):
        return self.t - time.time()


def check(assertions, ms, tactic=None):
    s = z3.Tactic(tactic).solver() if tactic else z3.Solver()
    s.set("timeout", max(1, int(ms)))
    for a in assertions:
        s.add(a)
    try:
        r = s.check()
    except z3.Z3Exception:
        return z3.unknown, None
    return r, (s.model() if r == z3.sat else None)


def cvc5(assertions, seconds):
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    text = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run([CVC5, "--lang=smt2", "--tlimit=%d" % int(seconds*1000), "-"], input=text, stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=seconds + 5)
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    w = p.stdout.split()
    return w[0] if w else "unknown"


def exhaustive(pc, goal, limit_bits=17, seconds=60):
    """Evaluates pc => goal for every value of the (few) input bits. Returns None, True or an assignment."""
    full = z3.Implies(z3.And(list(pc)), goal) if pc else goal
    vs = list(free_vars(full).values())
    total = 0
    for v in vs:
        if z3.is_bv(v):
            total += v.size()
        elif z3.is_bool(v):
            total += 1
        else:
            return None
    if total > limit_bits:
        return None
    t0 = time.time()
    for k in range(1 << total):
        if k % 256 == 0 and time.time() - t0 > seconds:
            return None
        sub, x = [], k
        for v in vs:
            if z3.is_bool(v):
                sub.append((v, z3.BoolVal(bool(x & 1))))
                x >>= 1
            else:
                sub.append((v, z3.BitVecVal(x & ((1 << v.size()) - 1), v.size())))
                x >>= v.size()
        r = z3.simplify(z3.substitute(full, sub))
        if z3.is_false(r):
            return dict((str(a), b) for a, b in sub)
        if not z3.is_true(r):
            return None
    return True


def discharge(ob, seconds=40):
    """Sets ob.status/by/time/model. 'failed' is a definite refutation under the full path condition."""
    t0 = time.time()
    ob.status = "unknown"
    try:
        _discharge(ob, seconds)
    finally:
        ob.time = time.time() - t0
    return ob


def _discharge(ob, seconds):
    goal = ob.cond
    if goal is True:
        ob.status, ob.by = "proved", "simplifier"
        return
    goal = to_bool(goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        ob.status, ob.by = "proved", "simplifier"
        return
    pc = [to_bool(c) for c in ob.pc]
    rel = relevant(pc, goal) if not z3.is_false(g) else pc
    ab = Abstract()
    r, _ = check([ab(c) for c in rel] + [ab(z3.Not(goal))], 3000)
    if r == z3.unsat:
        ob.status, ob.by = "proved", "z3 (floating-point operations uninterpreted)"
        return
    e = exhaustive(rel, goal, 12)
    if e is True:
        ob.status, ob.by = "proved", "exhaustive evaluation"
        return
    r, m = check(rel + [z3.Not(goal)], min(seconds, 15)*1000)
    if r == z3.unsat:
        ob.status, ob.by = "proved", "z3"
        return
    if r == z3.sat and len(rel) == len(pc):
        ob.status, ob.by, ob.model = "failed", "z3", m
        return
    if r == z3.sat:
        r2, m2 = check(pc + [z3.Not(goal)], seconds*1000)
        if r2 == z3.sat:
            ob.status, ob.by, ob.model = "failed", "z3", m2
            return
        if r2 == z3.unsat:
            ob.status, ob.by = "proved", "z3"
            return
    e = exhaustive(rel, goal)
    if e is True:
        ob.status, ob.by = "proved", "exhaustive evaluation"
        return
    c = cvc5(rel + [z3.Not(goal)], seconds)
    if c == "unsat":
        ob.status, ob.by = "proved", "cvc5"
        return
    r, m = check(pc + [z3.Not(goal)], seconds*1000)
    if r == z3.unsat:
        ob.status, ob.by = "proved", "z3"
    elif r == z3.sat:
        ob.status, ob.by, ob.model = "failed", "z3", m
