"""Ground instances of quantified queries."""
import itertools, time
import z3
from . import match
from .sym import fresh, to_bool
from .solve import free_vars, limit, answer, RATE, STEPS


MUL = z3.Function("product", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

def skolemise(goal):
    """not goal, with its outer universal quantifiers replaced by constants: (formulas, constants)."""
    out, consts, work = [], [], [goal]
    while work:
        g = work.pop()
        if z3.is_quantifier(g) and g.is_forall():
            vs = [fresh("sk_" + g.var_name(k), g.var_sort(k)) for k in range(g.num_vars())]
            consts += vs
            work.append(z3.substitute_vars(g.body(), *reversed(vs)))
        elif z3.is_implies(g):
            out.append(g.arg(0))
            work.append(g.arg(1))
        else:
            out.append(z3.Not(g))
    return out, consts


def instances(pc, extra, consts, level=1, most=2500):
    """The path condition with each universally quantified fact replaced by its instances at the terms at hand
    (level 0: only at the constants of the negated goal; level 0.5: and at the loop counters)."""
    ground, quants = match.flatten(list(pc) + extra)
    pool = {}

    def add(t):
        pool.setdefault(t.sort(), {})[t.get_id()] = t
    for c in consts:
        add(c)
        if level and z3.is_bv(c) and c.size() == 64:
            add(z3.simplify(c - 1))
            add(z3.simplify(c + 1))
    if level == 0.5:
        for c in counters(ground):
            add(c)
            add(z3.simplify(c - 1))
    seen, work = set(), [x for x in ground] if level == 1 else []
    while work:
        x = work.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and not has_bound(x.arg(1)):
            add(x.arg(1))
        work.extend(x.children())
    for c in ground if level == 1 else []:
        for v in free_vars(c).values():
            if z3.is_bv(v) and v.size() == 64:
                add(v)
    out = list(ground)
    for q in quants:
        sets = [list(pool.get(q.var_sort(k), {}).values()) for k in range(q.num_vars())]
        n = 1
        for x in sets:
            n *= len(x)
        if n > most:
            continue
        for combo in itertools.product(*sets):
            out.append(z3.substitute_vars(q.body(), *reversed(combo)))
    return out


_quantified = {}


def has_quantifier(c):
    c = to_bool(c)
    known = _quantified.get(c.get_id())
    if known is not None:
        return known[1]
    seen, work, r = set(), [c], False
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        work.extend(x.children())
    _quantified[c.get_id()] = (c, r)
    return r


def has_bound(t):
    if z3.is_var(t):
        return True
    return any(has_bound(c) for c in t.children())


def definitions(ground):
    """Substitutes constants that equal a term; returns the other formulas and the substitution."""
    subst, out = [], [z3.simplify(g) for g in ground]
    for _ in range(40):
        for k, g in enumerate(out):
            if not z3.is_eq(g):
                continue
            a, b = g.arg(0), g.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in \
                        [v.get_id() for v in free_vars(y).values()]:
                    break
            else:
                x = None
            if x is None and z3.is_bv(a):
                continue
            if x is not None:
                subst.append((x, y))
                out = [z3.simplify(z3.substitute(f, (x, y))) for i, f in enumerate(out) if i != k]
                break
        else:
            break
    return [f for f in out if not z3.is_true(f)], subst


def conjuncts(neg):
    """not (a and b): the alternatives."""
    if z3.is_not(neg) and z3.is_and(neg.arg(0)):
        return [z3.Not(c) for c in neg.arg(0).children()]
    if z3.is_or(neg) and neg.num_args() <= 16:
        return neg.children()
    return [neg]


def check(fs, ms, logic="QF_AUFBV"):
    for lg in (logic, None):
        s = z3.SolverFor(lg) if lg else z3.Solver()
        limit(s, ms)
        try:
            for f in fs:
                s.add(f)
            return answer(s)
        except z3.Z3Exception:
            continue
    return z3.unknown


def counters(pc):
    out = {}
    for c in pc:
        for v in free_vars(to_bool(c)).values():
            if z3.is_bv(v) and v.size() == 64 and "iter:" in str(v):
                out[v.get_id()] = v
    return list(out.values())


def split_entails(pc, goal, ms, total=None):
    """Proves each conjunct of the goal, split by whether its variables equal a loop counter (total: milliseconds)."""
    end = STEPS[0] + (total or 1e9)*RATE
    neg, consts = skolemise(goal)
    alts = conjuncts(neg[-1])
    its = counters(list(pc) + neg)
    bvs = [c for c in consts if z3.is_bv(c) and c.size() == 64]
    for alt in alts:
        cases = [[]]
        for c in bvs:
            at = its + [x for x in written(alt, c) if all(x.get_id() != i.get_id() for i in its)]
            at = at[:12]
            new = [[c == i] for i in at] + [[c != i for i in at]]
            cases = [a + b for a in cases for b in new]
        if len(cases)*len(alts) > 64:
            cases = [[]]
        for case in cases:
            bare = alt
            for c in bvs:
                away = {x.arg(1).get_id() for x in case if z3.is_distinct(x) and x.arg(0).eq(c)}
                bare = unwritten(bare, c, away)
            for level in (0, 0.5, 1):
                if STEPS[0] > end:
                    return False
                fs = instances(pc, neg[:-1] + [bare] + case, consts, level)
                fs, _ = definitions(fs)
                if any(z3.is_false(f) for f in fs):
                    break
                if check(fs, ms) == z3.unsat:
                    break
            else:
                return False
    return True


def written(t, c):
    """Values of the constant c at which an array read by the formula was written: x with idx(x) = the written index,
    for reads at an index that is c plus something else."""
    out, seen, work = {}, set(), [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_select(x):
            rest = z3.simplify(x.arg(1) - c) if z3.is_bv(x.arg(1)) and x.arg(1).size() == 64 else None
            if rest is not None and c.get_id() not in free_vars(rest):
                for i in stores(x.arg(0)):
                    v = z3.simplify(i - rest)
                    if c.get_id() not in free_vars(v):
                        out[v.get_id()] = v
        work.extend(x.children())
    return list(out.values())


def unwritten(t, c, away):
    """The formula with reads at c + rest taken from the arrays before they were written, where c is known to differ
    from the written index less the rest (the ids of those terms are in away)."""
    reads, seen, work = {}, set(), [t]
    while work:
        x = work.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_select(x) and z3.is_bv(x.arg(1)) and x.arg(1).size() == 64:
            if c.get_id() not in free_vars(z3.simplify(x.arg(1) - c)):
                reads[x.get_id()] = x
        work.extend(x.children())

    def base(a, i):
        if z3.is_store(a) and z3.simplify(a.arg(1) - z3.simplify(i - c)).get_id() in away:
            return base(a.arg(0), i)
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = base(a.arg(1), i), base(a.arg(2), i)
            return x if x.eq(y) else z3.If(a.arg(0), x, y)
        return z3.Select(a, i)
    return z3.substitute(t, *[(x, base(x.arg(0), x.arg(1))) for x in reads.values()]) if reads else t


def stores(a):
    out, seen, work = [], set(), [a]
    while work:
        x = work.pop()
        if x.get_id() in seen or not z3.is_array(x):
            continue
        seen.add(x.get_id())
        if z3.is_store(x):
            out.append(x.arg(1))
            work.append(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            work += [x.arg(1), x.arg(2)]
    return out


def by_matching(pc, neg, consts, ms):
    if check([c for c in pc if not has_quantifier(c)] + [x for x in neg if not has_quantifier(x)], ms//8) == z3.unsat:
        return z3.unsat
    if consts and check(instances(pc, neg, consts, 0), ms//8) == z3.unsat:
        return z3.unsat
    r = z3.unknown
    for rounds in (1, 2, 3):
        fs = match.instances(pc, neg, rounds)
        r = check([f for f in fs if not has_quantifier(f)], ms)
        if r == z3.unsat:
            break
    return r


def entails(pc, goal, ms, matching=False):
    """Does the path condition imply the goal? Tries the query as it is and its ground instances."""
    goal = to_bool(goal)
    neg, consts = skolemise(goal)
    if matching:
        return by_matching(pc, neg, consts, ms) == z3.unsat
    if not consts and not any(has_quantifier(n) for n in neg):
        if check([c for c in pc if not has_quantifier(c)] + neg, ms//4) == z3.unsat:
            return True
        return any(check(instances(pc, neg, [], level, 300), ms//2) == z3.unsat for level in (0.5, 1))
    for level in (0, 0.5):
        if check(instances(pc, neg, consts, level), ms//4) == z3.unsat:
            return True
    if split_entails(pc, goal, ms, 1.5*ms):
        return True
    s = z3.Solver()
    limit(s, ms//4)
    for c in list(pc) + neg:
        s.add(c)
    return answer(s) == z3.unsat
