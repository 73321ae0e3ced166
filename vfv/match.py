"""Instances of quantified facts found by matching: a fact is instantiated where an array or function that it reads at its
variables is read by the ground formulas."""
import itertools
import z3
from .sym import to_bool


def base_arrays(a, memo):
    """(array constant, indices read so far) for every array the array term may take its elements from."""
    k = a.get_id()
    if k in memo:
        return memo[k]
    memo[k] = out = []
    if z3.is_store(a):
        out += base_arrays(a.arg(0), memo)
    elif z3.is_app_of(a, z3.Z3_OP_ITE):
        out += base_arrays(a.arg(1), memo) + base_arrays(a.arg(2), memo)
    elif z3.is_select(a):
        out += [(c, ix + (a.arg(1),)) for c, ix in base_arrays(a.arg(0), memo)]
    elif z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.append((a.decl().name(), ()))
    seen, res = set(), []
    for c, ix in out:
        key = (c, tuple(i.get_id() for i in ix))
        if key not in seen:
            seen.add(key)
            res.append((c, ix))
    memo[k] = res
    return res


def reads(fs, seen, memo, out):
    """Adds name -> {argument ids: arguments} for the reads of arrays and applications of functions in ground formulas."""
    work = list(fs)
    while work:
        x = work.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen[x.get_id()] = x
        if z3.is_select(x):
            for c, ix in base_arrays(x, memo):
                out.setdefault(c, {})[tuple(i.get_id() for i in ix)] = ix
        elif z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.num_args():
            out.setdefault(x.decl().name(), {})[tuple(a.get_id() for a in x.children())] = tuple(x.children())
        work.extend(x.children())
    return out


def atoms(q):
    """name, arguments (variable number or None) of the reads in a quantifier's body at its variables."""
    n = q.num_vars()
    out, seen, work, memo = {}, set(), [q.body()], {}
    keep = []
    while work:
        x = work.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        keep.append(x)
        found = []
        if z3.is_select(x):
            found = base_arrays(x, memo)
        elif z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.num_args():
            found = [(x.decl().name(), tuple(x.children()))]
        for c, ix in found:
            pat = tuple(n - 1 - z3.get_var_index(i) if z3.is_var(i) else None for i in ix)
            if any(p is not None for p in pat):
                out[(c, pat)] = frozenset(p for p in pat if p is not None)
        work.extend(x.children())
    return out


_covers = {}


def covers(q):
    """Sets of atoms that bind all the variables (at most six, the fewest atoms first)."""
    k = q.get_id()
    if k in _covers:
        return _covers[k][1]
    n = q.num_vars()
    # an atom that binds fewer variables of the same read is implied by one that binds more
    at = list(atoms(q).items())
    out = []
    for size in (1, 2, 3):
        for combo in itertools.combinations(at, size):
            vs = [v for _, v in combo]
            if len(frozenset().union(*vs)) == n and sum(map(len, vs)) <= n + (size - 1) and \
                    all(len(frozenset().union(*(vs[:i] + vs[i + 1:]))) < n for i in range(size)):
                out.append([a for a, _ in combo])
        if out:
            break
    _covers[k] = (q, out[:8])
    return out[:8]


def bindings(q, table, limit):
    n = q.num_vars()
    res = {}
    for cover in covers(q):
        parts = [{}]
        for name, pat in cover:
            new = []
            for args in table.get(name, {}).values():
                if len(args) < len(pat):
                    continue
                b = {}
                for p, a in zip(pat, args):
                    if p is not None:
                        if p in b and not b[p].eq(a):
                            break
                        b[p] = a
                else:
                    new.append(b)
            uniq = {tuple(sorted((p, a.get_id()) for p, a in b.items())): b for b in new}
            joined = []
            for x in parts:
                for b in uniq.values():
                    if all(p not in x or x[p].eq(a) for p, a in b.items()):
                        joined.append({**x, **b})
                if len(joined) > limit:
                    break
            parts = joined
        for b in parts:
            if len(b) == n and all(b[p].sort() == q.var_sort(p) for p in b):
                res[tuple(b[p].get_id() for p in range(n))] = [b[p] for p in range(n)]
    return res


def flatten(cs):
    ground, quants, work = [], [], [to_bool(c) for c in cs]
    while work:
        c = work.pop(0)
        if z3.is_not(c) and z3.is_quantifier(c.arg(0)) and c.arg(0).is_exists():
            q = c.arg(0)
            vs = [z3.Const("nx!%d" % k, q.var_sort(k)) for k in range(q.num_vars())]
            c = z3.ForAll(vs, z3.Not(z3.substitute_vars(q.body(), *reversed(vs))))
        if z3.is_quantifier(c) and c.is_forall():
            quants.append(c)
        elif z3.is_and(c):
            work += c.children()
        else:
            g = guarded(c)
            if g is None:
                ground.append(c)
            else:
                work += g
    return ground, quants


def guarded(c):
    """A quantified fact under a condition (c or forall x. f): the condition moved inside."""
    if z3.is_implies(c):
        cond, f = z3.Not(c.arg(0)), c.arg(1)
    elif z3.is_or(c):
        qs = [x for x in c.children() if z3.is_quantifier(x) and x.is_forall()]
        if len(qs) != 1:
            return None
        f, cond = qs[0], z3.Or([x for x in c.children() if not x.eq(qs[0])])
    else:
        return None
    if z3.is_and(f):
        return [z3.Or(cond, x) for x in f.children()] if any(z3.is_quantifier(x) for x in f.children()) else None
    if not (z3.is_quantifier(f) and f.is_forall()):
        return None
    vs = [z3.Const("gx!%d" % k, f.var_sort(k)) for k in range(f.num_vars())]
    return [z3.ForAll(vs, z3.Or(cond, z3.substitute_vars(f.body(), *reversed(vs))))]


def instances(pc, extra, rounds=3, limit=400, total=4000):
    ground, quants = flatten(list(pc) + extra)
    seen, memo, table = {}, {}, {}
    done, new = set(), ground
    out = list(ground)
    for _ in range(rounds):
        reads(new, seen, memo, table)
        new = []
        for q in quants:
            for key, args in bindings(q, table, limit).items():
                if (q.get_id(), key) in done or len(out) > total:
                    continue
                done.add((q.get_id(), key))
                f = z3.simplify(z3.substitute_vars(q.body(), *reversed(args)))
                if not z3.is_true(f):
                    new.append(f)
        if not new:
            break
        out += new
    return [f for f in out]
