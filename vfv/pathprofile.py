"""Strings by length and bytes, and the obligations about paths (C15)."""
import z3
from . import sym
from .sym import OutOfReach, Stop, Ptr, State, to_bool, simp_bool, fresh
from .cprofile import BSTR, CAP, I64, bdata, blen, bmake, bound, bv64
from .vprofile import post

NPOS = 0xFFFFFFFFFFFFFFFF
BV8 = z3.BitVecSort(8)


def used(e):
    e.contracts_used.add("std::string behaves as the C++ standard says (allocation failure is not modelled; no string has 2^46 "
                         "characters or more)")


def bytes_only(e):
    if e.str_sort is not BSTR:
        raise OutOfReach("characters of a string")
    used(e)


def sized(e, st, p):
    s = e.str_get(st, p)
    n = blen(s)
    if not z3.is_bv_value(n):
        st.assume(z3.ULT(n, CAP))
    return s, n


def string_method(name, params):
    f = METHODS.get(name)
    if f is None:
        return None

    def call(e, st, a, ins, m):
        bytes_only(e)
        return f(e, st, a, params, m)
    return call


def size(e, st, a, params, m):
    return sized(e, st, a[0])[1]


def at(e, st, a, params, m):
    s, n = sized(e, st, a[0])
    i = a[1]
    # s[size()] is the terminator
    if not e.oblige(st, z3.ULE(i, n), "string index in bounds"):
        raise Stop()
    return char_ref(e, st, z3.If(z3.ULT(i, n), bdata(s)[i], z3.BitVecVal(0, 8)))


def char_ref(e, st, v):
    """A reference to a character: readable only."""
    p = e.alloc(st, "char", 1, const=True)
    st.mem[p.root] = {0: (1, z3.simplify(v))}
    return p


def back(e, st, a, params, m):
    s, n = sized(e, st, a[0])
    if not e.oblige(st, n != 0, "back() of a string that is not empty"):
        raise Stop()
    return char_ref(e, st, bdata(s)[z3.simplify(n - 1)])


def front(e, st, a, params, m):
    s, n = sized(e, st, a[0])
    if not e.oblige(st, n != 0, "front() of a string that is not empty"):
        raise Stop()
    return char_ref(e, st, bdata(s)[bv64(0)])


def in_set(e, st, a, params):
    if params.startswith("(char,"):
        return [a[1]]
    if params.startswith("(char const*, unsigned long)"):
        t = e.cstr(st, a[1])
        n = z3.simplify(blen(t))
        if z3.is_bv_value(n) and n.as_long() < 8:
            return [z3.simplify(bdata(t)[bv64(k)]) for k in range(n.as_long())]
    raise OutOfReach("find" + params)


def find_last(e, st, a, params, m):
    """Position of the last character in the set, at most at the given position; npos if there is none."""
    s, n = sized(e, st, a[0])
    cs = in_set(e, st, a, params)
    hit = lambda i: z3.Or([bdata(s)[i] == c for c in cs])
    last = z3.If(z3.ULT(a[2], n), a[2] + 1, n)      # positions below this count
    r, i = fresh("found", I64), bound()
    st.assume(z3.Or(r == NPOS, z3.And(z3.ULT(r, last), hit(r))))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, last), z3.Or(r == NPOS, z3.UGT(i, r))), z3.Not(hit(i)))))
    return r


def find_first(e, st, a, params, m):
    s, n = sized(e, st, a[0])
    cs = in_set(e, st, a, params)
    hit = lambda i: z3.Or([bdata(s)[i] == c for c in cs])
    r, i = fresh("found", I64), bound()
    st.assume(z3.Or(r == NPOS, z3.And(z3.UGE(r, a[2]), z3.ULT(r, n), hit(r))))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(z3.UGE(i, a[2]), z3.ULT(i, n), z3.Or(r == NPOS, z3.ULT(i, r))), z3.Not(hit(i)))))
    return r


def find(e, st, a, params, m):
    if not params.startswith("(char,"):
        raise OutOfReach("find" + params)
    return find_first(e, st, a, params, m)


def rfind(e, st, a, params, m):
    if not params.startswith("(char,"):
        raise OutOfReach("rfind" + params)
    return find_last(e, st, a, params, m)


def sub(s, pos, cnt):
    n = blen(s)
    k = z3.simplify(z3.If(z3.ULT(cnt, n - pos), cnt, n - pos))
    i = bound()
    d = bdata(s) if z3.is_bv_value(z3.simplify(pos)) and z3.simplify(pos).as_long() == 0 else z3.Lambda([i], bdata(s)[i + pos])
    return bmake(k, d)


def substr(e, st, a, params, m):
    out, this, pos, cnt = a
    s, n = sized(e, st, this)
    if not e.oblige(st, z3.ULE(pos, n), "substr() starts inside the string"):
        raise Stop()
    e.str_set(st, out, sub(s, pos, cnt))


def resize(e, st, a, params, m):
    s, n = sized(e, st, a[0])
    c = a[2] if len(a) > 2 else z3.BitVecVal(0, 8)
    i = bound()
    e.str_set(st, a[0], bmake(a[1], z3.Lambda([i], z3.If(z3.ULT(i, n), bdata(s)[i], c))))


def pop_back(e, st, a, params, m):
    s, n = sized(e, st, a[0])
    if not e.oblige(st, n != 0, "pop_back() of a string that is not empty"):
        raise Stop()
    e.str_set(st, a[0], bmake(n - 1, bdata(s)))


def erase(e, st, a, params, m):
    if not params.startswith("(unsigned long, unsigned long)"):
        raise OutOfReach("erase" + params)
    s, n = sized(e, st, a[0])
    pos, cnt = a[1], a[2]
    if not e.oblige(st, z3.ULE(pos, n), "erase() starts inside the string"):
        raise Stop()
    k = z3.If(z3.ULT(cnt, n - pos), cnt, n - pos)
    i = bound()
    e.str_set(st, a[0], bmake(n - k, z3.Lambda([i], z3.If(z3.ULT(i, pos), bdata(s)[i], bdata(s)[i + k]))))
    return a[0]


METHODS = {"size": size, "length": size, "operator[]": at, "at": at, "back": back, "front": front, "find_last_of": find_last,
           "find_first_of": find_first, "find": find, "rfind": rfind, "substr": substr, "resize": resize,
           "pop_back": pop_back, "erase": erase}


# ---- C15 ---------------------------------------------------------------------------------------------
SEP = ord("/")


def text(e, st, name):
    """A string object holding any text: (pointer, length, bytes)."""
    p = e.alloc(st, name, 32)
    s = z3.Const(name, BSTR)
    n, d = z3.BitVec(name + ".len", 64), z3.Const(name + ".bytes", z3.ArraySort(I64, BV8))
    e.str_set(st, p, MK(n, d))
    st.assume(z3.ULT(n, CAP))
    return p, n, d


def MK(n, d):
    from .cprofile import MK_BSTR
    return MK_BSTR(n, d)


def result(e, st, p):
    s = e.str_get(st, p)
    return blen(s), bdata(s)


def returned(e, st, fn, args):
    out = e.alloc(st, "result", 32)
    st2, _ = e.call(st, fn, [out] + args)
    if st2 is None:
        post(e, st, False, "returns")
        return None, None, None
    n, d = result(e, st2, out)
    return st2, n, d


def unchanged(e, st, st2, ps, what="leaves its arguments alone"):
    conds = []
    for p in ps:
        a, b = e.str_get(st, p), e.str_get(st2, p)
        conds.append(z3.BoolVal(True) if a.eq(b) else z3.And(blen(a) == blen(b), bdata(a) == bdata(b)))
    post(e, st2, z3.And(conds), what)


def path_absolute(code):
    e = code.engine("isAbsolute: ", BSTR)
    st = State()
    p, n, d = text(e, st, "path")
    st2, r = e.call(st.fork(), code.find("path::isAbsolute"), [p])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    post(e, st2, to_bool(r) == z3.And(n != 0, d[bv64(0)] == SEP), "true exactly when a separator comes first")
    unchanged(e, st, st2, [p])
    return e


def path_file(code):
    e = code.engine("getFileName: ", BSTR)
    st = State()
    p, n, d = text(e, st, "path")
    st2, m, r = returned(e, st.fork(), code.find("path::getFileName"), [p])
    if st2 is None:
        return e
    i = z3.BitVec("i", 64)
    post(e, st2, z3.ULE(m, n), "no longer than the path")
    post(e, st2, z3.ForAll([i], z3.Implies(z3.ULT(i, m), r[i] == d[n - m + i])), "an end of the path")
    post(e, st2, z3.ForAll([i], z3.Implies(z3.ULT(i, m), r[i] != SEP)), "without separator")
    post(e, st2, z3.Or(m == n, d[n - m - 1] == SEP), "the whole path, or what follows a separator")
    unchanged(e, st, st2, [p])
    return e


def path_parent(code):
    e = code.engine("getParentDirectory: ", BSTR)
    st = State()
    p, n, d = text(e, st, "path")
    st2, m, r = returned(e, st.fork(), code.find("path::getParentDirectory"), [p])
    if st2 is None:
        return e
    i, s = z3.BitVec("i", 64), z3.BitVec("last", 64)
    none = st2.fork()
    none.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, n), d[i] != SEP)))
    post(e, none, m == 0, "empty without separator")
    st2.assume(z3.And(z3.ULT(s, n), d[s] == SEP))
    st2.assume(z3.ForAll([i], z3.Implies(z3.And(z3.UGT(i, s), z3.ULT(i, n)), d[i] != SEP)))
    post(e, st2, m == z3.If(s == 0, bv64(1), s), "as long as what comes before the last separator (the root is kept)")
    post(e, st2, z3.ForAll([i], z3.Implies(z3.ULT(i, m), r[i] == d[i])), "a beginning of the path")
    unchanged(e, st, st2, [p])
    return e


def path_join(code):
    e = code.engine("join: ", BSTR)
    st = State()
    p, n, d = text(e, st, "left")
    q, k, f = text(e, st, "right")
    st2, m, r = returned(e, st.fork(), code.find("path::join"), [p, q])
    if st2 is None:
        return e
    i = z3.BitVec("i", 64)
    same = lambda n, d: z3.And(m == n, z3.ForAll([i], z3.Implies(z3.ULT(i, n), r[i] == d[i])))
    cases = [("the right part alone if it is absolute or the left is empty",
              z3.Or(n == 0, z3.And(k != 0, f[bv64(0)] == SEP)), same(k, f)),
             ("the left part alone if the right is empty", z3.And(n != 0, k == 0), same(n, d))]
    rest = z3.And(n != 0, k != 0, f[bv64(0)] != SEP)
    ends = d[n - 1] == SEP
    g = z3.If(ends, bv64(0), bv64(1))
    cases += [("the length is that of both parts and the separator added", rest, m == n + k + g),
              ("starts with the left part", rest, z3.ForAll([i], z3.Implies(z3.ULT(i, n), r[i] == d[i]))),
              ("a separator is added if left does not end in one", z3.And(rest, z3.Not(ends)), r[n] == SEP),
              ("ends with the right part", rest, z3.ForAll([i], z3.Implies(z3.ULT(i, k), r[n + g + i] == f[i])))]
    for nm, pre, goal in cases:
        s = st2.fork()
        s.assume(pre)
        post(e, s, goal, nm)
    unchanged(e, st, st2, [p, q])
    return e


def c15_tasks():
    return [("path_absolute", ()), ("path_file", ()), ("path_parent", ()), ("path_join", ())]
