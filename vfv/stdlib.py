"""Contracts of the standard library used at calls: std::vector, std::string, std::function, std::find_if and friends.

The contracts say what the C++ standard says the operations do, on the engine's view of the objects. Forming an element
reference or iterator outside a container is an obligation of the caller.
"""
import re
import z3
from . import sym
from .sym import OutOfReach, Stop, Ptr, PtrIte, NULL, UNDEF, FnPtr, fresh, simp_bool, to_bool, State
from .cprofile import BSTR, blen, bdata, bmake, bequal, bound, RPtr, CStr, I64, bv64, template_args, sel, upd, depth_of, is_true

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
_cache = {}


def handler(e, name, dem):
    if name not in _cache:
        _cache[name] = classify(name, dem)
    return _cache[name]


def strip_return(dem):
    """Drops the return type of a demangled template function."""
    depth = 0
    for i, c in enumerate(dem):
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        elif c == " " and depth == 0:
            head = dem[:i]
            if head in ("unsigned", "long", "const") or dem[:i + 6].endswith(" const"):
                continue
            rest = dem[i + 1:]
            if rest.startswith(("std::", "vfc::", "__gnu_cxx::", "bool std::")) or "operator" not in rest[:9]:
                return rest
    return dem


def classify(name, dem):
    for d in (dem, strip_return(dem), strip_return(strip_return(dem))):
        h = classify1(d)
        if h:
            return h
    return LIBC.get(name)


def classify1(d):
    if d.startswith("std::vector<"):
        args, end = template_args(d, 12)
        if d[end:end + 2] == "::":
            return vector_method(args[0], d[end + 2:])
    if d.startswith(STR + "::"):
        return string_method(d[len(STR) + 2:])
    if d.startswith("std::function<"):
        args, end = template_args(d, 14)
        if d[end:end + 2] == "::":
            return function_method(d[end + 2:])
    if d.startswith("std::_Function_base::~"):
        return nop
    if d.startswith("std::find_if<"):
        args, end = template_args(d, 13)
        return lambda e, st, a, ins, m: find_if(e, st, a, args, m)
    for q, fn in (("std::any_of<", "any"), ("std::all_of<", "all"), ("std::none_of<", "none")):
        if d.startswith(q):
            args, end = template_args(d, len(q))
            return lambda e, st, a, ins, m, fn=fn, args=args: quantify(e, st, a, args, m, fn)
    m = re.match(r"(?:bool )?std::operator(==|!=)<", d)
    if m:
        args, end = template_args(d, m.end())
        rest = d[end:]
        neg = m.group(1) == "!="
        if rest.startswith("(std::__cxx11::basic_string") or rest.startswith("(char const*"):
            return lambda e, st, a, ins, mm: string_eq(e, st, a, neg)
        if rest.startswith("(std::vector<"):
            return lambda e, st, a, ins, mm: vector_eq(e, st, a, args[0], mm, neg)
    m = re.match(r"(?:.* )?std::operator\+<char", d)
    if m and "basic_string" in d:
        return string_plus
    return None


def nop(e, st, a, ins, m):
    return None


def used(e, what):
    e.contracts_used.add(what)


# ---- vectors -----------------------------------------------------------------------------------------
def vec_of(e, st, p):
    if isinstance(p, PtrIte):
        raise OutOfReach("vector through a conditional pointer")
    if p is NULL:
        e.oblige(st, False, "vector object exists")
        raise Stop()
    return p


def vector_method(elem, rest):
    k = rest.find("(")
    name = rest[:k]
    name = re.sub(r"<.*", "", name) if not name.startswith("operator") else name
    params = rest[k:]
    short = "vector"
    if name == "vector":
        if params.startswith("()"):
            return V(elem, v_init)
        if params.startswith("(unsigned long, std::allocator"):
            return V(elem, v_sized)
        if "vector<" in params and "&&" in params:
            return V(elem, lambda e, st, a, el, m: e.copy_vec(st, a[0], a[1], el, m, True))
        if "vector<" in params and "const&" in params and "initializer_list" not in params:
            return V(elem, lambda e, st, a, el, m: e.copy_vec(st, a[0], a[1], el, m, False))
        if params.startswith("(unsigned long, std::allocator"):
            return V(elem, v_sized)
        return None
    if name == "operator=":
        if "initializer_list" in params:
            return None
        mv = "&&" in params

        def assign(e, st, a, el, m):
            e.copy_vec(st, a[0], a[1], el, m, mv)
            return a[0]
        return V(elem, assign)
    table = {"~vector": lambda e, st, a, el, m: None, "size": v_size, "empty": v_empty, "operator[]": v_index, "at": v_index,
             "front": v_front, "back": v_back, "begin": v_begin, "cbegin": v_begin, "data": v_begin, "end": v_end,
             "cend": v_end, "push_back": v_push, "clear": v_clear, "reserve": lambda e, st, a, el, m: None,
             "shrink_to_fit": lambda e, st, a, el, m: None, "pop_back": v_pop}
    if name in table:
        return V(elem, table[name], mv="&&" in params)
    if name == "resize":
        return V(elem, v_resize) if params.startswith("(unsigned long)") else None
    if name == "emplace_back":
        if elem in ("vfc::VertexFormat", "vfc::IndexData", "vfc::VertexElement") and ("%s&&)" % elem in params or
                                                                                      "%s const&)" % elem in params):
            return V(elem, v_push, mv="&&)" in params)
        if elem.startswith("std::vector<") and re.match(r"\(unsigned (long|int)&&?, .*(&&|const&)\)", params):
            return V(elem, v_emplace_fill)
        if re.match(r"\(\)", params):
            return V(elem, v_emplace_default)
        return None
    if name == "insert":
        return V(elem, v_insert) if elem == "unsigned char" else None
    if name == "assign":
        return None
    return None


class V:
    def __init__(self, elem, fn, mv=False):
        self.elem, self.fn, self.mv = elem, fn, mv

    def __call__(self, e, st, a, ins, m):
        used(e, "std::vector behaves as the C++ standard says (reallocation and allocation failure are not modelled; no "
                "vector has 2^46 elements or more)")
        a = list(a)
        a[0] = vec_of(e, st, a[0])
        if self.fn is v_push:
            return v_push(e, st, a, self.elem, m, self.mv)
        return self.fn(e, st, a, self.elem, m)


def v_init(e, st, a, el, m):
    e.child(e.at(a[0])[0], e.at(a[0])[1], el, m)
    e.set_len(st, a[0], bv64(0))


def v_size(e, st, a, el, m):
    return e.vec_len(st, a[0])


def v_empty(e, st, a, el, m):
    return simp_bool(e.vec_len(st, a[0]) == 0)


def v_index(e, st, a, el, m):
    n = e.vec_len(st, a[0])
    if not e.oblige(st, z3.ULT(a[1], n), "vector index in bounds"):
        raise Stop()
    if e.compares is not None:
        e.compares.append((a[1], n))
    return e.vec_elem(a[0], el, a[1], m)


def v_front(e, st, a, el, m):
    if not e.oblige(st, e.vec_len(st, a[0]) != 0, "front() of a vector that is not empty"):
        raise Stop()
    return e.vec_elem(a[0], el, bv64(0), m)


def v_back(e, st, a, el, m):
    n = e.vec_len(st, a[0])
    if not e.oblige(st, n != 0, "back() of a vector that is not empty"):
        raise Stop()
    return e.vec_elem(a[0], el, z3.simplify(n - 1), m)


def v_begin(e, st, a, el, m):
    return e.vec_elem(a[0], el, bv64(0), m)


def v_end(e, st, a, el, m):
    return e.vec_elem(a[0], el, e.vec_len(st, a[0]), m)


def v_push(e, st, a, el, m, mv):
    n = e.vec_len(st, a[0])
    p = e.vec_elem(a[0], el, n, m)
    if el in e.SCALARS or el == "unsigned char":
        t = e.TYPES[{"i": ("i", e.SCALARS[el][1]), "f": ("f", 8)}[e.SCALARS[el][0]]]
        e.raw_store(st, p, t, e.load(st, a[1], t, m), m)
    else:
        e.copy_object(st, p, a[1], el, m, mv)
    e.set_len(st, a[0], z3.simplify(n + 1))


def v_pop(e, st, a, el, m):
    n = e.vec_len(st, a[0])
    if not e.oblige(st, n != 0, "pop_back() of a vector that is not empty"):
        raise Stop()
    e.set_len(st, a[0], z3.simplify(n - 1))


def v_clear(e, st, a, el, m):
    e.set_len(st, a[0], bv64(0))


def default_leaf(e, kind, size, part):
    sort = e.part_sort(kind, size, part)
    if kind == "str":
        return e.literal(b"")
    if kind == "func":
        return z3.BoolVal(False)
    if kind in ("f", "f4"):
        return z3.FPVal(0.0, sort)
    return z3.BitVecVal(0, sort.size())


def fill_new(e, st, p, el, m, old, n):
    """Value-initialises the elements [old, n) of the vector at p."""
    root, off, idx = e.at(p)
    r = e.child(root, off, el, m)
    for o, (size, kind, extra) in sorted(r.schema.items()):
        for q in (("len",) if kind == "vec" else e.PARTS[kind]):
            sort = I64 if kind == "vec" else e.part_sort(kind, size, q)
            dv = bv64(0) if kind == "vec" else default_leaf(e, kind, size, q)
            cur = e.leaf(st, r, o, q, idx, sort)
            i = z3.BitVec("fill!%d" % sym.FRESH[0], 64)
            sym.FRESH[0] += 1
            new = z3.Lambda([i], z3.If(z3.And(z3.UGE(i, old), z3.ULT(i, n)), dv, z3.Select(cur, i)))
            e.set_leaf(st, r, o, q, idx, new, sort)


SIMPLE = ("unsigned char", "unsigned int", "unsigned short", "double", "int", "char")


def value_initialisable(el):
    return el in SIMPLE or el.startswith("std::vector<") or el == STR


def v_sized(e, st, a, el, m):
    if not value_initialisable(el):
        raise OutOfReach("default construction of " + el)
    e.child(*e.at(a[0])[:2], el, m)
    e.set_len(st, a[0], a[1])
    fill_new(e, st, a[0], el, m, bv64(0), a[1])


def v_resize(e, st, a, el, m):
    if not value_initialisable(el):
        raise OutOfReach("default construction of " + el)
    n = e.vec_len(st, a[0])
    fill_new(e, st, a[0], el, m, n, a[1])
    e.set_len(st, a[0], a[1])


def v_emplace_default(e, st, a, el, m):
    n = e.vec_len(st, a[0])
    v_resize(e, st, [a[0], z3.simplify(n + 1)], el, m)
    return e.vec_elem(a[0], el, n, m)


def v_emplace_fill(e, st, a, el, m):
    """vector<vector<T>>::emplace_back(n, value)."""
    inner = template_args(el, 12)[0][0]
    n = e.vec_len(st, a[0])
    count = e.load(st, a[1], ("i", 64), m)
    p = e.vec_elem(a[0], el, n, m)
    root, off, idx = e.at(p)
    e.set_leaf(st, root, off, "len", idx, count, I64)
    r = e.child(root, off, inner, m)
    for o, (size, kind, extra) in sorted(r.schema.items()):
        if kind == "vec":
            raise OutOfReach("vector of " + inner)
        if kind in ("i", "f", "f4", "ptr"):
            t = e.TYPES[(kind, size)]
            v = e.load(st, e.shift0(a[2], o), t, m)
            sorts = [e.part_sort(kind, size, q) for q in e.PARTS[kind]]
            vs = e.enc_ptr(v) if kind == "ptr" else [fresh("uninit", sorts[0]) if v is UNDEF else v]
            for q, x, s in zip(e.PARTS[kind], vs, sorts):
                if x.sort() != s:
                    x = z3.fpToIEEEBV(x) if sym.is_fp(x) else z3.fpBVToFP(x, s)
                e.leaf_sort.setdefault((r, o, q), s)
                e.set_leaf(st, r, o, q, idx, z3.K(I64, x), s)
        else:
            raise OutOfReach("vector of " + inner)
    e.set_len(st, a[0], z3.simplify(n + 1))
    return p


def v_insert(e, st, a, el, m):
    """insert(end(), first, last) for bytes."""
    n = e.vec_len(st, a[0])
    pos, first, last = a[1], a[2], a[3]
    end = e.vec_elem(a[0], el, n, m)
    if not (isinstance(pos, RPtr) and pos.root is end.root) or not isinstance(first, RPtr) or not isinstance(last, RPtr) or \
            first.root is not last.root:
        raise OutOfReach("insert")
    from .cprofile import quick
    same = z3.And([x == y for x, y in zip(pos.idx, end.idx)])
    if not quick(st.pc, same):
        raise OutOfReach("insert before the end")
    if first.root is end.root:
        raise OutOfReach("insert of own elements")
    pre = [x == y for x, y in zip(first.idx[:-1], last.idx[:-1])]
    src_len = e.region_len(st, first.root, first.idx[:-1])
    f, l = first.idx[-1], last.idx[-1]
    if not e.oblige(st, z3.And(pre + [z3.ULE(f, l), z3.ULE(l, src_len)]), "inserted range is valid"):
        raise Stop()
    cnt = z3.simplify(l - f)
    src = sel(e.arr_get_leaf(st, first.root, 0, "v", z3.BitVecSort(8)), first.idx[:-1])
    root, off, idx = e.at(a[0])
    r = e.child(root, off, el, m)
    cur = sel(e.arr_get_leaf(st, r, 0, "v", z3.BitVecSort(8)), idx)
    i = z3.BitVec("ins!%d" % sym.FRESH[0], 64)
    sym.FRESH[0] += 1
    new = z3.Lambda([i], z3.If(z3.And(z3.UGE(i, n), z3.ULT(i - n, cnt)), z3.Select(src, i - n + f), z3.Select(cur, i)))
    e.set_leaf(st, r, 0, "v", idx, new, z3.BitVecSort(8))
    e.set_len(st, a[0], z3.simplify(n + cnt))
    return e.vec_elem(a[0], el, n, m)


def pure_call(e, st, fn, args, what):
    """The value of a call that changes nothing; its obligations are raised."""
    arr0, mem0 = dict(st.arr), dict(st.mem)
    s = st.fork()
    s2, r = e.call(s, fn, args)
    if s2 is None:
        raise OutOfReach(what + " does not return")
    for k, t in s2.arr.items():
        if k in arr0 and not t.eq(arr0[k]) and not k[0].name.startswith("%s:" % sym.short(fn.demangled)):
            raise OutOfReach(what + " has effects")
        if k not in arr0 and k in e.init_arr and not t.eq(e.init_arr[k]):
            raise OutOfReach(what + " has effects")
    for root, cells in mem0.items():
        new = s2.mem.get(root)
        if new is not cells and new is not None:
            for o in set(new) | set(cells):
                x, y = cells.get(o), new.get(o)
                if x is None or y is None or not (x[1] is y[1] or (isinstance(x[1], z3.ExprRef) and x[1].eq(y[1]))):
                    raise OutOfReach(what + " has effects")
    n = len(st.pc)
    return r, s2.pc[n:]


def find_function(e, m, pred, what):
    res = [f for f in m.functions.values() if pred(f.demangled)]
    if len(res) != 1:
        raise OutOfReach("%s: %d candidates" % (what, len(res)))
    return res[0]


def element_fact(e, st, term, facts, k, k0):
    return z3.substitute(term, (k, k0))


def closure(e, st, args, m):
    """The closure object of a lambda passed by value (in registers or by address)."""
    if len(args) == 1 and type(args[0]) is Ptr and "agg.tmp" in str(args[0].root):
        return args[0]
    p = e.alloc(st, "closure", 8*max(1, len(args)))
    off = 0
    for a in args:
        size = a.size()//8 if sym.is_bv(a) else 8
        st.mem[p.root] = dict(st.mem[p.root])
        st.mem[p.root][off] = (size, a)
        off += 8
    return p


def predicate(e, st, a, targs, m, what):
    """P(k) for a generic position k of the range: (k, term, region, prefix, first, last)."""
    first, last = a[0], a[1]
    if not (isinstance(first, RPtr) and isinstance(last, RPtr) and first.root is last.root and first.off == 0):
        raise OutOfReach(what + " over " + targs[0])
    pre = [x == y for x, y in zip(first.idx[:-1], last.idx[:-1])]
    b, en = first.idx[-1], last.idx[-1]
    n = e.region_len(st, first.root, first.idx[:-1])
    if not e.oblige(st, z3.And(pre + [z3.ULE(b, en), z3.ULE(en, n)]), what + " range is valid"):
        raise Stop()
    fn = find_function(e, m, lambda d: d.startswith(targs[-1] + "::operator()("), targs[-1])
    used(e, "std::%s behaves as the C++ standard says" % what)
    k = fresh("pos", I64)
    s = st.fork()
    s.assume(z3.And(z3.UGE(k, b), z3.ULT(k, en)))
    c = closure(e, s, a[2:], m)
    r, facts = pure_call(e, s, fn, [c, RPtr(first.root, first.idx[:-1] + (k,), 0)], "the predicate of " + what)
    t = to_bool(r)
    hyp = z3.And([to_bool(f) for f in facts]) if facts else z3.BoolVal(True)
    return k, t, hyp, first, b, en


def find_if(e, st, a, targs, m):
    k, t, hyp, first, b, en = predicate(e, st, a, targs, m, "find_if")
    r = fresh("found", I64)
    st.assume(z3.And(z3.UGE(r, b), z3.ULE(r, en)))
    at = lambda x: z3.substitute(t, (k, x))
    st.assume(z3.Implies(z3.ULT(r, en), at(r)))
    q = z3.BitVec("fi!%d" % sym.FRESH[0], 64)
    sym.FRESH[0] += 1
    st.assume(z3.ForAll([q], z3.Implies(z3.And(z3.UGE(q, b), z3.ULT(q, r)), z3.Not(at(q)))))
    return RPtr(first.root, first.idx[:-1] + (r,), 0)


def quantify(e, st, a, targs, m, kind):
    k, t, hyp, first, b, en = predicate(e, st, a, targs, m, kind + "_of")
    q = z3.BitVec("qf!%d" % sym.FRESH[0], 64)
    sym.FRESH[0] += 1
    at = z3.substitute(t, (k, q))
    rng = z3.And(z3.UGE(q, b), z3.ULT(q, en))
    if kind == "all":
        return z3.ForAll([q], z3.Implies(rng, at))
    if kind == "none":
        return z3.ForAll([q], z3.Implies(rng, z3.Not(at)))
    return z3.Not(z3.ForAll([q], z3.Implies(rng, z3.Not(at))))


def vector_eq(e, st, a, el, m, neg):
    used(e, "operator== of std::vector compares lengths and elements in order")
    n1, n2 = e.vec_len(st, a[0]), e.vec_len(st, a[1])
    k = fresh("pos", I64)
    s = st.fork()
    s.assume(z3.And(n1 == n2, z3.ULT(k, n1)))
    p, q = e.vec_elem(a[0], el, k, m), e.vec_elem(a[1], el, k, m)
    if el in e.SCALARS:
        t = e.TYPES[(e.SCALARS[el][0], e.SCALARS[el][1])]
        term = e.load(s, p, t, m) == e.load(s, q, t, m)
    else:
        cand = [f for mm in e.modules for f in mm.functions.values() if f.demangled.startswith("%s::operator==(" % el)]
        if len(set(f.name for f in cand)) != 1:
            raise OutOfReach("operator== of " + el)
        r, facts = pure_call(e, s, cand[0], [p, q], "operator==")
        term = to_bool(r)
    v = z3.BitVec("veq!%d" % sym.FRESH[0], 64)
    sym.FRESH[0] += 1
    eq = z3.And(n1 == n2, z3.ForAll([v], z3.Implies(z3.ULT(v, n1), z3.substitute(term, (k, v)))))
    return z3.Not(eq) if neg else eq


# ---- strings -----------------------------------------------------------------------------------------
def string_method(rest):
    k = rest.find("(")
    name, params = rest[:k], rest[k:]
    name = re.sub(r"<.*", "", name) if not name.startswith("operator") else name
    if name in ("basic_string", "operator=", "assign"):
        ctor = name == "basic_string"

        def put(e, st, a, ins, m):
            used_str(e)
            if params == "()":
                e.str_set(st, a[0], e.literal(b""))
                return None
            if params.startswith("(char const*") and not re.match(r"\(char const\*, unsigned long", params):
                v = e.cstr(st, a[1])
            elif params.startswith("(std::__cxx11::basic_string") and ")" in params and "unsigned long" not in params:
                v = e.str_get(st, a[1])
                if "&&" in params and not is_same_obj(a[0], a[1]):
                    e.str_set(st, a[0], v)
                    e.str_set(st, a[1], fresh("moved", e.str_sort))
                    return None if ctor else a[0]
            else:
                raise OutOfReach("string" + params)
            e.str_set(st, a[0], v)
            return None if ctor else a[0]
        return put
    if name == "~basic_string":
        return nop
    if name in ("c_str", "data"):
        return lambda e, st, a, ins, m: CStr(e.str_get(st, a[0]))
    if name == "empty":
        return lambda e, st, a, ins, m: simp_bool(blen(e.str_get(st, a[0])) == 0 if e.str_sort is BSTR else
                                                  e.str_get(st, a[0]) == e.literal(b""))
    if name in ("operator+=", "append"):
        def plus(e, st, a, ins, m):
            used_str(e)
            if params.startswith("(std::__cxx11"):
                v = e.str_get(st, a[1])
            elif params.startswith("(char const*)"):
                v = e.cstr(st, a[1])
            elif params.startswith("(char)"):
                v = e.char_str(a[1])
            else:
                raise OutOfReach("string::" + name + params)
            e.str_set(st, a[0], e.str_cat(e.str_get(st, a[0]), v))
            return a[0]
        return plus
    if name == "push_back":
        def pb(e, st, a, ins, m):
            e.str_set(st, a[0], e.str_cat(e.str_get(st, a[0]), e.char_str(a[1])))
        return pb
    if name == "clear":
        return lambda e, st, a, ins, m: e.str_set(st, a[0], e.literal(b""))
    if name == "reserve":
        return nop
    from . import pathprofile
    return pathprofile.string_method(name, params)


def used_str(e):
    used(e, "std::string behaves as the C++ standard says (allocation failure is not modelled)")


def is_same_obj(p, q):
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.key() == q.key()


def text(e, st, p, demangled_param_is_cstr):
    return e.cstr(st, p) if demangled_param_is_cstr else e.str_get(st, p)


def string_value(e, st, p):
    """A std::string object or a C string."""
    if isinstance(p, (CStr,)):
        return p.val
    if isinstance(p, PtrIte):
        return z3.If(p.c, string_value(e, st, p.a), string_value(e, st, p.b))
    if type(p) is Ptr and p.root.const:
        return e.cstr(st, p)
    return e.str_get(st, p)


def string_eq(e, st, a, neg):
    used_str(e)
    x, y = string_value(e, st, a[0]), string_value(e, st, a[1])
    eq = bequal(x, y) if e.str_sort is BSTR else x == y
    return simp_bool(z3.Not(eq)) if neg else simp_bool(eq)


def string_plus(e, st, a, ins, m):
    used_str(e)
    if len(a) != 3:
        raise OutOfReach("string operator+")
    vals = []
    for p in a[1:]:
        vals.append(e.char_str(p) if sym.is_bv(p) else string_value(e, st, p))
    e.str_set(st, a[0], e.str_cat(vals[0], vals[1]))


# ---- std::function -----------------------------------------------------------------------------------
def function_method(rest):
    name = rest[:rest.find("(")]
    if rest.startswith("operator bool"):
        def test(e, st, a, ins, m):
            r, o, i = e.at(a[0])
            return e.leaf(st, r, o, "func", i, z3.BoolSort())
        return test
    if rest.startswith("operator()("):
        def invoke(e, st, a, ins, m):
            r, o, i = e.at(a[0])
            if not e.oblige(st, e.leaf(st, r, o, "func", i, z3.BoolSort()), "called function exists"):
                raise Stop()
            used(e, "an error function returns and does not change the converter")
            st.ghost["reports"] = z3.BoolVal(True)
            return None
        return invoke
    if name == "function" and ("std::function<" in rest):
        def move(e, st, a, ins, m):
            sr, so, si = e.at(a[1])
            dr, do, di = e.at(a[0])
            e.set_leaf(st, dr, do, "func", di, e.leaf(st, sr, so, "func", si, z3.BoolSort()), z3.BoolSort())
            if "&&" in rest:
                e.set_leaf(st, sr, so, "func", si, z3.BoolVal(False), z3.BoolSort())
        return move
    if name.startswith("~function"):
        return nop
    return None


# ---- libc --------------------------------------------------------------------------------------------
def _memcmp(e, st, a, ins, m):
    """memcmp(p, q, n) == 0 exactly when the n bytes are equal."""
    p, q, n = a
    for x in (p, q):
        if not isinstance(x, RPtr) or x.root.esize != 1:
            raise OutOfReach("memcmp")
        ln = e.region_len(st, x.root, x.idx[:-1])
        if not e.oblige(st, z3.Or(n == 0, z3.And(z3.ULE(x.idx[-1], ln), z3.ULE(n, ln - x.idx[-1]))), "memcmp in bounds",
                        "of %s" % x.root.name):
            raise Stop()
    used(e, "memcmp returns zero exactly when the bytes are equal")
    r = fresh("memcmp", z3.BitVecSort(32))
    av = sel(e.arr_get_leaf(st, p.root, 0, "v", z3.BitVecSort(8)), p.idx[:-1])
    bv = sel(e.arr_get_leaf(st, q.root, 0, "v", z3.BitVecSort(8)), q.idx[:-1])
    k = z3.BitVec("mc!%d" % sym.FRESH[0], 64)
    sym.FRESH[0] += 1
    all_eq = z3.ForAll([k], z3.Implies(z3.ULT(k, n), z3.Select(av, p.idx[-1] + k) == z3.Select(bv, q.idx[-1] + k)))
    w = fresh("differ", I64)
    st.assume(z3.Implies(r == 0, all_eq))
    st.assume(z3.Implies(r != 0, z3.And(z3.ULT(w, n), z3.Select(av, p.idx[-1] + w) != z3.Select(bv, q.idx[-1] + w))))
    return r


TOLOWER = z3.Function("tolower", z3.BitVecSort(32), z3.BitVecSort(32))


def _tolower(e, st, a, ins, m):
    used(e, "tolower depends only on its argument")
    return TOLOWER(a[0])


FOLD = {}


def fold(sort):
    if sort not in FOLD:
        FOLD[sort] = z3.Function("fold_case", sort, sort)
    return FOLD[sort]


def lowered(x):
    """The string with its letters in lower case (C locale)."""
    if z3.is_string_value(x):
        return z3.StringVal(x.as_string().lower())
    return fold(x.sort())(x)


def _strcasecmp(e, st, a, ins, m):
    used(e, "strcasecmp returns zero exactly when the strings agree ignoring case (C locale)")
    x, y = e.cstr(st, a[0]), e.cstr(st, a[1])
    r = fresh("strcasecmp", z3.BitVecSort(32))
    st.assume((r == 0) == (lowered(x) == lowered(y)))
    return r


LIBC = {"@__cxa_atexit": nop, "@memcmp": _memcmp, "@tolower": _tolower, "@strcasecmp": _strcasecmp, "@bcmp": _memcmp}


# ---- unordered maps with constant contents -----------------------------------------------------------
def map_method(d, args, rest):
    name = rest[:rest.find("(")]
    if name == "unordered_map" and rest.startswith("unordered_map(std::initializer_list"):
        def init(e, st, a, ins, m):
            n = e.concrete(a[2])
            if n is None or type(a[1]) is not Ptr:
                raise OutOfReach("contents of a map")
            kv = "std::pair<%s const, %s>" % (args[0], args[1])
            pt = [t for t in m.types if t.startswith('%"struct.std::pair')]
            e.maps[a[0].root] = (a[1], n, args, pair_size(e, st, a[1], n, m))
        return init
    if name == "find":
        return lambda e, st, a, ins, m: map_find(e, st, a, args, m)
    if name in ("end", "cend"):
        return lambda e, st, a, ins, m: map_end(e, a[0])
    if name == "~unordered_map":
        return nop
    return None


def pair_size(e, st, p, n, m):
    """Stride of the initializer array: its size over the number of entries."""
    if p.root.size is None or p.root.size % n:
        raise OutOfReach("initializer array")
    return p.root.size//n


def map_end(e, p):
    if p.root not in e.map_ends:
        e.map_ends[p.root] = Ptr(sym.Root("end of a map", 0), 0)
    return e.map_ends[p.root]


def map_find(e, st, a, args, m):
    """The first entry whose key equals the argument. Needs equal keys to have equal hashes (proved separately)."""
    used(e, "std::unordered_map::find returns the entry whose key compares equal, given that equal keys have equal hashes "
            "(the latter is an obligation)")
    if a[0].root not in e.maps:
        raise OutOfReach("contents of a map")
    base, n, _, stride = e.maps[a[0].root]
    eq = find_function(e, m, lambda d: d.startswith("std::equal_to<%s>::operator()(" % args[0]), "equal_to<%s>" % args[0])
    tests = []
    for i in range(n):
        entry = Ptr(base.root, base.off + i*stride)
        r, facts = pure_call(e, st, eq, [e.alloc(st, "equal_to", 1), entry, a[1]], "operator== of the key")
        for f in facts:
            st.assume(f)
        tests.append((to_bool(r), entry))
    out = map_end(e, a[0])
    for c, entry in reversed(tests):
        c = simp_bool(c)
        if c is False:
            continue
        out = entry if c is True else PtrIte(c, entry, out)
    return out


_classify0 = classify1


def classify1(d):
    h = _classify0(d)
    if h:
        return h
    if d.startswith("std::unordered_map<"):
        args, end = template_args(d, 19)
        if d[end:end + 2] == "::":
            return map_method(d, args, d[end + 2:])
    m = re.match(r"std::__detail::_Node_(const_)?iterator<", d)
    if m:
        args, end = template_args(d, m.end())
        if re.match(r"::operator(->|\*)\(\)", d[end:]):
            return lambda e, st, a, ins, m: e.load(st, a[0], ("ptr",), m)
    return None
