"""Obligations about vertex formats (C05), the enumeration tables (C06) and index access (C07)."""
import time
import z3
from . import spec, sym, solve, cprofile
from .sym import OutOfReach, NULL, UNDEF, Ptr, PtrIte, State, to_bool, simp_bool, fresh
from .cprofile import CEngine, Region, RPtr, CStr, IntPtr, I64, bv64, CAP, has_quantifier, is_true, quick, sel
from . import ground
from .vprofile import Code, post, Lemmas

BV8, BV32 = z3.BitVecSort(8), z3.BitVecSort(32)


def discharge(ob, limit):
    """z3 on the whole query (arrays, quantifiers), on ground instances of it, and on the whole again."""
    t0 = time.time()
    try:
        if ob.cond is True:
            ob.status, ob.by = "proved", "simplification"
            return
        goal = to_bool(ob.cond)
        quantified = any(has_quantifier(to_bool(c)) for c in ob.pc) or has_quantifier(goal)
        if quantified and cprofile.MATCHING[0]:
            if ground.by_matching(ob.pc, *ground.skolemise(goal), int(1000*limit*.2)) == z3.unsat:
                ob.status, ob.by = "proved", "z3"
                return
        for tac in ("plain", "ground", "again"):
            if tac == "ground":
                if quantified and ground.split_entails(ob.pc, goal, int(1000*limit*.2)):
                    ob.status, ob.by = "proved", "z3"
                    return
                continue
            s = z3.Solver()
            solve.limit(s, 1000*limit*(1 if tac == "again" else .05 if quantified else .4))
            if tac == "again":
                s.set("random_seed", 7)
                s.set("smt.mbqi", True)
            for c in list(ob.pc) + ground.skolemise(goal)[0]:
                s.add(c)
            r = solve.answer(s)
            if r == z3.unsat:
                ob.status, ob.by = "proved", "z3"
                return
            if r == z3.sat:
                ob.status, ob.by, ob.model = "failed", "z3", s.model()
                return
        ob.status = "unknown"
    finally:
        ob.time = time.time() - t0


class CCode(Code):
    def engine(self, label="", strings=None):
        e = CEngine(self.modules)
        e.label = label
        if strings is not None:
            e.str_sort = strings
        e.discharge = discharge
        e.initialised = True
        return e


def bytes_region(e, name, n, const=False):
    """An array of n bytes outside every container."""
    r = Region(name, "unsigned char", 1, 1, None)
    r.schema = {0: (1, "i", None)}
    r.length = lambda st, prefix: n
    r.const = const
    return r


def rp(r, *idx):
    return RPtr(r, [bv64(i) for i in idx], 0)


def byte(e, st, r, i):
    return e.leaf(st, r, 0, "v", (i,), BV8)


def done(e, st, st2):
    if st2 is None:
        post(e, st, False, "returns")
        return False
    return True


# ---- C07 ---------------------------------------------------------------------------------------------
INDEX_TYPES = ["NoIndices", "UInt16", "UInt32"]
WIDTH = [0, 2, 4]


def index_consts(code):
    e = Lemmas("")
    out = None
    for fn, want in (("vfv_size", [0, 2, 4]), ("vfv_max", [0, 0xFFFE, 0xFFFFFFFE]),
                     ("vfv_restart", [0xFFFFFFFF, 0xFFFF, 0xFFFFFFFF])):
        for t in range(3):
            en = code.engine("%s(%s): " % ({"vfv_size": "indexSize", "vfv_max": "maxIndexValue",
                                           "vfv_restart": "primitiveRestartIndexValue"}[fn], INDEX_TYPES[t]))
            st = State()
            st2, r = en.call(st, code.find(fn), [z3.BitVecVal(t, 8)])
            if done(en, st, st2):
                post(en, st2, r == want[t], "has the documented value")
            if out is None:
                out = en
            else:
                out.obligations += en.obligations
                out.touched |= en.touched
    return out


def index_get(code, t, present):
    e = code.engine("getIndexValue(%s%s): " % (INDEX_TYPES[t], "" if present else ", null"))
    st = State()
    n, i, dv = z3.BitVec("size", 64), z3.BitVec("i", 64), z3.BitVec("default", 32)
    w = WIDTH[t]
    st.assume(z3.And(z3.ULT(n, CAP)))
    r = bytes_region(e, "data", n, True)
    if present and w:
        st.assume(z3.And(z3.ULT(i, CAP), z3.ULE(i*w + w, n)))
    p = rp(r, 0) if present else NULL
    st2, v = e.call(st, code.find("vfv_get", exact=True), [z3.BitVecVal(t, 8), p, i, dv])
    st3, v2 = e.call(st.fork(), code.find("vfv_get_default", exact=True), [z3.BitVecVal(t, 8), p, i])
    if not (done(e, st, st2) and done(e, st, st3)):
        return e
    if present and w:
        want = z3.Concat([byte(e, st, r, i*w + k) for k in reversed(range(w))])
        want = z3.ZeroExt(32 - 8*w, want) if w < 4 else want
        post(e, st2, v == want, "returns the stored value")
        post(e, st3, v2 == want, "returns the stored value (implicit default)")
    else:
        post(e, st2, v == dv, "returns the default")
        post(e, st3, v2 == z3.BitVecVal(0xFFFFFFFF, 32), "returns the implicit default")
    return e


def index_set(code, t, present):
    e = code.engine("setIndexValue(%s%s): " % (INDEX_TYPES[t], "" if present else ", null"))
    st = State()
    n, i, v = z3.BitVec("size", 64), z3.BitVec("i", 64), z3.BitVec("value", 32)
    w = WIDTH[t]
    st.assume(z3.And(z3.ULT(n, CAP)))
    r = bytes_region(e, "data", n)
    if present and w:
        st.assume(z3.And(z3.ULT(i, CAP), z3.ULE(i*w + w, n)))
    j = z3.BitVec("j", 64)
    old = byte(e, st, r, j)
    st2, ok = e.call(st, code.find("vfv_set"), [z3.BitVecVal(t, 8), rp(r, 0) if present else NULL, i, v])
    if not done(e, st, st2):
        return e
    if present and w:
        post(e, st2, to_bool(ok), "reports success")
        for k in range(w):
            post(e, st2, byte(e, st2, r, i*w + k) == z3.Extract(8*k + 7, 8*k, v), "byte %d of the index is stored" % k)
        post(e, st2, z3.Implies(z3.Or(z3.ULT(j, i*w), z3.UGE(j, i*w + w)), byte(e, st2, r, j) == old), "no other byte changes")
    else:
        post(e, st2, z3.Not(to_bool(ok)), "reports failure")
        post(e, st2, byte(e, st2, r, j) == old, "no byte changes")
    return e


def c07_tasks():
    out = [("index_consts", ())]
    for t in range(3):
        for p in (True, False):
            out += [("index_get", (t, p)), ("index_set", (t, p))]
    return out


# ---- C06 ---------------------------------------------------------------------------------------------
XYZW = spec.NAMES
RGBA = [n.replace("X", "R").replace("Y", "G").replace("Z", "B").replace("W", "A") for n in XYZW]
RGBA[18], RGBA[19] = "B10G11R11_UFloat", "E5B9G9R9_UFloat"
PRIMS = ["PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList"]


def text_is(e, st, p, s):
    if p is NULL or not isinstance(p, (Ptr, CStr)):
        return False
    return is_true(e.cstr(st, p) == e.literal(s.encode()))


def names_task(code, which, k):
    """The name of enumerator k (-1: of every value that is no enumerator)."""
    fn, table, flags = {"layout": ("vfc::elementLayoutName", XYZW, [False]), "color": ("vfc::elementLayoutName", RGBA, [True]),
                        "type": ("vfc::elementTypeName", spec.TYPES, []),
                        "primitive": ("vfc::primitiveTypeName", PRIMS, [])}[which]
    e = code.engine("%s name of %s: " % (which, table[k] if k >= 0 else "unknown enumerators"), z3.StringSort())
    st = State()
    v = z3.BitVec("value", 8) if k < 0 else z3.BitVecVal(k, 8)
    if k < 0:
        st.assume(z3.Or(v < 0, v >= len(table)))
    st2, r = e.call(st, code.find(fn), [v] + flags)
    if not done(e, st, st2):
        return e
    post(e, st2, (r is NULL) if k < 0 else text_is(e, st2, r, table[k]), "is null" if k < 0 else "is the documented one")
    return e


def size_task(code):
    e = code.engine("elementLayoutSize: ")
    st = State()
    v = z3.BitVec("layout", 8)
    st2, r = e.call(st, code.find("vfc::elementLayoutSize"), [v])
    if not done(e, st, st2):
        return e
    for k in range(20):
        post(e, st2, z3.Implies(v == k, r == spec.size(k)), "%s has the sum of its component widths" % XYZW[k])
    post(e, st2, z3.Implies(z3.Or(v < 0, v >= 20), r == 0), "unknown layouts have no size")
    return e


def valid_formula(layout, ty):
    return z3.Or([z3.And(layout == l, ty == t) for l in range(20) for t in range(5) if spec.valid(l, t)])


def valid_task(code):
    e = code.engine("isElementValid: ")
    st = State()
    l, t = z3.BitVec("layout", 8), z3.BitVec("type", 8)
    st.assume(z3.And(t >= -1, t < 5))      # an enumerator or Invalid
    st2, r = e.call(st, code.find("vfc::isElementValid"), [l, t])
    if not done(e, st, st2):
        return e
    for k in range(20):
        post(e, st2, z3.Implies(l == k, to_bool(r) == z3.Or([t == x for x in range(5) if spec.valid(k, x)])),
             "%s admits exactly its types" % XYZW[k])
    post(e, st2, z3.Implies(z3.Or(l < 0, l >= 20), z3.Not(to_bool(r))), "unknown layouts admit none")
    return e


def run_globals(e, st, suffix):
    """Executes the dynamic initialisers of a module."""
    for m in e.modules:
        for f in m.functions.values():
            if f.name.startswith("@_GLOBAL__sub_I_%s" % suffix):
                st, _ = e.call(st, f, [])
                return st
    raise OutOfReach("no dynamic initialiser")


def lookup_task(code, which):
    fn, tables = {"layout": ("vfc::elementLayoutFromName", [XYZW, RGBA]), "type": ("vfc::elementTypeFromName", [spec.TYPES]),
                  "primitive": ("vfc::primitiveTypeFromName", [PRIMS])}[which]
    from . import stdlib
    e = code.engine("%s from its name: " % which, z3.StringSort())
    st = run_globals(e, State(), "VertexFormat")
    name = z3.Const("name", z3.StringSort())
    f = code.find(fn)
    st1, r1 = e.call(st.fork(), f, [NULL])
    if done(e, st, st1):
        post(e, st1, r1 == -1, "null yields Invalid")
    st2, r = e.call(st, f, [CStr(name)])
    if not done(e, st, st2):
        return e
    low = stdlib.lowered(name)
    others = []
    for t in tables:
        for i, n in enumerate(t):
            hit = low == z3.StringVal(n.lower())
            others.append(z3.Not(hit))
            post(e, st2, z3.Implies(hit, r == i), "%s in any case yields its enumerator" % n)
    post(e, st2, z3.Implies(z3.And(others), r == -1), "every other string yields Invalid")
    e.sat_check = False
    return e


def hash_task(code):
    """Names that agree ignoring case have the same hash: both loops run in lockstep."""
    from . import stdlib
    fn = code.find("vfc::(anonymous namespace)::StringRefHash::operator()")
    e = code.engine("hash of a name: ")
    n, k = z3.BitVec("n", 64), z3.BitVec("k", 64)
    regs = [bytes_region(e, nm, n + 1, True) for nm in "ab"]
    base = State()
    base.assume(z3.ULT(n, CAP))
    x = [z3.Const(nm, z3.ArraySort(I64, BV8)) for nm in "ab"]
    low = lambda t: stdlib.TOLOWER(z3.SignExt(24, t))
    base.assume(z3.ForAll([k], z3.Implies(z3.ULT(k, n), z3.And(x[0][k] != 0, x[1][k] != 0, low(x[0][k]) == low(x[1][k])))))
    sides = []
    for r, arr in zip(regs, x):
        st = base.fork()
        e.leaf_sort[(r, 0, "v")] = BV8
        st.arr[(r, 0, "v")] = arr
        st.assume(arr[n] == 0)
        this, ref = e.alloc(st, "hasher", 1), e.alloc(st, "ref", 8)
        sides.append((st, [this, ref], rp(r, 0)))
    lockstep(e, fn, sides, base)
    return e


def lockstep(e, fn, sides, base):
    """Relational rule for one loop: equal at the header, equal after the body, equal result."""
    heads = []
    handler = e.loop_handler
    for st, args, text in sides:
        hit = []

        def catch(en, f, s, name, stop, hit=hit):
            from .sym import natural_loops
            if name in natural_loops(f):
                hit.append((f, s, name, list(en.context), list(en.where)))
                return []
            return None
        e.loop_handler = catch
        # a class of one pointer is passed in a register
        a = [args[0], text] if fn.params[1][0] == ("ptr",) else None
        if a is None:
            raise OutOfReach("hash of a name")
        e.call(st, fn, a)
        if len(hit) != 1:
            raise OutOfReach("the hash is not one loop")
        heads.append(hit[0])
    e.loop_handler = handler
    (f, sa, name, ctx, where), (f2, sb, name2, _, _) = heads
    if f is not f2 or name != name2:
        raise OutOfReach("the hash is not one loop")
    from .sym import natural_loops
    nodes = natural_loops(f)[name]
    both = State()
    both.pc = list(sa.pc) + list(sb.pc)
    phis = [p.dst for p in f.blocks[name].phis]
    eqs = []
    for p in phis:
        u, v = sa.env[p], sb.env[p]
        eqs.append(same_value(u, v))
    post(e, both, z3.And(eqs), "both loops start alike")
    e.context, e.where = ctx, where
    shared, hs = {}, []
    n = z3.BitVec("n", 64)
    for s in (sa, sb):
        h = s.fork()
        for p in phis:
            v = s.env[p]
            if p not in shared:
                shared[p] = fresh("phi", I64 if isinstance(v, RPtr) else v.sort())
            if isinstance(v, RPtr):
                h.env[p] = RPtr(v.root, v.idx[:-1] + (shared[p],), v.off)
                h.assume(z3.ULE(shared[p], n))
            elif sym.is_bv(v):
                h.env[p] = shared[p]
            else:
                raise OutOfReach("hash of a name")
        hs.append(h)
    res = [e.iterate(f, h, name, nodes) for h in hs]
    (ba, xa), (bb, xb) = res
    if len(ba) != 1 or len(bb) != 1 or len(xa) != 1 or len(xb) != 1 or xa[0][0] != xb[0][0]:
        raise OutOfReach("the hash is not one loop")
    extra = lambda s, h: z3.And([to_bool(c) for c in s.pc[len(h.pc):]] or [z3.BoolVal(True)])
    both = State()
    both.pc = list(hs[0].pc) + list(hs[1].pc)
    post(e, both, extra(ba[0], hs[0]) == extra(bb[0], hs[1]), "both loops go on together")
    post(e, both, extra(xa[0][1], hs[0]) == extra(xb[0][1], hs[1]), "both loops end together")
    both.pc += [extra(ba[0], hs[0]), extra(bb[0], hs[1])]
    post(e, both, z3.And([same_value(ba[0].env[p], bb[0].env[p]) for p in phis] +
                         [z3.ULE(ba[0].env[p].idx[-1], n) for p in phis if isinstance(ba[0].env[p], RPtr)]),
         "the body keeps them alike")
    outs = []
    for (nm, s) in (xa[0], xb[0]):
        r = e.run(f, s, nm, "%ret")
        if r is None:
            raise OutOfReach("hash of a name")
        outs.append(r)
    both = State()
    both.pc = list(outs[0].pc) + list(outs[1].pc)
    post(e, both, same_value(outs[0].env["%retval"], outs[1].env["%retval"]), "the results agree")


def same_value(u, v):
    if isinstance(u, RPtr) and isinstance(v, RPtr):
        return u.idx[-1] == v.idx[-1]
    if isinstance(u, z3.ExprRef) and isinstance(v, z3.ExprRef):
        return u == v
    raise OutOfReach("values in lockstep")


def c06_tasks():
    out = [("size_task", ()), ("valid_task", ()), ("hash_task", ())] + [("lookup_task", (w,)) for w in ("layout", "type", "primitive")]
    for w, n in (("layout", 20), ("color", 20), ("type", 5), ("primitive", 7)):
        out += [("names_task", (w, k)) for k in range(-1, n)]
    return out


# ---- C05 ---------------------------------------------------------------------------------------------
class Format:
    """A VertexFormat object: its fields as terms of a state."""

    def __init__(self, code, e, st, name, region_of=None):
        self.e, self.code = e, code
        fn = code.find("vfc::VertexFormat::containsElements")
        self.m = fn.module
        t, mm = e.llvm_type("vfc::VertexFormat", self.m)
        self.p = e.alloc(st, name, mm.size(t))
        self.stride_off = 24
        self.init(st)

    def init(self, st):
        e = self.e
        e.child(self.p.root, 0, "vfc::VertexElement", self.m)
        sc = sorted(e.schema("vfc::VertexElement", self.m).items())
        kinds = [(k, s) for _, (s, k, _) in sc]
        if kinds != [("str", 32), ("i", 1), ("i", 1), ("i", 4)]:
            raise OutOfReach("members of VertexElement")
        self.offs = [o for o, _ in sc]
        st.mem[self.p.root] = dict(st.mem[self.p.root])
        st.mem[self.p.root][self.stride_off] = (4, z3.BitVec("%s.stride" % self.p.root.name, 32))

    def region(self):
        return self.e.child(self.p.root, 0, "vfc::VertexElement", self.m)

    def len(self, st):
        return self.e.leaf(st, self.p.root, 0, "len", (), I64)

    def stride(self, st):
        return self.e.load(st, Ptr(self.p.root, self.stride_off), ("i", 32), self.m)

    def name(self, st, i):
        return self.e.leaf(st, self.region(), self.offs[0], "str", (i,), self.e.str_sort)

    def layout(self, st, i):
        return self.e.leaf(st, self.region(), self.offs[1], "v", (i,), BV8)

    def type(self, st, i):
        return self.e.leaf(st, self.region(), self.offs[2], "v", (i,), BV8)

    def offset(self, st, i):
        return self.e.leaf(st, self.region(), self.offs[3], "v", (i,), BV32)

    def fields(self, st, i):
        return [self.name(st, i), self.layout(st, i), self.type(st, i), self.offset(st, i)]

    def invariant(self, st):
        """The properties of every format: [(name, formula)]."""
        i, j = z3.BitVecs("i j", 64)
        n = self.len(st)
        last = n - 1
        return [
            ("no elements are lost count of", z3.ULT(n, CAP)),
            ("the first element is at offset zero", z3.Implies(n != 0, self.offset(st, bv64(0)) == 0)),
            ("each element follows the one before it",
             z3.ForAll([i], z3.Implies(z3.And(z3.UGT(i, 0), z3.ULT(i, n)), self.offset(st, i) ==
                                       self.offset(st, i - 1) + size_of(self.layout(st, i - 1))))),
            ("the stride is the end of the last element",
             self.stride(st) == z3.If(n == 0, z3.BitVecVal(0, 32), self.offset(st, last) + size_of(self.layout(st, last)))),
            ("names differ", z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, n)),
                                                         self.name(st, i) != self.name(st, j)))),
            ("layout and type pairs are supported",
             z3.ForAll([i], z3.Implies(z3.ULT(i, n), valid_formula(self.layout(st, i), self.type(st, i))))),
        ]

    def assume(self, st):
        st.assume(size_axioms())
        for _, f in self.invariant(st):
            st.assume(f)

    def havoc(self, st):
        """Forgets the contents of the format."""
        e, root, r = self.e, self.p.root, self.region()
        e.set_leaf(st, root, 0, "len", (), fresh("len", I64), I64)
        for o, part, sort in zip(self.offs, ("str", "v", "v", "v"), (e.str_sort, BV8, BV8, BV32)):
            e.leaf(st, r, o, part, (bv64(0),), sort)
            st.arr[(r, o, part)] = fresh("%s+%d" % (root.name, o), z3.ArraySort(I64, sort))
        st.mem[root] = dict(st.mem[root])
        st.mem[root][self.stride_off] = (4, fresh("stride", BV32))

    def check(self, st, skip_count=True):
        for nm, f in self.invariant(st)[1 if skip_count else 0:]:
            post(self.e, st, f, "keeps: " + nm)

    def same(self, a, b):
        """The two states hold the same format."""
        i = z3.BitVec("i", 64)
        n = self.len(a)
        return z3.And(n == self.len(b), self.stride(a) == self.stride(b),
                      z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And([x == y for x, y in zip(self.fields(a, i), self.fields(b, i))]))))


SIZE_FN = z3.Function("element_size", BV8, BV32)


def size_of(layout):
    return SIZE_FN(layout)


def size_axioms():
    return z3.And([SIZE_FN(z3.BitVecVal(k, 8)) == spec.size(k) for k in range(20)])


def format_init(code):
    e = code.engine("VertexFormat(): ")
    st = State()
    f = Format(code, e, st, "format")
    st2, _ = e.call(st, code.find("vfv_init"), [f.p])
    if done(e, st, st2):
        post(e, st2, f.len(st2) == 0, "is empty")
        f.check(st2)
    return e


def format_clear(code):
    e = code.engine("clear: ")
    st = State()
    f = Format(code, e, st, "format")
    f.assume(st)
    st2, _ = e.call(st, code.find("vfv_clear"), [f.p])
    if done(e, st, st2):
        post(e, st2, f.len(st2) == 0, "leaves no element")
        f.check(st2)
    return e


def format_append(code):
    e = code.engine("appendElement: ")
    st = State()
    f = Format(code, e, st, "format")
    f.assume(st)
    name = e.alloc(st, "name", 32)
    text = z3.Const("text", e.str_sort)
    e.str_set(st, name, text)
    layout, ty = z3.BitVecs("layout type", 8)
    st.assume(z3.And(ty >= -1, ty < 5))
    before = st.fork()
    n = f.len(before)
    st2, r = e.call(st, code.find("vfc::VertexFormat::appendElement"), [f.p, name, layout, ty])
    if not done(e, st, st2):
        return e
    i = z3.BitVec("i", 64)
    ok = valid_formula(layout, ty)
    w = z3.BitVec("w", 64)
    known = z3.Exists([i], z3.And(z3.ULT(i, n), f.name(before, i) == text))
    post(e, st2, z3.Implies(z3.Not(ok), r == 2), "an unsupported pair is reported first")
    post(e, st2, z3.Implies(z3.And(ok, z3.ULT(w, n), f.name(before, w) == text), r == 1), "a known name is reported")
    post(e, st2, z3.Implies(z3.And(ok, z3.Not(known)), r == 0), "a new name with a supported pair is accepted")
    post(e, st2, z3.Implies(r != 0, f.same(before, st2)), "a refused append changes nothing")
    def facts(s):
        return [(f.len(s) == n + 1, "an accepted append adds one element"),
                (z3.And([x == y for x, y in zip(f.fields(s, n), [text, layout, ty, f.stride(before)])]),
                 "the new element holds what was given, at the old stride"),
                (f.stride(s) == f.stride(before) + size_of(layout), "the stride grows by the size of the element"),
                (z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And([x == y for x, y in zip(f.fields(s, i), f.fields(before, i))]))),
                 "the elements before it stay")]
    acc = st2.fork()
    acc.assume(r == 0)
    for fm, nm in facts(acc):
        post(e, acc, fm, nm)
    # lemma: whatever satisfies these facts keeps the invariant
    gen = before.fork()
    f.havoc(gen)
    for fm, nm in facts(gen):
        gen.assume(fm)
    gen.assume(z3.And(ok, z3.Not(known), z3.ULT(n + 1, CAP)))
    f.check(gen)
    return e


def format_find(code):
    e = code.engine("find: ")
    st = State()
    f = Format(code, e, st, "format")
    f.assume(st)
    before = st.fork()
    key = z3.Const("key", e.str_sort)
    st2, r = e.call(st, [x for d, x in code.fns.items() if d.startswith("vfc::VertexFormat::find(char const*)")][0],
                    [f.p, CStr(key)])
    if not done(e, st, st2):
        return e
    n = f.len(before)
    w = z3.BitVec("w", 64)
    if not (isinstance(r, RPtr) and r.root is f.region()):
        raise OutOfReach("result of find")
    pos = r.idx[-1]
    post(e, st2, z3.ULE(pos, n), "points into the format or at its end")
    post(e, st2, z3.Implies(z3.ULT(pos, n), f.name(before, pos) == key), "points at the element of that name")
    post(e, st2, z3.Implies(z3.And(z3.ULT(w, n), f.name(before, w) == key), pos == w), "finds the element of that name")
    post(e, st2, f.same(before, st2), "changes nothing")
    return e


def membership(e, f, st, tag):
    """Ghost predicate: some element of the format has this name."""
    has = z3.Function("has_" + tag, e.str_sort, z3.BoolSort())
    wit = z3.Function("where_" + tag, e.str_sort, I64)
    i, x = z3.BitVec("i", 64), z3.Const("x", e.str_sort)
    n = f.len(st)
    st.assume(z3.ForAll([i], z3.Implies(z3.ULT(i, n), has(f.name(st, i)))))
    st.assume(z3.ForAll([x], z3.Implies(has(x), z3.And(z3.ULT(wit(x), n), f.name(st, wit(x)) == x)), patterns=[has(x)]))
    return has


def positions(e, s, mods, region):
    """Values of pointers into a region among what a loop changes."""
    out = []
    for k in mods:
        v = e.read(s, k)
        if isinstance(v, RPtr) and v.root is region:
            out.append((k, v.idx[-1]))
    return out


def format_contains(code):
    e = code.engine("containsElements: ")
    st = State()
    f, g = Format(code, e, st, "format"), Format(code, e, st, "other")
    f.assume(st)
    g.assume(st)
    has = membership(e, f, st, "format")
    before = st.fork()
    n2 = g.len(before)
    i = z3.BitVec("i", 64)

    def template(en, fn, name, s0, h, mods, vs):
        out = []
        for nm, get in vs:
            def fm(en, s, get=get):
                p = get(s)
                if p is None or p.size() != 64:
                    return None
                return z3.ForAll([i], z3.Implies(z3.ULT(i, p), has(g.name(before, i))))
            out.append(("the elements before %s are in the format" % nm, fm))
        return out
    e.templates.append(template)
    st2, r = e.call(st, code.find("vfc::VertexFormat::containsElements", exact=False) if False else
                    [x for d, x in code.fns.items() if d.startswith("vfc::VertexFormat::containsElements(")][0], [f.p, g.p])
    if not done(e, st, st2):
        return e
    w = z3.BitVec("w", 64)
    post(e, st2, z3.Implies(z3.And(to_bool(r), z3.ULT(w, n2)), has(g.name(before, w))), "if true, every element is there")
    post(e, st2, z3.Implies(z3.ForAll([i], z3.Implies(z3.ULT(i, n2), has(g.name(before, i)))), to_bool(r)),
         "if every element is there, true")
    post(e, st2, z3.And(f.same(before, st2), g.same(before, st2)), "changes nothing")
    return e


def format_equal(code, neg):
    e = code.engine("operator%s: " % ("!=" if neg else "=="))
    st = State()
    f, g = Format(code, e, st, "format"), Format(code, e, st, "other")
    f.assume(st)
    g.assume(st)
    before = st.fork()
    n1, n2 = f.len(before), g.len(before)
    i, w = z3.BitVecs("i w", 64)
    st2, r = e.call(st, code.find("vfv_ne" if neg else "vfv_eq"), [f.p, g.p])
    if not done(e, st, st2):
        return e
    r = z3.Not(to_bool(r)) if neg else to_bool(r)
    at = lambda k: z3.And([x == y for x, y in zip(f.fields(before, k), g.fields(before, k))])
    lists = z3.And(n1 == n2, z3.ForAll([i], z3.Implies(z3.ULT(i, n1), at(i))))
    post(e, st2, z3.Implies(r, n1 == n2), "if equal, as many elements")
    post(e, st2, z3.Implies(z3.And(r, z3.ULT(w, n1)), at(w)), "if equal, the elements are equal")
    post(e, st2, z3.Implies(z3.And(n1 == n2, z3.ForAll([i], z3.Implies(z3.ULT(i, n1), at(i))), at(n1 - 1) if False else True), r),
         "if the lists are equal, equal")
    post(e, st2, z3.And(f.same(before, st2), g.same(before, st2)), "changes nothing")
    return e


def format_access(code):
    e = code.engine("size, empty, stride and operator[]: ")
    st = State()
    f = Format(code, e, st, "format")
    f.assume(st)
    i = z3.BitVec("i", 64)
    st.assume(z3.ULT(i, f.len(st)))
    n = f.len(st)
    st2, r = e.call(st, code.find("vfv_count"), [f.p])
    post(e, st2, r == n, "size is the number of elements")
    st2, r = e.call(st2, code.find("vfv_empty"), [f.p])
    post(e, st2, to_bool(r) == (n == 0), "empty means no elements")
    st2, r = e.call(st2, code.find("vfv_stride"), [f.p])
    post(e, st2, r == f.stride(st), "stride")
    st2, r = e.call(st2, code.find("vfv_index"), [f.p, i])
    post(e, st2, isinstance(r, RPtr) and r.root is f.region() and r.off == 0 and is_true(r.idx[-1] == i), "element i")
    return e


def c05_tasks():
    return [("format_init", ()), ("format_clear", ()), ("format_append", ()), ("format_find", ()), ("format_contains", ()),
            ("format_equal", (False,)), ("format_equal", (True,)), ("format_access", ())]
