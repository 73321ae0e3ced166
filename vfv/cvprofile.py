"""Obligations about converters (C08 to C13)."""
import z3
from . import sym, spec
from .sym import NULL, UNDEF, Ptr, PtrIte, State, FnPtr, OutOfReach, Stop, to_bool, simp_bool, fresh, F64
from .cprofile import CEngine, Region, RPtr, CStr, IntPtr, I64, CAP, bv64, depth_of, is_true, sel, upd, has_quantifier
from .fprofile import bytes_region, rp, done, byte, run_globals
from .ground import has_bound
from .solve import limit, answer
from .vprofile import Lemmas, post

BV8, BV16, BV32 = z3.BitVecSort(8), z3.BitVecSort(16), z3.BitVecSort(32)
FORMAT, STREAM, REF = "vfc::VertexFormat", "vfc::Converter::VertexStream", "vfc::Converter::VertexElementRef"
vector_of = lambda t: "std::vector<%s, std::allocator<%s> >" % (t, t)
REFS, BYTES = vector_of(REF), vector_of("unsigned char")
POINTS, LINES, LINE_STRIP, TRIANGLES, STRIP, FAN, PATCHES = range(7)
RESTARTING = (LINE_STRIP, STRIP, FAN)
DBL_MAX = z3.FPVal(1.7976931348623157e308, F64)
DBL_LOW = z3.FPVal(-1.7976931348623157e308, F64)


def b32(x):
    return z3.BitVecVal(x, 32)


def restart_value(t):
    """All ones of the index width (of 32 bits without indices)."""
    return z3.If(t == 1, b32(0xFFFF), b32(0xFFFFFFFF))


def max_index(t):
    return z3.If(t == 1, b32(0xFFFE), z3.If(t == 2, b32(0xFFFFFFFE), b32(0)))


def restarting(prim):
    return z3.Or([prim == k for k in RESTARTING])


def min_count(prim, patch):
    """Vertices of the smallest primitive."""
    return z3.If(prim == POINTS, b32(1), z3.If(z3.Or(prim == LINES, prim == LINE_STRIP), b32(2), z3.If(prim == PATCHES,
                 z3.If(patch == 0, b32(1), patch), b32(3))))


def whole(prim, n, patch):
    """Do n vertices form whole primitives?"""
    return z3.Or(prim == POINTS, z3.And(prim == LINES, n & 1 == 0), z3.And(prim == LINE_STRIP, n != 1),
                 z3.And(prim == TRIANGLES, z3.URem(n, b32(3)) == 0),
                 z3.And(z3.Or(prim == STRIP, prim == FAN), z3.Or(n == 0, z3.UGE(n, b32(3)))),
                 z3.And(prim == PATCHES, z3.URem(n, patch) == 0))


def fn_of(code, start):
    res = [f for d, f in code.fns.items() if d.startswith(start) and f.blocks]
    if len(set(f.name for f in res)) != 1:
        raise OutOfReach("%s: %d candidates" % (start, len(res)))
    return res[0]


# ---- small functions -----------------------------------------------------------------------------------
def enum_args(e, st):
    prim, patch = z3.BitVec("primitive", 8), z3.BitVec("patch", 32)
    st.assume(z3.And(prim >= -1, prim < 7))
    return prim, patch


def count_valid(code):
    e = code.engine("isVertexCountValid: ")
    st = State()
    prim, patch = enum_args(e, st)
    n = z3.BitVec("n", 32)
    st.assume(z3.Implies(prim == PATCHES, patch != 0))
    st2, r = e.call(st, fn_of(code, "vfc::isVertexCountValid("), [prim, n, patch])
    if done(e, st, st2):
        for k, nm in enumerate(("points", "lines", "line strips", "triangles", "triangle strips", "triangle fans", "patches")):
            post(e, st2, z3.Implies(prim == k, to_bool(r) == whole(prim, n, patch)), "%s are counted as documented" % nm)
        post(e, st2, z3.Implies(prim == -1, z3.Not(to_bool(r))), "no count is valid for an invalid primitive")
    return e


def small_functions(code):
    e = code.engine("isPrimitiveRestart, primitiveMinIndexCount, primitiveIndexStride: ")
    st = State()
    prim, patch = enum_args(e, st)
    i, v = z3.BitVecs("index value", 32)
    st2, r = e.call(st.fork(), fn_of(code, "vfc::(anonymous namespace)::isPrimitiveRestart("), [i, v, prim])
    if done(e, st, st2):
        post(e, st2, to_bool(r) == z3.And(restarting(prim), i == v), "restarts are recognised for strips and fans only")
    s = st.fork()
    s.assume(prim >= 0)
    st2, r = e.call(s.fork(), fn_of(code, "vfc::(anonymous namespace)::primitiveMinIndexCount("), [prim, patch])
    if done(e, st, st2):
        post(e, st2, r == min_count(prim, patch), "the smallest primitive has the right number of vertices")
    st2, r = e.call(s.fork(), fn_of(code, "vfc::(anonymous namespace)::primitiveIndexStride("), [prim, patch])
    if done(e, st, st2):
        want = z3.If(prim == LINES, b32(2), z3.If(prim == TRIANGLES, b32(3), z3.If(prim == PATCHES, patch, b32(1))))
        post(e, st2, r == want, "list primitives are taken whole, strips and fans by one vertex")
    return e


# ---- the converter object ------------------------------------------------------------------------------
def member_offsets(e, m, el):
    t, mm = e.llvm_type(el, m)
    rt = mm.resolve(t)
    return [mm.field_offset(rt, i) for i in range(len(rt[1]))]


class Conv:
    """A vfc::Converter object: its fields as terms of a state."""
    FIELDS = ("formats", "indexType", "primitive", None, "patch", "max", None, "error", "streams", "mapping", "vertices",
              "indices", "indexData", "indexCount")

    def __init__(self, code, e, st, name="converter"):
        self.e, self.code = e, code
        self.m = fn_of(code, "vfc::Converter::convert(").module
        t, mm = e.llvm_type("vfc::Converter", self.m)
        rt = mm.resolve(t)
        vecs = [i for i, ft in enumerate(rt[1]) if ft[0] == "named" and "class.std::vector" in ft[1]]
        if vecs != [0, 8, 9, 10, 11, 12] or len(rt[1]) < 14:
            raise OutOfReach("members of Converter")
        self.off = {n: mm.field_offset(rt, i) for i, n in enumerate(self.FIELDS) if n}
        self.p = e.alloc(st, name, mm.size(t))
        self.root = self.p.root
        for n, el in (("formats", FORMAT), ("streams", STREAM), ("mapping", REFS), ("vertices", BYTES),
                      ("indices", "unsigned char"), ("indexData", "vfc::IndexData")):
            e.child(self.root, self.off[n], el, self.m)
        self.fo = self.offsets(FORMAT)
        self.eo = self.offsets("vfc::VertexElement")
        self.ro = self.offsets(REF)
        self.so = self.offsets(STREAM)
        self.io = self.offsets("vfc::IndexData")

    def fresh_fields(self, st):
        """Unknown scalars, for calls on an existing converter."""
        for n, w in (("indexType", 8), ("primitive", 8), ("patch", 32), ("max", 32), ("indexCount", 32)):
            self.put(st, n, w//8, z3.BitVec("converter." + n, w))

    def offsets(self, el):
        return member_offsets(self.e, self.m, el)

    def at(self, n):
        return Ptr(self.root, self.off[n])

    def region(self, n):
        return self.e.children[(self.root, self.off[n])]

    def sub(self, region, off):
        """The region nested at a member of another region's elements."""
        kind = region.schema[off]
        return self.e.child(region, off, kind[2], self.m)

    def put(self, st, n, size, v):
        st.mem[self.root] = dict(st.mem[self.root])
        st.mem[self.root][self.off[n]] = (size, v)

    def scalar(self, st, n):
        w = {"indexType": 8, "primitive": 8, "patch": 32, "max": 32, "indexCount": 32}[n]
        return self.e.load(st, self.at(n), ("i", w), self.m)

    def count(self, st, n):
        return self.e.leaf(st, self.root, self.off[n], "len", (), I64)

    def has_error_function(self, st):
        return self.e.leaf(st, self.root, self.off["error"], "func", (), z3.BoolSort())

    # formats of the output: stream i, element j
    def elements(self, st, i):
        return self.e.leaf(st, self.region("formats"), self.fo[0], "len", (i,), I64)

    def stride(self, st, i):
        return self.e.leaf(st, self.region("formats"), self.fo[1], "v", (i,), BV32)

    def element(self, st, i, j):
        r = self.sub(self.region("formats"), self.fo[0])
        return element_fields(self.e, st, r, self.eo, (i, j))

    # the streams: element w of the format of stream s
    def stream_elements(self):
        return self.sub(self.region("streams"), self.so[2])

    def stream_count(self, st, s):
        return self.e.leaf(st, self.region("streams"), self.so[2], "len", (s,), I64)

    def stream_stride(self, st, s):
        return self.e.leaf(st, self.region("streams"), self.so[2] + self.fo[1], "v", (s,), BV32)

    def stream_element(self, st, s, w):
        return element_fields(self.e, st, self.stream_elements(), self.eo, (s, w))

    def stream_ptr(self, st, s, k):
        e = self.e
        return [e.leaf(st, self.region("streams"), self.so[k], q, (s,), e.part_sort("ptr", 8, q)) for q in e.PARTS["ptr"]]

    def stream_field(self, st, s, n):
        k, srt = {"vertexCount": (3, BV32), "indexType": (4, BV8)}[n]
        return self.e.leaf(st, self.region("streams"), self.so[k], "v", (s,), srt)

    # the mapping
    def refs(self, st, i):
        return self.e.leaf(st, self.region("mapping"), 0, "len", (i,), I64)

    def ref_region(self):
        return self.sub(self.region("mapping"), 0)

    def ref(self, st, i, j, what):
        k = {"stream": 0, "transform": 2}[what]
        return self.e.leaf(st, self.ref_region(), self.ro[k], "v", (i, j), BV32)

    def ref_ptr(self, st, i, j):
        """The parts of the element pointer."""
        e = self.e
        return [e.leaf(st, self.ref_region(), self.ro[1], q, (i, j), e.part_sort("ptr", 8, q)) for q in e.PARTS["ptr"]]

    def is_set(self, st, i, j):
        return self.ref_ptr(st, i, j)[0] != 0

    def bound(self, st, i, j, hi, c):
        return self.e.leaf(st, self.ref_region(), self.ro[3 + hi] + 8*c, "v", (i, j), self.e.part_sort("f", 8, "v"))

    def bounds(self, st, i, j):
        return [self.bound(st, i, j, h, c) for h in (0, 1) for c in range(4)]


# Which pairs are supported and how large they are (C06); how many indices the caller gave with each stream.
SUPPORTED = z3.Function("supported", BV8, BV8, z3.BoolSort())
SIZE_OF = z3.Function("size", BV8, BV32)
index_total = z3.Function("indexTotal", I64, BV32)


def supported(l, t):
    return SUPPORTED(l, t)


def size_of(l):
    return SIZE_OF(l)


def fits(el, stride):
    """The element is supported and lies inside the vertex (part of the invariant of formats, C05)."""
    return z3.And(supported(el[1], el[2]), z3.ULE(z3.ZeroExt(1, el[3]) + z3.ZeroExt(1, size_of(el[1])), z3.ZeroExt(1, stride)))


def element_fields(e, st, r, eo, idx):
    return [e.leaf(st, r, eo[0], "str", idx, e.str_sort)] + \
        [e.leaf(st, r, eo[k], "v", idx, s) for k, s in ((1, BV8), (2, BV8), (3, BV32))]


def reports(st):
    """Was an error message delivered?"""
    return st.ghost["reports"]


def formats_object(e, code, st, name):
    """A vector<VertexFormat> of any length, and a view of it."""
    p = e.alloc(st, name, 24)
    m = fn_of(code, "vfc::Converter::convert(").module
    r = e.child(p.root, 0, FORMAT, m)
    return p, r, m


def error_function(e, st):
    p = e.alloc(st, "errorFunction", 32)
    f = z3.Bool("has error function")
    e.set_leaf(st, p.root, 0, "func", (), f, z3.BoolSort())
    return p, f


def ctor(code, overload):
    """Every constructor: overload is (several formats, maximum given)."""
    many, maxed = overload
    e = code.engine("Converter(%s%s): " % ("formats" if many else "format", ", maximum" if maxed else ""))
    st = run_globals(e, State(), "VertexValue")
    c = Conv(code, e, st)
    st.mem[c.root] = {}
    prim, patch = enum_args(e, st)
    t, mx = z3.BitVec("indexType", 8), z3.BitVec("maxIndex", 32)
    st.assume(z3.ULT(t, 3))
    err, has_err = error_function(e, st)
    st.ghost["reports"] = z3.BoolVal(False)
    i, j = z3.BitVecs("i j", 64)
    if many:
        arg, r, m = formats_object(e, code, st, "formats")
        n = e.leaf(st, arg.root, 0, "len", (), I64)
        st.assume(z3.ULT(n, CAP))
        given = st.fork()
        g_len = lambda i: e.leaf(given, r, c.fo[0], "len", (i,), I64)
        g_stride = lambda i: e.leaf(given, r, c.fo[1], "v", (i,), BV32)
        er = e.child(r, c.fo[0], "vfc::VertexElement", m)
        g_el = lambda i, j: element_fields(e, given, er, c.eo, (i, j))
    else:
        from .fprofile import Format
        tt, mm = e.llvm_type(FORMAT, c.m)
        arg = e.alloc(st, "format", mm.size(tt))
        er = e.child(arg.root, 0, "vfc::VertexElement", c.m)
        stride = z3.BitVec("format.stride", 32)
        st.mem[arg.root] = {c.fo[1]: (4, stride)}
        n = bv64(1)
        given = st.fork()
        g_len = lambda i: e.leaf(given, arg.root, 0, "len", (), I64)
        g_stride = lambda i: stride
        g_el = lambda i, j: element_fields(e, given, er, c.eo, (j,))
    g_len(i), g_stride(i), g_el(i, j)
    st.assume(z3.ForAll([i], z3.ULT(g_len(i), CAP)))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, g_len(i))), fits(g_el(i, j), g_stride(i)))))
    k = z3.BitVec("k", 64)
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, g_len(i))), size_of(g_el(i, j)[1]) != 0)))
    st.assume(z3.ForAll([i, j, k], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, k), z3.ULT(k, g_len(i))), apart(g_el(i, j), g_el(i, k)))))
    sig = "vfc::Converter::Converter(%s, vfc::IndexType, vfc::PrimitiveType, unsigned int, %sstd::function" % (
        vector_of(FORMAT) if many else FORMAT, "unsigned int, " if maxed else "")
    args = [c.p, arg, t, prim, patch] + ([mx] if maxed else []) + [err]
    if not maxed:
        mx = max_index(t)

    def template(en, f, name, s0, h, mods, vs):
        out = []
        for nm, get in vs:
            def lens(en, s, get=get):
                p = get(s)
                if p is None or p.size() != 64:
                    return None
                return z3.ForAll([i], z3.Implies(z3.ULT(i, p), c.refs(s, i) == c.elements(s, i)))
            out.append(("the mapping before %s has one entry for each element" % nm, lens))

            def init(en, s, get=get):
                p = get(s)
                if p is None or p.size() != 64:
                    return None
                return z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, p), z3.ULT(j, c.refs(s, i))), fresh_ref(c, s, i, j)))
            out.append(("the mapping before %s is empty" % nm, init))

        # the local error flag: a byte or bit the loop changes
        for k in mods:
            v = en.read(h, k)
            if k[0] in ("env", "cell") and sym.is_bv(v) and v.size() in (1, 8) or sym.is_bool(v):
                for nm, get in vs:
                    def fm(en, s, get=get, k=k):
                        p, x = get(s), en.read(s, k)
                        if p is None or p.size() != 64 or x is None:
                            return None
                        off = z3.Not(to_bool(x)) if sym.is_bool(x) else x == 0
                        return z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, p), off), c.elements(s, i) != 0))
                    out.append(("without %s, formats before %s are not empty" % (k[1], nm), fm))

                def some(en, s, k=k, get0=en.read(s0, k)):
                    x = en.read(s, k)
                    if x is None:
                        return None
                    was = to_bool(get0) if sym.is_bool(get0) else get0 != 0
                    on = to_bool(x) if sym.is_bool(x) else x != 0
                    return z3.Implies(z3.And(on, z3.Not(was)), has_empty)
                out.append(("with %s, some format is empty" % k[1], some))

                def told(en, s, k=k):
                    x = en.read(s, k)
                    if x is None:
                        return None
                    on = to_bool(x) if sym.is_bool(x) else x != 0
                    return reports(s) == z3.And(on, has_err)
                out.append(("reports follow %s" % k[1], told))
        return out
    # Ghost: some format is empty (w is one).
    has_empty, w = z3.Bool("some format is empty"), z3.BitVec("empty format", 64)
    st.assume(z3.Implies(has_empty, z3.And(z3.ULT(w, n), g_len(w) == 0)))
    st.assume(z3.Implies(z3.Not(has_empty), z3.ForAll([i], z3.Implies(z3.ULT(i, n), g_len(i) != 0))))
    e.templates.append(template)
    st2, _ = e.call(st.fork(), fn_of(code, sig), args)
    if not done(e, st, st2):
        return e
    valid = z3.And(n != 0, z3.Not(has_empty), prim != -1, z3.Not(z3.And(prim == PATCHES, patch == 0)),
                   z3.Or(t == 0, z3.And(z3.UGE(mx, min_count(prim, patch) - 1), z3.ULE(mx, restart_value(t)))))
    post(e, st2, z3.Implies(valid, c.count(st2, "formats") != 0), "is valid when everything is consistent")
    post(e, st2, z3.Implies(c.count(st2, "formats") != 0, valid), "is invalid when something is inconsistent")
    post(e, st2, z3.Implies(z3.And(has_err, c.count(st2, "formats") == 0), reports(st2)), "a refusal is reported")
    post(e, st2, z3.Implies(c.count(st2, "formats") != 0, z3.Not(reports(st2))), "nothing is reported otherwise")
    ok = st2.fork()
    ok.assume(c.count(st2, "formats") != 0)
    post(e, ok, z3.And(c.count(ok, "formats") == n, z3.ForAll([i], z3.Implies(z3.ULT(i, n), z3.And(
        c.elements(ok, i) == g_len(i), c.stride(ok, i) == g_stride(i))))), "keeps the formats")
    post(e, ok, z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, g_len(i))), z3.And(
        [x == y for x, y in zip(c.element(ok, i, j), g_el(i, j))]))), "keeps their elements")
    post(e, ok, z3.And(c.count(ok, "mapping") == n, z3.ForAll([i], z3.Implies(z3.ULT(i, n), c.refs(ok, i) == g_len(i)))),
         "has one mapping entry for each element")
    post(e, ok, z3.ForAll([i, j], z3.Implies(z3.And(z3.ULT(i, n), z3.ULT(j, g_len(i))), fresh_ref(c, ok, i, j))),
         "every entry has no source, the Identity transform and empty bounds")
    post(e, ok, z3.And([c.count(ok, x) == 0 for x in ("streams", "vertices", "indices", "indexData")] +
                       [c.scalar(ok, "indexCount") == 0]), "holds no streams and no output")
    post(e, st2, z3.And(c.scalar(st2, "indexType") == t, c.scalar(st2, "primitive") == prim, c.scalar(st2, "patch") == patch,
                        c.scalar(st2, "max") == mx, c.has_error_function(st2) == has_err), "keeps the parameters")
    for nm, f in converter_invariant(c, st2) + layout_invariant(c, st2):
        post(e, st2, f, "establishes the invariant: " + nm)
    return e


# ---- contracts of VertexFormat (proved for C05) ---------------------------------------------------------
def position(e):
    """Ghost: the position find gives for a name in an array of names of a length."""
    return z3.Function("position", z3.ArraySort(I64, e.str_sort), I64, e.str_sort, I64)


def find_contract(e):
    """VertexFormat::find(const char*): the element with the name, or end(); names differ (proved for C05)."""
    pos = position(e)
    off = [None]

    def find(en, st, a, ins, m):
        root, o, idx = en.at(a[0])
        if off[0] is None:
            off[0] = member_offsets(en, m, "vfc::VertexElement")[0]
        key = en.cstr(st, a[1])
        n = en.vec_len(st, a[0])
        r = en.child(root, o, "vfc::VertexElement", m)
        names = sel(en.arr_get_leaf(st, r, off[0], "str", en.str_sort), idx)
        p = pos(names, n, key)
        for f in find_facts(pos, names, n, key):
            st.assume(f)
        en.contracts_used.add("VertexFormat::find by its contract, which C05 proves")
        return RPtr(r, tuple(idx) + (p,), 0)
    e.demangled_handlers.append(("vfc::VertexFormat::find(char const*)", find))
    return pos


def find_facts(pos, names, n, key):
    w = z3.BitVec("w", 64)
    p = pos(names, n, key)
    return [z3.ULE(p, n), z3.Implies(z3.ULT(p, n), names[p] == key),
            z3.ForAll([w], z3.Implies(z3.And(z3.ULT(w, n), names[w] == key), p == w))]


def format_arg(e, st, c, name):
    """A VertexFormat passed by value: (pointer, number of elements, names, fields of element w)."""
    t, mm = e.llvm_type(FORMAT, c.m)
    p = e.alloc(st, name, mm.size(t))
    r = e.child(p.root, 0, "vfc::VertexElement", c.m)
    stride = z3.BitVec(name + ".stride", 32)
    st.mem[p.root] = {c.fo[1]: (4, stride)}
    n = e.leaf(st, p.root, 0, "len", (), I64)
    st.assume(z3.ULT(n, CAP))
    names = e.arr_get_leaf(st, r, c.eo[0], "str", e.str_sort)
    old = st.fork()
    return p, r, n, names, stride, lambda w: element_fields(e, old, r, c.eo, (w,))


def converter_invariant(c, st):
    """What every converter satisfies between calls: [(name, formula)]."""
    e = c.e
    i, j = z3.BitVecs("i j", 64)
    F, S = c.count(st, "formats"), c.count(st, "streams")
    prim, patch = c.scalar(st, "primitive"), c.scalar(st, "patch")
    pp = c.ref_ptr(st, i, j)
    sr = c.stream_elements()
    return [
        ("counts are sane", z3.And(z3.ULT(F, CAP), z3.ULT(S, CAP))),
        ("enumerators", z3.And(prim >= -1, prim < 7, z3.ULT(c.scalar(st, "indexType"), 3))),
        ("a valid converter has a valid primitive", z3.Implies(F != 0, z3.And(prim >= 0, z3.Implies(prim == PATCHES, patch != 0)))),
        ("the mapping has an entry for each format", z3.Implies(F != 0, c.count(st, "mapping") == F)),
        ("the mapping matches the formats", z3.ForAll([i], z3.Implies(z3.ULT(i, F), z3.And(
            c.refs(st, i) == c.elements(st, i), z3.ULT(c.elements(st, i), CAP), c.elements(st, i) != 0)))),
        ("mapped elements belong to streams", z3.ForAll([i, j], z3.Implies(
            z3.And(z3.ULT(i, F), z3.ULT(j, c.elements(st, i)), pp[0] != 0),
            z3.And(pp[0] == e.tag(sr, 0), pp[3] == 0, z3.ULT(pp[1], S), z3.ZeroExt(32, c.ref(st, i, j, "stream")) == pp[1],
                   z3.ULT(pp[2], c.stream_count(st, pp[1])))))),
        ("output elements fit their vertices", z3.ForAll([i, j], z3.Implies(
            z3.And(z3.ULT(i, F), z3.ULT(j, c.elements(st, i))), fits(c.element(st, i, j), c.stride(st, i))))),
        ("stream elements fit their vertices", z3.ForAll([i, j], z3.Implies(
            z3.And(z3.ULT(i, S), z3.ULT(j, c.stream_count(st, i))), fits(c.stream_element(st, i, j), c.stream_stride(st, i))))),
        ("streams have the data they need", z3.ForAll([i], z3.Implies(z3.ULT(i, S), z3.And(
            c.stream_ptr(st, i, 0)[0] != 0, z3.ULT(c.stream_field(st, i, "indexType"), 3),
            z3.Implies(c.stream_field(st, i, "indexType") != 0, c.stream_ptr(st, i, 1)[0] != 0),
            z3.If(c.stream_field(st, i, "indexType") == 0, c.stream_field(st, i, "vertexCount"), index_total(i)) ==
            c.scalar(st, "indexCount"))))),
        ("stream data is not the converter's", z3.ForAll([i], z3.Implies(z3.ULT(i, S), z3.And(
            [z3.Or(c.stream_ptr(st, i, k)[0] == 0, z3.UGE(c.stream_ptr(st, i, k)[0], 0x8000)) for k in (0, 1)])))),
    ]


def layout_invariant(c, st):
    """What else every converter satisfies: [(name, formula)]."""
    i, j, k = z3.BitVecs("i j k", 64)
    F = c.count(st, "formats")
    prim = c.scalar(st, "primitive")
    el = lambda j: c.element(st, i, j)
    return [
        ("output elements do not overlap", z3.ForAll([i, j, k], z3.Implies(
            z3.And(z3.ULT(i, F), z3.ULT(j, k), z3.ULT(k, c.elements(st, i))), apart(el(j), el(k))))),
        ("transforms are enumerators", z3.ForAll([i, j], z3.Implies(
            z3.And(z3.ULT(i, F), z3.ULT(j, c.elements(st, i))), z3.ULT(c.ref(st, i, j, "transform"), 4)))),
        ("positions form whole primitives", z3.Implies(F != 0, whole(prim, c.scalar(st, "indexCount"), c.scalar(st, "patch")))),
        ("elements have bytes", z3.ForAll([i, j], z3.Implies(
            z3.And(z3.ULT(i, F), z3.ULT(j, c.elements(st, i))), size_of(el(j)[1]) != 0))),
    ]


def apart(a, b):
    """The second element starts after the first (part of the invariant of formats, C05)."""
    return z3.ULE(z3.ZeroExt(32, a[3]) + z3.ZeroExt(32, size_of(a[1])), z3.ZeroExt(32, b[3]))


def iteration_counters(en, f, name, s0):
    """The ghosts counting the iterations of the loops around and this one."""
    from .cprofile import counter_name
    me = counter_name(f, name)
    return [x.counter for x in en.active if x.counter in s0.ghost and x.counter != me] + [me]


def iteration_marks(en, f, name, s0):
    """How far the loops are, as positions (i, j): by the iterations of the loop and of the one around it."""
    from .cprofile import counter_name
    me = counter_name(f, name)
    outer = [x.counter for x in en.active if x.counter in s0.ghost and x.counter != me]
    if not outer:
        return [("before this iteration", lambda s: (s.ghost.get(me), bv64(0)))]
    return [("before this iteration of %s" % o, lambda s, o=o: (s.ghost.get(o), s.ghost.get(me))) for o in outer]


def is_flag(en, h, k):
    v = en.read(h, k) if k[0] in ("env", "cell") else None
    return v is not None and (sym.is_bv(v) and v.size() in (1, 8) or sym.is_bool(v))


def specialise(pc, goal, ms=1500):
    """Decides conditions of the goal by the path condition (an equivalent goal under it)."""
    ground = [x for x in pc if not has_quantifier(x)]
    goal, seen = z3.simplify(goal) if z3.is_expr(goal) else goal, set()
    for _ in range(400):
        c = first_condition(goal, seen)
        if c is None:
            return goal
        seen.add(c.get_id())
        for lit, val in ((c, True), (z3.Not(c), False)):
            s = z3.Solver()
            limit(s, ms)
            s.add(*ground)
            s.add(z3.Not(lit))
            if answer(s) == z3.unsat:
                goal = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(val))))
                break
    return goal


def first_condition(t, seen):
    """The outermost condition of an if-then-else in a term (not under a quantifier's variables)."""
    work, done_ = [t], set()
    while work:
        x = work.pop(0)
        if x.get_id() in done_:
            continue
        done_.add(x.get_id())
        if z3.is_quantifier(x):
            work.append(x.body())
            continue
        if z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(0).get_id() not in seen and not has_bound(x.arg(0)) and \
                not (z3.is_true(x.arg(0)) or z3.is_false(x.arg(0))):
            return x.arg(0)
        work += x.children()
    return None


def add_stream(code):
    e = code.engine("addVertexStream: ")
    st = State()
    c = Conv(code, e, st)
    c.fresh_fields(st)
    pos = find_contract(e)
    i, j, w = z3.BitVecs("i j w", 64)
    st.ghost["reports"] = z3.BoolVal(False)
    arg, ar, V, names, stride, fields = format_arg(e, st, c, "vertexFormat")
    nv, ni, t = z3.BitVec("vertexCount", 32), z3.BitVec("indexCount", 32), z3.BitVec("indexType", 8)
    st.assume(z3.ULT(t, 3))
    null_data, null_index = z3.Bools("noVertexData noIndexData")
    data = PtrIte(null_data, NULL, e.alloc(st, "vertexData", 1 << 40))
    idata = PtrIte(null_index, NULL, e.alloc(st, "indexData", 1 << 40))
    for nm, f in converter_invariant(c, st) + layout_invariant(c, st):
        st.assume(f)
    st.assume(z3.ForAll([w], z3.Implies(z3.ULT(w, V), fits(fields(w), stride))))
    st.assume(index_total(c.count(st, "streams")) == ni)      # (the next stream is this one)
    data.b.root.external = idata.b.root.external = True
    old = st.fork()
    F, S = c.count(old, "formats"), c.count(old, "streams")
    st.assume(z3.ULT(S, (1 << 32) - 1))
    prim, patch = c.scalar(old, "primitive"), c.scalar(old, "patch")
    has_err = c.has_error_function(old)
    inside = lambda i, j: z3.And(z3.ULT(i, F), z3.ULT(j, c.elements(old, i)))
    place = lambda i, j: pos(names, V, c.element(old, i, j)[0])
    given = lambda i, j: place(i, j) != V
    st.assume(z3.ForAll([i, j], z3.ULE(place(i, j), V)))
    # Ghosts: is some element provided, is some element provided a second time?
    ghosts = {}
    for nm, f in (("provides", given), ("repeats", lambda i, j: z3.And(given(i, j), c.is_set(old, i, j)))):
        b, wi, wj = z3.Bool(nm), z3.BitVec(nm + ".i", 64), z3.BitVec(nm + ".j", 64)
        st.assume(z3.Implies(b, z3.And(inside(wi, wj), f(wi, wj))))
        st.assume(z3.Implies(z3.Not(b), z3.ForAll([i, j], z3.Implies(inside(i, j), z3.Not(f(i, j))))))
        ghosts[nm] = (b, f)
    new_ptr = lambda i, j: [z3.BitVecVal(e.tag(ar, 0), 16), place(i, j), bv64(0), bv64(0)]
    done_to = lambda I, J, i, j: z3.Or(z3.ULT(i, I), z3.And(i == I, z3.ULT(j, J)))

    def template(en, f, name, s0, h, mods, vs):
        out = []
        marks = iteration_marks(en, f, name, s0)

        def cand(label, fn):
            for nm, mark in marks:
                def g(en, s, mark=mark):
                    I, J = mark(s)
                    return None if I is None or J is None else fn(s, I, J)
                out.append(("%s %s" % (label, nm), g))
        flags = [k for k in mods if is_flag(en, h, k)]
        for k in flags:
            on = lambda x: to_bool(x) if sym.is_bool(x) else x != 0
            for gn, (b, what) in ghosts.items():
                out.append(("%s only if the stream %s" % (k[1], gn), lambda en, s, k=k, b=b:
                            None if en.read(s, k) is None else z3.Implies(on(en.read(s, k)), b)))
                cand("without %s nothing %s" % (k[1], gn), lambda s, I, J, k=k, what=what: None if en.read(s, k) is None else
                     z3.ForAll([i, j], z3.Implies(z3.And(z3.Not(on(en.read(s, k))), inside(i, j), done_to(I, J, i, j)), z3.Not(what(i, j)))))
            out.append(("reports follow %s" % k[1], lambda en, s, k=k: None if en.read(s, k) is None else
                        reports(s) == z3.And(on(en.read(s, k)), has_err)))
        if any(k[0] == "arr" and k[1][0] is c.ref_region() for k in mods):
            def mapped(s, I, J):
                hit = z3.And(done_to(I, J, i, j), given(i, j))
                return z3.ForAll([i, j], z3.Implies(inside(i, j), z3.And(
                    [x == z3.If(hit, y, z) for x, y, z in zip(c.ref_ptr(s, i, j), new_ptr(i, j), c.ref_ptr(old, i, j))] +
                    [c.ref(s, i, j, "stream") == z3.If(hit, z3.Extract(31, 0, S), c.ref(old, i, j, "stream"))])))
            cand("the mapping is as asked", mapped)
        return out
    e.templates.append(template)
    sig = "vfc::Converter::addVertexStream(%s, void const*, unsigned int, vfc::IndexType, void const*, unsigned int)" % FORMAT
    st2, r = e.call(st, fn_of(code, sig), [c.p, arg, data, nv, t, idata, ni])
    if not done(e, st, st2):
        return e
    r = to_bool(r)
    n = z3.If(t == 0, nv, ni)
    ok = z3.And(F != 0, z3.Not(null_data), z3.Or(t == 0, z3.Not(null_index)),
                z3.Or(z3.And(c.scalar(old, "indexCount") == 0, S == 0), c.scalar(old, "indexCount") == n),
                whole(prim, n, patch), z3.Not(ghosts["repeats"][0]))
    provides = ghosts["provides"][0]
    post(e, st2, z3.Implies(ok, r), "accepts a consistent stream")
    for f, nm in zip(ok.children(), ("for an invalid converter", "without data", "without index data", "of another count",
                                     "that leaves incomplete primitives", "that provides an element again")):
        post(e, st2, z3.Implies(r, f), "refuses a stream " + nm)
    post(e, st2, z3.Implies(z3.And(has_err, z3.Not(r)), reports(st2)), "a refusal is reported")
    post(e, st2, z3.Implies(r, z3.Not(reports(st2))), "nothing is reported otherwise")
    s = st2.fork()
    s.assume(z3.Not(z3.And(r, provides)))
    post(e, s, z3.And(c.count(s, "streams") == S, z3.ForAll([i, j], z3.Implies(inside(i, j), z3.And(
        [x == y for x, y in zip(c.ref_ptr(s, i, j), c.ref_ptr(old, i, j))] +
        [c.ref(s, i, j, "stream") == c.ref(old, i, j, "stream")])))), "a refused or useless stream changes no mapping")
    kept = s
    post(e, st2, z3.Implies(z3.Not(r), z3.Or(c.scalar(st2, "indexCount") == c.scalar(old, "indexCount"))),
         "a refused stream leaves the index count")
    post(e, st2, z3.Implies(r, c.scalar(st2, "indexCount") == n), "an accepted stream sets the index count")
    s = st2.fork()
    s.assume(z3.And(r, provides))
    post(e, s, c.count(s, "streams") == S + 1, "an accepted stream is added")
    s.assume(c.count(s, "streams") == S + 1)

    def known(s, f, nm):
        post(e, s, f, nm)
        s.pc = s.pc + [f]
    s.arr = {k: specialise(s.pc, v) for k, v in s.arr.items()}
    sr = c.stream_elements()
    want = lambda i, j: [z3.BitVecVal(e.tag(sr, 0), 16), S, place(i, j), bv64(0)]
    known(s, z3.ForAll([i, j], z3.Implies(inside(i, j), z3.And(
        [x == z3.If(given(i, j), y, z) for x, y, z in zip(c.ref_ptr(s, i, j), want(i, j), c.ref_ptr(old, i, j))] +
        [c.ref(s, i, j, "stream") == z3.If(given(i, j), z3.Extract(31, 0, S), c.ref(old, i, j, "stream"))]))),
        "it feeds exactly the elements it provides")
    known(s, z3.And(c.stream_count(s, S) == V, c.stream_stride(s, S) == stride, z3.ForAll([w], z3.Implies(z3.ULT(w, V), z3.And(
        [x == y for x, y in zip(c.stream_element(s, S, w), fields(w))])))), "its format is kept")
    known(s, z3.And(z3.And([x == y for x, y in zip(c.stream_ptr(s, S, 0), e.enc_ptr(data))]),
                      z3.And([x == y for x, y in zip(c.stream_ptr(s, S, 1), e.enc_ptr(idata))]),
                      c.stream_field(s, S, "vertexCount") == nv, c.stream_field(s, S, "indexType") == t), "its data is kept")
    known(s, z3.ForAll([i], z3.Implies(z3.ULT(i, S), z3.And(
        z3.And([x == y for k in (0, 1) for x, y in zip(c.stream_ptr(s, i, k), c.stream_ptr(old, i, k))]),
        *[c.stream_field(s, i, k) == c.stream_field(old, i, k) for k in ("vertexCount", "indexType")],
        c.stream_count(s, i) == c.stream_count(old, i), c.stream_stride(s, i) == c.stream_stride(old, i)))),
        "the streams before it are kept")
    known(s, z3.ForAll([i, w], z3.Implies(z3.And(z3.ULT(i, S), z3.ULT(w, c.stream_count(old, i))), z3.And(
        [x == y for x, y in zip(c.stream_element(s, i, w), c.stream_element(old, i, w))]))), "and their elements")
    post(e, st2, z3.ForAll([i, j], z3.Implies(inside(i, j), z3.And(
        [c.ref(st2, i, j, "transform") == c.ref(old, i, j, "transform")] +
        [x == y for x, y in zip(c.bounds(st2, i, j), c.bounds(old, i, j))]))), "transforms and bounds are kept")
    post(e, st2, z3.And(c.count(st2, "formats") == F, z3.ForAll([i], z3.Implies(z3.ULT(i, F), z3.And(
        c.elements(st2, i) == c.elements(old, i), c.stride(st2, i) == c.stride(old, i)))), z3.ForAll([i, j], z3.Implies(
            inside(i, j), z3.And([x == y for x, y in zip(c.element(st2, i, j), c.element(old, i, j))])))), "the output formats are kept")
    for s0, how in ((kept, "otherwise"), (s, "with a new stream")):
        for nm, f in converter_invariant(c, s0) + layout_invariant(c, s0):
            if nm != "positions form whole primitives":      # (follows from what is said above about the index count)
                post(e, s0, f, "keeps the invariant %s: %s" % (how, nm))
    return e


# ---- accessors -----------------------------------------------------------------------------------------
def existing(code, label, strings=None, opaque=False):
    """An engine, a state and a converter satisfying the invariant."""
    e = code.engine(label)
    e.opaque = opaque
    st = State()
    c = Conv(code, e, st)
    c.fresh_fields(st)
    pos = find_contract(e)
    st.ghost["reports"] = z3.BoolVal(False)
    for nm, f in converter_invariant(c, st):
        st.assume(f)
    return e, st, c, pos


def named(c, e, st, pos, key):
    """Ghosts: is there an output element of that name, and the first stream that has it; the position of the name in
    stream i."""
    i = z3.BitVec("i", 64)
    F = c.count(st, "formats")
    r = c.sub(c.region("formats"), c.fo[0])
    names = e.arr_get_leaf(st, r, c.eo[0], "str", e.str_sort)
    at = lambda k: pos(names[k], c.elements(st, k), key)
    found, w = z3.Bool("found"), z3.BitVec("stream", 64)
    st.assume(z3.Implies(found, z3.And(z3.ULT(w, F), z3.ULT(at(w), c.elements(st, w)),
                                       z3.ForAll([i], z3.Implies(z3.ULT(i, w), at(i) == c.elements(st, i))))))
    st.assume(z3.Implies(z3.Not(found), z3.ForAll([i], z3.Implies(z3.ULT(i, F), at(i) == c.elements(st, i)))))
    st.assume(z3.ForAll([i], z3.ULE(at(i), c.elements(st, i))))

    def template(en, f, name, s0, h, mods, vs):
        out = []
        for nm, mark in iteration_marks(en, f, name, s0):
            def g(en2, s, mark=mark):
                I = mark(s)[0]
                return None if I is None else z3.ForAll([i], z3.Implies(z3.And(z3.ULT(i, I), z3.ULT(i, F)),
                                                                        at(i) == c.elements(st, i)))
            out.append(("no stream has the name " + nm, g))
        return out
    e.templates.append(template)
    return found, w, at


def text_argument(e, st, how):
    """The name, as a const char* or a std::string."""
    key = z3.Const("key", e.str_sort)
    if how == "string":
        p = e.alloc(st, "name", 32)
        e.set_leaf(st, p.root, 0, "str", (), key, e.str_sort)
        return p, key
    return CStr(key), key


def same_mapping(c, a, b, i, j, but=()):
    return z3.And([x == y for x, y in zip(c.ref_ptr(a, i, j), c.ref_ptr(b, i, j))] +
                  [c.ref(a, i, j, n) == c.ref(b, i, j, n) for n in ("stream", "transform") if n not in but] +
                  ([x == y for x, y in zip(c.bounds(a, i, j), c.bounds(b, i, j))] if "bounds" not in but else []))


def get_transform(code, how):
    e, st, c, pos = existing(code, "getElementTransform (by %s): " % how)
    if how == "position":
        i, j = z3.BitVecs("i j", 64)
        st.assume(z3.And(z3.ULT(i, c.count(st, "formats")), z3.ULT(j, c.elements(st, i))))
        st2, r = e.call(st.fork(), code.find("vfv_get_transform", exact=True), [c.p, i, j])
        if done(e, st, st2):
            post(e, st2, r == z3.Extract(7, 0, c.ref(st, i, j, "transform")), "yields the element's transform")
        return e
    p, key = text_argument(e, st, how)
    found, w, at = named(c, e, st, pos, key)
    fn = code.find("vfv_get_transform_name") if how == "string" else fn_of(code, "vfc::Converter::getElementTransform(char const*) const")
    st2, r = e.call(st.fork(), fn, [c.p, p])
    if done(e, st, st2):
        r = r if r.size() == 32 else z3.ZeroExt(24, r)
        want = c.ref(st, w, at(w), "transform")
        want = want if how != "string" else z3.ZeroExt(24, z3.Extract(7, 0, want))
        post(e, st2, z3.Implies(found, r == want), "yields the named element's transform")
        post(e, st2, z3.Implies(z3.Not(found), r == 0), "yields Identity for an unknown name")
    return e


def set_transform(code, how):
    e, st, c, pos = existing(code, "setElementTransform (by %s): " % how)
    i, j = z3.BitVecs("i j", 64)
    t = z3.BitVec("transform", 32)
    st.assume(z3.ULT(t, 4))
    for nm, f in layout_invariant(c, st):
        st.assume(f)
    old = st.fork()
    inside = z3.And(z3.ULT(i, c.count(old, "formats")), z3.ULT(j, c.elements(old, i)))
    if how == "position":
        a, b = z3.BitVecs("stream element", 64)
        st.assume(z3.And(z3.ULT(a, c.count(st, "formats")), z3.ULT(b, c.elements(st, a))))
        found = z3.BoolVal(True)
        st2, r = e.call(st.fork(), code.find("vfv_set_transform", exact=True), [c.p, a, b, t])
    else:
        p, key = text_argument(e, st, how)
        found, a, at = named(c, e, st, pos, key)
        b = at(a)
        fn = code.find("vfv_set_transform_name") if how == "string" else fn_of(code, "vfc::Converter::setElementTransform(char const*")
        st2, r = e.call(st.fork(), fn, [c.p, p, t])
    if not done(e, st, st2):
        return e
    if how != "position":
        post(e, st2, to_bool(r) == found, "succeeds exactly for a known name")
    hit = z3.And(found, i == a, j == b)
    post(e, st2, z3.ForAll([i, j], z3.Implies(inside, c.ref(st2, i, j, "transform") == z3.If(hit, t, c.ref(old, i, j, "transform")))),
         "sets exactly that element's transform")
    post(e, st2, z3.ForAll([i, j], z3.Implies(inside, same_mapping(c, st2, old, i, j, ("transform",)))), "changes nothing else of the mapping")
    for nm, f in converter_invariant(c, st2) + layout_invariant(c, st2):
        post(e, st2, f, "keeps the invariant: " + nm)
    return e


def get_bounds(code, how):
    e, st, c, pos = existing(code, "getVertexElementBounds (by %s): " % how)
    outs, olds = [], []
    for nm in ("outMin", "outMax"):
        p = e.alloc(st, nm, 32)
        vs = [z3.FP("%s%d" % (nm, k), F64) for k in range(4)]
        for k in range(4):
            st.mem[p.root][8*k] = (8, vs[k])
        outs.append(p)
        olds.append(vs)
    old = st.fork()
    if how == "position":
        a, b = z3.BitVecs("stream element", 64)
        st.assume(z3.And(z3.ULT(a, c.count(st, "formats")), z3.ULT(b, c.elements(st, a))))
        found = z3.BoolVal(True)
        st2, r = e.call(st.fork(), code.find("vfv_bounds", exact=True), [c.p] + outs + [a, b])
    else:
        p, key = text_argument(e, st, how)
        found, a, at = named(c, e, st, pos, key)
        b = at(a)
        fn = code.find("vfv_bounds_name") if how == "string" else fn_of(
            code, "vfc::Converter::getVertexElementBounds(vfc::VertexValue&, vfc::VertexValue&, char const*)")
        st2, r = e.call(st.fork(), fn, [c.p] + outs + [p])
    if not done(e, st, st2):
        return e
    if how != "position":
        post(e, st2, to_bool(r) == found, "succeeds exactly for a known name")
    want = c.bounds(old, a, b)
    for h, nm in ((0, "minimum"), (1, "maximum")):
        for k in range(4):
            v = e.load(st2, Ptr(outs[h].root, 8*k), ("double",), c.m)
            post(e, st2, z3.Implies(found, v == want[4*h + k]), "yields component %d of the %s" % (k, nm))
            if how != "position":
                post(e, st2, z3.Implies(z3.Not(found), v == olds[h][k]), "leaves component %d of the %s for an unknown name" % (k, nm))
    return e


def valid(code, which):
    e, st, c, pos = existing(code, "isValid, %s: " % which)
    st2, r = e.call(st.fork(), code.find(which), [c.p])
    if done(e, st, st2):
        post(e, st2, to_bool(r) == (c.count(st, "formats") != 0), "is true exactly for a converter with formats")
    return e


def add_unindexed(code):
    """addVertexStream without indices passes on its arguments."""
    e, st, c, pos = existing(code, "addVertexStream (unindexed): ")
    arg, ar, V, names, stride, fields = format_arg(e, st, c, "vertexFormat")
    data, n, res = e.alloc(st, "vertexData", 1 << 40), z3.BitVec("vertexCount", 32), z3.Bool("accepted")
    w = z3.BitVec("w", 64)

    def callee(en, s, a, ins, m):
        root, o, idx = en.at(a[1])
        r = en.child(root, o, "vfc::VertexElement", m)
        post(e, s, z3.BoolVal(a[0] is c.p or (isinstance(a[0], Ptr) and a[0].root is c.root and a[0].off == 0)), "on the same converter")
        post(e, s, z3.BoolVal(isinstance(a[2], Ptr) and a[2].root is data.root and a[2].off == 0), "with the same data")
        post(e, s, z3.And(a[3] == n, a[4] == 0, z3.BoolVal(a[5] is NULL)), "the same count and no indices")
        post(e, s, z3.And(en.vec_len(s, a[1]) == V, en.load(s, en.shift0(a[1], c.fo[1]), ("i", 32), m) == stride,
                          z3.ForAll([w], z3.Implies(z3.ULT(w, V), z3.And([x == y for x, y in zip(
                              element_fields(en, s, r, c.eo, tuple(idx) + (w,)), fields(w))])))), "and the same format")
        return res
    e.demangled_handlers.append(("vfc::Converter::addVertexStream(%s, void const*, unsigned int, vfc::IndexType" % FORMAT, callee))
    st2, r = e.call(st.fork(), code.find("vfv_add2"), [c.p, arg, data, n])
    if done(e, st, st2):
        post(e, st2, to_bool(r) == res, "passes on the result")
    return e


def fresh_ref(c, s, i, j):
    b = c.bounds(s, i, j)
    return z3.And(z3.Not(c.is_set(s, i, j)), c.ref(s, i, j, "transform") == 0, c.ref(s, i, j, "stream") == 0,
                  *[x == DBL_MAX for x in b[:4]], *[x == DBL_LOW for x in b[4:]])


def c08_tasks():
    return [("count_valid", ()), ("small_functions", ())] + [("ctor", ((a, b),)) for a in (True, False) for b in (True, False)] + \
        [("add_stream", ()), ("add_unindexed", ()), ("valid", ("vfv_valid",)), ("valid", ("vfv_operator_bool",))]


def c04_tasks():
    return [(f, (h,)) for f in ("get_transform", "set_transform") for h in ("name", "string", "position")]


def c12_tasks():
    return [("get_bounds", (h,)) for h in ("name", "string", "position")]
