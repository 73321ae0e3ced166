"""Obligations about VertexValue::fromData and VertexValue::toData (C01, C02) and the tasks built on them.

Each supported (layout, type) pair is one task: the real function is executed symbolically for every element and
both half-float paths, with `data` an object of exactly the element's size, and the postconditions of vfv/spec.py
become obligations. Refusals are separate tasks with the type (or the layout) symbolic.
"""
import struct
import z3
from . import spec, sym
from .sym import F64, OutOfReach


def names():
    return spec.NAMES


class Code:
    """The modules under verification and the functions the contracts are attached to."""

    def __init__(self, modules):
        self.modules = modules
        self.fns = {}
        for m in modules:
            for f in m.functions.values():
                self.fns.setdefault(f.demangled, f)

    def find(self, prefix, commas=None, exact=None):
        res = [f for d, f in self.fns.items() if (d == prefix if exact else
                                                  d.startswith((prefix + "(", prefix + "[abi:cxx11](")) or d == prefix) and
               (commas is None or d.count(",") == commas)]
        if len(res) != 1:
            raise OutOfReach("%s: %d candidates" % (prefix, len(res)))
        return res[0]

    def engine(self, label=""):
        e = sym.Engine(self.modules)
        e.label = label
        hw = z3.Bool("hasHardwareHalfFloat")
        for m in self.modules:
            for g in m.globals:
                if "hasHardwareHalfFloat" in g:
                    e.global_init[g] = {0: (1, hw)}
        e.initialised = True
        return e


def value_object(e, st, prefix, const):
    """A VertexValue whose components are fresh."""
    p = e.alloc(st, prefix, 32, const)
    vs = [z3.FP("%s%d" % (prefix, i), F64) for i in range(4)]
    for i, v in enumerate(vs):
        st.mem[p.root][8*i] = (8, v)
    return p, vs


def load_values(e, st, p, m):
    return [e.load(st, sym.Ptr(p.root, 8*i), ("double",), m) for i in range(4)]


def load_bytes(e, st, p, n):
    cells = st.mem[p.root]
    return [e.byte_at(cells, i) for i in range(n)]


def post(e, st, cond, name):
    e.obligations.append(sym.Obligation(e.label + name, st.pc, sym.simp_bool(cond), "postcondition", ""))


def is_true(r):
    return sym.to_bool(r)


def decode_task(code, layout, ty):
    fn = code.find("vfc::VertexValue::fromData")
    e = code.engine("fromData<%s,%s>: " % (spec.NAMES[layout], spec.TYPES[ty]))
    st = sym.State()
    this, old = value_object(e, st, "v", False)
    n = spec.size(layout)
    data = e.alloc(st, "data", n, True)
    bs = [z3.BitVec("b%d" % i, 8) for i in range(n)]
    for i, b in enumerate(bs):
        st.mem[data.root][i] = (1, b)
    st2, r = e.call(st, fn, [this, data, z3.BitVecVal(layout, 8), z3.BitVecVal(ty, 8)])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    post(e, st2, is_true(r), "returns true")
    want = spec.decode(bs, layout, ty)
    got = load_values(e, st2, this, fn.module)
    for i in range(4):
        post(e, st2, got[i] == want[i] if got[i] is not sym.UNDEF else False, "component %s has the denoted value" % "xyzw"[i])

    def case(model):
        b = [int(str(model.eval(x, model_completion=True))) for x in bs]
        return ["case decode %d %d %d %s" % (layout, ty, a, bytes(b).hex()) for a in (0, 1)]
    e.case = case
    return e


def encode_task(code, layout, ty, split=None):
    fn = code.find("vfc::VertexValue::toData", 2)
    e = code.engine("toData<%s,%s>: " % (spec.NAMES[layout], spec.TYPES[ty]))
    st = sym.State()
    this, vs = value_object(e, st, "v", True)
    n = spec.size(layout)
    out = e.alloc(st, "out", n)
    for i in range(n):
        st.mem[out.root][i] = (1, z3.BitVec("old%d" % i, 8))
    for v in vs:
        st.assume(z3.Not(z3.fpIsNaN(v)))
    if layout == spec.SHARED:
        facts, posts = spec.shared_encode(vs)
        for f in facts:
            st.assume(f)
    else:
        posts = None
    st2, r = e.call(st, fn, [this, out, z3.BitVecVal(layout, 8), z3.BitVecVal(ty, 8)])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    post(e, st2, is_true(r), "returns true")
    got = load_bytes(e, st2, out, n)
    for name, c in (posts(got) if posts else spec.encode_post(got, layout, ty, vs)):
        post(e, st2, c, "%s is stored as specified" % name)

    def case(model):
        ds = []
        for v in vs:
            b = z3.simplify(z3.fpToIEEEBV(model.eval(v, model_completion=True)))
            x = struct.unpack("<d", struct.pack("<Q", b.as_long()))[0] if z3.is_bv_value(b) else 0.0
            ds.append(x.hex() if x == x and abs(x) != float("inf") else repr(x))
        return ["case encode %d %d %d %s" % (layout, ty, a, " ".join(ds)) for a in (0, 1)]
    e.case = case
    return e


def in_enum(t, n):
    return z3.And(t >= 0, t < n)


def refuse_task(code, which, layout):
    """Unsupported types of one layout (layout >= 0), unknown layouts (-1) and null data (-2): refused, unchanged."""
    fn = code.find("vfc::VertexValue::fromData") if which == "decode" else code.find("vfc::VertexValue::toData", 2)
    e = code.engine("%s refusals<%s>: " % ("fromData" if which == "decode" else "toData",
                                           spec.NAMES[layout] if layout >= 0 else {-1: "unknown layout",
                                                                                  -2: "null"}[layout]))
    st = sym.State()
    this, old = value_object(e, st, "v", which != "decode")
    lay, ty = z3.BitVec("layout", 8), z3.BitVec("type", 8)
    n = 0
    data = sym.NULL
    if layout >= 0:
        n = spec.size(layout)
        lay_arg = z3.BitVecVal(layout, 8)
        for t in range(5):
            if spec.valid(layout, t) or spec.unspecified(layout, t):
                st.assume(ty != t)
    else:
        lay_arg = lay
        if layout == -1:
            st.assume(z3.Or(lay < 0, lay >= 20))
    bs = []
    if layout != -2:
        data = e.alloc(st, "data", n, which == "decode")
        bs = [z3.BitVec("b%d" % i, 8) for i in range(n)]
        for i, b in enumerate(bs):
            st.mem[data.root][i] = (1, b)
    st2, r = e.call(st, fn, [this, data, lay_arg, ty])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    post(e, st2, z3.Not(is_true(r)), "returns false")
    if which == "decode":
        got = load_values(e, st2, this, fn.module)
        for i in range(4):
            post(e, st2, got[i] == old[i], "component %s is unchanged" % "xyzw"[i])
    elif bs:
        got = load_bytes(e, st2, data, n)
        post(e, st2, z3.And([x == y for x, y in zip(got, bs)]), "writes nothing")

    def case(model):
        lv = layout if layout >= 0 else model.eval(lay, model_completion=True).as_signed_long()
        tv = model.eval(ty, model_completion=True).as_signed_long()
        vals = "00"*32 if which == "decode" else "0x1p0 0x1p0 0x1p0 0x1p0"
        return ["case %s %d %d 0 %s" % (which, lv, tv, vals)] if layout != -2 else []
    e.case = case
    return e


def combos():
    return [(l, t) for l in range(20) for t in range(5) if spec.valid(l, t)]


def c01_tasks():
    return ([("decode_task", (l, t)) for l, t in combos()] +
            [("refuse_task", ("decode", l)) for l in list(range(20)) + [-1, -2]])


def c02_tasks():
    return ([("encode_task", (l, t)) for l, t in combos()] +
            [("refuse_task", ("encode", l)) for l in list(range(20)) + [-1, -2]])


# ---- C03: encoding what was decoded ------------------------------------------------------------------
def same_bits_domain(code, w, ty, layout):
    """The codes for which the round trip is claimed to be exact."""
    if layout == spec.SHARED:
        return z3.BoolVal(True)
    if ty in (2, 3) and w == 64:
        lim = 1 << 53
        return z3.ULE(code, lim) if ty == 2 else z3.And(code >= -lim, code <= lim)
    if ty == 4 and layout != spec.PACKED:
        return z3.Not(z3.fpIsNaN(z3.fpBVToFP(code, {16: sym.F16, 32: sym.F32, 64: F64}[w])))
    if layout == spec.PACKED:
        return z3.Not(z3.fpIsNaN(z3.fpBVToFP(spec.half_of(code, w), sym.F16)))
    return z3.BoolVal(True)


class Lemmas:
    """A set of obligations that belong to no single function."""

    def __init__(self, label):
        self.label, self.obligations, self.touched, self.contracts_used = label, [], set(), set()

    def lemma(self, name, facts, goal):
        self.obligations.append(sym.Obligation(self.label + name, facts, goal, "lemma", ""))


def lemma_classes():
    out = set()
    for l, t in combos():
        if l == spec.SHARED:
            continue
        for comp, lo, w in spec.FIELDS[l]:
            out.add(("packed" if l == spec.PACKED else "plain", w, t))
    return sorted(out)


def roundtrip_lemma(code, kind, w, ty):
    """The value a code denotes is encoded as the same code (a lemma over the contracts of fromData and toData)."""
    layout = spec.PACKED if kind == "packed" else 0
    e = Lemmas("round trip of a %d-bit %s%s component: " % (w, kind + " " if kind == "packed" else "", spec.TYPES[ty]))
    c, c2 = z3.BitVec("code", w), z3.BitVec("stored", w)
    pre = [same_bits_domain(c, w, ty, layout)]
    v = spec.decode_code(spec.half_of(c, w), 16, 4) if kind == "packed" else spec.decode_code(c, w, ty)
    e.lemma("the decoded value is a number", pre, z3.Not(z3.fpIsNaN(v)))
    if kind == "packed":
        f = z3.fpFPToFP(sym.RNE, spec.fmax(v, spec.dbl(0.0)), sym.F32)
        alts = [c2 == z3.Extract(14, 15 - w, z3.fpToIEEEBV(z3.fpFPToFP(mode, f, sym.F16))) for mode in (sym.RNE, sym.RNA)]
        alts = [z3.substitute(x, (c2, c)) for x in alts]
        goals = [z3.Extract(14, 15 - w, z3.fpToIEEEBV(z3.fpFPToFP(mode, f, sym.F16))) == c for mode in (sym.RNE, sym.RNA)]
        e.lemma("stored code equals the code", pre, z3.And(goals))
    elif ty == 4 and w == 16:
        f = z3.fpFPToFP(sym.RNE, v, sym.F32)
        e.lemma("stored code equals the code", pre + [spec.half_ok(c2, f)], c2 == c)
    elif ty == 4 and w == 32:
        e.lemma("stored code equals the code", pre + [z3.fpBVToFP(c2, sym.F32) == z3.fpFPToFP(sym.RNE, v, sym.F32)], c2 == c)
    elif ty == 4:
        e.lemma("stored code equals the code", pre + [z3.fpBVToFP(c2, F64) == v], c2 == c)
    else:
        e.lemma("stored code equals the code", pre, spec.encode_code(v, w, ty) == c)
    return e


def shared_lemma(code, ex):
    """Shared exponent: re-encoding what was decoded gives bytes that decode to the same value (one exponent)."""
    e = Lemmas("round trip of the shared exponent %d: " % ex)
    ms = [z3.BitVec("m%d" % i, 9) for i in range(3)]
    word = z3.Concat(z3.BitVecVal(ex, 5), ms[2], ms[1], ms[0])
    bs = [z3.simplify(z3.Extract(8*i + 7, 8*i, word)) for i in range(4)]
    v = [z3.simplify(x) for x in spec.decode(bs, spec.SHARED, 4)]
    out = [z3.BitVec("o%d" % i, 8) for i in range(4)]
    facts, posts = spec.shared_encode(v)
    facts = facts + [c for _, c in posts(out)]
    back = spec.decode(out, spec.SHARED, 4)
    for i in range(3):
        e.lemma("component %s decodes to the same value" % "xyz"[i], facts, z3.fpEQ(back[i], v[i]))
    return e


def roundtrip_task(code, layout, ty):
    """The contracts of fromData and toData for one pair; when one of them does not hold, their composition directly."""
    from . import solve
    e1, e2 = decode_task(code, layout, ty), encode_task(code, layout, ty)
    ok = True
    for e in (e1, e2):
        for ob in e.obligations:
            solve.discharge(ob, 40)
            ok = ok and ob.status == "proved"
    if ok:
        e = Lemmas("")
        e.obligations = e1.obligations + e2.obligations
        e.touched = e1.touched | e2.touched
        e.contracts_used = e1.contracts_used | e2.contracts_used
        e.discharge = lambda ob, lim: ob
        return e
    fd, td = code.find("vfc::VertexValue::fromData"), code.find("vfc::VertexValue::toData", 2)
    e = code.engine("toData after fromData<%s,%s>: " % (spec.NAMES[layout], spec.TYPES[ty]))
    st = sym.State()
    this, _ = value_object(e, st, "v", False)
    n = spec.size(layout)
    data, out = e.alloc(st, "data", n, True), e.alloc(st, "out", n)
    bs = [z3.BitVec("b%d" % i, 8) for i in range(n)]
    for i, b in enumerate(bs):
        st.mem[data.root][i] = (1, b)
        st.mem[out.root][i] = (1, z3.BitVec("old%d" % i, 8))
    for comp, lo, w in spec.FIELDS[layout]:
        st.assume(same_bits_domain(spec.bits(bs, lo, w), w, ty, layout))
    la, ta = z3.BitVecVal(layout, 8), z3.BitVecVal(ty, 8)
    st, r1 = e.call(st, fd, [this, data, la, ta])
    r2 = False
    if st is not None:
        st, r2 = e.call(st, td, [this, out, la, ta])
    if st is None:
        e.obligations.append(sym.Obligation(e.label + "returns", [], False, "postcondition", ""))
        return e
    post(e, st, z3.And(is_true(r1), is_true(r2)), "both return true")
    got = load_bytes(e, st, out, n)
    if layout == spec.SHARED:
        again, _ = value_object(e, st, "again", False)
        first = load_values(e, st, this, fd.module)
        st, r3 = e.call(st, fd, [again, out, la, ta])
        second = load_values(e, st, again, fd.module)
        for i in range(3):
            post(e, st, z3.fpEQ(first[i], second[i]), "component %s is the same again" % "xyz"[i])
    else:
        for comp, lo, w in spec.FIELDS[layout]:
            post(e, st, spec.bits(got, lo, w) == spec.bits(bs, lo, w), "component %s has the same bits again" % "xyzw"[comp])

    def case(model):
        b = [int(str(model.eval(x, model_completion=True))) for x in bs]
        return ["case round %d %d 0 %s" % (layout, ty, bytes(b).hex())]
    e.case = case
    return e


def c03_tasks():
    return ([("roundtrip_task", c) for c in combos()] + [("shared_lemma", (x,)) for x in range(32)] +
            [("roundtrip_lemma", c) for c in lemma_classes()])


# ---- C04: the bounds transform -----------------------------------------------------------------------
EPS = 2.220446049250313e-16


def recording(e, st, encoded):
    """Contract of toData(out, layout, type) at a call site: remembers what it was asked to encode."""
    def handler(e, st, args, ins, m):
        this, out, layout, ty = args
        if not isinstance(this, sym.Ptr):
            raise OutOfReach("toData on %r" % (this,))
        vals = [e.load(st, sym.Ptr(this.root, this.off + 8*i), ("double",), m) for i in range(4)]
        if any(v is sym.UNDEF for v in vals):
            e.oblige(st, False, "encoded components are initialised")
            raise sym.Stop()
        n = st.ghost.get("calls", 0)
        st.ghost["calls"] = n + 1 if isinstance(n, int) else n
        st.ghost["values"], st.ghost["layout"], st.ghost["type"] = vals, layout, ty
        st.ghost["out"] = out
        return encoded
    return handler


def bounds_task(code, ty):
    """toData(out, layout, type, min, max): what is handed to toData(out, layout, type) (ty 2: any other type)."""
    fn = code.find("vfc::VertexValue::toData", 4)
    callee = code.find("vfc::VertexValue::toData", 2)
    e = code.engine("toData with bounds<%s>: " % (["UNorm", "SNorm", "other types"][ty]))
    encoded = z3.Bool("encoded")
    st = sym.State()
    e.externs[callee.name] = recording(e, st, encoded)
    this, v = value_object(e, st, "v", True)
    lo_p, lo = value_object(e, st, "lo", True)
    hi_p, hi = value_object(e, st, "hi", True)
    out = e.alloc(st, "out", 0)
    layout, t = z3.BitVec("layout", 8), z3.BitVec("type", 8)
    big = spec.dbl(2.0**1022)
    for a, x, b in zip(lo, v, hi):
        if ty < 2:
            st.assume(z3.And(z3.fpLEQ(a, x), z3.fpLEQ(x, b), z3.fpLEQ(z3.fpAbs(a), big), z3.fpLEQ(z3.fpAbs(b), big)))
        else:
            st.assume(z3.And(z3.Not(z3.fpIsNaN(a)), z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(b))))
    if ty < 2:
        t_arg = z3.BitVecVal(ty, 8)
    else:
        t_arg = t
        st.assume(z3.And(t != 0, t != 1))
    st2, r = e.call(st, fn, [this, out, layout, t_arg, lo_p, hi_p])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    g = st2.ghost
    if "values" not in g:
        raise OutOfReach("the bounds overload does not encode through toData(out, layout, type)")
    post(e, st2, is_true(r) == encoded, "returns what the encoding returns")
    post(e, st2, z3.And(g["layout"] == layout, g["type"] == t_arg), "keeps the layout and type")
    post(e, st2, isinstance(g["out"], sym.Ptr) and g["out"].root is out.root and g["out"].off == 0, "writes to the destination")
    default = [0.0, 0.0, 0.0, 1.0]
    for i in range(4):
        nm = "component %s" % "xyzw"[i]
        got = g["values"][i]
        if ty == 2:
            post(e, st2, got == v[i], nm + " is unchanged")
            continue
        rng = z3.fpSub(sym.RNE, hi[i], lo[i])
        empty = z3.fpLT(z3.fpAbs(rng), spec.dbl(EPS))
        unit = z3.fpDiv(sym.RNE, z3.fpSub(sym.RNE, v[i], lo[i]), rng)
        lin = unit if ty == 0 else z3.fpSub(sym.RNE, z3.fpMul(sym.RNE, unit, spec.dbl(2.0)), spec.dbl(1.0))
        post(e, st2, z3.Implies(empty, got == spec.dbl(default[i])), nm + " of an empty range is the default")
        post(e, st2, z3.Implies(z3.Not(empty), got == lin), nm + " is mapped linearly")

    def case(model):
        ds = []
        for x in v + lo + hi:
            b = z3.simplify(z3.fpToIEEEBV(model.eval(x, model_completion=True)))
            ds.append(struct.unpack("<d", struct.pack("<Q", b.as_long()))[0].hex() if z3.is_bv_value(b) else "0")
        tt = ty if ty < 2 else model.eval(t, model_completion=True).as_signed_long()
        return ["case bounds %d %d 0 %s" % (l, tt, " ".join(ds)) for l in (3, 9, 4)]
    e.case = case
    return e


def bounds_lemma(code):
    """What the linear map does at the ends of a range, by IEEE arithmetic and the contract of toData."""
    e = Lemmas("linear map: ")
    lo, hi = z3.FP("lo", F64), z3.FP("hi", F64)
    big = spec.dbl(2.0**1022)
    rng = z3.fpSub(sym.RNE, hi, lo)
    pre = [z3.fpLEQ(z3.fpAbs(lo), big), z3.fpLEQ(z3.fpAbs(hi), big), z3.fpLEQ(lo, hi),
           z3.Not(z3.fpLT(z3.fpAbs(rng), spec.dbl(EPS)))]
    at_lo = z3.fpSub(sym.RNE, lo, lo)
    e.lemma("the minimum minus itself is zero", pre, z3.And(z3.fpIsZero(at_lo), z3.fpIsPositive(at_lo)))
    r = z3.FP("range", F64)
    pos = [z3.Not(z3.fpIsNaN(r)), z3.Not(z3.fpIsInf(r)), z3.fpGEQ(r, spec.dbl(EPS))]
    e.lemma("a range that is not empty is positive and finite", pre, z3.And(z3.fpGEQ(rng, spec.dbl(EPS)), z3.Not(z3.fpIsInf(rng))))
    e.lemma("zero divided by the range is zero", pos, z3.fpDiv(sym.RNE, spec.dbl(0.0), r) == spec.dbl(0.0))
    e.lemma("the range divided by itself is one", pos, z3.fpDiv(sym.RNE, r, r) == spec.dbl(1.0))
    for w in (2, 8, 10, 16):
        for ty in (0, 1):
            z = spec.dbl(0.0 if ty == 0 else -1.0)
            lowest, highest = (0, (1 << w) - 1) if ty == 0 else (1 << (w - 1), (1 << (w - 1)) - 1)
            e.lemma("%d-bit %s: the minimum has the lowest code" % (w, spec.TYPES[ty]), [], spec.encode_code(z, w, ty) == lowest)
            e.lemma("%d-bit %s: the maximum has the highest code" % (w, spec.TYPES[ty]), [],
                    spec.encode_code(spec.dbl(1.0), w, ty) == highest)
    return e


def c04_tasks():
    return [("bounds_task", (t,)) for t in (0, 1, 2)] + [("bounds_lemma", ())]
