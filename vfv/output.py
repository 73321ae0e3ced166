"""Obligations about what Converter::convert writes (C04, C09, C13): the loop that assembles vertices.

The statements quantify over every output element, position and byte. They are proved for one that is chosen freely (unknown
constants K, L, P, B), which makes the invariants statements about one byte."""
import z3
from . import sym, cprofile
from .sym import NULL, Ptr, PtrIte, OutOfReach, Stop, to_bool
from .cprofile import Region, RPtr, I64, CAP, bv64, sel
from .ground import MUL
from .fprofile import done, BV8, BV32
from .vprofile import Lemmas, post
from .cvprofile import (LINES, TRIANGLES, PATCHES, whole, existing, fn_of, iteration_counters, supported, size_of, apart, layout_invariant,
                        b32, specialise)
from . import convert
from .convert import Input, Truth, DEC, before, index_contract, decode_contract, set_contracts, witness_region, VECVEC

IDENTITY, BOUNDS, UNORM_TO_SNORM, SNORM_TO_UNORM = range(4)
# What toData writes: byte number, layout, type, components (and minimum and maximum).
ENC = z3.Function("encoded", I64, BV8, BV8, *[I64]*4, BV8)
ENCB = z3.Function("encodedInBounds", I64, BV8, BV8, *[I64]*12, BV8)
wide = lambda x: z3.ZeroExt(64 - x.size(), x)
BYTEVEC = "std::vector<unsigned char, std::allocator<unsigned char> >"


def peek(t, idx):
    """The element of an array term, with the stores and definitions on the way resolved."""
    if not idx:
        return t
    i, rest = idx[0], idx[1:]
    if z3.is_store(t):
        a, k, v = t.children()
        hit = z3.simplify(k == i)
        x = peek(v, rest) if not z3.is_false(hit) else None
        y = peek(a, idx) if not z3.is_true(hit) else None
        return x if y is None else y if x is None else z3.If(hit, x, y)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return z3.If(t.arg(0), peek(t.arg(1), idx), peek(t.arg(2), idx))
    if z3.is_quantifier(t) and t.is_lambda():
        return peek(resolve(z3.substitute_vars(t.body(), i)), rest)
    if z3.is_select(t):
        a, path = t, ()
        while z3.is_select(a):
            path = (a.arg(1),) + path
            a = a.arg(0)
        if not (z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return peek_all(a, path + tuple(idx))
    return sel(t, idx)


def peek_all(a, idx):
    return peek(a, idx) if len(idx) == 1 or not z3.is_quantifier(a) else peek(a, idx)


def resolve(t, memo=None):
    """A term with its reads of stores and definitions resolved."""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
        r = t
    elif z3.is_select(t) and t.sort().kind() != z3.Z3_ARRAY_SORT:
        a, path = t, ()
        while z3.is_select(a):
            path = (resolve(a.arg(1), memo),) + path
            a = a.arg(0)
        r = peek(a, path)
    else:
        r = t.decl()(*[resolve(c, memo) for c in t.children()])
    memo[k] = (t, r)
    return r


class Output:
    """The observed byte and what it has to be."""
    def __init__(self, c, inp, t, st):
        self.c, self.e, self.inp, self.t = c, c.e, inp, t
        self.old = st.fork()
        self.F = c.count(st, "formats")
        self.K, self.L, self.P, self.B = z3.BitVecs("K L P B", 64)
        prim, patch = c.scalar(st, "primitive"), c.scalar(st, "patch")
        self.n = t.n
        st.assume(z3.And(z3.ULT(self.K, self.F), z3.ULT(self.L, c.elements(st, self.K)), z3.ULT(self.P, self.n)))
        name, self.layout, self.type, self.off = c.element(st, self.K, self.L)
        st.assume(z3.ULT(self.B, wide(size_of(self.layout))))
        self.rest = wide(self.off) + self.B
        post(self.e, st, z3.ULT(self.rest, self.stride(self.K)), "the observed byte is inside its vertex")
        st.assume(z3.ULT(self.rest, self.stride(self.K)))
        i, j = z3.BitVecs("i j", 64)
        me, el = c.element(st, self.K, self.L), c.element(st, i, j)
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(i == self.K, z3.ULT(j, c.elements(st, i)), j != self.L), z3.If(
            z3.ULT(j, self.L), apart(el, me), apart(me, el)))))      # (from the layout invariant)
        self.ST = wide(z3.If(prim == LINES, b32(2), z3.If(prim == TRIANGLES, b32(3), z3.If(prim == PATCHES, patch, b32(1)))))
        self.M = wide(z3.BitVec("primitives", 32))
        st.assume(whole(prim, c.scalar(st, "indexCount"), patch))
        st.assume(self.n == MUL(self.M, self.ST))       # (lemma: a whole count is a multiple)
        st.assume(self.ST != 0)
        self.bytes = c.sub(c.region("vertices"), 0)

    def stride(self, k):
        return wide(self.c.stride(self.old, k))

    def pos(self, D, K=None):
        return MUL(D, self.stride(self.K if K is None else K))

    def facts(self, s, D, q=None):
        """Facts about the products at hand (see products())."""
        small = lambda x: z3.ULT(x, bv64(1 << 32))
        k = z3.BitVec("k", 64)
        if q is not None:
            ST, M = self.ST, self.M
            s.assume(z3.Implies(z3.And(small(q), z3.ULT(q, M)), z3.ULE(MUL(q, ST) + ST, MUL(M, ST))))
            s.assume(z3.Implies(z3.And(small(q), z3.UGE(q, M)), z3.UGE(MUL(q, ST), MUL(M, ST))))
            s.assume(z3.Implies(small(q), MUL(z3.simplify(q + 1), ST) == MUL(q, ST) + ST))
            s.assume(MUL(bv64(0), ST) == 0)
        s.assume(z3.Implies(z3.And(z3.ULT(self.P, D), small(D)), z3.ULT(self.pos(self.P) + self.rest, self.pos(D))))
        s.assume(z3.ForAll([k], z3.Implies(small(D), MUL(z3.simplify(D + 1), self.stride(k)) == MUL(D, self.stride(k)) + self.stride(k))))
        s.assume(z3.ForAll([k], MUL(bv64(0), self.stride(k)) == 0))

    def expected(self, s, D):
        """The observed byte of the vertex at position D."""
        c, e, inp = self.c, self.e, self.inp
        v = [inp.value(self.old, self.K, self.L, D, k) for k in range(4)]
        b = c.bounds(s, self.K, self.L)
        tr = c.ref(self.old, self.K, self.L, "transform")
        enc = lambda x: ENC(self.B, self.layout, self.type, *x)
        to_snorm = [e.arithmetic("fsub", e.arithmetic("fmul", x, cprofile.bits(2.0)), cprofile.bits(1.0)) for x in v]
        to_unorm = [e.arithmetic("fadd", e.arithmetic("fmul", x, cprofile.bits(.5)), cprofile.bits(.5)) for x in v]
        return z3.If(tr == BOUNDS, ENCB(self.B, self.layout, self.type, *v, *b), z3.If(
            tr == UNORM_TO_SNORM, enc(to_snorm), z3.If(tr == SNORM_TO_UNORM, enc(to_unorm), enc(v))))

    def written(self, s, D):
        """The observed byte of the output vertex number D."""
        return resolve(peek(self.e.arr_get_leaf(s, self.bytes, 0, "v", BV8), (self.K, self.pos(D) + self.rest)))

    def scratch(self):
        """The vertex that is being assembled: (vector of vectors, its bytes)."""
        rs = [(o, r) for (o, _), r in self.e.children.items() if r.elem == "unsigned char" and isinstance(o, Region) and
              o.elem == BYTEVEC and o is not self.c.region("vertices")]
        return rs[0] if len(rs) == 1 else (None, None)

    def assembled(self, s):
        return resolve(peek(self.e.arr_get_leaf(s, self.scratch()[1], 0, "v", BV8), (self.K, self.rest)))

    def length(self, s, k):
        return resolve(peek(self.e.arr_get_leaf(s, self.c.region("vertices"), 0, "len", I64), (k,)))

    def scratch_length(self, s, k):
        return resolve(peek(self.e.arr_get_leaf(s, self.scratch()[0], 0, "len", I64), (k,)))


def encode_contract(e, out):
    """VertexValue::toData for a supported pair: exactly the element's bytes, determined by the value (C02, C04)."""
    def enc(en, st, a, ins, m):
        this, p, l, t = a[:4]
        en.contracts_used.add("VertexValue::toData by its contract, which C02 and C04 prove")
        if not isinstance(p, RPtr) or p.root.elem != "unsigned char" or len(p.idx) != 2 or getattr(p.root, "external", False) or p.off:
            raise OutOfReach("vertex written to %r" % (p,))
        if not en.oblige(st, supported(l, t), "encoded pair is supported"):
            raise Stop()
        k, o = p.idx
        n = en.region_len(st, p.root, (k,))
        end = o + wide(size_of(l))
        if not en.oblige(st, z3.And(z3.ULE(o, end), z3.ULE(end, n)), "vertex write is inside the vertex"):
            raise Stop()
        get = lambda q: [en.load(st, en.shift(q, 8*x), ("double",), m) for x in range(4)]
        i = z3.BitVec("enc!%d" % sym.FRESH[0], 64)
        sym.FRESH[0] += 1
        vs = get(this)
        val = ENC(i - o, l, t, *vs) if len(a) < 6 else ENCB(i - o, l, t, *vs, *get(a[4]), *get(a[5]))
        cur = sel(en.arr_get_leaf(st, p.root, 0, "v", BV8), (k,))
        en.set_leaf(st, p.root, 0, "v", (k,), z3.Lambda([i], z3.If(z3.And(z3.UGE(i, o), z3.ULT(i, end)), val, z3.Select(cur, i))), BV8)
        return True
    e.demangled_handlers.append(("vfc::VertexValue::toData(", enc))


def any_bounds(e, c):
    """expandBounds: the bounds become something (C12 says what)."""
    def expand(en, st, a, ins, m):
        lo, hi = a[1:3]
        if not all(isinstance(x, RPtr) and x.root is c.ref_region() for x in (lo, hi)):
            raise OutOfReach("bounds outside the mapping")
        for p in (lo, hi):
            for k in range(4):
                en.store(st, en.shift(p, 8*k), ("double",), sym.fresh("bound", I64), m)
        return None
    e.demangled_handlers.append(("vfc::VertexValue::expandBounds(", expand))


def templates(out, c):
    e, F = c.e, out.F
    k, j = z3.BitVecs("k j", 64)

    def template(en, f, name, s0, h, mods, vs):
        if not is_on(s0):
            return []
        res = []
        counters = iteration_counters(en, f, name, s0)
        get = lambda s, x: s.ghost.get(counters[x]) if x < len(counters) else None
        sv, sb = out.scratch()
        changes = lambda r, part: any(x[0] == "arr" and x[1][0] is r and x[1][2] == part for x in mods)
        vlen, vbytes = changes(c.region("vertices"), "len"), changes(out.bytes, "v")
        slen, sbytes = (changes(sv, "len"), changes(sb, "v")) if sv is not None else (False, False)
        depth = len(counters)

        def cand(label, fn):
            res.append((label, lambda en, s: None if get(s, 0) is None else fn(s)))
        if slen and depth == 1:       # sizes of the assembled vertex
            cand("sizes of the vertex so far", lambda s: z3.ForAll([k], z3.Implies(
                z3.And(z3.ULT(k, F), z3.ULT(k, get(s, 0))), out.scratch_length(s, k) == out.stride(k))))
            return res
        if not (vlen or sbytes):
            return res
        inner = (vlen and not sbytes) and depth == 3        # appending
        outer = vlen and sbytes

        def now(s):
            q = get(s, 0)
            D = MUL(q, out.ST)
            if depth > 1:
                D = D + get(s, 1)
            D = z3.simplify(D)
            out.facts(s, D, q)
            return q, D
        if depth == 1:
            cand("primitives so far", lambda s: z3.And(z3.ULE(now(s)[0], out.M), z3.ULE(now(s)[1], out.n)))
        if depth == 2 and outer:
            cand("vertices of the primitive so far", lambda s: z3.ULE(get(s, 1), out.ST))
        for nm, g in vs:
            if depth == 1 and g(h).size() == 32:
                cand("%s is the position" % nm, lambda s, g=g: None if g(s) is None else wide(g(s)) == now(s)[1])
        if vlen:
            def lengths(s):
                q, D = now(s)
                more = z3.ULT(k, get(s, 2)) if inner else None
                want = MUL(D, out.stride(k))
                want = want if more is None else z3.If(more, want + out.stride(k), want)
                return z3.ForAll([k], z3.Implies(z3.ULT(k, F), out.length(s, k) == want))
            cand("vertices so far", lengths)

            def held(s, at):
                out.facts(s, *reversed(now(s)))
                return z3.Implies(at, out.written(s, out.P) == out.expected(s, out.P))
            cand("earlier vertices hold their values", lambda s: held(s, z3.ULT(out.P, now(s)[1])))
            if inner:
                cand("the new vertex holds its values", lambda s: held(s, z3.And(out.P == now(s)[1], z3.ULT(out.K, get(s, 2)))))
        elif sbytes:
            def parts(s):
                q, D = now(s)
                return z3.Implies(before(get(s, 2), get(s, 3), out.K, out.L), out.assembled(s) == out.expected(s, D))
            if depth >= 3:
                cand("elements so far hold their values", parts)
        return res
    return template


def is_on(s):
    return z3.is_true(s.ghost["output"])


@convert.fast_or_not
def plain(code):
    """Conversion without output indices."""
    e, st, c, pos = existing(code, "convert, without output indices: ", opaque=True)
    e.abstract_mul = True
    e.fast = convert.FAST[0]
    cprofile.MATCHING[0] = True
    e.last_factor = str(c.stream_stride(st, bv64(0)).arg(0))
    c.put(st, "indexType", 1, z3.BitVecVal(0, 8))
    for nm, f in layout_invariant(c, st):
        st.assume(f)
    inp = Input(c, st)
    t = Truth(c, inp, st)
    st.assume(z3.And(z3.Not(t.missing), z3.Not(t.bad), c.count(st, "formats") != 0))
    st.assume(z3.And([c.count(st, n) == 0 for n in ("vertices", "indices", "indexData")]))
    out = Output(c, inp, t, st)
    st.ghost["output"] = z3.BoolVal(False)
    index_contract(e, inp)
    decode_contract(e, inp, ())
    any_bounds(e, c)
    encode_contract(e, out)
    set_contracts(e)
    e.templates.append(templates(out, c))

    def resize(en, s, a, ins, m):
        from .stdlib import V, v_resize
        if isinstance(a[0], Ptr) and a[0].root is c.root and a[0].off == c.off["vertices"]:
            s.ghost["output"] = z3.BoolVal(True)
        return V(BYTEVEC, v_resize)(en, s, a, ins, m)
    e.demangled_handlers.append((VECVEC + "::resize(unsigned long)", resize))
    e.demangled_handlers.append((VECVEC + "::vector(unsigned long", on_scratch))
    oblige = e.oblige

    def only_output(s, cond, kind, where=""):
        if is_on(s) or kind.startswith("loop invariant"):
            return oblige(s, cond, kind, where)
        x = sym.simp_bool(cond)
        if x is False:
            return False
        s.assume(x)
        return True
    e.oblige, e.matters = only_output, is_on
    st2, r = e.call(st.fork(), fn_of(code, "vfc::Converter::convert("), [c.p])
    if not done(e, st, st2):
        return e
    s = st2.fork()
    s.assume(to_bool(r))
    s.arr = {k: specialise(s.pc, v) for k, v in s.arr.items()}
    k = z3.BitVec("k", 64)
    out.facts(s, out.n)
    post(e, s, c.count(s, "vertices") == out.F, "there is one output stream for each format")
    post(e, s, z3.ForAll([k], z3.Implies(z3.ULT(k, out.F), out.length(s, k) == MUL(out.n, out.stride(k)))),
         "every output stream has one vertex for each position")
    post(e, s, out.written(s, out.P) == out.expected(s, out.P), "every vertex holds its transformed source values")
    post(e, s, z3.And(c.count(s, "indices") == 0, c.count(s, "indexData") == 0), "there are no indices")
    e.contracts_used.add("up to the first output, steps of convert are safe and refusals are right, as the task 'convert, checks' proves")
    return e


def on_scratch(en, s, a, ins, m):
    from .stdlib import V, v_sized
    s.ghost["output"] = z3.BoolVal(True)
    return V(BYTEVEC, v_sized)(en, s, a, ins, m)


def products(code):
    """The facts about products that obligations about convert use, over the integers (factors below 2^32 do not wrap in 64 bits)."""
    e = Lemmas("products: ")
    st = sym.State()
    a, b, s, y = z3.Ints("a b s y")
    st.assume(z3.And(a >= 0, b >= 0, s >= 0, y >= 0))
    big = 1 << 32
    for f, nm in ((z3.Implies(z3.And(a < b), a*s + s <= b*s), "monotonic"), (z3.Implies(a >= b, a*s >= b*s), "monotonic, not strictly"),
                  (z3.Implies(z3.And(a < b, y < s), a*s + y < b*s), "positions are inside"), ((a + 1)*s == a*s + s, "one more"),
                  (z3.Implies(z3.And(a < big, s < big), a*s <= (big - 1)**2), "no overflow"), (0*s == 0, "nothing")):
        post(e, st, f, nm)
    prim, n, p = z3.BitVec("primitive", 8), z3.BitVec("n", 32), z3.BitVec("patch", 32)
    for k in range(7):
        st = sym.State()
        st.assume(z3.And(z3.Implies(prim == PATCHES, p != 0), prim == k))
        size = z3.If(prim == LINES, b32(2), z3.If(prim == TRIANGLES, b32(3), z3.If(prim == PATCHES, p, b32(1))))
        post(e, st, z3.Implies(whole(prim, n, p), z3.URem(n, size) == 0), "whole counts are multiples, primitive %d" % k)
    return e


def c09_tasks(tier):
    return [("products", ()), ("plain", ())]


def c04_tasks(tier):
    return [("products", ()), ("plain", ())] if tier == "thorough" else []


c13_tasks = c04_tasks
