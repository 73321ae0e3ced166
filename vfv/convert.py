"""Obligations about Converter::convert (C09, C10, C12, C13)."""
import z3
from . import sym, cprofile
from .sym import NULL, UNDEF, Ptr, PtrIte, State, OutOfReach, Stop, to_bool, F64
from .cprofile import Region, RPtr, I64, CAP, bv64, sel, upd, quick, KEY
from .fprofile import done, BV8, BV32
from .vprofile import post
from .cvprofile import (Conv, converter_invariant, enum_args, existing, fn_of, reports, restarting, restart_value, supported, size_of,
                        index_total, iteration_counters, is_flag, fresh_ref, b32, find_contract)

# What the k-th index of a stream is; what the bytes of an element at an offset of a stream's vertices denote.
IDX = z3.Function("index", I64, I64, BV32)
DEC = [z3.Function("decoded%d" % k, I64, I64, BV8, BV8, I64) for k in range(4)]
MAX_BITS, LOW_BITS = bv64(0x7FEFFFFFFFFFFFFF), bv64(0xFFEFFFFFFFFFFFFF)


class Input:
    """The streams of a converter, with the caller's arrays as regions of bytes, one of each kind for each stream."""
    def __init__(self, c, st):
        self.c, e = c, c.e
        self.vd, self.id = [Region(n, "unsigned char", 1, 2, None) for n in ("vertexData", "indexData")]
        for r, ln in ((self.vd, self.data_size), (self.id, lambda s, prefix: c.e.mul(z3.ZeroExt(32, index_total(prefix[0])), bv64(4)))):
            r.schema, r.length, r.const, r.external = {0: (1, "i", None)}, ln, True, True
        s = z3.BitVec("s", 64)
        S = c.count(st, "streams")
        vp, ip = c.stream_ptr(st, s, 0), c.stream_ptr(st, s, 1)
        at = lambda p, r: z3.And(p[0] == e.tag(r, 0), p[1] == s, p[2] == 0, p[3] == 0)
        st.assume(z3.ForAll([s], z3.Implies(z3.ULT(s, S), z3.And(at(vp, self.vd), z3.Or(at(ip, self.id), z3.And(
            ip[0] == 0, ip[1] == 0, ip[2] == 0, ip[3] == 0)), z3.Implies(c.stream_field(st, s, "indexType") != 0, ip[0] != 0)))))
        self.old = st.fork()

    def data_size(self, st, prefix):
        c = self.c
        return c.e.mul(z3.ZeroExt(32, c.stream_field(st, prefix[0], "vertexCount")), z3.ZeroExt(32, c.stream_stride(st, prefix[0])))

    def known_stream(self, en, st, s, off):
        """A position in some vertex data, with what is known of a stream's data pointer put in (and proved)."""
        if not z3.is_select(s):
            return s, off
        x = s.arg(1)
        ptr = self.c.stream_ptr(self.old, x, 0)
        known = [(ptr[1], x), (ptr[2], bv64(0))]
        if not s.eq(ptr[1]) or not all(en.oblige(st, a == b, "the data of a stream is its own") for a, b in known):
            return s, off
        return x, z3.simplify(z3.substitute(off, *known))

    def index(self, st, s, p):
        """The p-th index of stream s."""
        return z3.If(self.c.stream_field(st, s, "indexType") == 0, z3.Extract(31, 0, p), IDX(s, p))

    def restart(self, st, s, p):
        c = self.c
        return z3.And(restarting(c.scalar(st, "primitive")), self.index(st, s, p) == restart_value(c.stream_field(st, s, "indexType")))

    def source(self, st, i, j):
        """(stream, position) of the source of an output element."""
        q = self.c.ref_ptr(st, i, j)
        return q[1], q[2]

    def value(self, st, i, j, p, k):
        """Component k of the source element of output element (i, j) at position p (not a restart)."""
        c = self.c
        s, w = self.source(st, i, j)
        el = c.stream_element(st, s, w)
        off = c.e.mul(z3.ZeroExt(32, self.index(st, s, p)), z3.ZeroExt(32, c.stream_stride(st, s))) + z3.ZeroExt(32, el[3])
        return DEC[k](s, off, el[1], el[2])


def index_contract(e, inp, on_index=None):
    """getIndexValue: the stored index, or the default without data or indices (C07)."""
    def get(en, st, a, ins, m):
        t, p, i, dv = a[:4]
        en.contracts_used.add("getIndexValue by its contract, which C07 proves")
        if isinstance(p, PtrIte):
            return en.ite(p.c, get(en, st, [t, p.a, i, dv], ins, m), get(en, st, [t, p.b, i, dv], ins, m))
        if p is NULL:
            return dv
        if not isinstance(p, RPtr) or p.root is not inp.id:
            raise OutOfReach("indices of %r" % (p,))
        s = p.idx[0]
        if not en.oblige(st, z3.Implies(t != 0, z3.And(p.idx[1] == 0, z3.ULT(i, z3.ZeroExt(32, index_total(s))),
                                                       t == inp.c.stream_field(st, s, "indexType"))), "index read is inside the index data"):
            raise Stop()
        return z3.If(t == 0, dv, IDX(s, i))

    def hook(en, st, a, ins, m):
        if on_index:
            on_index(st, a[2])
        return get(en, st, a, ins, m)
    e.demangled_handlers.append(("vfc::getIndexValue(", hook))


def decode_contract(e, inp, facts):
    """VertexValue::fromData for a supported pair: four components that depend on the element's bytes only (C01)."""
    def dec(en, st, a, ins, m):
        this, p, l, t = a[:4]
        en.contracts_used.add("VertexValue::fromData by its contract, which C01 proves")
        if isinstance(p, PtrIte):
            raise OutOfReach("vertex data that may be null")
        if not isinstance(p, RPtr) or p.root is not inp.vd:
            raise OutOfReach("vertex data of %r" % (p,))
        s, off = inp.known_stream(en, st, *p.idx)
        n = inp.data_size(st, (s,))
        for f in en.mul_lemmas([off, n]):
            st.assume(f)
        if not en.oblige(st, supported(l, t), "decoded pair is supported"):
            raise Stop()
        end = z3.ZeroExt(32, size_of(l)) + off
        terms = off.children() if z3.is_app_of(off, z3.Z3_OP_BADD) else [off]
        prod = [x for x in terms if z3.is_app(x) and x.decl().eq(cprofile.MUL)]
        if len(prod) == 1 and not facts:          # steps towards the next obligation
            rest = sum([x for x in terms if x is not prod[0]], bv64(0))
            en.oblige(st, z3.ULE(z3.simplify(rest + z3.ZeroExt(32, size_of(l))), prod[0].arg(1)), "elements end inside their vertex")
            en.oblige(st, z3.And(prod[0].arg(1) == n.arg(1), z3.ULT(prod[0].arg(0), n.arg(0))), "the vertex exists")
            en.oblige(st, z3.ULE(end, prod[0] + prod[0].arg(1)), "elements end where their vertex ends")
        if not en.oblige(st, z3.And(z3.ULE(off, end), z3.ULE(end, n)), "vertex read is inside the vertex data"):
            raise Stop()
        for k in range(4):
            en.store(st, en.shift(this, 8*k), ("double",), DEC[k](s, off, l, t), m)
        return True
    e.demangled_handlers.append(("vfc::VertexValue::fromData(", dec))


def witness_region(e, facts):
    g = Region("witness", None, 8, 2, None)
    for h, k, what in [Truth.EXTENTS[n] for n in facts]:
        e.leaf_sort[(g, h*4 + k, "v")] = I64
    return g


NONE = bv64((1 << 64) - 1)


def expand_contract(e, c, wit, facts):
    """expandBounds, executed; ghosts record the position of the extreme values."""
    def expand(en, st, a, ins, m):
        this, lo, hi = a[:3]
        if not all(isinstance(x, RPtr) and x.root is c.ref_region() for x in (lo, hi)):
            raise OutOfReach("bounds outside the mapping")
        idx = lo.idx
        f = [f for mm in en.modules for f in mm.functions.values() if f.demangled.startswith("vfc::VertexValue::expandBounds(") and f.blocks][0]
        s2, _ = en.call(st, f, a)
        if s2 is None:
            raise Stop()
        for h, k in sorted({Truth.EXTENTS[n][:2] for n in facts}):
            v = en.load(s2, en.shift(this, 8*k), ("double",), m)
            if True:
                old = en.leaf(s2, wit, 4*h + k, "v", idx, I64)
                now = c.bound(s2, idx[0], idx[1], h, k)
                en.set_leaf(s2, wit, 4*h + k, "v", idx, z3.If(now == v, s2.ghost["position"], old), I64)
        return s2, None
    e.demangled_handlers.append(("vfc::VertexValue::expandBounds(", expand))


class Truth:
    """The conditions of an accepted conversion, with ghosts for where they fail."""
    def __init__(self, c, inp, st):
        self.c, self.inp, self.old = c, inp, st.fork()
        i, j, p = self.vars = z3.BitVecs("i j p", 64)
        F = c.count(st, "formats")
        self.n = z3.ZeroExt(32, c.scalar(st, "indexCount"))
        self.inside = lambda i, j: z3.And(z3.ULT(i, F), z3.ULT(j, c.elements(self.old, i)))
        given = lambda i, j: c.is_set(self.old, i, j)

        def fine(i, j, p):
            s, _ = inp.source(self.old, i, j)
            return z3.If(inp.restart(self.old, s, p), c.scalar(self.old, "indexType") != 0,
                         z3.ULT(inp.index(self.old, s, p), c.stream_field(self.old, s, "vertexCount")))
        self.given, self.fine = given, fine
        self.missing, self.bad = z3.Bools("missing bad")
        wi, wj, bi, bj, bp = z3.BitVecs("missing.i missing.j bad.i bad.j bad.p", 64)
        st.assume(z3.Implies(self.missing, z3.And(self.inside(wi, wj), z3.Not(given(wi, wj)))))
        st.assume(z3.Implies(z3.Not(self.missing), z3.ForAll([i, j], z3.Implies(self.inside(i, j), given(i, j)))))
        st.assume(z3.Implies(self.bad, z3.And(self.inside(bi, bj), z3.ULT(bp, self.n), z3.Not(fine(bi, bj, bp)))))
        st.assume(z3.Implies(z3.Not(self.bad), z3.ForAll([i, j, p], z3.Implies(z3.And(self.inside(i, j), z3.ULT(p, self.n)), fine(i, j, p)))))

    EXTENTS = [(h, k, what) for h in (0, 1) for k in range(4) for what in ("bounds", "is")]

    @staticmethod
    def extent_name(n):
        h, k, what = Truth.EXTENTS[n]
        return "the %s of component %d %s" % (("minimum", "maximum")[h], k, "bounds every value" if what == "bounds" else
                                              "is one of the values, or the empty interval's")

    def extent(self, s, wit, i, j, upto, n):
        """One of the facts that make up: element (i, j) has the exact bounds of the positions before `upto`."""
        c, inp, old = self.c, self.inp, self.old
        h, k, what = Truth.EXTENTS[n]
        src = inp.source(old, i, j)[0]
        b = c.bound(s, i, j, h, k)
        if what == "bounds":
            p = z3.BitVec("p", 64)
            v = inp.value(old, i, j, p, k)
            used = z3.And(z3.ULT(p, upto), z3.Not(inp.restart(old, src, p)))
            return [p], z3.Implies(used, z3.ULE(KEY(b), KEY(v)) if h == 0 else z3.ULE(KEY(v), KEY(b)))
        w = c.e.leaf(s, wit, 4*h + k, "v", (i, j), I64)
        return [], z3.If(w == NONE, b == (MAX_BITS, LOW_BITS)[h], z3.And(z3.ULT(w, upto), z3.Not(inp.restart(old, src, w)),
                                                                          b == inp.value(old, i, j, w, k)))


def check_templates(t, c, inp, wit, facts):
    e = c.e
    i, j, p = t.vars
    F = c.count(t.old, "formats")

    def template(en, f, name, s0, h, mods, vs):
        out = []
        counters = iteration_counters(en, f, name, s0)
        get = lambda s, k: s.ghost.get(counters[k]) if k < len(counters) else None
        on = lambda x: to_bool(x) if sym.is_bool(x) else x != 0
        has_err = c.has_error_function(t.old)
        for k in [] if facts else [k for k in mods if is_flag(en, h, k)]:
            val = lambda s, k=k: None if en.read(s, k) is None else on(en.read(s, k))
            out.append(("%s is a truth value" % k[1], lambda en, s, k=k: None if en.read(s, k) is None or not sym.is_bv(en.read(s, k))
                        else z3.ULE(en.read(s, k), 1)))
            out.append(("%s is on unless something is missing" % k[1], lambda en, s, val=val: None if val(s) is None else
                        z3.Implies(z3.Not(val(s)), t.missing)))
            out.append(("with %s on nothing is missing" % k[1], lambda en, s, val=val: None if val(s) is None or get(s, 0) is None else
                        z3.ForAll([i, j], z3.Implies(z3.And(val(s), t.inside(i, j), before(get(s, 0), get(s, 1), i, j)), t.given(i, j)))))
            out.append(("reports follow %s" % k[1], lambda en, s, val=val: None if val(s) is None else
                        reports(s) == z3.And(z3.Not(val(s)), has_err)))
        if any(k[0] == "arr" and k[1][0] is c.ref_region() for k in mods):
            if len(counters) == 3:
                out.append(("the iteration is a position", lambda en, s: None if get(s, 2) is None else z3.ULE(get(s, 2), t.n)))
            # within the current element the third counter counts positions
            def sofar(s):
                I, J, P = get(s, 0), get(s, 1), get(s, 2)
                return None if I is None else (I, J, P)

            def fine(en, s):
                m = sofar(s)
                if m is None:
                    return None
                I, J, P = m
                here = before(I, J, i, j)
                if P is not None:
                    here = z3.Or(here, z3.And(i == I, j == J, z3.ULT(p, P)))
                return z3.ForAll([i, j, p], z3.Implies(z3.And(t.inside(i, j), z3.ULT(p, t.n), here), t.fine(i, j, p)))
            if not facts:
                return out + [("positions so far are acceptable", fine)]
            for n in facts:
                def extent(en, s, n=n):
                    m = sofar(s)
                    if m is None:
                        return None
                    I, J, P = m
                    vs, body = t.extent(s, wit, i, j, t.n, n)
                    return z3.ForAll([i, j] + vs, z3.Implies(z3.And(t.inside(i, j), before(I, J, i, j)), body))

                def current(en, s, n=n):
                    m = sofar(s)
                    if m is None or m[2] is None:
                        return None
                    I, J, P = m
                    vs, body = t.extent(s, wit, I, J, P, n)
                    return z3.ForAll(vs, body) if vs else body
                out.append(("finished elements: " + t.extent_name(n), extent))
                out.append(("current element: " + t.extent_name(n), current))

            def later(en, s):
                m = sofar(s)
                if m is None:
                    return None
                I, J, P = m
                rest = z3.Not(before(I, J, i, j))
                if P is not None:
                    rest = z3.And(rest, z3.Not(z3.And(i == I, j == J)))
                return z3.ForAll([i, j], z3.Implies(z3.And(t.inside(i, j), rest), empty_bounds(c, s, wit, i, j, facts)))
            out.append(("later elements have empty bounds", later))
        return out
    return template


def before(I, J, i, j):
    return z3.ULT(i, I) if J is None else z3.Or(z3.ULT(i, I), z3.And(i == I, z3.ULT(j, J)))


def empty_bounds(c, s, wit, i, j, facts):
    at = sorted({Truth.EXTENTS[n][:2] for n in facts})
    return z3.And([c.bound(s, i, j, h, k) == (MAX_BITS, LOW_BITS)[h] for h, k in at] +
                  [c.e.leaf(s, wit, o, "v", (i, j), I64) == NONE for r, o, _ in c.e.leaf_sort if r is wit])


FAST = [True]


def fast_or_not(make):
    """Generates obligations with the short cut for inner loops; without it when that doesn't work out."""
    def made(*a):
        try:
            FAST[0] = True
            return make(*a)
        except cprofile.Again:
            FAST[0] = False
            return make(*a)
    return made


def setup(code, label, facts):
    e, st, c, pos = existing(code, label, opaque=True)
    e.abstract_mul = True
    e.plain = ("position",)
    e.fast = FAST[0]
    cprofile.MATCHING[0] = True
    e.last_factor = str(c.stream_stride(st, bv64(0)).arg(0))
    inp = Input(c, st)
    wit = witness_region(e, facts)
    i, j, s, o = z3.BitVecs("i j s o", 64)
    l, ty = z3.BitVecs("l t", 8)
    t = Truth(c, inp, st)
    st.ghost["position"] = bv64(0)
    F = c.count(st, "formats")
    return e, st, c, inp, wit, t


@fast_or_not
def checks(code, *facts):
    """Everything convert does before it produces output: what it accepts (no facts), or facts about the bounds."""
    e, st, c, inp, wit, t = setup(code, "convert, checks%s: " % (" and bounds" if facts else ""), facts)
    i, j, p = t.vars
    fresh_bounds = z3.ForAll([i, j], z3.Implies(t.inside(i, j), empty_bounds(c, st, wit, i, j, facts)))
    st.assume(fresh_bounds)
    index_contract(e, inp, lambda s, k: s.ghost.__setitem__("position", k))
    decode_contract(e, inp, facts)
    expand_contract(e, c, wit, facts)
    e.templates.append(check_templates(t, c, inp, wit, facts))
    reached = []
    set_contracts(e)

    def first_output(en, s, a, ins, m):
        if isinstance(a[0], Ptr) and a[0].root is c.root and a[0].off == c.off["vertices"]:
            if not en.muted:
                reached.append(s.fork())
            raise Stop()
        from .stdlib import V, v_resize
        return V("std::vector<unsigned char, std::allocator<unsigned char> >", v_resize)(en, s, a, ins, m)
    e.demangled_handlers.append((VECVEC + "::resize(unsigned long)", first_output))
    st2, r = e.call(st.fork(), fn_of(code, "vfc::Converter::convert("), [c.p])
    F = c.count(t.old, "formats")
    again = c.count(t.old, "vertices") != 0
    has_err = c.has_error_function(t.old)
    if not reached:
        post(e, st, False, "output is reached")
    if facts:
        for s in reached:
            for n in facts:
                vs, body = t.extent(s, wit, i, j, t.n, n)
                post(e, s, z3.ForAll([i, j] + vs, z3.Implies(t.inside(i, j), body)), t.extent_name(n))
        return only_functional(e)
    if done(e, st, st2):
        post(e, st2, z3.Not(to_bool(r)), "without output it fails")
        post(e, st2, z3.Or(F == 0, again, t.missing, t.bad), "it fails only for a reason")
        post(e, st2, z3.Implies(has_err, reports(st2)), "a failure is reported")
        post(e, st2, z3.And([c.count(st2, n) == c.count(t.old, n) for n in ("vertices", "indices", "indexData")]),
             "a failure produces no output")
    for s in reached:
        for f, nm in ((F != 0, "for an invalid converter"), (z3.Not(again), "a second time"), (z3.Not(t.missing), "with an element missing"),
                      (z3.Not(t.bad), "with an unacceptable index")):
            post(e, s, f, "no output is produced " + nm)
        post(e, s, z3.Not(reports(s)), "nothing is reported otherwise")
    return e


def only_functional(e):
    """Without the obligations at single steps (memory, asserts), which the task without facts has at the same steps."""
    e.obligations = [o for o in e.obligations if o.kind == "postcondition" or o.kind.startswith("loop invariant")]
    e.contracts_used.add("steps of convert are safe, as the task 'convert, checks' proves for the same steps")
    return e


VECVEC = "std::vector<std::vector<unsigned char, std::allocator<unsigned char> >, std::allocator<std::vector<unsigned char, std::allocator<unsigned char> > > >"


def set_contracts(e):
    """Construction and destruction of the set of vertices."""
    e.demangled_handlers.append(("std::unordered_set<", lambda en, st, a, ins, m: None))


def c12_tasks():
    return [("checks", ())] + [("checks", (k,)) for k in range(16)]


def c13_tasks():
    return [("checks", ())]
