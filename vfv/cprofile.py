"""The engine extended to containers and unbounded loops.

Memory is split into regions. The elements of a std::vector form a region that belongs to the vector object (its
owner); a region nested in elements of another region is a family indexed by the positions of its owners, so that
two different vectors never share elements. Every scalar field of a region's elements is one array term (curried over
the positions), as are the length of every vector, the value of every std::string and the parts of every pointer.

std::vector, std::string, std::function, std::find_if and the unordered containers are not verified: their documented
behaviour is the contract used at each call (see CONTRACTS). Calls are recognised by demangled name.

A loop whose trip count is not fixed by the path condition is cut: everything the body can change is forgotten, the
inductive subset of a set of candidate invariants (given per function, plus generic bounds on counters) is assumed,
and the body must re-establish it.
"""
import math, os, re, signal, struct, sys, time
import z3
from . import ir, sym
from .solve import free_vars, limit, answer, STALLED
from .sym import (Engine, State, Root, Ptr, PtrIte, NULL, UNDEF, OutOfReach, Stop, FnPtr, F64, fresh, is_bv, is_fp, is_bool,
                  to_bool, b_not, b_and, b_or, simp_bool, natural_loops)

I64 = z3.BitVecSort(64)
CAP = 1 << 46          # no vector or string in memory is this long

# std::string by length and bytes
BSTR, MK_BSTR, (B_LEN, B_DATA) = z3.TupleSort("Bytes", [I64, z3.ArraySort(I64, z3.BitVecSort(8))])
_bind = [0]


def bound(prefix="b"):
    _bind[0] += 1
    return z3.BitVec("%s?%d" % (prefix, _bind[0]), 64)


def bmake(n, data):
    return z3.simplify(MK_BSTR(n, data))


def blen(s):
    return z3.simplify(B_LEN(s))


def bdata(s):
    return z3.simplify(B_DATA(s))


def bequal(a, b):
    i = bound()
    return z3.And(blen(a) == blen(b), z3.ForAll([i], z3.Implies(z3.ULT(i, blen(a)), bdata(a)[i] == bdata(b)[i])))


def bv64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


class Region(Root):
    def __init__(self, name, elem, esize, depth, owner):
        Root.__init__(self, name, None)
        self.elem, self.esize, self.depth, self.owner = elem, esize, depth, owner
        self.schema = None
        self.length = None      # external buffers: function of the index prefix


class RPtr(Ptr):
    """Pointer into a region: byte offset `off` of the element at position `idx`."""
    __slots__ = ("idx",)

    def __init__(self, root, idx, off=0):
        Ptr.__init__(self, root, off)
        self.idx = tuple(idx)

    def key(self):
        return (self.root, self.off) + tuple(i.get_id() for i in self.idx)

    def __repr__(self):
        return "%s[%s]+%s" % (self.root, ",".join(str(i) for i in self.idx), self.off)


class TPtr(Ptr):
    """Pointer into a small object at a symbolic offset: off + term*scale."""
    __slots__ = ("term", "scale")

    def __init__(self, root, off, term, scale):
        Ptr.__init__(self, root, off)
        self.term, self.scale = term, scale

    def key(self):
        return (self.root, self.off, self.term.get_id(), self.scale)


class CStr:
    """A NUL-terminated string given by its value."""
    def __init__(self, val, off=0):
        self.val = val


class IntPtr:
    """An integer turned into a pointer."""
    def __init__(self, val):
        self.val = val


class PInt:
    """A pointer turned into an integer."""
    def __init__(self, p):
        self.p = p


class PDiff:
    """Difference of two pointers into the same region: n elements of `size` bytes."""
    def __init__(self, n, size):
        self.n, self.size = n, size


def depth_of(root):
    return root.depth if isinstance(root, Region) else 0


from .ground import MUL


def curried(n, sort):
    for _ in range(n):
        sort = z3.ArraySort(I64, sort)
    return sort


def sel(t, idx):
    for i in idx:
        t = z3.Select(t, i)
    return t


def upd(t, idx, v):
    if not idx:
        return v
    return z3.Store(t, idx[0], upd(z3.Select(t, idx[0]), idx[1:], v))


def template_args(s, start):
    """Splits 'a, b<c, d>, e>rest' starting after '<' at start: (args, index after the closing '>')."""
    depth, args, cur, i = 0, [], start, start
    while True:
        c = s[i]
        if c in "<([{":
            depth += 1
        elif c in ">)]}":
            if s[i - 1:i + 1] == "->":
                pass
            elif depth == 0:
                args.append(s[cur:i].strip())
                return args, i + 1
            else:
                depth -= 1
        elif c == "," and depth == 0:
            args.append(s[cur:i].strip())
            cur = i + 1
        i += 1


class Cut:
    def __init__(self, f, header, nodes, depth):
        self.f, self.header, self.nodes, self.depth = f, header, nodes, depth
        self.back, self.exits = [], []
        self.entered = False
        self.counter = counter_name(f, header)


def counter_name(f, header):
    """Ghost: completed iterations of a loop."""
    return "iter:%s:%s" % (f.name, header)


VEC_ELEMS = {("vfc::VertexFormat", 0): "vfc::VertexElement"}


KEY = z3.Function("order", I64, I64)       # orders the bit patterns of numbers


ARITH = {op: z3.Function(op, I64, I64, I64) for op in ("fadd", "fmul", "fdiv")}


def real(b):
    """The double with these bits, if they are known."""
    return struct.unpack("<d", struct.pack("<Q", b.as_long()))[0] if z3.is_bv_value(b) else None


def bits(x):
    return bv64(struct.unpack("<Q", struct.pack("<d", x))[0])


MATCHING = [False]     # prove candidate invariants from instances found by matching


def quick(pc, goal, ms=4000):
    from .ground import entails
    return entails(pc, goal, ms, MATCHING[0])


PROCS = [1]            # how many processes may check candidate invariants


def in_parallel(jobs):
    """The truth values of the jobs, computed in forked processes when there are many."""
    n = min(PROCS[0], len(jobs)//3)
    if n < 2:
        return [j() for j in jobs]
    kids = []
    for k in range(1, n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            os.close(r)
            done = b""
            try:
                done = bytes([int(bool(j())) for j in jobs[k::n]] + [min(STALLED[0], 255)])
            finally:
                os.write(w, done)
                os._exit(0)
        os.close(w)
        kids.append((k, pid, r))
    out = [False]*len(jobs)
    try:
        out[0::n] = [bool(j()) for j in jobs[0::n]]
    finally:
        for k, pid, r in kids:
            with os.fdopen(r, "rb") as f:
                done = f.read()
            os.waitpid(pid, 0)
            STALLED[0] += sum(done[-1:])
            for i, b in enumerate(done[:-1]):
                out[k + i*n] = bool(b)
    return out


class Again(Exception):
    """An invariant that was taken for granted does not hold."""


class CEngine(Engine):
    effort = 1             # scales solver time

    def __init__(self, modules):
        Engine.__init__(self, modules)
        self.init_arr, self.leaf_sort = {}, {}
        self.children = {}
        self.tag_of = {}
        self.str_sort = z3.DeclareSort("Text")
        self.literals = {}
        self.active, self.fences = [], []
        self.loop_handler = CEngine.on_block
        self.templates = []
        self.compares = None
        self.muted = 0
        self.collecting = 0
        self.schemas = {}
        self.cut_cache = {}
        self.loop_report = []
        self.inv_ms = 4000*self.effort
        self.trace = None
        self.unbounded = {}
        self.maps, self.map_ends = {}, {}

    # ---- obligations ---------------------------------------------------------------------------
    def oblige(self, st, cond, kind, where=""):
        if not self.muted:
            return Engine.oblige(self, st, cond, kind, where)
        c = simp_bool(cond)
        if c is False:
            return False
        st.assume(c)
        return True

    # ---- opaque doubles ------------------------------------------------------------------------
    opaque = False         # doubles are their bit patterns, compared by an order that nothing is assumed about

    def const(self, ty, v, m):
        x = Engine.const(self, ty, v, m)
        return z3.simplify(z3.fpToIEEEBV(x)) if self.opaque and is_fp(x) and x.sort() == F64 else x

    def fcmp(self, pred, x, y):
        if not self.opaque or not is_bv(x):
            return Engine.fcmp(self, pred, x, y)
        self.contracts_used.add("numbers (not NaN) are totally ordered by the comparison operators; the order itself is left open")
        if pred in ("ord", "uno"):
            return pred == "ord"
        a, b = KEY(x), KEY(y)
        return simp_bool({"eq": a == b, "ne": a != b, "gt": z3.UGT(a, b), "ge": z3.UGE(a, b), "lt": z3.ULT(a, b), "le": z3.ULE(a, b)}[pred[1:]])

    def arithmetic(self, op, a, b):
        """Sums and products of opaque doubles: unknown functions, up to identities that hold for all numbers."""
        self.contracts_used.add("double addition and multiplication are functions of their operands, left open except that they "
                                "commute, x-y = x+(-y), 2x = x+x and x/2^k = x*2^-k (IEEE 754)")
        a, b = z3.simplify(a), z3.simplify(b)
        if op == "fsub":
            return self.arithmetic("fadd", a, b ^ bv64(1 << 63))
        if op == "fdiv":
            c = real(b)
            if c and abs(c) < 1e9 and math.frexp(abs(c))[0] == .5:
                return self.arithmetic("fmul", a, bits(1/c))
            return ARITH["fdiv"](a, b)
        if z3.is_bv_value(a) or not z3.is_bv_value(b) and b.get_id() < a.get_id():
            a, b = b, a
        if op == "fmul" and real(b) == 2:
            return self.arithmetic("fadd", a, a)
        return ARITH[op](a, b)

    # ---- products ------------------------------------------------------------------------------
    abstract_mul = False

    def mul(self, a, b):
        """A 64-bit product (of two unknowns an uninterpreted function, see mul_lemmas)."""
        a, b = z3.simplify(a), z3.simplify(b)
        if z3.is_bv_value(a) or z3.is_bv_value(b) or not self.abstract_mul or a.size() != 64:
            return a*b
        ka, kb = self.mentions_last(a), self.mentions_last(b)
        if ka > kb or ka == kb and b.get_id() < a.get_id():      # (one order for equal products)
            a, b = b, a
        return MUL(a, b)

    last_factor = None     # the array whose elements come second in products

    def mentions_last(self, x):
        while z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_CONCAT):
            x = x.children()[-1]
        while z3.is_select(x):
            x = x.arg(0)
        return self.last_factor is not None and z3.is_const(x) and str(x) == self.last_factor

    def mul_lemmas(self, terms):
        """Facts about the products in some terms: both factors below 2^32, so nothing wraps."""
        ps, seen, work = {}, set(), list(terms)
        while work:
            x = work.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().eq(MUL):
                ps[x.get_id()] = x
            work.extend(x.children())
        ps, out = list(ps.values()), []
        small = bv64(1 << 32)
        for x in ps:
            out.append(z3.Implies(z3.And(z3.ULT(x.arg(0), small), z3.ULT(x.arg(1), small)), z3.ULE(x, bv64(((1 << 32) - 1)**2))))
        for x in ps:
            for y in ps:
                if x is y:
                    continue
                ordered = self.mentions_last(x.arg(1)) and self.mentions_last(y.arg(1))
                for k in (0, 1):
                    for l in (0, 1):
                        if x.arg(k).eq(y.arg(l)) or ordered and k == l == 1:
                            s, a, b = x.arg(k), x.arg(1 - k), y.arg(1 - l)
                            out.append(z3.Implies(z3.And(s == y.arg(l), z3.ULT(a, b), z3.ULT(b, small), z3.ULT(s, small)),
                                                  z3.ULE(x + s, y)))
        self.contracts_used.add("products of two numbers below 2^32 do not wrap in 64 bits and are monotonic (over the integers: "
                                "proved lemma)")
        return out

    def feasible(self, st, extra=None, ms=700):
        fs = [c for c in st.pc if not has_quantifier(c) and not has_floats(c)] + ([extra] if extra is not None else [])
        whole = z3.And(fs)
        for k, m in enumerate(self.witnesses):      # a state that was possible before may show that this one is
            if z3.is_true(m.eval(whole, model_completion=True)):
                self.witnesses.insert(0, self.witnesses.pop(k))
                return True
        s = z3.Solver()
        limit(s, 40 if self.collecting else ms)      # (when in doubt the path is followed)
        s.add(fs)
        self.solver_calls += 1
        r = answer(s)
        if r == z3.sat:
            self.witnesses = [s.model()] + self.witnesses[:5]
        return r != z3.unsat

    witnesses = []
    plain = ()             # variables without candidate invariants
    fast = False           # inner loops keep their invariants while those of outer loops are sought (all are proved at the end)

    def possible_tags(self, st, tag, extra, cands):
        """The candidates that a tag may be; None if it may be something else."""
        s = z3.Solver()
        fs = [c for c in st.pc if not has_quantifier(c) and not has_floats(c)] + extra
        s.add(fs)
        out = []
        for w in self.witnesses:
            if z3.is_true(w.eval(z3.And(fs), model_completion=True)):
                v = w.eval(tag, model_completion=True).as_long()
                if v not in out and v in [c[0] for c in cands]:
                    out.append(v)
                    s.add(tag != v)
        while True:
            limit(s, 8000)
            self.solver_calls += 1
            r = answer(s)
            if r == z3.unsat:
                return [c for c in cands if c[0] in out]
            v = s.model().eval(tag, model_completion=True).as_long() if r == z3.sat else None
            if v is not None:
                self.witnesses = [s.model()] + self.witnesses[:5]
            if v is None or v not in [c[0] for c in cands]:
                return None
            out.append(v)
            s.add(tag != v)

    # ---- array leaves --------------------------------------------------------------------------
    def arr_get(self, st, key):
        t = st.arr.get(key)
        if t is None:
            t = self.init_arr.get(key)
            if t is None:
                root, off, part = key
                sort = self.leaf_sort.get(key)
                if sort is None:
                    raise OutOfReach("unknown leaf %s+%s.%s" % key)
                t = z3.Const("%s+%s.%s" % (root.name, off, part), curried(depth_of(root), sort))
                self.init_arr[key] = t
        return t

    def leaf(self, st, root, off, part, idx, sort):
        key = (root, off, part)
        self.leaf_sort.setdefault(key, sort)
        return sel(self.arr_get(st, key), idx)

    def set_leaf(self, st, root, off, part, idx, v, sort=None):
        key = (root, off, part)
        self.leaf_sort.setdefault(key, sort if sort is not None else v.sort())
        st.arr[key] = v if not idx else upd(self.arr_get(st, key), idx, v)

    def arr_get_leaf(self, st, root, off, part, sort):
        self.leaf_sort.setdefault((root, off, part), sort)
        return self.arr_get(st, (root, off, part))

    def at(self, p):
        """(root, off, idx) of the object a pointer points at."""
        if isinstance(p, RPtr):
            return p.root, p.off, p.idx
        if type(p) is Ptr and isinstance(p.off, int):
            return p.root, p.off, ()
        raise OutOfReach("object at %r" % (p,))

    # ---- vectors -------------------------------------------------------------------------------
    def vec_len(self, st, p):
        root, off, idx = self.at(p)
        n = z3.simplify(self.leaf(st, root, off, "len", idx, I64))
        if not z3.is_bv_value(n):
            st.assume(z3.ULT(n, CAP))
        return n

    def set_len(self, st, p, n):
        root, off, idx = self.at(p)
        self.set_leaf(st, root, off, "len", idx, n, I64)

    def child(self, root, off, elem, m):
        key = (root, off)
        r = self.children.get(key)
        if r is None:
            r = Region("%s.%s" % (root.name, off), elem, self.elem_size(elem, m), depth_of(root) + 1, key)
            r.schema = self.schema(elem, m)
            self.children[key] = r
        elif r.elem != elem:
            raise OutOfReach("vector of %s used as vector of %s" % (r.elem, elem))
        return r

    def vec_elem(self, p, elem, i, m):
        root, off, idx = self.at(p)
        return RPtr(self.child(root, off, elem, m), idx + (i,), 0)

    def region_len(self, st, region, prefix):
        if region.length is not None:
            return region.length(st, prefix)
        root, off = region.owner
        return self.leaf(st, root, off, "len", prefix, I64)

    SCALARS = {"unsigned char": ("i", 1), "char": ("i", 1), "signed char": ("i", 1), "unsigned short": ("i", 2),
               "unsigned int": ("i", 4), "int": ("i", 4), "unsigned long": ("i", 8), "long": ("i", 8), "double": ("f", 8)}

    def llvm_type(self, elem, m):
        for mm in [m] + self.modules:
            for pre in ("class.", "struct."):
                n = '%%"%s%s"' % (pre, elem)
                if n in mm.types:
                    return ("named", n), mm
        raise OutOfReach("no type " + elem)

    def elem_size(self, elem, m):
        if elem in self.SCALARS:
            return self.SCALARS[elem][1]
        if elem.startswith("std::vector<"):
            return 24
        t, mm = self.llvm_type(elem, m)
        return mm.size(t)

    def schema(self, elem, m):
        """offset -> (size, kind, extra): the leaves of one element."""
        if elem in self.schemas:
            return self.schemas[elem]
        out = {}
        if elem in self.SCALARS:
            out[0] = (self.SCALARS[elem][1], self.SCALARS[elem][0], None)
        elif elem.startswith("std::vector<"):
            out[0] = (24, "vec", template_args(elem, 12)[0][0])
        else:
            t, mm = self.llvm_type(elem, m)
            self.flatten(out, 0, t, mm)
        self.schemas[elem] = out
        return out

    def flatten(self, out, off, t, m):
        name = t[1].strip('%"') if t[0] == "named" else ""
        cpp = re.sub(r"^(class|struct)\.", "", name)
        if cpp.startswith("std::__cxx11::basic_string"):
            out[off] = (32, "str", None)
            return
        if cpp.startswith("std::function"):
            out[off] = (32, "func", None)
            return
        if cpp.startswith("std::vector"):
            raise OutOfReach("vector of unknown elements")
        rt = m.resolve(t)
        if rt[0] == "struct":
            vecs = 0
            for i, ft in enumerate(rt[1]):
                o = off + m.field_offset(rt, i)
                fn = ft[1].strip('%"') if ft[0] == "named" else ""
                if fn.startswith("class.std::vector"):
                    base = re.sub(r"\.base$", "", cpp)
                    el = VEC_ELEMS.get((base, vecs))
                    vecs += 1
                    if el is None:
                        raise OutOfReach("vector member of " + cpp)
                    out[o] = (24, "vec", el)
                else:
                    self.flatten(out, o, ft, m)
        elif rt[0] == "arr":
            if rt[1] > 64:
                raise OutOfReach("large array")
            for i in range(rt[1]):
                self.flatten(out, off + i*m.size(rt[2]), rt[2], m)
        elif rt[0] == "i":
            out[off] = (m.size(rt), "i", None)
        elif rt[0] == "double":
            out[off] = (8, "f", None)
        elif rt[0] == "float":
            out[off] = (4, "f4", None)
        elif rt[0] == "ptr":
            out[off] = (8, "ptr", None)
        else:
            raise OutOfReach("member of type %s" % (rt,))

    PARTS = {"str": ("str",), "func": ("func",), "i": ("v",), "f": ("v",), "f4": ("v",),
             "ptr": ("tag", "i0", "i1", "i2")}

    def part_sort(self, kind, size, part):
        if kind == "str":
            return self.str_sort
        if kind == "func":
            return z3.BoolSort()
        if kind == "i":
            return z3.BitVecSort(8*size)
        if kind == "f":
            return I64 if self.opaque else F64
        if kind == "f4":
            return sym.F32
        if part == "tag":
            return z3.BitVecSort(16)
        return I64

    # ---- pointers as values --------------------------------------------------------------------
    def tag(self, root, off):
        k = (root, off)
        if k not in self.tag_of:
            # (the caller's buffers have tags of their own range)
            self.tag_of[k] = (0x8000 if getattr(root, "external", False) else 2) + len(self.tag_of)
        return self.tag_of[k]

    def enc_ptr(self, v):
        z = bv64(0)
        if v is UNDEF:
            return [fresh("uninit", z3.BitVecSort(16)), fresh("uninit", I64), fresh("uninit", I64), fresh("uninit", I64)]
        if v is NULL:
            return [z3.BitVecVal(0, 16), z, z, z]
        if isinstance(v, IntPtr):
            return [z3.BitVecVal(1, 16), v.val, z, z]
        if isinstance(v, PtrIte):
            a, b = self.enc_ptr(v.a), self.enc_ptr(v.b)
            return [x if x.eq(y) else z3.If(v.c, x, y) for x, y in zip(a, b)]
        if isinstance(v, RPtr):
            idx = list(v.idx) + [z]*(3 - len(v.idx))
            return [z3.BitVecVal(self.tag(v.root, v.off), 16)] + idx
        if type(v) is Ptr and isinstance(v.off, int):
            return [z3.BitVecVal(self.tag(v.root, v.off), 16), z, z, z]
        raise OutOfReach("storing %r" % (v,))

    def dec_ptr(self, st, parts, idx=()):
        tag = z3.simplify(parts[0])
        cands = [(0, None), (1, None)] + [(i, k) for k, i in self.tag_of.items()]
        if z3.is_bv_value(tag):
            cands = [c for c in cands if c[0] == tag.as_long()]
            if not cands:
                raise OutOfReach("unknown pointer")
        else:
            facts = self.facts_at(st, idx)
            cands = self.possible_tags(st, tag, facts, cands)
            if cands is None:
                raise OutOfReach("pointer with unknown target")
        out = None
        for t, k in cands:
            if t == 0:
                v = NULL
            elif t == 1:
                v = IntPtr(z3.simplify(parts[1]))
            else:
                root, off = k
                d = depth_of(root)
                v = RPtr(root, [z3.simplify(x) for x in parts[1:1 + d]], off) if d else Ptr(root, off)
            out = v if out is None else PtrIte(tag == t, v, out)
        if out is None:
            raise Stop()
        return out

    def facts_at(self, st, idx):
        """The instances of quantified facts at some positions."""
        if not idx:
            return []
        from .ground import instances
        return [f for f in instances([c for c in st.pc if has_quantifier(c) and not has_floats(c)], [], list(idx), 0)
                if not has_quantifier(f)]

    # ---- loads and stores ----------------------------------------------------------------------
    def check_region(self, st, p, size, what):
        for k in range(1, len(p.idx) + 1):
            r = p.root
            for _ in range(len(p.idx) - k):
                r = r.owner[0]
            n = self.region_len(st, r, p.idx[:k - 1])
            i = p.idx[k - 1]
            if k == len(p.idx) and r.esize == 1 and size > 1:
                ok = z3.And(z3.ULE(i, n), z3.ULE(bv64(size), n - i))
            else:
                ok = z3.ULT(i, n)
            if not self.oblige(st, ok, "%s in bounds" % what, "of %s" % r.name):
                raise Stop()
            if r.length is not None:
                break

    def load(self, st, p, ty, m):
        if isinstance(p, RPtr):
            return self.load_region(st, p, ty, m)
        if isinstance(p, TPtr):
            return self.load_table(st, p, ty, m)
        if isinstance(p, (CStr, IntPtr)):
            raise OutOfReach("load through %r" % (p,))
        return Engine.load(self, st, p, ty, m)

    def load_table(self, st, p, ty, m):
        size = m.size(ty)
        n = 0
        while p.off + n*p.scale + size <= p.root.size:
            n += 1
        if p.off < 0 or n > 300:
            raise OutOfReach("table access")
        if not self.oblige(st, z3.ULT(p.term, n), "load in bounds", "of %s" % p.root):
            raise Stop()
        vals = [self.load(st, Ptr(p.root, p.off + k*p.scale), ty, m) for k in range(n)]
        out = vals[-1]
        for k in range(n - 2, -1, -1):
            out = self.ite(p.term == k, vals[k], out)
        return out

    def load_region(self, st, p, ty, m):
        rt = m.resolve(ty)
        if rt[0] in ("vec", "arr"):
            s = m.size(rt[2])
            return [self.load(st, self.shift(p, i*s), rt[2], m) for i in range(rt[1])]
        if rt[0] == "struct":
            return [self.load(st, self.shift(p, m.field_offset(rt, i)), t, m) for i, t in enumerate(rt[1])]
        size = m.size(rt)
        self.check_region(st, p, size, "load")
        r = p.root
        if r.esize == 1:
            bs = [self.leaf(st, r, 0, "v", p.idx[:-1] + (p.idx[-1] + k if k else p.idx[-1],), z3.BitVecSort(8)) for k in range(size)]
            v = bs[0] if size == 1 else z3.Concat(list(reversed(bs)))
            return self.retype(z3.simplify(v), rt)
        lf = r.schema.get(p.off)
        if lf is None or lf[0] != size:
            raise OutOfReach("load of %d bytes at offset %s of %s" % (size, p.off, r.elem))
        if lf[1] == "ptr":
            return self.dec_ptr(st, [self.leaf(st, r, p.off, q, p.idx, self.part_sort("ptr", 8, q)) for q in self.PARTS["ptr"]],
                                p.idx)
        if lf[1] not in ("i", "f", "f4"):
            raise OutOfReach("scalar load of a " + lf[1])
        return self.retype(z3.simplify(self.leaf(st, r, p.off, "v", p.idx, self.part_sort(lf[1], size, "v"))), rt)

    def store(self, st, p, ty, v, m):
        if isinstance(p, (TPtr, CStr, IntPtr)):
            raise OutOfReach("store through %r" % (p,))
        if not isinstance(p, RPtr):
            return Engine.store(self, st, p, ty, v, m)
        rt = m.resolve(ty)
        if rt[0] in ("vec", "arr"):
            s = m.size(rt[2])
            for i in range(rt[1]):
                self.store(st, self.shift(p, i*s), rt[2], v[i], m)
            return
        if rt[0] == "struct":
            for i, t in enumerate(rt[1]):
                self.store(st, self.shift(p, m.field_offset(rt, i)), t, v[i], m)
            return
        size = m.size(rt)
        self.check_region(st, p, size, "store")
        if p.root.const:
            self.oblige(st, False, "store to a constant object", str(p.root))
            raise Stop()
        self.put_region(st, p, size, v, m)

    def put_region(self, st, p, size, v, m):
        r = p.root
        if r.esize == 1:
            bs = [fresh("uninit", z3.BitVecSort(8)) for _ in range(size)] if v is UNDEF else self.bytes_of((size, v))
            for k, b in enumerate(bs):
                self.set_leaf(st, r, 0, "v", p.idx[:-1] + (p.idx[-1] + k if k else p.idx[-1],), b, z3.BitVecSort(8))
            return
        lf = r.schema.get(p.off)
        if lf is None or lf[0] != size:
            raise OutOfReach("store of %d bytes at offset %s of %s" % (size, p.off, r.elem))
        if lf[1] == "ptr":
            for q, x in zip(self.PARTS["ptr"], self.enc_ptr(v)):
                self.set_leaf(st, r, p.off, q, p.idx, x)
            return
        if lf[1] not in ("i", "f", "f4"):
            raise OutOfReach("scalar store to a " + lf[1])
        sort = self.part_sort(lf[1], size, "v")
        if v is UNDEF:
            v = fresh("uninit", sort)
        if is_bool(v):
            v = z3.If(to_bool(v), z3.BitVecVal(1, 8*size), z3.BitVecVal(0, 8*size))
        if v.sort() != sort:
            v = z3.fpToIEEEBV(v) if is_fp(v) else z3.fpBVToFP(v, sort)
        self.set_leaf(st, r, p.off, "v", p.idx, v, sort)

    def retype(self, v, t):
        if t[0] == "ptr" or isinstance(v, (RPtr, CStr, IntPtr, PInt, PDiff)):
            if t[0] == "ptr" and is_bv(v):
                raise OutOfReach("integer read as a pointer")
            if t[0] == "i" and isinstance(v, IntPtr):
                return v.val
            return v
        if self.opaque and t[0] == "double" and is_bv(v) and v.size() == 64:
            return v
        return Engine.retype(self, v, t)

    def shift(self, p, n):
        if isinstance(p, RPtr):
            return self.advance(p, n, [])
        if isinstance(p, TPtr):
            return TPtr(p.root, p.off + n, p.term, p.scale)
        return Engine.shift(self, p, n)

    def advance(self, p, const, terms):
        es = p.root.esize
        last, off = p.idx[-1], p.off + const
        if terms or not 0 <= off < es:
            q = off//es
            off -= q*es
            for t, scale in terms:
                if scale % es:
                    raise OutOfReach("address inside an element")
                k = scale//es
                last = last + (t if k == 1 else t*k)
            if q:
                last = last + z3.BitVecVal(q, 64)
            last = z3.simplify(last)
        return RPtr(p.root, p.idx[:-1] + (last,), off)

    def gep(self, st, m, base, p, idx):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep(st, m, base, p.a, idx), self.gep(st, m, base, p.b, idx))
        off, t, terms = 0, base, []
        for k, (ity, i) in enumerate(idx):
            if isinstance(i, PInt) or i is UNDEF:
                raise OutOfReach("index")
            c = None if isinstance(i, (PDiff,)) else self.concrete(i, signed=True)
            if k == 0:
                sz = m.size(t)
            else:
                rt = m.resolve(t)
                if rt[0] == "struct":
                    off += m.field_offset(rt, c)
                    t = rt[1][c]
                    continue
                t = rt[2]
                sz = m.size(t)
            if c is None:
                x = i.n*i.size if isinstance(i, PDiff) else i
                if x.size() < 64:
                    x = z3.SignExt(64 - x.size(), x)
                terms.append((x, sz))
            else:
                off += c*sz
        if p is NULL:
            if off == 0 and not terms:
                return NULL
            if self.oblige(st, z3.And([x*s == 0 for x, s in terms]) if off == 0 else False, "no arithmetic on null"):
                return NULL
            raise Stop()
        if isinstance(p, RPtr):
            return self.advance(p, off, terms)
        if isinstance(p, TPtr) or terms:
            if isinstance(p, TPtr) and not terms:
                return TPtr(p.root, p.off + off, p.term, p.scale)
            if type(p) is Ptr and len(terms) == 1 and p.root.size is not None:
                return TPtr(p.root, p.off + off, z3.simplify(terms[0][0]), terms[0][1])
            raise OutOfReach("symbolic index")
        if isinstance(p, CStr) and off == 0:
            return p
        if not isinstance(p, Ptr):
            raise OutOfReach("gep on %r" % (p,))
        return Ptr(p.root, p.off + off)

    def check_access(self, st, p, size, what):
        if isinstance(p, (TPtr, RPtr, CStr, IntPtr)):
            raise OutOfReach("%s through %r" % (what, p))
        return Engine.check_access(self, st, p, size, what)

    def leaves(self, p, n, m):
        """Leaves of [p, p+n) in an element: [(offset from p, size, kind)]."""
        r = p.root
        if r.esize == 1:
            return [(i, 1, "i") for i in range(n)]
        out, end = [], p.off + n
        for o, (s, k, x) in sorted(r.schema.items()):
            if o >= p.off and o + s <= end:
                if k not in ("i", "f", "f4", "ptr"):
                    raise OutOfReach("memcpy of a " + k)
                out.append((o - p.off, s, k))
            elif o < end and o + s > p.off:
                raise OutOfReach("memcpy of part of a field")
        if end > r.esize:
            raise OutOfReach("memcpy across elements")
        return out

    TYPES = {("i", 1): ("i", 8), ("i", 2): ("i", 16), ("i", 4): ("i", 32), ("i", 8): ("i", 64), ("f", 8): ("double",),
             ("f4", 4): ("float",), ("ptr", 8): ("ptr",)}

    def memcpy(self, st, d, s, n, m):
        if n == 0:
            return
        if isinstance(s, RPtr) or isinstance(d, RPtr):
            ls = self.leaves(s if isinstance(s, RPtr) else d, n, m)
            vals = [(o, self.TYPES[(k, z)], self.load(st, self.shift(s, o), self.TYPES[(k, z)], m)) for o, z, k in ls]
            for o, t, v in vals:
                self.store(st, self.shift(d, o), t, v, m)
            return
        Engine.memcpy(self, st, d, s, n, m)

    # ---- merging -------------------------------------------------------------------------------
    def ite(self, c, a, b):
        if c is True or c is False or a is b:
            return Engine.ite(self, c, a, b)
        if isinstance(a, RPtr) and isinstance(b, RPtr) and a.root is b.root and a.off == b.off:
            return RPtr(a.root, [x if x.eq(y) else z3.If(c, x, y) for x, y in zip(a.idx, b.idx)], a.off)
        if isinstance(a, CStr) and isinstance(b, CStr):
            return CStr(a.val if a.val.eq(b.val) else z3.If(c, a.val, b.val))
        if isinstance(a, IntPtr) and isinstance(b, IntPtr):
            return IntPtr(self.ite(c, a.val, b.val))
        if isinstance(a, (IntPtr, CStr)) or isinstance(b, (IntPtr, CStr)):
            if isinstance(a, (Ptr, PtrIte, IntPtr, CStr)) or a is NULL:
                if isinstance(b, (Ptr, PtrIte, IntPtr, CStr)) or b is NULL:
                    return PtrIte(c, a, b)
        if isinstance(a, PInt) or isinstance(b, PInt) or isinstance(a, PDiff) or isinstance(b, PDiff):
            raise OutOfReach("cannot merge %r and %r" % (a, b))
        return Engine.ite(self, c, a, b)

    # ---- pointer arithmetic and comparison -----------------------------------------------------
    def icmp(self, st, pred, x, y):
        if isinstance(x, (CStr, IntPtr)) or isinstance(y, (CStr, IntPtr)):
            return self.ptr_cmp(st, pred, x, y)
        if isinstance(x, (PInt, PDiff)) or isinstance(y, (PInt, PDiff)):
            if isinstance(x, PDiff) and is_bv(y) or isinstance(y, PDiff) and is_bv(x):
                x = x.n*x.size if isinstance(x, PDiff) else x
                y = y.n*y.size if isinstance(y, PDiff) else y
            else:
                raise OutOfReach("comparison of pointers as integers")
        if self.compares is not None and is_bv(x) and is_bv(y):
            self.compares.append((x, y))
        return Engine.icmp(self, st, pred, x, y)

    def ptr_cmp(self, st, pred, x, y):
        if isinstance(x, PtrIte):
            return self.ite(x.c, self.ptr_cmp(st, pred, x.a, y), self.ptr_cmp(st, pred, x.b, y))
        if isinstance(y, PtrIte):
            return self.ite(y.c, self.ptr_cmp(st, pred, x, y.a), self.ptr_cmp(st, pred, x, y.b))
        if isinstance(x, RPtr) and isinstance(y, RPtr) and x.root is y.root:
            if x.off != y.off:
                if pred in ("eq", "ne"):
                    return pred == "ne"
                raise OutOfReach("pointer order")
            pre = z3.And([a == b for a, b in zip(x.idx[:-1], y.idx[:-1])]) if len(x.idx) > 1 else z3.BoolVal(True)
            a, b = x.idx[-1], y.idx[-1]
            if self.compares is not None:
                self.compares.append((a, b))
            eq = z3.And(pre, a == b)
            if pred == "eq":
                return simp_bool(eq)
            if pred == "ne":
                return simp_bool(z3.Not(eq))
            if not self.oblige(st, pre, "ordered pointers point into the same array"):
                raise Stop()
            return simp_bool({"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[pred](a, b))
        if pred in ("eq", "ne"):
            if isinstance(x, RPtr) or isinstance(y, RPtr) or isinstance(x, CStr) or isinstance(y, CStr):
                if x is NULL or y is NULL or (isinstance(x, RPtr) and isinstance(y, Ptr) and x.root is not y.root):
                    return pred == "ne"
                raise OutOfReach("pointer comparison")
            if isinstance(x, IntPtr) or isinstance(y, IntPtr):
                a = x.val if isinstance(x, IntPtr) else (bv64(0) if x is NULL else None)
                b = y.val if isinstance(y, IntPtr) else (bv64(0) if y is NULL else None)
                if a is None or b is None:
                    raise OutOfReach("pointer comparison")
                return simp_bool(a == b if pred == "eq" else a != b)
        return Engine.ptr_cmp(self, st, pred, x, y)

    def scalar(self, st, ins, a, t, m):
        op = ins.op
        if self.opaque and op in ("fadd", "fsub", "fmul", "fdiv") and all(is_bv(x) and x.size() == 64 for x in a[:2]):
            return self.arithmetic(op, a[0], a[1])
        if self.opaque and op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi", "fptoui", "frem"):
            raise OutOfReach("floating-point arithmetic")
        if op == "ptrtoint":
            if isinstance(a[0], IntPtr):
                return a[0].val
            if a[0] is NULL:
                return bv64(0)
            return PInt(a[0])
        if op == "inttoptr":
            if isinstance(a[0], PInt):
                return a[0].p
            if is_bv(a[0]):
                return IntPtr(a[0])
            raise OutOfReach("inttoptr")
        if op == "sub" and isinstance(a[0], PInt) and isinstance(a[1], PInt):
            x, y = a[0].p, a[1].p
            if isinstance(x, RPtr) and isinstance(y, RPtr) and x.root is y.root and x.off == y.off:
                pre = z3.And([p == q for p, q in zip(x.idx[:-1], y.idx[:-1])]) if len(x.idx) > 1 else True
                if not self.oblige(st, pre, "subtracted pointers point into the same array"):
                    raise Stop()
                d = z3.simplify(x.idx[-1] - y.idx[-1])
                return d if x.root.esize == 1 else PDiff(d, x.root.esize)
            if type(x) is Ptr and type(y) is Ptr and x.root is y.root:
                return bv64(x.off - y.off)
            raise OutOfReach("pointer difference")
        if isinstance(a[0], PDiff) and len(a) > 1:
            k = self.concrete(a[1])
            if op in ("sdiv", "udiv") and k == a[0].size:
                return a[0].n
            if op in ("ashr", "lshr") and k is not None and (1 << k) == a[0].size:
                return a[0].n
            raise OutOfReach("arithmetic on a pointer difference")
        if any(isinstance(x, (PInt, PDiff)) for x in a):
            raise OutOfReach("arithmetic on pointers as integers")
        if op == "mul" and self.abstract_mul and all(is_bv(x) and x.size() == 64 for x in a[:2]):
            return self.mul(a[0], a[1])
        return Engine.scalar(self, st, ins, a, t, m)

    # ---- whole objects -------------------------------------------------------------------------
    def copy_object(self, st, dst, src, elem, m, move=False):
        """*dst = *src for an element type; nested vectors and strings are copied (or moved) by value."""
        for off, (size, kind, extra) in sorted(self.schema(elem, m).items()):
            d, s = self.shift0(dst, off), self.shift0(src, off)
            if kind in ("i", "f", "f4", "ptr"):
                t = self.TYPES[(kind, size)]
                self.raw_store(st, d, t, self.raw_load(st, s, t, m), m)
            elif kind in ("str", "func"):
                sort = self.part_sort(kind, size, kind)
                sr, so, si = self.at(s)
                dr, do, di = self.at(d)
                self.set_leaf(st, dr, do, kind, di, self.leaf(st, sr, so, kind, si, sort), sort)
                if move:
                    self.set_leaf(st, sr, so, kind, si, fresh("moved", sort), sort)
            elif kind == "vec":
                self.copy_vec(st, d, s, extra, m, move)

    def shift0(self, p, off):
        if isinstance(p, RPtr):
            return RPtr(p.root, p.idx, p.off + off)
        if type(p) is Ptr:
            return Ptr(p.root, p.off + off)
        raise OutOfReach("object at %r" % (p,))

    def raw_load(self, st, p, t, m):
        """Load without bounds obligations (the element is known to exist)."""
        self.muted += 1
        try:
            return self.load(st, p, t, m)
        finally:
            self.muted -= 1

    def raw_store(self, st, p, t, v, m):
        if isinstance(p, RPtr):
            self.put_region(st, p, m.size(t), v, m)
        else:
            self.put(st, p, m.size(t), v)

    def copy_vec(self, st, d, s, elem, m, move=False):
        sr, so, si = self.at(s)
        dr, do, di = self.at(d)
        n = self.leaf(st, sr, so, "len", si, I64)
        self.set_leaf(st, dr, do, "len", di, n, I64)
        cs, cd = self.child(sr, so, elem, m), self.child(dr, do, elem, m)
        moved = []
        self.copy_tree(st, cd, di, cs, si, m, moved)
        if move:
            self.retarget(st, moved, di, si)
            self.set_leaf(st, sr, so, "len", si, bv64(0), I64)

    def copy_tree(self, st, cd, di, cs, si, m, moved):
        moved.append((cs, cd))
        for off, (size, kind, extra) in sorted(cs.schema.items()):
            parts = ("len",) if kind == "vec" else self.PARTS[kind]
            for q in parts:
                sort = I64 if kind == "vec" else self.part_sort(kind, size, q)
                v = self.leaf(st, cs, off, q, si, sort)
                self.leaf_sort.setdefault((cd, off, q), sort)
                self.set_leaf(st, cd, off, q, di, v, sort)
            if kind == "vec":
                self.copy_tree(st, self.child(cd, off, extra, m), di, self.child(cs, off, extra, m), si, m, moved)

    def retarget(self, st, moved, di, si):
        """Pointers to the elements of a moved vector follow them."""
        for cs, cd in moved:
            for (root, off), tag in list(self.tag_of.items()):
                if root is not cs:
                    continue
                new = z3.BitVecVal(self.tag(cd, off), 16)
                for key in list(set(st.arr) | set(self.init_arr)):
                    r, o, part = key
                    if part != "tag":
                        continue
                    d = depth_of(r)
                    vs = [z3.Const("q!%d" % k, I64) for k in range(d)]
                    old = [sel(self.arr_get(st, (r, o, q)), vs) for q in self.PARTS["ptr"]]
                    hit = z3.And([old[0] == tag] + [old[1 + k] == x for k, x in enumerate(si)])
                    rest = old[1 + len(si):1 + cs.depth]
                    tgt = list(di) + rest
                    tgt += [bv64(0)]*(3 - len(tgt))
                    res = [z3.If(hit, a, b) for a, b in zip([new] + tgt, old)]
                    for q, v in zip(self.PARTS["ptr"], res):
                        t = v
                        for x in reversed(vs):
                            t = z3.Lambda([x], t)
                        st.arr[(r, o, q)] = t
        for root_cells in st.mem.values():
            for o, (s, v) in root_cells.items():
                if isinstance(v, RPtr) and any(v.root is cs for cs, _ in moved):
                    raise OutOfReach("pointer into a moved vector")

    # ---- strings -------------------------------------------------------------------------------
    def literal(self, data):
        """The value of a string literal."""
        if self.str_sort == z3.StringSort():
            return z3.StringVal(data.decode("latin1"))
        if self.str_sort is BSTR:
            t = z3.K(I64, z3.BitVecVal(0, 8))
            for k, c in enumerate(data):
                t = z3.Store(t, bv64(k), z3.BitVecVal(c, 8))
            return MK_BSTR(bv64(len(data)), t)
        if data not in self.literals:
            self.literals[data] = z3.Const("lit_%s" % data.decode("latin1"), self.str_sort)
        return self.literals[data]

    def str_cat(self, a, b):
        if self.str_sort == z3.StringSort():
            return z3.Concat(a, b)
        if self.str_sort is BSTR:
            n, k = blen(a), z3.simplify(blen(b))
            if z3.is_bv_value(k) and k.as_long() <= 4:
                t = bdata(a)
                for j in range(k.as_long()):
                    t = z3.Store(t, z3.simplify(n + j), z3.simplify(bdata(b)[bv64(j)]))
                return bmake(n + k, t)
            i = bound()
            return bmake(n + k, z3.Lambda([i], z3.If(z3.ULT(i, n), bdata(a)[i], bdata(b)[i - n])))
        return z3.Function("text_cat", self.str_sort, self.str_sort, self.str_sort)(a, b)

    def char_str(self, c):
        if self.str_sort == z3.StringSort():
            raise OutOfReach("character appended")
        if self.str_sort is BSTR:
            return MK_BSTR(bv64(1), z3.Store(z3.K(I64, z3.BitVecVal(0, 8)), bv64(0), c))
        return z3.Function("text_char", z3.BitVecSort(8), self.str_sort)(c)

    def cstr(self, st, p):
        """The value of a const char* argument."""
        if isinstance(p, CStr):
            return p.val
        if isinstance(p, PtrIte):
            return z3.If(p.c, self.cstr(st, p.a), self.cstr(st, p.b))
        if p is NULL:
            self.oblige(st, False, "string argument is not null")
            raise Stop()
        if type(p) is Ptr:
            cells, out, o = self.cells(st, p.root), bytearray(), p.off
            while True:
                c = cells.get(o)
                v = self.concrete(c[1]) if c and c[0] == 1 and c[1] is not UNDEF else None
                if v is None:
                    raise OutOfReach("string argument")
                if v == 0:
                    return self.literal(bytes(out))
                out.append(v)
                o += 1
        raise OutOfReach("string argument %r" % (p,))

    def str_get(self, st, p):
        r, o, i = self.at(p)
        return self.leaf(st, r, o, "str", i, self.str_sort)

    def str_set(self, st, p, v):
        r, o, i = self.at(p)
        self.set_leaf(st, r, o, "str", i, v, self.str_sort)

    # ---- handlers ------------------------------------------------------------------------------
    def handler(self, name, dem):
        h = self.externs.get(name)
        if h:
            return h
        for pat, h in self.demangled_handlers:
            if dem.startswith(pat):
                return h
        from . import stdlib
        h = stdlib.handler(self, name, dem)
        if h:
            return h
        return sym.builtin(name, dem)

    # ---- loops ---------------------------------------------------------------------------------
    def on_block(self, f, st, name, stop):
        d = len(self.context)
        if self.fences:
            fc = self.fences[-1]
            if fc.f is f and fc.depth == d and name not in fc.nodes:
                fc.exits.append((name, st))
                return []
        nodes = natural_loops(f).get(name)
        if nodes is None:
            return None
        for c in reversed(self.active):
            if c.f is f and c.depth == d and c.header == name:
                if not c.entered:
                    c.entered = True
                    return None
                if st.prev in nodes:
                    if c.counter in st.ghost:
                        st.ghost = dict(st.ghost)
                        st.ghost[c.counter] = z3.simplify(st.ghost[c.counter] + 1)
                    c.back.append(st)
                    return []
                break
        if st.prev in nodes:
            return None
        if not self.should_cut(f, st, name) or self.few_iterations(f, st, name, nodes):
            return None
        return self.cut(f, st, name, nodes)

    def should_cut(self, f, st, name):
        b = f.blocks[name]
        if b.term.op == "br" and not b.term.args:
            return True
        s = st.fork()
        obs, self.obligations = self.obligations, []
        where, active = list(self.where), self.active
        comp, self.compares = self.compares, None
        touched = set(self.touched)
        self.muted += 1
        try:
            for ins in b.body:
                s = self.step(f, s, ins, f.module)
                if s is None:
                    return False
            v = self.val(s, ("i", 1) if b.term.op == "br" else b.term.ty, b.term.args[0], f.module)
        except Stop:
            return False
        finally:
            self.muted -= 1
            self.obligations, self.where, self.compares = obs, where, comp
        if isinstance(v, bool) or v is UNDEF:
            return False
        return not isinstance(simp_bool(v) if is_bool(v) else z3.simplify(v), bool) and not z3.is_bv_value(z3.simplify(to_bool(v)))

    def few_iterations(self, f, st, name, nodes):
        """Does a small inner loop end within five iterations here? Then it is unrolled."""
        loops = natural_loops(f)
        if len(nodes) > 6 or any(h in nodes and h != name for h in loops):
            return False
        key = (f.name, name)
        if self.unbounded.get(key, 0) >= 2:
            return False
        states = [st.fork()]
        for _ in range(5):
            new = []
            for s in states:
                new += self.iterate(f, s, name, nodes)[0]
            if not new:
                return True
            if len(new) > 2:
                break
            states = new
        self.unbounded[key] = self.unbounded.get(key, 0) + 1
        return False

    def iterate(self, f, st, name, nodes):
        """One muted iteration from the header: the states at the back edges."""
        c = Cut(f, name, nodes, len(self.context))
        obs, self.obligations = self.obligations, []
        where, ctx = list(self.where), list(self.context)
        fences = self.fences
        self.fences = fences + [c]
        self.active.append(c)
        self.muted += 1
        try:
            self.run(f, st, name, "%none")
        finally:
            self.muted -= 1
            self.active.remove(c)
            self.fences = fences
            self.obligations, self.where, self.context = obs, where, ctx
        return c.back, c.exits

    def cut(self, f, st, name, nodes):
        b = f.blocks[name]
        phis = [p.dst for p in b.phis]
        ck = (tuple(x.name for x in self.context), name)
        mods, survivors = self.cut_cache.get(ck, (None, None))
        counter = counter_name(f, name)
        st.ghost = dict(st.ghost)
        st.ghost[counter] = bv64(0)
        if mods is None:
            mods = {("ghost", counter): [bv64(0)]}
            for p in phis:
                mods[("env", p)] = [st.env[p]]
        else:
            mods = {k: list(v) for k, v in mods.items()}
            for k in mods:
                v = self.read(st, k)
                if v is not None:
                    mods[k].append(v)
        comp = self.compares
        while True:
            self.compares = []
            h = self.havoc(st, mods)
            self.collecting += 1
            try:
                back, _ = self.iterate(f, h.fork(), name, nodes)
            finally:
                self.collecting -= 1
            if self.collect(h, back, mods):
                break
        self.deltas = self.linear(h, back, mods, counter)
        compares, self.compares = self.compares, comp
        if comp is not None:
            comp.extend(compares)
        self.cut_cache[ck] = (mods, survivors)
        if self.collecting:     # only what the loop changes matters
            c = Cut(f, name, nodes, len(self.context))
            fences = self.fences
            self.fences = fences + [c]
            self.active.append(c)
            try:
                self.run(f, h.fork(), name, "%none")
            finally:
                self.active.remove(c)
                self.fences = fences
            return c.exits
        cands = self.candidates(f, name, st, h, mods, compares) if self.matters(st) else []
        if survivors is not None:
            cands = [c for c in cands if c[0] in survivors]
        tried = [(nm, fn, fn(self, st), fn(self, h)) for nm, fn in cands]
        tried = [x for x in tried if x[2] is not None and x[3] is not None and not is_true(x[3])]
        trusted = self.fast and survivors is not None and self.muted
        oks = [True]*len(tried) if trusted else in_parallel([lambda x=x: quick(st.pc, to_bool(x[2]), self.inv_ms) for x in tried])
        kept = [x[:2] for x, ok in zip(tried, oks) if ok]
        rounds = 0
        while True:
            rounds += 1
            hh = h.fork()
            for nm, fn in kept:
                hh.assume(fn(self, hh))
            if trusted:
                break
            back, _ = self.iterate(f, hh, name, nodes)
            conds = [[(s, fn(self, s)) for s in back] for nm, fn in kept]
            oks = in_parallel([lambda cs=cs: all(c is not None and quick(s.pc, to_bool(c), self.inv_ms) for s, c in cs) for cs in conds])
            if self.trace:
                for (nm, fn), ok, cs in zip(kept, oks, conds):
                    if not ok:
                        self.trace(rounds, nm, cs[0][0], cs[0][1])
            good = [x for x, ok in zip(kept, oks) if ok]
            if len(good) == len(kept):
                break
            kept = good
        if self.fast and not self.muted and survivors is not None and len(kept) < len(tried):
            raise Again()
        self.cut_cache[ck] = (mods, set(n for n, _ in kept))
        if not self.muted:
            self.loop_report.append("%s %s: %s" % (sym.short(f.demangled), name, "; ".join(n for n, _ in kept)))
        for nm, fn in kept:
            self.oblige(st, fn(self, st), "loop invariant holds on entry", nm)
        hh = h.fork()
        hh.env = dict(h.env)
        for nm, fn in kept:
            hh.assume(fn(self, hh))
        c = Cut(f, name, nodes, len(self.context))
        fences = self.fences
        self.fences = fences + [c]
        self.active.append(c)
        try:
            self.run(f, hh, name, "%none")
        finally:
            self.active.remove(c)
            self.fences = fences
        for s in c.back:
            for nm, fn in kept:
                self.oblige(s, fn(self, s), "loop invariant is kept", nm)
        return c.exits

    def matters(self, st):
        """Are invariants wanted here?"""
        return True

    def read(self, st, k):
        if k[0] == "env":
            return st.env.get(k[1])
        if k[0] == "cell":
            c = st.mem.get(k[1], {}).get(k[2])
            return c[1] if c and c[0] == k[3] else None
        if k[0] == "arr":
            return self.arr_get(st, k[1])
        if k[0] == "ghost":
            return st.ghost.get(k[1])

    def collect(self, h, back, mods):
        """Adds what differs between the header state and the back-edge states; True when nothing new."""
        stable = True

        def add(k, v):
            nonlocal stable
            if k not in mods:
                mods[k] = [self.read(h, k)] if self.read(h, k) is not None else []
                stable = False
            if isinstance(v, (Ptr, PtrIte, CStr, IntPtr)) or v is NULL:
                if not any(same_shape(v, w) for w in mods[k]):
                    mods[k].append(v)
                    stable = False
        for s in back:
            for k in list(mods):
                if k[0] == "env":
                    add(k, s.env[k[1]])
            for root, cells in s.mem.items():
                old = h.mem.get(root)
                if old is None or old is cells:
                    continue
                for o in set(cells) | set(old):
                    x, y = old.get(o), cells.get(o)
                    if x is not None and y is not None and x[0] == y[0] and same(x[1], y[1]):
                        continue
                    if x is None:
                        k = ("cell", root, o, y[0])
                        if k not in mods:
                            mods[k] = []
                            stable = False
                        continue
                    k = ("cell", root, o, x[0])
                    if y is None or y[0] != x[0]:
                        if ("drop", root, o) not in mods:
                            mods[("drop", root, o)] = []
                            stable = False
                        continue
                    add(k, y[1])
            for key, t in s.arr.items():
                old = h.arr.get(key)
                if old is None:
                    old = self.arr_get(h, key)
                if not t.eq(old):
                    add(("arr", key), t)
            for g, v in s.ghost.items():
                if g not in h.ghost and g.startswith("iter:"):
                    continue
                if g not in h.ghost:
                    raise OutOfReach("ghost state created in a loop")
                if not same(h.ghost[g], v):
                    add(("ghost", g), v)
        return stable

    def havoc_value(self, k, samples):
        samples = [v for v in samples if v is not None and v is not UNDEF]
        if not samples:
            return UNDEF
        v = samples[0]
        nm = "%s" % (k[1] if k[0] != "cell" else "%s+%s" % (k[1], k[2]),)
        if all(isinstance(x, z3.ExprRef) or isinstance(x, bool) for x in samples):
            srt = z3.BoolSort() if isinstance(v, bool) else v.sort()
            return fresh("h_" + (nm if k[0] != "arr" else "%s+%s.%s" % (k[1][0].name, k[1][1], k[1][2])), srt)
        flat = []
        for x in samples:
            stack = [x]
            while stack:
                y = stack.pop()
                if isinstance(y, PtrIte):
                    stack += [y.a, y.b]
                elif not any(same_shape(y, z) for z in flat):
                    flat.append(y)
        out = None
        for y in flat:
            if y is NULL:
                z = NULL
            elif isinstance(y, RPtr):
                z = RPtr(y.root, [fresh("h_%s_%d" % (nm, i), I64) for i in range(len(y.idx))], y.off)
            elif isinstance(y, CStr):
                z = CStr(fresh("h_" + nm, y.val.sort()))
            elif isinstance(y, IntPtr):
                z = IntPtr(fresh("h_" + nm, I64))
            elif type(y) is Ptr:
                z = y
            else:
                raise OutOfReach("loop changes %r" % (y,))
            out = z if out is None else PtrIte(fresh("h_sel", z3.BoolSort()), z, out)
        return out

    def havoc(self, st, mods):
        h = st.fork()
        for k, samples in mods.items():
            if k[0] == "drop":
                cells = dict(h.mem[k[1]])
                cells.pop(k[2], None)
                h.mem[k[1]] = cells
                continue
            v = self.havoc_value(k, samples)
            if k[0] == "env":
                h.env[k[1]] = v
            elif k[0] == "cell":
                cells = dict(h.mem[k[1]])
                if v is UNDEF:
                    cells.pop(k[2], None)
                else:
                    cells[k[2]] = (k[3], v)
                h.mem[k[1]] = cells
            elif k[0] == "arr":
                h.arr[k[1]] = v
            else:
                h.ghost[k[1]] = v
        return h

    def linear(self, h, back, mods, counter):
        """Variables the body changes by a constant: name -> (step, counter)."""
        out = {}
        if not back:
            return out
        for nm, g in self.variables(None, h, mods):
            a = g(h)
            steps = set()
            for s in back:
                b = g(s)
                d = z3.simplify(b - a) if b is not None and b.sort() == a.sort() else None
                steps.add(d.as_long() if d is not None and z3.is_bv_value(d) else None)
            if len(steps) == 1 and None not in steps:
                out[nm] = (steps.pop(), counter)
        return out

    def variables(self, st, h, mods):
        """Scalar integers (and pointer positions) the loop changes: (name, getter)."""
        out = []
        for k in mods:
            if k[0] == "arr":
                if self.str_sort is BSTR and k[1][2] == "str" and depth_of(k[1][0]) == 0:
                    out.append(("length of %s" % k[1][0], lambda s, k=k: B_LEN(self.read(s, k))))
                elif depth_of(k[1][0]) == 0 and z3.is_bv(self.read(h, k)):
                    out.append(("%s of %s" % (k[1][2], k[1][0]), lambda s, k=k: self.read(s, k)))
                continue
            if k[0] not in ("env", "cell", "ghost"):
                continue
            v = self.read(h, k)
            if is_bv(v):
                out.append((kname(k), lambda s, k=k: self.read(s, k)))
            elif isinstance(v, RPtr):
                for i in range(len(v.idx)):
                    out.append(("%s.%d" % (kname(k), i), lambda s, k=k, i=i, n=len(v.idx): pos_of(self.read(s, k), i)))
        return out

    def candidates(self, f, name, st, h, mods, compares):
        out = []
        vs = self.variables(st, h, mods)
        hv = [(nm, g, g(h)) for nm, g in vs]
        for k in mods:          # pointers keep their outer positions, values that do not change in effect
            v, v0 = self.read(h, k), self.read(st, k)
            if isinstance(v, RPtr) and isinstance(v0, RPtr):
                for i in range(len(v.idx) - 1):
                    out.append(("%s keeps position %d" % (kname(k), i),
                                lambda e, s, k=k, i=i, x=v0.idx[i]: pos_of(e.read(s, k), i) == x))
        for nm, g, v in hv:
            v0 = g(st)
            if v0 is None or nm in self.plain:
                continue
            out.append(("%s >= start" % nm, lambda e, s, g=g, x=v0: z3.UGE(g(s), x) if g(s) is not None else None))
            if z3.is_bv_value(z3.simplify(v0)) and z3.simplify(v0).as_long() == 0:
                out.append(("%s >= 0" % nm, lambda e, s, g=g: g(s) >= 0 if g(s) is not None else None))
            if v0.size() == 8:
                out.append(("%s is 0 or 1" % nm, lambda e, s, g=g: z3.ULE(g(s), 1) if g(s) is not None else None))
            if not nm.startswith("iter:") and not self.deltas.get(nm, (0, None))[0]:
                out.append(("%s = start" % nm, lambda e, s, g=g, x=v0: g(s) == x if g(s) is not None else None))
            step, counter = self.deltas.get(nm, (0, None))
            if step and not nm.startswith("iter:"):
                def lin(e, s, g=g, x=v0, step=step, counter=counter):
                    n = s.ghost.get(counter)
                    if n is None or g(s) is None:
                        return None
                    n = n if x.size() == 64 else z3.Extract(x.size() - 1, 0, n)
                    return g(s) == x + z3.BitVecVal(step, x.size())*n
                out.append(("%s = start + %d*iterations" % (nm, step if step < 1 << 31 else step - (1 << v0.size())), lin))
        hids = {}
        for nm, g, v in hv:
            hids[v.get_id()] = (nm, g)
        others = set()
        self.bounds = []
        for x, y in compares:
            for a, b in ((x, y), (y, x)):
                if a.get_id() in hids and not mentions_any(b, [v for _, _, v in hv]):
                    nm, g = hids[a.get_id()]
                    key = (nm, b.get_id())
                    if key in others:
                        continue
                    others.add(key)
                    if mentions_fresh(b, h, st):
                        continue
                    for lab, op in (("<=", z3.ULE), (">=", z3.UGE)):
                        out.append(("%s %s %s" % (nm, lab, str(b)[:40].replace("\n", " ")),
                                    lambda e, s, g=g, b=b, op=op: op(g(s), b) if g(s) is not None else None))
        for t in self.templates:
            out.extend(t(self, f, name, st, h, mods, vs))
        return out


def kname(k):
    if k[0] == "cell":
        return "%s+%s" % (k[1], k[2])
    return str(k[1])


def pos_of(v, i):
    if isinstance(v, RPtr):
        return v.idx[i]
    return None


def mentions_any(t, vs):
    ids = set(v.get_id() for v in vs)
    seen, work = set(), [t]
    while work:
        x = work.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        work.extend(x.children())
    return False


def mentions_fresh(t, h, st):
    """Does a term use symbols created during the iteration (rather than before the loop)?"""
    from .solve import free_vars, limit, answer, STALLED
    known = getattr(h, "known", None)
    for v in free_vars(t).values():
        n = str(v)
        if "!" in n and not any(n in s for s in known_names(st)):
            return True
    return False


def known_names(st):
    from .solve import free_vars, limit, answer, STALLED
    names = set()
    for c in st.pc:
        names.update(str(v) for v in free_vars(c).values())
    for v in list(st.env.values()) + [c[1] for cells in st.mem.values() for c in cells.values()] + list(st.arr.values()):
        if isinstance(v, z3.ExprRef):
            names.update(str(x) for x in free_vars(v).values())
        elif isinstance(v, RPtr):
            for i in v.idx:
                names.update(str(x) for x in free_vars(i).values())
    return [names]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, RPtr) and isinstance(b, RPtr):
        return a.root is b.root and a.off == b.off and all(x.eq(y) for x, y in zip(a.idx, b.idx))
    if type(a) is Ptr and type(b) is Ptr:
        return a.root is b.root and a.off == b.off
    if isinstance(a, CStr) and isinstance(b, CStr):
        return a.val.eq(b.val)
    if isinstance(a, IntPtr) and isinstance(b, IntPtr):
        return same(a.val, b.val)
    if isinstance(a, PtrIte) and isinstance(b, PtrIte):
        return same(a.c, b.c) and same(a.a, b.a) and same(a.b, b.b)
    return False


def same_shape(a, b):
    if isinstance(a, PtrIte):
        return same_shape(a.a, b) and same_shape(a.b, b)
    if isinstance(b, PtrIte):
        return same_shape(a, b.a) or same_shape(a, b.b)
    if isinstance(a, RPtr) and isinstance(b, RPtr):
        return a.root is b.root and a.off == b.off
    if type(a) is Ptr and type(b) is Ptr:
        return a.root is b.root and a.off == b.off
    return (isinstance(a, CStr) and isinstance(b, CStr)) or (isinstance(a, IntPtr) and isinstance(b, IntPtr)) or a is b


_quant = {}


def has_quantifier(c):
    i = c.get_id()
    if i in _quant:
        return _quant[i][1]
    seen, work, r = set(), [c], False
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        work.extend(x.children())
    _quant[i] = (c, r)
    return r


_floats = {}


def has_floats(c):
    """Does a formula speak about floating-point numbers?"""
    if isinstance(c, bool):
        return False
    i = c.get_id()
    if i not in _floats:
        seen, work, r = set(), [c], False
        while work:
            x = work.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                work.append(x.body())
                continue
            if x.sort().kind() in (z3.Z3_FLOATING_POINT_SORT, z3.Z3_ROUNDING_MODE_SORT):
                r = True
                break
            work.extend(x.children())
        _floats[i] = (c, r)
    return _floats[i][1]


def is_true(c):
    return c is True or (isinstance(c, z3.ExprRef) and z3.is_true(z3.simplify(c)))
