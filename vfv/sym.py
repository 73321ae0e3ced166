"""Verification condition generator: symbolic execution of LLVM IR with merging at post-dominators.

Every function is executed for all inputs of its contract's precondition at once. Branches on symbolic
conditions are explored on both sides and merged at the immediate post-dominator, so one run yields one set of
obligations covering every path. Loops either have a trip count that the path condition fixes (then they are
unrolled completely, the last iteration being proved to leave) or are cut by an invariant (vfv/loops.py).

Undefined behaviour of the IR (null or out-of-bounds access, out-of-range float to integer conversion, signed
overflow, division by zero, use of an undefined value in a branch or address, reaching 'unreachable') and failed
assertions are obligations.
"""
import struct, sys, time
import z3
from . import ir

sys.setrecursionlimit(20000)
F32, F64, F16 = z3.Float32(), z3.Float64(), z3.Float16()
RNE, RNA, RTZ = z3.RNE(), z3.RNA(), z3.RTZ()


class OutOfReach(Exception):
    """The engine cannot handle this code: the function is undecided, not violated."""


class _Undef:
    def __repr__(self):
        return "undef"


UNDEF = _Undef()


class Root:
    """An allocation with a fixed size (None: unbounded)."""
    count = 0

    def __init__(self, name, size, const=False):
        Root.count += 1
        self.id = Root.count
        self.name, self.size, self.const = name, size, const

    def __repr__(self):
        return self.name


class Ptr:
    __slots__ = ("root", "off")

    def __init__(self, root, off):
        self.root, self.off = root, off

    def __repr__(self):
        return "%s+%s" % (self.root, self.off)

    def key(self):
        return (self.root, self.off)


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FnPtr:
    def __init__(self, name):
        self.name = name


class _Null:
    def __repr__(self):
        return "null"


NULL = _Null()


def is_bv(v):
    return isinstance(v, z3.BitVecRef)


def is_fp(v):
    return isinstance(v, z3.FPRef)


def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))


def to_bool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def b_not(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def b_and(*cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
            continue
        r.append(c)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(r)


def b_or(*cs):
    r = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
            continue
        r.append(c)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(r)


def simp_bool(c):
    if isinstance(c, bool):
        return c
    s = z3.simplify(c)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def fp_const(bits, sort):
    d = struct.unpack("<d", struct.pack("<Q", bits))[0]
    if d != d:
        return z3.fpNaN(sort)
    if sort is F64 or sort == F64:
        return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), F64))
    if sort == F32:
        return z3.simplify(z3.fpFPToFP(RNE, z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), F64)), F32))
    raise OutOfReach("constant of type " + str(sort))


def fp_sort(t):
    return {"float": F32, "double": F64, "half": F16}[t[0]]


# Conversions between floating point and integers go through one wide signed integer, so that a value converted
# through different C types gives the same term. Exact for every value in range; range is an obligation.
WIDE = 66


def int_to_fp(term, width, signed, sort):
    ext = WIDE - width
    w = z3.SignExt(ext, term) if signed else z3.ZeroExt(ext, term)
    return z3.fpSignedToFP(RNE, z3.simplify(w), sort)


def fp_to_int_wide(x):
    return z3.fpToSBV(RTZ, x, z3.BitVecSort(WIDE))


class Obligation:
    __slots__ = ("name", "pc", "cond", "kind", "status", "detail", "time", "by", "model", "where", "cases", "meta")

    def __init__(self, name, pc, cond, kind, where):
        self.name, self.pc, self.cond, self.kind, self.where = name, list(pc), cond, kind, where
        self.status, self.detail, self.time, self.by, self.model, self.cases = "open", "", 0.0, "", None, []
        self.meta = None


class State:
    """pc: list of facts; mem: root -> {offset: (size, value)}."""
    __slots__ = ("pc", "mem", "env", "prev", "ghost", "arr", "br")

    def __init__(self):
        self.pc, self.mem, self.env, self.prev, self.ghost, self.arr = [], {}, {}, None, {}, {}
        self.br = ()        # branch conditions taken, in order

    def fork(self):
        s = State()
        s.pc, s.mem, s.env, s.prev = list(self.pc), dict(self.mem), dict(self.env), self.prev
        s.ghost, s.arr, s.br = dict(self.ghost), dict(self.arr), self.br
        return s

    def branch(self, c):
        c = to_bool(c)
        self.pc.append(c)
        self.br += (c,)

    def assume(self, c):
        c = c if isinstance(c, bool) else c
        if c is not True:
            self.pc.append(to_bool(c))


# ---- control flow ------------------------------------------------------------------------------------
def natural_loops(f):
    """header -> set of blocks."""
    if hasattr(f, "_loops"):
        return f._loops
    order, seen = [], set()
    stack = [(f.entry, iter(f.blocks[f.entry].succs()))]
    seen.add(f.entry)
    while stack:
        x, it = stack[-1]
        for y in it:
            if y not in seen:
                seen.add(y)
                stack.append((y, iter(f.blocks[y].succs())))
                break
        else:
            order.append(x)
            stack.pop()
    rpo = list(reversed(order))
    num = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in f.blocks[b].preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = new, p
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs():
            if dominates(s, b):
                nodes = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in nodes:
                        nodes.add(x)
                        work.extend(p for p in f.blocks[x].preds if p in num)
    f._loops = loops
    return loops


def block_order(f):
    """Position of each block such that joins come after what flows into them and loops before what follows them."""
    if hasattr(f, "_order"):
        return f._order
    loops = natural_loops(f)

    def succs(n):
        inside = [nodes for nodes in loops.values() if n in nodes]
        out = list(dict.fromkeys(f.blocks[n].succs()))
        return sorted(out, key=lambda s: -sum(1 for nodes in inside if s not in nodes))
    post, seen = [], {f.entry}
    stack = [(f.entry, iter(succs(f.entry)))]
    while stack:
        x, it = stack[-1]
        for y in it:
            if y not in seen:
                seen.add(y)
                stack.append((y, iter(succs(y))))
                break
        else:
            post.append(x)
            stack.pop()
    f._order = {b: i for i, b in enumerate(reversed(post))}
    return f._order


def common(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is not y and x.get_id() != y.get_id():
            break
        n += 1
    return n


class Engine:
    max_unroll = 80

    def __init__(self, modules):
        self.modules = modules
        self.fns = {}
        for m in modules:
            for n, f in m.functions.items():
                self.fns.setdefault(n, f)
        self.globals = {}
        self.obligations = []
        self.externs = {}          # mangled or demangled-prefix handlers
        self.demangled_handlers = []
        self.touched = set()       # functions whose body was executed
        self.contracts_used = set()
        self.unroll = {}
        self.where = []
        self.solver_calls = 0
        self.global_init = {}
        self.label = ""
        self.context = []
        self.loop_handler = None
        self.deadline = None

    # ---- obligations ---------------------------------------------------------------------------
    def oblige(self, st, cond, kind, where=""):
        c = simp_bool(cond)
        pos = self.where[-1] if self.where else None
        fn = pos[0].demangled if pos else "?"
        line = pos[1] if pos else None
        name = "%s%s in %s line %s%s" % (self.label, kind, short(fn), line, (" " + where) if where else "")
        self.obligations.append(Obligation(name, st.pc, c, kind, where))
        if c is False:
            return False
        st.assume(c)
        return True

    def feasible(self, st, extra=None):
        s = z3.Solver()
        s.set("timeout", 3000)
        for c in st.pc:
            s.add(c)
        if extra is not None:
            s.add(extra)
        self.solver_calls += 1
        return s.check() != z3.unsat

    # ---- values --------------------------------------------------------------------------------
    def const(self, ty, v, m):
        k = v[0]
        ty = m.resolve(ty)
        if k == "int":
            if ty[0] == "i":
                if ty[1] == 1:
                    return bool(v[1])
                return z3.BitVecVal(v[1], ty[1])
            raise OutOfReach("integer constant of type " + str(ty))
        if k == "fp":
            return fp_const(v[1], fp_sort(ty))
        if k == "null":
            return NULL
        if k == "undef":
            if ty[0] == "vec":
                return [UNDEF]*ty[1]
            if ty[0] == "struct":
                return [self.const(t, v, m) for t in ty[1]]
            return UNDEF
        if k == "zero":
            return self.zero(ty, m)
        if k == "agg":
            return [self.const(t, x, m) for t, x in v[1]]
        if k == "bytes":
            return [z3.BitVecVal(b, 8) for b in v[1]]
        if k == "global":
            return self.global_ptr(v[1], m)
        if k == "cgep":
            base = self.const(v[2][0][0], v[2][0][1], m)
            return self.gep(None, m, v[1], base, [(t, self.const(t, x, m)) for t, x in v[2][1:]])
        if k == "ccast" and v[1] in ("bitcast", "addrspacecast"):
            return self.const(v[2], v[3], m)
        raise OutOfReach("constant " + str(v)[:60])

    def zero(self, ty, m):
        ty = m.resolve(ty)
        if ty[0] == "i":
            return False if ty[1] == 1 else z3.BitVecVal(0, ty[1])
        if ty[0] in ("float", "double", "half"):
            return z3.FPVal(0.0, fp_sort(ty))
        if ty[0] == "ptr":
            return NULL
        if ty[0] in ("arr", "vec"):
            return [self.zero(ty[2], m) for _ in range(ty[1])]
        if ty[0] == "struct":
            return [self.zero(t, m) for t in ty[1]]
        raise OutOfReach("zero of " + str(ty))

    def global_ptr(self, name, m):
        if name in self.fns or name in m.decls:
            return FnPtr(name)
        if name not in self.globals:
            ty, init, const = None, None, False
            for mm in [m] + self.modules:
                if name in mm.globals:
                    ty, init, const = mm.globals[name]
                    owner = mm
                    if init is not None:
                        break
            if ty is None:
                raise OutOfReach("global " + name)
            root = Root(name, owner.size(ty) if owner.resolve(ty)[0] != "opaque" else None, const)
            self.globals[name] = (root, ty, init, const, owner)
        return Ptr(self.globals[name][0], 0)

    def global_cells(self, root):
        """Initial contents of a constant global, or of a global the engine was told to initialise."""
        for name, (r, ty, init, const, owner) in self.globals.items():
            if r is root:
                if name in self.global_init:
                    return self.global_init[name]
                cells = {}
                if init is not None and (const or name in self.const_globals):
                    self.spread(cells, 0, ty, self.const(ty, init, owner), owner)
                return cells
        return {}

    const_globals = ()

    def spread(self, cells, off, ty, val, m):
        ty = m.resolve(ty)
        if ty[0] in ("arr", "vec"):
            s = m.size(ty[2])
            for i in range(ty[1]):
                self.spread(cells, off + i*s, ty[2], val[i] if isinstance(val, list) else UNDEF, m)
        elif ty[0] == "struct":
            for i, t in enumerate(ty[1]):
                self.spread(cells, off + m.field_offset(ty, i), t, val[i] if isinstance(val, list) else UNDEF, m)
        else:
            cells[off] = (m.size(ty), val)

    def val(self, st, ty, v, m):
        if v[0] == "reg":
            try:
                return st.env[v[1]]
            except KeyError:
                raise OutOfReach("register %s has no value" % v[1])
        return self.const(ty, v, m)

    # ---- memory --------------------------------------------------------------------------------
    def cells(self, st, root):
        if root not in st.mem:
            st.mem[root] = self.global_cells(root)
        return st.mem[root]

    def alloc(self, st, name, size, const=False):
        r = Root(name, size, const)
        st.mem[r] = {}
        return Ptr(r, 0)

    def check_access(self, st, p, size, what):
        if p is NULL:
            self.oblige(st, False, what + " through null")
            return False
        if p is UNDEF or not isinstance(p, Ptr):
            raise OutOfReach("%s through %r" % (what, p))
        if not isinstance(p.off, int):
            raise OutOfReach("symbolic offset")
        if p.root.size is not None and (p.off < 0 or p.off + size > p.root.size):
            self.oblige(st, False, "%s in bounds" % what, "%s offset %d size %d of %s" %
                        (p.root, p.off, size, p.root.size))
            return False
        return True

    def load(self, st, p, ty, m):
        if isinstance(p, PtrIte):
            a = self.load(self.sub(st, p.c), p.a, ty, m)
            b = self.load(self.sub(st, b_not(p.c)), p.b, ty, m)
            return self.ite(p.c, a, b)
        rt = m.resolve(ty)
        if rt[0] in ("vec", "arr"):
            s = m.size(rt[2])
            return [self.load(st, self.shift(p, i*s), rt[2], m) for i in range(rt[1])]
        if rt[0] == "struct":
            return [self.load(st, self.shift(p, m.field_offset(rt, i)), t, m) for i, t in enumerate(rt[1])]
        size = m.size(rt)
        if not self.check_access(st, p, size, "load"):
            raise Stop()
        cells = self.cells(st, p.root)
        c = cells.get(p.off)
        if c is not None and c[0] == size:
            return self.retype(c[1], rt)
        return self.retype(self.assemble(st, p, size), rt)

    def shift(self, p, n):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.shift(p.a, n), self.shift(p.b, n))
        if isinstance(p, Ptr):
            return Ptr(p.root, p.off + n)
        return p

    def sub(self, st, c):
        # obligations raised while following one side of a conditional pointer hold under its condition
        s = State()
        s.pc, s.mem, s.env, s.ghost, s.arr, s.br = st.pc + [to_bool(c)], st.mem, st.env, st.ghost, st.arr, st.br
        return s

    def bytes_of(self, cell):
        size, v = cell
        if v is UNDEF:
            return [UNDEF]*size
        if is_fp(v):
            v = z3.simplify(z3.fpToIEEEBV(v))
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            v = z3.If(to_bool(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if is_bv(v):
            if v.size() != size*8:
                v = z3.ZeroExt(size*8 - v.size(), v)
            return [z3.simplify(z3.Extract(8*i + 7, 8*i, v)) for i in range(size)]
        raise OutOfReach("bytes of %r" % (v,))

    def byte_at(self, cells, off):
        for o in range(off, off - 17, -1):
            c = cells.get(o)
            if c is not None and o + c[0] > off:
                return self.bytes_of(c)[off - o]
        return UNDEF

    def assemble(self, st, p, size):
        cells = self.cells(st, p.root)
        bs = [self.byte_at(cells, p.off + i) for i in range(size)]
        if all(b is UNDEF for b in bs):
            return UNDEF
        # partly initialised: the other bytes may be anything
        bs = [fresh("uninit", z3.BitVecSort(8)) if b is UNDEF else b for b in bs]
        return z3.simplify(z3.Concat(list(reversed(bs)))) if size > 1 else bs[0]

    def retype(self, v, t):
        if v is UNDEF:
            return v
        if t[0] == "i":
            if isinstance(v, (Ptr, PtrIte, _Null, FnPtr)):
                raise OutOfReach("pointer read as an integer")
            if is_fp(v):
                return z3.simplify(z3.fpToIEEEBV(v))
            if t[1] == 1 and is_bv(v):
                return simp_bool(z3.Extract(0, 0, v) == 1)
            if is_bv(v) and v.size() > t[1]:
                return z3.simplify(z3.Extract(t[1] - 1, 0, v))
            if t[1] > 1 and is_bool(v):
                return z3.If(to_bool(v), z3.BitVecVal(1, t[1]), z3.BitVecVal(0, t[1]))
            return v
        if t[0] in ("float", "double", "half"):
            if is_bv(v):
                return z3.simplify(z3.fpBVToFP(v, fp_sort(t)))
            return v
        return v

    def store(self, st, p, ty, v, m):
        if isinstance(p, PtrIte):
            old_a = self.load(self.sub(st, p.c), p.a, ty, m)
            old_b = self.load(self.sub(st, b_not(p.c)), p.b, ty, m)
            self.store(st, p.a, ty, self.ite(p.c, v, old_a), m)
            self.store(st, p.b, ty, self.ite(p.c, old_b, v), m)
            return
        rt = m.resolve(ty)
        if rt[0] in ("vec", "arr"):
            s = m.size(rt[2])
            for i in range(rt[1]):
                self.store(st, self.shift(p, i*s), rt[2], v[i], m)
            return
        if rt[0] == "struct":
            for i, t in enumerate(rt[1]):
                self.store(st, self.shift(p, m.field_offset(rt, i)), t, v[i], m)
            return
        size = m.size(rt)
        if not self.check_access(st, p, size, "store"):
            raise Stop()
        if p.root.const:
            self.oblige(st, False, "store to a constant object", str(p.root))
            raise Stop()
        self.put(st, p, size, v)

    def put(self, st, p, size, v):
        cells = dict(self.cells(st, p.root))
        self.clear_range(cells, p.off, size)
        cells[p.off] = (size, v)
        st.mem[p.root] = cells

    def clear_range(self, cells, off, size):
        """Removes [off, off+size), splitting cells that straddle its ends into bytes."""
        for o in [o for o in cells if o < off + size and o + cells[o][0] > off]:
            c = cells.pop(o)
            if o < off or o + c[0] > off + size:
                for i, b in enumerate(self.bytes_of(c)):
                    if not off <= o + i < off + size:
                        cells[o + i] = (1, b)

    def memcpy(self, st, d, s, n, m):
        if n == 0:
            return
        if not self.check_access(st, s, n, "memcpy source") or not self.check_access(st, d, n, "memcpy target"):
            raise Stop()
        src = self.cells(st, s.root)
        new = []
        o = s.off
        while o < s.off + n:
            c = src.get(o)
            if c is not None and o + c[0] <= s.off + n:
                new.append((o - s.off, c))
                o += c[0]
            else:
                new.append((o - s.off, (1, self.byte_at(src, o))))
                o += 1
        cells = dict(self.cells(st, d.root))
        self.clear_range(cells, d.off, n)
        for o, c in new:
            cells[d.off + o] = c
        st.mem[d.root] = cells

    def gep(self, st, m, base, p, idx):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep(st, m, base, p.a, idx), self.gep(st, m, base, p.b, idx))
        off, t = 0, base
        for k, (ity, i) in enumerate(idx):
            c = self.concrete(i, signed=True)
            if k == 0:
                sz = m.size(t)
            else:
                rt = m.resolve(t)
                if rt[0] == "struct":
                    off += m.field_offset(rt, c)
                    t = rt[1][c]
                    continue
                t = rt[2]
                sz = m.size(t)
            if c is None:
                raise OutOfReach("symbolic index")
            off += c*sz
        if p is NULL:
            if off == 0:
                return NULL
            raise OutOfReach("arithmetic on null")
        if not isinstance(p, Ptr):
            raise OutOfReach("gep on %r" % (p,))
        return Ptr(p.root, p.off + off)

    def concrete(self, v, signed=False):
        if isinstance(v, int):
            return v
        if is_bv(v):
            s = z3.simplify(v)
            if z3.is_bv_value(s):
                return s.as_signed_long() if signed else s.as_long()
        return None

    def either(self, a, b):
        """a or b, or True when one of them must hold."""
        c = simp_bool(b_or(a, b))
        if isinstance(c, bool):
            return c
        s = z3.Solver()
        s.set("timeout", 100)
        s.add(z3.Not(c))
        return True if s.check() == z3.unsat else c

    def merge_all(self, states):
        states = list(states)
        while len(states) > 1:
            best, at = -1, None
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    k = common(states[i].br, states[j].br)
                    if k > best:
                        best, at = k, (i, j)
            i, j = at
            b = states.pop(j)
            states[i] = self.merge(states[i], b)
        return states[0]

    # ---- merging -------------------------------------------------------------------------------
    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if a is UNDEF or b is UNDEF:
            # undefined on one side: any value there
            other = b if a is UNDEF else a
            if isinstance(other, list):
                n = len(other)
                return [self.ite(c, a if a is UNDEF else a[i], b if b is UNDEF else b[i]) for i in range(n)]
            if is_bool(other):
                u = fresh("undef", z3.BoolSort())
            elif isinstance(other, z3.ExprRef):
                u = fresh("undef", other.sort())
            else:
                return UNDEF
            return self.ite(c, u if a is UNDEF else a, u if b is UNDEF else b)
        if isinstance(a, list) and isinstance(b, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if is_bool(a) and is_bool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a if a == b else (c if a else b_not(c))
            return z3.If(c, to_bool(a), to_bool(b))
        if isinstance(a, (Ptr, PtrIte, _Null)) and isinstance(b, (Ptr, PtrIte, _Null)):
            if a is NULL and b is NULL:
                return a
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.key() == b.key():
                return a
            return PtrIte(c, a, b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.eq(b):
                return a
            if a.sort() == b.sort():
                return z3.If(c, a, b)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        raise OutOfReach("cannot merge %r and %r" % (a, b))

    def merge(self, a, b):
        """Two states at the same place that took different branches."""
        k = common(a.br, b.br)
        ta, tb = a.br[k:], b.br[k:]
        if not ta or not tb:
            raise OutOfReach("states that cannot be told apart")
        A, B = b_and(*ta), b_and(*tb)
        c = A
        st = State()
        st.br = a.br[:k]
        n = common(a.pc, b.pc)
        st.pc = list(a.pc[:n])
        either = self.either(A, B)
        if either is not True:
            st.pc.append(to_bool(either))
            st.br += (to_bool(either),)
        for x, fs, own in ((A, a.pc[n:], ta), (B, b.pc[n:], tb)):
            ids = set(t.get_id() for t in own)
            for f in fs:
                if f.get_id() not in ids:
                    st.pc.append(z3.Implies(to_bool(x), f))
        for r in a.env:
            if r in b.env:
                try:
                    st.env[r] = self.ite(c, a.env[r], b.env[r])
                except OutOfReach:
                    pass        # a register that differs in kind is dead here or will be reported when used
        for root in a.mem:
            ca = a.mem[root]
            if root not in b.mem:
                st.mem[root] = ca
                continue
            cb = b.mem[root]
            if ca is cb:
                st.mem[root] = ca
                continue
            st.mem[root] = self.merge_cells(c, ca, cb)
        for root in b.mem:
            if root not in a.mem:
                st.mem[root] = b.mem[root]
        for k in a.ghost:
            if k in b.ghost:
                st.ghost[k] = self.ite(c, a.ghost[k], b.ghost[k]) if a.ghost[k] is not b.ghost[k] else a.ghost[k]
        for k in set(a.arr) | set(b.arr):
            x, y = self.arr_get(a, k), self.arr_get(b, k)
            st.arr[k] = x if x.eq(y) else z3.If(c, x, y)
        st.prev = a.prev
        return st

    def merge_cells(self, c, ca, cb):
        out = {}
        for o in set(ca) | set(cb):
            x, y = ca.get(o), cb.get(o)
            if x is not None and y is not None and x[0] == y[0]:
                try:
                    out[o] = x if x[1] is y[1] else (x[0], self.ite_retype(c, x[1], y[1]))
                    continue
                except OutOfReach:
                    pass
            return self.merge_bytes(c, ca, cb)
        return out

    def ite_retype(self, c, x, y):
        if is_fp(x) and is_bv(y):
            y = self.retype(y, ("double",) if x.sort() == F64 else ("float",))
        elif is_fp(y) and is_bv(x):
            x = self.retype(x, ("double",) if y.sort() == F64 else ("float",))
        return self.ite(c, x, y)

    def merge_bytes(self, c, ca, cb):
        out = {}
        for o in set(ca) & set(cb):
            if ca[o][0] == cb[o][0]:
                try:
                    out[o] = (ca[o][0], self.ite_retype(c, ca[o][1], cb[o][1]))
                except OutOfReach:
                    pass
        done = set()
        for o, (s, _) in out.items():
            done.update(range(o, o + s))
        offs = set()
        for cs, other in ((ca, cb), (cb, ca)):
            for o, (s, v) in cs.items():
                if not isinstance(v, z3.ExprRef) and not isinstance(v, bool) and v is not UNDEF and \
                        all(p not in done and self.byte_at(other, p) is UNDEF for p in range(o, o + s)):
                    done.update(range(o, o + s))        # a pointer on one side only: undefined after the merge
                    continue
                offs.update(range(o, o + s))
        for o in offs - done:
            x, y = self.byte_at(ca, o), self.byte_at(cb, o)
            if x is UNDEF and y is UNDEF:
                continue
            out[o] = (1, self.ite(c, x, y))
        return out

    # ---- execution -----------------------------------------------------------------------------
    def call(self, st, f, args):
        """Executes f's body; returns (state, value) or (None, None) when no path returns."""
        if len(self.context) > 60:
            raise OutOfReach("call depth")
        self.touched.add(f.demangled)
        env = st.env
        st.env = {}
        for (t, r), a in zip(f.params, args):
            st.env[r] = a
        self.context.append(f)
        self.where.append((f, None))
        try:
            out = self.run(f, st, f.entry, "%ret")
        finally:
            self.context.pop()
            self.where.pop()
        if out is None:
            return None, None
        rv = out.env.get("%retval", UNDEF)
        out.env = env
        return out, rv

    def run(self, f, st, name, stop):
        """Runs from the start of block `name`; returns the merged state at the edge into `stop` (None: never reached)."""
        m = f.module
        order = block_order(f)
        pending, visits = {name: [st]}, {}
        while True:
            todo = [b for b in pending if b != stop]
            if not todo:
                break
            name = min(todo, key=lambda b: order.get(b, -1))
            st = self.merge_all(pending.pop(name))
            if name == "%ret":
                continue
            if self.deadline and time.time() > self.deadline:
                raise OutOfReach("time limit")
            b = f.blocks[name]
            if self.loop_handler is not None:
                r = self.loop_handler(self, f, st, name, stop)
                if r is not None:
                    for n2, s2 in r:        # states after the loop
                        pending.setdefault(n2, []).append(s2)
                    continue
            visits[name] = visits.get(name, 0) + 1
            if visits[name] > self.max_unroll:
                raise OutOfReach("loop in %s does not end within %d iterations" % (short(f.demangled), self.max_unroll))
            try:
                for ins in b.body:
                    self.where[-1] = (f, ins.dbg or self.where[-1][1])
                    st = self.step(f, st, ins, m)
                    if st is None:
                        break
            except Stop:
                continue
            if st is None:
                continue
            for n2, s2 in self.leave(f, st, name, b.term, m):
                pending.setdefault(n2, []).append(s2)
        return self.merge_all(pending[stop]) if stop in pending else None

    def leave(self, f, st, name, t, m):
        """The states after a block's terminator: [(next block, state)]."""
        self.where[-1] = (f, t.dbg or self.where[-1][1])
        if t.op == "ret":
            st.env["%retval"] = self.val(st, t.ty, t.args[0], m) if t.args else None
            return [("%ret", st)]
        if t.op == "unreachable":
            self.oblige(st, False, "unreachable code is not reached")
            return []
        if t.op == "br" and not t.args:
            return [(self.edge(f, st, name, t.extra[0]), st)]
        if t.op == "br":
            c = self.val(st, ("i", 1), t.args[0], m)
            if c is UNDEF:
                self.oblige(st, False, "branch on a defined value")
                return []
            c = simp_bool(c)
            if isinstance(c, bool):
                return [(self.edge(f, st, name, t.extra[0] if c else t.extra[1]), st)]
            targets = [(c, t.extra[0]), (b_not(c), t.extra[1])]
        else:
            v = self.val(st, t.ty, t.args[0], m)
            if v is UNDEF:
                self.oblige(st, False, "switch on a defined value")
                return []
            targets, neg = [], []
            for cv, lab in t.extra[1]:
                e = self.eq_const(v, cv, t.ty[1])
                targets.append((simp_bool(e), lab))
                neg.append(b_not(e))
            targets.append((simp_bool(b_and(*neg)), t.extra[0]))
            by = {}
            for c, lab in targets:      # merge cases that go to the same place
                by[lab] = b_or(by[lab], c) if lab in by else c
            targets = [(simp_bool(c), lab) for lab, c in by.items()]
            targets = [(c, l) for c, l in targets if c is not False]
            if len(targets) == 1:
                return [(self.edge(f, st, name, targets[0][1]), st)]
        out = []
        for c, lab in targets:
            if not self.feasible(st, to_bool(c)):
                continue
            s2 = st.fork()
            s2.branch(c)
            out.append((self.edge(f, s2, name, lab), s2))
        return out

    def eq_const(self, v, cv, w):
        return v == z3.BitVecVal(cv, w)

    def edge(self, f, st, src, dst):
        if dst == "%ret":
            return dst
        b = f.blocks[dst]
        if b.phis:
            vals = []
            for ph in b.phis:
                for v, lab in ph.args:
                    if lab == src:
                        try:
                            vals.append((ph.dst, self.val(st, ph.ty, v, f.module)))
                        except OutOfReach:
                            vals.append((ph.dst, UNDEF))
                        break
                else:
                    raise OutOfReach("phi without edge")
            for d, v in vals:
                st.env[d] = v
        st.prev = src
        return dst

    def step(self, f, st, ins, m):
        op = ins.op
        if op == "call":
            return self.do_call(f, st, ins, m)
        if op == "load":
            st.env[ins.dst] = self.load(st, self.val(st, ir.PTR, ins.args[0], m), ins.ty, m)
        elif op == "store":
            self.store(st, self.val(st, ir.PTR, ins.args[1], m), ins.ty, self.val(st, ins.ty, ins.args[0], m), m)
        elif op == "alloca":
            st.env[ins.dst] = self.alloc(st, "%s:%s" % (short(f.demangled), ins.dst), m.size(ins.ty))
        elif op == "gep":
            base = self.val(st, ir.PTR, ins.args[0][1], m)
            st.env[ins.dst] = self.gep(st, m, ins.ty, base,
                                       [(t, self.val(st, t, v, m)) for t, v in ins.args[1:]])
        elif op == "unsupported":
            raise OutOfReach("instruction: " + str(ins.extra)[:60])
        else:
            args = None
            if op in ("zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "bitcast",
                      "ptrtoint", "inttoptr"):
                args = [self.val(st, ins.extra, ins.args[0], m)]
            elif op == "select":
                args = [self.val(st, ("i", 1), ins.args[0], m)] + [self.val(st, ins.ty, a, m) for a in ins.args[1:]]
            elif op in ("extractvalue",):
                args = [self.val(st, ins.ty, ins.args[0], m)]
            elif op == "insertvalue":
                t = m.resolve(ins.ty)
                for k in ins.extra:
                    t = m.resolve(t)
                    t = t[1][k] if t[0] == "struct" else t[2]
                args = [self.val(st, ins.ty, ins.args[0], m), self.val(st, t, ins.args[1], m)]
            elif op in ("extractelement",):
                args = [self.val(st, ins.ty, ins.args[0], m), self.val(st, ("i", 64), ins.args[1], m)]
            elif op == "insertelement":
                args = [self.val(st, ins.ty, ins.args[0], m), self.val(st, m.resolve(ins.ty)[2], ins.args[1], m),
                        self.val(st, ("i", 64), ins.args[2], m)]
            elif op == "shufflevector":
                n = ins.extra
                args = [self.val(st, ins.ty, a, m) for a in ins.args]
            else:
                args = [self.val(st, ins.ty, a, m) for a in ins.args]
            st.env[ins.dst] = self.compute(st, ins, args, m)
        return st

    # ---- arithmetic ----------------------------------------------------------------------------
    def compute(self, st, ins, a, m):
        op, ty = ins.op, ins.ty
        if op == "extractvalue":
            v = a[0]
            for k in ins.extra:
                v = v[k]
            return v
        if op == "insertvalue":
            def put(v, path, x):
                v = list(v)
                v[path[0]] = x if len(path) == 1 else put(v[path[0]], path[1:], x)
                return v
            v = a[0]
            if v is UNDEF:
                v = [UNDEF]*len(m.resolve(ty)[1])
            return put(v, ins.extra, a[1])
        if op == "extractelement":
            return a[0][self.concrete(a[1])]
        if op == "insertelement":
            v = list(a[0])
            v[self.concrete(a[2])] = a[1]
            return v
        if op == "shufflevector":
            mask = ins.extra
            both = a[0] + (a[1] if isinstance(a[1], list) else [UNDEF]*len(a[0]))
            if mask[0] == "zero":
                return [both[0] for _ in range(len(a[0]))]
            return [UNDEF if v[0] == "undef" else both[v[1]] for _, v in mask[1]]
        rt = m.resolve(ty)
        if rt[0] == "vec" and op not in ("bitcast",):
            return [self.scalar(st, ins, [x[i] if isinstance(x, list) else x for x in a], rt[2], m)
                    for i in range(rt[1])]
        if op == "bitcast":
            return self.bitcast(a[0], m.resolve(ins.extra), rt, m)
        return self.scalar(st, ins, a, rt, m)

    def bitcast(self, v, src, dst, m):
        if src[0] == "vec" or dst[0] == "vec":
            cells = {}
            self.spread(cells, 0, src, v, m)
            tmp = State()
            r = Root("bitcast", None)
            tmp.mem[r] = cells
            return self.load(tmp, Ptr(r, 0), dst, m)
        return self.retype(v, dst)

    def scalar(self, st, ins, a, t, m):
        op = ins.op
        if op == "select":
            c = a[0] if a[0] is UNDEF else simp_bool(a[0])
            if c is UNDEF:
                raise OutOfReach("select on undef")
            return self.ite(c, a[1], a[2])
        if op == "freeze":
            if a[0] is UNDEF:
                raise OutOfReach("freeze of undef")
            return a[0]
        if op == "icmp":
            return self.icmp(st, ins.extra, a[0], a[1])
        if any(x is UNDEF for x in a):
            return UNDEF
        if op == "fcmp":
            return self.fcmp(ins.extra, a[0], a[1])
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            fn = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
            return fsimp(fn(RNE, a[0], a[1]))
        if op == "fneg":
            return fsimp(z3.fpNeg(a[0]))
        if op in ("zext", "sext", "trunc"):
            return self.int_cast(st, op, a[0], m.resolve(ins.extra)[1], t[1])
        if op in ("uitofp", "sitofp"):
            v = self.as_bv(a[0], m.resolve(ins.extra)[1])
            return fsimp(int_to_fp(v, v.size(), op == "sitofp", fp_sort(t)))
        if op == "fpext" or op == "fptrunc":
            return fsimp(z3.fpFPToFP(RNE, a[0], fp_sort(t)))
        if op in ("fptoui", "fptosi"):
            return self.fp_to_int(st, a[0], t[1], op == "fptosi")
        if op == "ptrtoint":
            raise OutOfReach("ptrtoint")
        if op == "inttoptr":
            raise OutOfReach("inttoptr")
        return self.binop(st, ins, a[0], a[1], t[1])

    def as_bv(self, v, w):
        if is_bool(v):
            return z3.If(to_bool(v), z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def fp_to_int(self, st, x, w, signed):
        s = x.sort()
        if signed:
            lo, hi = -(2.0**(w - 1)) - (1 if w < 53 and s == F64 else 0), 2.0**(w - 1)
            okc = z3.And(z3.fpGT(x, z3.FPVal(lo, s)) if w < 53 and s == F64 else z3.fpGEQ(x, z3.FPVal(-(2.0**(w - 1)), s)),
                         z3.fpLT(x, z3.FPVal(hi, s)))
        else:
            okc = z3.And(z3.fpGT(x, z3.FPVal(-1.0, s)), z3.fpLT(x, z3.FPVal(2.0**w, s)))
        if not self.oblige(st, okc, "float to integer conversion in range"):
            raise Stop()
        return z3.simplify(z3.Extract(w - 1, 0, fp_to_int_wide(x)))

    def icmp(self, st, pred, x, y):
        if isinstance(x, (Ptr, PtrIte, _Null)) or isinstance(y, (Ptr, PtrIte, _Null)):
            return self.ptr_cmp(st, pred, x, y)
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if is_bool(x) or is_bool(y):
            x, y = to_bool(x), to_bool(y)
            if pred == "eq":
                return simp_bool(x == y)
            if pred == "ne":
                return simp_bool(x != y)
            raise OutOfReach("icmp on i1")
        f = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]
        return simp_bool(f())

    def ptr_cmp(self, st, pred, x, y):
        if isinstance(x, PtrIte):
            return self.ite(x.c, self.ptr_cmp(st, pred, x.a, y), self.ptr_cmp(st, pred, x.b, y))
        if isinstance(y, PtrIte):
            return self.ite(y.c, self.ptr_cmp(st, pred, x, y.a), self.ptr_cmp(st, pred, x, y.b))
        if pred not in ("eq", "ne"):
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.root is y.root and isinstance(x.off, int):
                return {"ult": x.off < y.off, "ule": x.off <= y.off, "ugt": x.off > y.off, "uge": x.off >= y.off}[pred]
            raise OutOfReach("pointer order")
        if x is NULL or y is NULL:
            eq = x is y
        elif isinstance(x, Ptr) and isinstance(y, Ptr):
            eq = x.key() == y.key()
        else:
            raise OutOfReach("pointer comparison %r %r" % (x, y))
        return eq if pred == "eq" else not eq

    def fcmp(self, pred, x, y):
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
        if pred == "ord":
            return simp_bool(z3.Not(un))
        if pred == "uno":
            return simp_bool(un)
        k = pred[1:]
        if pred[0] == "o":
            r = z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y))) if k == "ne" else base[k](x, y)
        else:
            r = z3.Not(z3.fpEQ(x, y)) if k == "ne" else z3.Or(un, base[k](x, y))
        return simp_bool(r)

    def int_cast(self, st, op, v, sw, dw):
        if is_bool(v):
            one = z3.BitVecVal(1, dw) if op == "zext" else z3.BitVecVal(-1, dw)
            return z3.simplify(z3.If(to_bool(v), one, z3.BitVecVal(0, dw)))
        if op == "trunc":
            if dw == 1:
                return simp_bool(z3.Extract(0, 0, v) == 1)
            return z3.simplify(z3.Extract(dw - 1, 0, v))
        return z3.simplify((z3.ZeroExt if op == "zext" else z3.SignExt)(dw - sw, v))

    def binop(self, st, ins, x, y, w):
        op = ins.op
        if w == 1:
            x, y = to_bool(x), to_bool(y)
            r = {"and": lambda: z3.And(x, y), "or": lambda: z3.Or(x, y), "xor": lambda: z3.Xor(x, y)}.get(op)
            if r is None:
                raise OutOfReach("i1 " + op)
            return simp_bool(r())
        x, y = self.as_bv(x, w), self.as_bv(y, w)
        if "nsw" in ins.flags:
            if op == "add":
                ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == "sub":
                ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            elif op == "mul":
                ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            else:
                ok = True
            if not self.oblige(st, ok, "signed arithmetic does not overflow"):
                raise Stop()
        if op in ("udiv", "sdiv", "urem", "srem"):
            if not self.oblige(st, y != 0, "divisor is not zero"):
                raise Stop()
        if op in ("shl", "lshr", "ashr"):
            if not self.oblige(st, z3.ULT(y, w), "shift amount in range"):
                raise Stop()
        f = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x*y, "udiv": lambda: z3.UDiv(x, y),
             "sdiv": lambda: x/y, "urem": lambda: z3.URem(x, y), "srem": lambda: z3.SRem(x, y),
             "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y,
             "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y}.get(op)
        if f is None:
            raise OutOfReach(op)
        return z3.simplify(f())

    # ---- calls ---------------------------------------------------------------------------------
    def do_call(self, f, st, ins, m):
        callee = ins.extra
        if callee[0] == "reg":
            v = st.env.get(callee[1])
            if not isinstance(v, FnPtr):
                raise OutOfReach("indirect call")
            name = v.name
        elif callee[0] == "global":
            name = callee[1]
        else:
            raise OutOfReach("call")
        args = [self.val(st, t, v, m) for t, v in ins.args]
        dem = m.demangled.get(name, name)
        h = self.handler(name, dem)
        if h is not None:
            if name in ASSUMED:
                self.contracts_used.add(ASSUMED[name])
            r = h(self, st, args, ins, m)
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], (State, type(None))):
                st, r = r
                if st is None:
                    return None
            if ins.dst:
                st.env[ins.dst] = r
            return st
        g = self.fns.get(name)
        if g is None:
            raise OutOfReach("no contract for external function " + dem)
        line = self.where[-1]
        st2, rv = self.call(st, g, args)
        self.where[-1] = line
        if st2 is None:
            return None
        if ins.dst:
            st2.env[ins.dst] = rv
        return st2

    def handler(self, name, dem):
        h = self.externs.get(name)
        if h:
            return h
        for pat, h in self.demangled_handlers:
            if dem.startswith(pat):
                return h
        return builtin(name, dem)


class Stop(Exception):
    """The current path has no continuation (an obligation on it is false)."""


def fsimp(x):
    return z3.simplify(x) if all(z3.is_fp_value(c) or not z3.is_expr(c) or not z3.is_fp(c) for c in x.children()) else x


def short(dem):
    if not dem:
        return "?"
    i = dem.find("(", dem.find("(anonymous namespace)") + 21 if "(anonymous namespace)" in dem else 0)
    d = dem[:i] if i > 0 else dem
    return d.replace("vfc::(anonymous namespace)::", "").replace("vfc::", "").strip()


# ---- built-in contracts of compiler intrinsics and libc ----------------------------------------------
def _nop(e, st, a, ins, m):
    return None


def _assert_fail(e, st, a, ins, m):
    e.oblige(st, False, "assertion holds", "assert at source line %s" % (e.concrete(a[2]),))
    raise Stop()


def _memcpy(e, st, a, ins, m):
    n = e.concrete(a[2])
    if n is None:
        raise OutOfReach("memcpy of symbolic length")
    d, s = a[0], a[1]
    if isinstance(d, PtrIte) or isinstance(s, PtrIte):
        raise OutOfReach("memcpy through a conditional pointer")
    e.memcpy(st, d, s, n, m)


def _memset(e, st, a, ins, m):
    n = e.concrete(a[2])
    if n is None:
        raise OutOfReach("memset of symbolic length")
    if n == 0:
        return
    if not e.check_access(st, a[0], n, "memset"):
        raise Stop()
    cells = dict(e.cells(st, a[0].root))
    e.clear_range(cells, a[0].off, n)
    for i in range(n):
        cells[a[0].off + i] = (1, a[1])
    st.mem[a[0].root] = cells


def _abs(e, st, a, ins, m):
    x = a[0]
    return z3.simplify(z3.If(x < 0, -x, x))


def _fabs(e, st, a, ins, m):
    return fsimp(z3.fpAbs(a[0]))


def _round(e, st, a, ins, m):
    return fsimp(z3.fpRoundToIntegral(RNA, a[0]))


def _floor(e, st, a, ins, m):
    return fsimp(z3.fpRoundToIntegral(z3.RTN(), a[0]))


def _ceil(e, st, a, ins, m):
    return fsimp(z3.fpRoundToIntegral(z3.RTP(), a[0]))


def _truncf(e, st, a, ins, m):
    return fsimp(z3.fpRoundToIntegral(RTZ, a[0]))


def _rint(e, st, a, ins, m):
    return fsimp(z3.fpRoundToIntegral(RNE, a[0]))


def _assume(e, st, a, ins, m):
    return None


def pow2(n, ebits, bias, total, sort):
    """2^n for an integer term n with -bias < n <= bias."""
    ex = z3.Extract(ebits - 1, 0, n + z3.BitVecVal(bias, n.size()))
    mant = total - 1 - ebits
    return z3.fpBVToFP(z3.Concat(z3.BitVecVal(0, 1), ex, z3.BitVecVal(0, mant)), sort)


FRESH = [0]


def fresh(prefix, sort):
    FRESH[0] += 1
    return z3.Const("%s!%d" % (prefix, FRESH[0]), sort)


def _ldexp(e, st, a, ins, m):
    x, n = a
    if x is UNDEF or n is UNDEF:
        return UNDEF
    r = fresh("ldexp", F64)
    inside = z3.And(n > -1022, n <= 1023)
    st.assume(z3.Implies(inside, z3.fpMul(RNE, x, pow2(n, 11, 1023, 64, F64)) == r))
    return r


def _frexp(e, st, a, ins, m):
    x, p = a
    bits = fresh("frexpbits", z3.BitVecSort(64))
    st.assume(z3.fpBVToFP(bits, F64) == x)
    ex = fresh("frexp", z3.BitVecSort(32))
    field = z3.ZeroExt(21, z3.Extract(62, 52, bits))
    st.assume(z3.Implies(z3.fpIsNormal(x), ex == field - 1022))
    st.assume(z3.Implies(z3.fpIsSubnormal(x), z3.And(ex >= -1073, ex <= -1022)))
    st.assume(z3.Implies(z3.fpIsZero(x), ex == 0))
    e.store(st, p, ("i", 32), ex, m)
    r = fresh("frexpmant", F64)
    st.assume(z3.Implies(z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsInf(x)), z3.Not(z3.fpIsZero(x))),
                         z3.And(z3.fpGEQ(z3.fpAbs(r), z3.FPVal(0.5, F64)), z3.fpLT(z3.fpAbs(r), z3.FPVal(1.0, F64)))))
    st.assume(z3.Implies(z3.fpIsZero(x), r == x))
    return r


def _powf(e, st, a, ins, m):
    """powf(2, n) = 2^n exactly for integers n with -126 <= n <= 127; anything else is unspecified."""
    x, y = a
    r = fresh("powf", F32)
    if not (z3.is_fp_value(z3.simplify(x)) and z3.simplify(z3.fpEQ(x, z3.FPVal(2.0, F32))).eq(z3.BoolVal(True))):
        return r
    n = z3.fpToSBV(RTZ, y, z3.BitVecSort(16))
    whole = z3.And(z3.fpEQ(z3.fpRoundToIntegral(RTZ, y), y), z3.fpGEQ(y, z3.FPVal(-126.0, F32)),
                   z3.fpLEQ(y, z3.FPVal(127.0, F32)))
    st.assume(z3.Implies(whole, r == pow2(n, 8, 127, 32, F32)))
    return r


def _cvtph2ps(e, st, a, ins, m):
    lanes = a[0]
    return [UNDEF if x is UNDEF else z3.fpFPToFP(RNE, z3.fpBVToFP(x, F16), F32) for x in lanes[:4]]


def _cvtps2ph(e, st, a, ins, m):
    imm = e.concrete(a[1])
    if imm is None:
        raise OutOfReach("rounding mode")
    mode = {0: RNE, 1: z3.RTN(), 2: z3.RTP(), 3: RTZ, 4: RNE}.get(imm & 7)
    if mode is None:
        raise OutOfReach("rounding mode")
    out = []
    for x in a[0]:
        if x is UNDEF:
            out.append(UNDEF)
            continue
        h = fresh("ph", z3.BitVecSort(16))
        f = z3.fpFPToFP(mode, x, F16)
        # the conversion keeps a NaN a NaN with some payload, and the sign of zero
        st.assume(z3.If(z3.fpIsNaN(x), z3.fpIsNaN(z3.fpBVToFP(h, F16)), z3.fpBVToFP(h, F16) == f))
        out.append(h)
    return out + [z3.BitVecVal(0, 16)]*4


BUILTINS = {
    "@__assert_fail": _assert_fail, "@ldexp": _ldexp, "@frexp": _frexp, "@powf": _powf,
    "@round": _round, "@floor": _floor, "@ceil": _ceil, "@trunc": _truncf, "@fabs": _fabs,
    "@roundf": _round, "@floorf": _floor, "@ceilf": _ceil,
}
ASSUMED = {
    "@ldexp": "ldexp(x, n) is x*2^n rounded to nearest", "@frexp": "frexp returns the binary exponent of its argument",
    "@powf": "powf(2, n) is exact for integers n in [-126, 127]",
    "@llvm.round.f64": "round() rounds to the nearest integer, halves away from zero",
    "@llvm.x86.vcvtph2ps.128": "F16C vcvtph2ps converts half to single exactly",
    "@llvm.x86.vcvtps2ph.128": "F16C vcvtps2ph with mode 0 rounds to nearest even",
}
PREFIX = [("@llvm.lifetime", _nop), ("@llvm.dbg", _nop), ("@llvm.invariant", _nop), ("@llvm.memcpy", _memcpy),
          ("@llvm.memmove", _memcpy), ("@llvm.memset", _memset), ("@llvm.abs", _abs), ("@llvm.fabs", _fabs),
          ("@llvm.round.", _round), ("@llvm.floor", _floor), ("@llvm.ceil", _ceil), ("@llvm.trunc.", _truncf),
          ("@llvm.rint", _rint), ("@llvm.nearbyint", _rint), ("@llvm.assume", _assume),
          ("@llvm.experimental.noalias", _nop), ("@llvm.x86.vcvtph2ps.128", _cvtph2ps),
          ("@llvm.x86.vcvtps2ph.128", _cvtps2ph), ("@llvm.stacksave", _nop), ("@llvm.stackrestore", _nop)]


def builtin(name, dem):
    h = BUILTINS.get(name)
    if h:
        return h
    for p, h in PREFIX:
        if name.startswith(p):
            return h
    return None
