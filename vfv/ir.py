"""Extraction: LLVM IR of the real sources, and a parser for the part of the IR language clang emits here.

On every run the sources of /repo are compiled by clang to unoptimised LLVM IR (-O1 with all passes disabled,
assertions enabled, floating-point contraction off, exceptions off), and opt only promotes stack slots to SSA
values (sroa) and removes empty blocks (simplifycfg). Nothing else is dropped or rewritten.
"""
import os, re, struct, subprocess

CLANG = "clang++-18"
OPT = "opt-18"


class IRError(Exception):
    pass


def extract(src, out, includes, defines=()):
    base = [CLANG, "-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-ffp-contract=off",
            "-gline-tables-only", "-w", "-S", "-emit-llvm"]
    p = subprocess.run(base + ["-I" + i for i in includes] + ["-D" + d for d in defines] + [src, "-o", out + ".0"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise IRError("clang: " + p.stdout[-2000:])
    p = subprocess.run([OPT, "-S", "-passes=function(sroa,simplifycfg,jump-threading)", out + ".0", "-o", out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise IRError("opt: " + p.stdout[-2000:])
    os.unlink(out + ".0")
    return out


# ---- types ---------------------------------------------------------------------------------------
# ("i", n) | ("float",) | ("double",) | ("x86_fp80",) | ("ptr",) | ("void",) | ("arr", n, t) |
# ("struct", (t...), packed) | ("vec", n, t) | ("named", name) | ("label",) | ("metadata",) | ("opaque",)

PTR = ("ptr",)
VOID = ("void",)

TOK = re.compile(r'''\s*(
    c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
    [%@!$\#](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) | ! |
    0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[-+]?\d+)? | -?\d+ |
    [a-zA-Z_][\w.]* | \.\.\. | [()\[\]{}<>,=*:|]
)''', re.X)


def tokens(s):
    r, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise IRError("cannot tokenize: " + s[i:i + 60])
        r.append(m.group(1))
        i = m.end()
    return r


ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext",
         "returned", "immarg", "inreg", "swiftself", "dead_on_unwind", "writable", "nofree", "nest", "inrange",
         "dso_local", "local_unnamed_addr", "unnamed_addr", "internal", "linkonce_odr", "external", "weak", "weak_odr",
         "private", "hidden", "protected", "constant", "comdat", "nsw", "nuw", "exact", "inbounds", "disjoint", "nneg",
         "fastcc", "ccc", "tail", "musttail", "notail", "volatile", "samesign", "allocptr", "allocalign", "common",
         "appending", "available_externally", "thread_local", "externally_initialized"}
PARAM_ATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "range"}


class P:
    """Token cursor."""
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise IRError("expected %s at %s" % (x, " ".join(self.t[self.i:self.i + 12])))
        self.i += 1

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            x = self.next()
            d += x == "("
            d -= x == ")"

    def attrs(self, got=None):
        while True:
            x = self.peek()
            if x in ATTRS:
                if got is not None:
                    got.add(x)
                self.i += 1
            elif x in PARAM_ATTRS:
                if got is not None:
                    got.add(x)
                self.i += 1
                if self.peek() == "(":
                    self.skip_paren()
                else:
                    self.next()
            else:
                return

    def type(self):
        x = self.next()
        if re.match(r"i\d+$", x):
            t = ("i", int(x[1:]))
        elif x in ("float", "double", "ptr", "void", "label", "metadata", "x86_fp80", "opaque", "half", "token"):
            t = (x,)
        elif x[0] == "%":
            t = ("named", x)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                f = self.fields()
                self.expect(">")
                t = ("struct", tuple(f), True)
            else:
                n = int(self.next())
                self.expect("x")
                e = self.type()
                self.expect(">")
                t = ("vec", n, e)
        elif x == "{":
            t = ("struct", tuple(self.fields()), False)
        else:
            raise IRError("type? " + x + " " + " ".join(self.t[self.i:self.i + 8]))
        if self.peek() == "(":       # function type
            self.skip_paren()
            t = ("fn", t)
        return t

    def fields(self):
        f = []
        while not self.eat("}"):
            f.append(self.type())
            self.eat(",")
        return f

    def value(self, ty):
        """A value operand: (kind, ...)."""
        self.attrs()
        x = self.next()
        if x[0] == "%":
            return ("reg", x)
        if x[0] == "@":
            return ("global", x)
        if x == "true":
            return ("int", 1)
        if x == "false":
            return ("int", 0)
        if x == "null":
            return ("null",)
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x == "none":
            return ("undef",)
        if x[0] == "c" and x[1:2] == '"':
            return ("bytes", cstr(x[2:-1]))
        if x == "[" or x == "{" or x == "<":
            close = {"[": "]", "{": "}", "<": ">"}[x]
            if x == "<" and self.peek() == "{":
                self.next()
                vals = self.agg("}")
                self.expect(">")
                return ("agg", vals)
            return ("agg", self.agg(close))
        if x == "getelementptr":
            self.attrs()
            self.expect("(")
            base = self.type()
            self.expect(",")
            ops = []
            while not self.eat(")"):
                self.attrs()
                t = self.type()
                ops.append((t, self.value(t)))
                self.eat(",")
            return ("cgep", base, ops)
        if x in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", x, t, v, t2)
        if x in ("sub", "add", "icmp", "select", "mul", "shl"):
            while self.peek() != "(":
                self.next()
            self.skip_paren()
            return ("unsupported", x)
        if x in ("blockaddress", "dso_local_equivalent"):
            self.skip_paren()
            return ("unsupported", x)
        if re.match(r"0x[KLMHR]", x):
            return ("unsupported", x)
        if ty[0] in ("float", "double", "half"):
            if x.startswith("0x"):
                return ("fp", int(x, 16))     # always the bits of a double
            return ("fp", struct.unpack("<Q", struct.pack("<d", float(x)))[0])
        return ("int", int(x))

    def agg(self, close):
        vals = []
        while not self.eat(close):
            t = self.type()
            vals.append((t, self.value(t)))
            self.eat(",")
        return vals


def cstr(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "dst", "ty", "args", "extra", "dbg", "flags")

    def __init__(self, op, dst=None, ty=None, args=(), extra=None, flags=()):
        self.op, self.dst, self.ty, self.args, self.extra, self.flags = op, dst, ty, args, extra, flags
        self.dbg = None

    def __repr__(self):
        return "%s = %s %s %s %s" % (self.dst, self.op, self.ty, self.args, self.extra)


class Block:
    def __init__(self, name):
        self.name, self.phis, self.body, self.term = name, [], [], None
        self.preds = []

    def succs(self):
        t = self.term
        if t.op == "br":
            return [l for l in t.extra]
        if t.op == "switch":
            return [t.extra[0]] + [l for _, l in t.extra[1]]
        return []


class Function:
    def __init__(self, name, rty, params, sret):
        self.name, self.rty, self.params, self.sret = name, rty, params, sret
        self.blocks, self.entry = {}, None
        self.demangled = None
        self.module = None

    def __repr__(self):
        return "<fn %s>" % (self.demangled or self.name)


class Module:
    def __init__(self, path=None):
        self.types, self.globals, self.functions, self.decls = {}, {}, {}, {}
        self.ctors = []
        self.locs = {}
        if path:
            text = open(path).read()
            # Local symbols of several modules may share a name: make them unique.
            local = set(re.findall(r"^(@[-\w.$]+) = (?:private|internal) ", text, re.M))
            local |= set(re.findall(r"^define (?:[a-z_]+ )*?internal [^\n]*?(@[-\w.$]+)\(", text, re.M))
            tag = "$$" + re.sub(r"\W", "_", os.path.basename(path).split(".")[0])
            self.parse(re.sub(r"@[-\w.$]+", lambda m: m.group(0) + tag if m.group(0) in local else m.group(0), text))

    # ---- text --------------------------------------------------------------------------------
    def parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        pending = []
        self.global_lines = [l for l in lines if l.startswith("@")]
        self.bodies, k = [], 0
        while k < n:
            if lines[k].startswith("define"):
                j = k
                while lines[j] != "}":
                    j += 1
                self.bodies.append((lines[k], lines[k + 1:j]))
                k = j
            k += 1
        while i < n:
            l = lines[i]
            if l.startswith("define"):
                body = []
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                pending.append((l, body))
            elif l.startswith("%") and " = type " in l:
                name, rest = l.split(" = type ", 1)
                self.types[name] = P(tokens(rest)).type()
            elif l.startswith("@") and " = " in l:
                self.global_var(l)
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls["@" + m.group(1)] = l
            elif l.startswith("!"):
                m = re.match(r"(!\d+) = (?:distinct )?!DILocation\(line: (\d+)", l)
                if m:
                    self.locs[m.group(1)] = int(m.group(2))
            i += 1
        self.bodies = self.global_lines = None
        for head, body in pending:
            f = self.function(head, body)
            f.module = self
            self.functions[f.name] = f
        names = list(self.functions) + list(self.decls)
        dem = subprocess.run(["c++filt"], input="\n".join(x[1:].strip('"').split("$$")[0] for x in names), stdout=subprocess.PIPE,
                             text=True).stdout.split("\n")
        self.demangled = dict(zip(names, dem))
        for f in self.functions.values():
            f.demangled = self.demangled[f.name]

    def never_written(self, name):
        """An internal variable that no function writes or lets escape (uses: loads, also at an offset)."""
        word = re.compile(re.escape(name) + r"(?![-\w.$])")
        for head, body in self.bodies:
            regs = []
            for l in body:
                if not word.search(l):
                    continue
                if re.search(r"= load [^,]+, ptr " + re.escape(name) + r"(,|$)", l):
                    continue
                if re.search(r"= load [^,]+, ptr getelementptr inbounds \([^()]*ptr " + re.escape(name) + r"[^()]*\)", l):
                    continue
                m = re.match(r"\s+(%[-\w.$]+) = getelementptr [^(]*ptr " + re.escape(name) + r",", l)
                if not m:
                    return False
                regs.append(m.group(1))
            for r in regs:
                use = re.compile(re.escape(r) + r"(?![-\w.$])")
                for l in body:
                    if use.search(l) and not re.match(r"\s+" + re.escape(r) + " = ", l) and \
                            not re.search(r"= load [^,]+, ptr " + re.escape(r) + r"(,|$)", l):
                        return False
        for l in self.global_lines:
            if word.search(l) and not l.startswith(name + " "):
                return False
        return True

    def global_var(self, l):
        name, rest = l.split(" = ", 1)
        rest = re.sub(r", (comdat|section|align|!dbg).*$", "", rest)
        p = P(tokens(rest))
        const = False
        ext = "external" in rest.split()[:3]
        while p.peek() not in ("global", "constant", "alias", "ifunc"):
            x = p.next()
            if p.peek() == "(":
                p.skip_paren()
            if p.i > 12:
                raise IRError("global? " + l[:80])
        kind = p.next()
        if kind in ("alias", "ifunc"):
            return
        const = kind == "constant" or ((" internal " in " " + rest) and self.never_written(name))
        try:
            ty = p.type()
            init = None
            if not ext and p.peek() not in (None, ","):
                init = p.value(ty)
        except IRError:
            ty, init = None, ("unsupported", "")
        self.globals[name] = (ty, init, const)
        if name == "@llvm.global_ctors":
            self.ctors = re.findall(r"ptr (@[\w.$\"]+), ptr", l)

    def function(self, head, body):
        head = head[len("define"):]
        p = P(tokens(head.split(" !dbg ")[0]))
        p.attrs()
        rty = p.type()
        name = p.next()
        p.expect("(")
        params, sret = [], None
        while not p.eat(")"):
            if p.eat("..."):
                continue
            t = p.type()
            got = set()
            p.attrs(got)
            r = p.next()
            if "sret" in got:
                sret = r
            params.append((t, r))
            p.eat(",")
        f = Function(name, rty, params, sret)
        cur = Block("%entry")
        f.entry = cur.name
        f.blocks[cur.name] = cur
        i = 0
        # the entry block's implicit name is the number after the parameters
        if params and re.match(r"%\d+$", params[-1][1]):
            cur_alias = "%" + str(int(params[-1][1][1:]) + 1)
        else:
            cur_alias = "%0"
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            m = re.match(r'^("(?:[^"])*"|[-\w.$]+):', l)
            if m:
                cur = Block("%" + m.group(1))
                f.blocks[cur.name] = cur
                continue
            l = l.strip()
            if re.match(r"(%\S+ = )?switch ", l) and l.endswith("["):
                while not body[i].strip().startswith("]"):
                    l += " " + body[i].strip()
                    i += 1
                l += " " + body[i].strip()
                i += 1
            ins = self.instr(l)
            if ins is None:
                continue
            if ins.op == "phi":
                cur.phis.append(ins)
            elif ins.op in ("br", "switch", "ret", "unreachable"):
                cur.term = ins
            else:
                cur.body.append(ins)
        for b in list(f.blocks.values()):
            fix = lambda x: f.entry if x == cur_alias else x
            for ph in b.phis:
                ph.args = [(v, fix(l)) for v, l in ph.args]
            if b.term.op == "br":
                b.term.extra = [fix(x) for x in b.term.extra]
            elif b.term.op == "switch":
                b.term.extra = (fix(b.term.extra[0]), [(v, fix(x)) for v, x in b.term.extra[1]])
        for b in f.blocks.values():
            for s in b.succs():
                f.blocks[s].preds.append(b.name)
        return f

    def instr(self, l):
        dbg = None
        m = re.search(r", !dbg (!\d+)", l)
        if m:
            dbg = self.locs.get(m.group(1)) or m.group(1)
        cut = re.search(r", ![a-zA-Z]", l)
        if cut:
            l = l[:cut.start()]
        dst = None
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = ', l)
        if m:
            dst = m.group(1)
            l = l[m.end():]
        p = P(tokens(l))
        try:
            ins = self.instr0(p, dst)
        except (IRError, ValueError, IndexError):
            ins = Instr("unsupported", dst, None, [], l)
        if ins is not None:
            ins.dbg = dbg
        return ins

    def instr0(self, p, dst):
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "call":
            p.attrs()
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
                raise IRError("fast-math call")
            rty = p.type()
            if rty[0] == "fn":
                rty = rty[1]
            callee = p.value(PTR)
            args = []
            p.expect("(")
            while not p.eat(")"):
                t = p.type()
                if t == ("metadata",):
                    while p.peek() not in (",", ")"):
                        if p.next() == "(":
                            p.i -= 1
                            p.skip_paren()
                    args.append((t, ("undef",)))
                else:
                    args.append((t, p.value(t)))
                p.eat(",")
            return Instr("call", dst, rty, args, callee)
        if op == "ret":
            t = p.type()
            return Instr("ret", None, t, [p.value(t)] if t != VOID else [])
        if op == "br":
            t = p.type()
            if t == ("label",):
                return Instr("br", None, None, [], [p.next()])
            v = p.value(t)
            p.expect(",")
            p.type()
            a = p.next()
            p.expect(",")
            p.type()
            b = p.next()
            return Instr("br", None, None, [v], [a, b])
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.type()
            d = p.next()
            p.expect("[")
            cases = []
            while not p.eat("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.type()
                cases.append((cv[1], p.next()))
            return Instr("switch", None, t, [v], (d, cases))
        if op == "unreachable":
            return Instr("unreachable")
        if op == "phi":
            t = p.type()
            args = []
            while p.eat("["):
                v = p.value(t)
                p.expect(",")
                args.append((v, p.next()))
                p.expect("]")
                p.eat(",")
            return Instr("phi", dst, t, args)
        if op == "alloca":
            p.attrs()
            t = p.type()
            return Instr("alloca", dst, t)
        if op == "load":
            p.attrs()
            t = p.type()
            p.expect(",")
            p.type()
            return Instr("load", dst, t, [p.value(PTR)])
        if op == "store":
            p.attrs()
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.type()
            return Instr("store", None, t, [v, p.value(PTR)])
        if op == "getelementptr":
            got = set()
            p.attrs(got)
            base = p.type()
            p.expect(",")
            ops = []
            while p.peek():
                t = p.type()
                ops.append((t, p.value(t)))
                if not p.eat(","):
                    break
            return Instr("gep", dst, base, ops, flags=got)
        if op in ("icmp", "fcmp"):
            p.attrs()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return Instr(op, dst, t, [a, p.value(t)], pred)
        if op == "select":
            ct = p.type()
            c = p.value(ct)
            p.expect(",")
            t = p.type()
            a = p.value(t)
            p.expect(",")
            p.type()
            return Instr("select", dst, t, [c, a, p.value(t)])
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            got = set()
            p.attrs(got)
            t = p.type()
            a = p.value(t)
            p.expect(",")
            return Instr(op, dst, t, [a, p.value(t)], flags=got)
        if op in ("fneg", "freeze"):
            t = p.type()
            return Instr(op, dst, t, [p.value(t)])
        if op in ("zext", "sext", "trunc", "fptoui", "fptosi", "uitofp", "sitofp", "fpext", "fptrunc", "bitcast",
                  "ptrtoint", "inttoptr"):
            p.attrs()
            t = p.type()
            v = p.value(t)
            p.expect("to")
            return Instr(op, dst, p.type(), [v], t)
        if op == "extractvalue":
            t = p.type()
            v = p.value(t)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Instr(op, dst, t, [v], idx)
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Instr(op, dst, t, [v, v2], idx)
        if op == "extractelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            return Instr(op, dst, t, [v, p.value(t2)])
        if op == "insertelement":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            e = p.value(t2)
            p.expect(",")
            t3 = p.type()
            return Instr(op, dst, t, [v, e, p.value(t3)])
        if op == "shufflevector":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            t2 = p.type()
            v2 = p.value(t2)
            p.expect(",")
            t3 = p.type()
            return Instr(op, dst, t, [v, v2], p.value(t3))
        if op == "store":
            pass
        return Instr("unsupported", dst, None, [], op)

    # ---- layout ------------------------------------------------------------------------------
    def resolve(self, t):
        while t[0] == "named":
            t = self.types.get(t[1], ("opaque",))
        return t

    def size_align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == "i":
            n = max(1, (t[1] + 7)//8)
            s = 1
            while s < n:
                s *= 2
            return s, min(s, 16)
        if k == "half":
            return 2, 2
        if k == "float":
            return 4, 4
        if k == "double" or k == "ptr":
            return 8, 8
        if k == "x86_fp80":
            return 16, 16
        if k == "arr":
            s, a = self.size_align(t[2])
            return s*t[1], a
        if k == "vec":
            s, a = self.size_align(t[2])
            return s*t[1], s*t[1]
        if k == "struct":
            off, al = 0, 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                off = (off + a - 1)//a*a + s
                al = max(al, a)
            return (off + al - 1)//al*al, al
        raise IRError("size of " + str(t))

    def size(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for k, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            off = (off + a - 1)//a*a
            if k == i:
                return off
            off += s
        raise IRError("field")
