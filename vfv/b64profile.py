"""Obligations about base64 (C14)."""
import z3
from . import sym
from .sym import NULL, Ptr, State, to_bool, fresh
from .cprofile import BSTR, CAP, I64, bdata, blen, bv64, depth_of
from .pathprofile import MK, result
from .fprofile import bytes_region, rp
from .vprofile import Lemmas, post

BV8 = z3.BitVecSort(8)
ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
PAD = z3.BitVecVal(ord("="), 8)


def char_of(v):
    """RFC 4648 table: 6 bits (in a byte) to a character."""
    out = z3.BitVecVal(ALPHABET[63], 8)
    for k in range(62, -1, -1):
        out = z3.If(v == k, z3.BitVecVal(ALPHABET[k], 8), out)
    return out


def inside(c):
    r = lambda a, b: z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
    return z3.Or(r("A", "Z"), r("a", "z"), r("0", "9"), c == ord("+"), c == ord("/"))


def code_of(c):
    """Character of the alphabet to 6 bits (in a byte)."""
    out = z3.BitVecVal(63, 8)
    for lo, base, hi in (("+", 62, "+"), ("0", 52, "9"), ("a", 26, "z"), ("A", 0, "Z")):
        out = z3.If(z3.And(z3.UGE(c, ord(lo)), z3.ULE(c, ord(hi))), c - ord(lo) + base, out)
    return out


def sextets(bs):
    """Three bytes to four 6-bit groups."""
    w = z3.Concat(*bs)
    return [z3.ZeroExt(2, z3.Extract(23 - 6*k, 18 - 6*k, w)) for k in range(4)]


def octets(cs):
    """Four 6-bit codes to three bytes."""
    w = z3.Concat(*[z3.Extract(5, 0, c) for c in cs])
    return [z3.Extract(23 - 8*k, 16 - 8*k, w) for k in range(3)]


def encoded_group(bs):
    return [char_of(x) for x in sextets(bs)]


def tail(bs):
    z = z3.BitVecVal(0, 8)
    cs = encoded_group(bs + [z]*(3 - len(bs)))
    return cs[:len(bs) + 1] + [PAD]*(3 - len(bs))


def b64_tables(code):
    """The two tables are inverse to each other and 64 characters are used; decoding a group restores its bytes."""
    e = Lemmas("base64 table: ")
    st = State()
    c, v = z3.BitVecs("c v", 8)
    post(e, st, z3.Implies(z3.ULT(v, 64), z3.And(inside(char_of(v)), code_of(char_of(v)) == v)), "decoding a character restores its bits")
    post(e, st, z3.Implies(inside(c), z3.And(z3.ULT(code_of(c), 64), char_of(code_of(c)) == c)), "encoding bits restores the character")
    bs = [z3.BitVec("b%d" % k, 8) for k in range(3)]
    for n in (1, 2, 3):
        cs = tail(bs[:n])
        back = octets([code_of(x) if k <= n else z3.BitVecVal(0, 8) for k, x in enumerate(cs)])
        post(e, st, z3.And([inside(x) for x in cs[:n + 1]] + [x == PAD for x in cs[n + 1:]] +
                           [x == y for x, y in zip(back, bs[:n])]), "a group of %d encoded bytes is well formed and decodes to them" % n)
    post(e, st, z3.Not(inside(PAD)), "the padding is not in the alphabet")
    return e


def strings_changed(e, mods):
    return [k for k in mods if k[0] == "arr" and k[1][2] == "str" and depth_of(k[1][0]) == 0]


def b64_encode(code, r):
    """Data of 3q + r bytes."""
    e = code.engine("encode(3q + %d bytes): " % r, BSTR)
    st = State()
    q, j = z3.BitVecs("q j", 64)
    n = q*3 + r
    st.assume(z3.ULT(q, CAP//4))
    data = bytes_region(e, "data", n, True)
    d = z3.Const("data.bytes", z3.ArraySort(I64, BV8))
    e.leaf_sort[(data, 0, "v")] = BV8
    st.arr[(data, 0, "v")] = d
    group = lambda k: encoded_group([d[k*3], d[k*3 + 1], d[k*3 + 2]])

    def template(en, f, name, s0, h, mods, vs):
        out = []
        from .cprofile import counter_name
        g = counter_name(f, name)
        for k in strings_changed(en, mods):
            def fm(en, s, k=k):
                if g not in s.ghost:
                    return None
                t = bdata(en.arr_get(s, k[1]))
                return z3.ForAll([j], z3.Implies(z3.ULT(j, s.ghost[g]), z3.And([t[j*4 + i] == c for i, c in enumerate(group(j))])))
            out.append(("each group so far is encoded in %s" % k[1][0], fm))
            out.append(("at most q groups", lambda en, s: z3.ULE(s.ghost[g], q) if g in s.ghost else None))
        return out
    e.templates.append(template)
    out = e.alloc(st, "result", 32)
    st2, _ = e.call(st.fork(), code.find("base64::encode"), [out, rp(data, 0), n])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    m, t = result(e, st2, out)
    post(e, st2, m == q*4 + (4 if r else 0), "the length is four characters for every three bytes started")
    post(e, st2, z3.ForAll([j], z3.Implies(z3.ULT(j, q), z3.And([t[j*4 + i] == c for i, c in enumerate(group(j))]))),
         "every three bytes become the characters of RFC 4648")
    if r:
        last = tail([d[q*3 + i] for i in range(r)])
        post(e, st2, z3.And([t[q*4 + i] == c for i, c in enumerate(last)]), "the last bytes are encoded with padding")
    return e


def b64_encode_null(code):
    e = code.engine("encode(null): ", BSTR)
    st = State()
    out = e.alloc(st, "result", 32)
    st2, _ = e.call(st.fork(), code.find("base64::encode"), [out, NULL, z3.BitVec("size", 64)])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    post(e, st2, result(e, st2, out)[0] == 0, "is empty")
    return e


def group_state(p, j, n):
    """Well-formedness of group j of a text of n characters, and how many bytes it stands for."""
    c = [p[j*4 + k] for k in range(4)]
    last = j*4 + 4 == n
    full = z3.And([inside(x) for x in c])
    one = z3.And(inside(c[0]), inside(c[1]), inside(c[2]), c[3] == PAD, last)
    two = z3.And(inside(c[0]), inside(c[1]), c[2] == PAD, c[3] == PAD, last)
    return full, one, two


def group_bytes(p, j):
    z = z3.BitVecVal(0, 8)
    return octets([z3.If(p[j*4 + k] == PAD, z, code_of(p[j*4 + k])) for k in range(4)])


def b64_decode(code):
    """Any text: n characters before the terminator, appended to a vector that holds k bytes."""
    e = code.engine("decode: ", BSTR)
    st = State()
    n, j, k = z3.BitVecs("n j k", 64)
    st.assume(z3.ULT(n, CAP))
    text = bytes_region(e, "encoded", n + 1, True)
    p = z3.Const("encoded.bytes", z3.ArraySort(I64, BV8))
    e.leaf_sort[(text, 0, "v")] = BV8
    st.arr[(text, 0, "v")] = p
    st.assume(z3.And(p[n] == 0, z3.ForAll([j], z3.Implies(z3.ULT(j, n), p[j] != 0))))
    fn = code.find("base64::decode")
    out = e.alloc(st, "out", 24)
    r = e.child(out.root, 0, "unsigned char", fn.module)
    old = z3.Const("old.bytes", z3.ArraySort(I64, BV8))
    e.set_len(st, out, k)
    e.leaf_sort[(r, 0, "v")] = BV8
    st.arr[(r, 0, "v")] = old
    st.assume(z3.ULT(k, CAP))
    size = lambda s: e.leaf(s, out.root, 0, "len", (), I64)
    data = lambda s: e.arr_get_leaf(s, r, 0, "v", BV8)

    # Whether group j is well formed, and its number of padding characters: definitions.
    formed = z3.Const("group.formed", z3.ArraySort(I64, z3.BoolSort()))
    padding = z3.Const("group.padding", z3.ArraySort(I64, I64))
    full, one, two = group_state(p, j, n)
    st.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, CAP), z3.And(
        formed[j] == z3.Or(full, one, two), padding[j] == z3.If(full, bv64(0), z3.If(one, bv64(1), bv64(2)))))))
    valid = lambda j: formed[j]
    pad = lambda j: padding[j]

    # The bytes the text stands for: a definition (the positions 3j + i are distinct for j < CAP).
    want = z3.Const("decoded.bytes", z3.ArraySort(I64, BV8))
    st.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, CAP), z3.And([want[j*3 + i] == b for i, b in enumerate(group_bytes(p, j))]))))

    def holds(s, x):
        return z3.Implies(z3.ULT(x, size(s) - k), data(s)[k + x] == want[x])

    def template(en, f, name, s0, h, mods, vs):
        from .cprofile import counter_name
        g = counter_name(f, name)
        if g not in h.ghost:
            return []
        it = lambda s: s.ghost[g]
        return [("whole groups were read", lambda en, s: z3.ULE(it(s)*4, n)),
                ("at most n groups", lambda en, s: z3.ULE(it(s), n)),
                ("every group so far is well formed", lambda en, s: z3.ForAll([j], z3.Implies(z3.ULT(j, it(s)), valid(j)))),
                ("three bytes per group so far", lambda en, s: z3.Implies(z3.Or(it(s) == 0, it(s)*4 != n), size(s) == k + it(s)*3)),
                ("fewer bytes at the end after padding",
                 lambda en, s: z3.Implies(z3.And(it(s) != 0, it(s)*4 == n), size(s) == k + it(s)*3 - pad(it(s) - 1))),
                ("the bytes so far are decoded", lambda en, s: z3.ForAll([j], holds(s, j))),
                ("the bytes before stay", lambda en, s: z3.ForAll([j], z3.Implies(z3.ULT(j, k), data(s)[j] == old[j])))]
    e.templates.append(template)
    st2, ok = e.call(st.fork(), fn, [out, rp(text, 0)])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    ok = to_bool(ok)
    good = st2.fork()
    good.assume(ok)
    m = z3.BitVec("m", 64)
    post(e, good, n & 3 == 0, "if accepted, the length is a multiple of four")
    post(e, good, z3.ForAll([j], z3.Implies(z3.ULT(j, z3.LShR(n, 2)), valid(j))), "if accepted, every group is well formed")
    post(e, good, size(good) == k + z3.LShR(n, 2)*3 - z3.If(n == 0, bv64(0), pad(z3.LShR(n, 2) - 1)),
         "if accepted, three bytes are appended for each group, less the padding")
    post(e, good, z3.ForAll([j], holds(good, j)), "if accepted, the bytes are those of the text")
    post(e, good, z3.ForAll([j], z3.Implies(z3.ULT(j, k), data(good)[j] == old[j])), "if accepted, the bytes before stay")
    st2.assume(n == m*4)
    st2.assume(z3.ULT(m, CAP))
    st2.assume(z3.ForAll([j], z3.Implies(z3.ULT(j, m), valid(j))))
    post(e, st2, ok, "well-formed text is accepted")
    return e


def b64_decode_null(code):
    e = code.engine("decode(null): ", BSTR)
    st = State()
    fn = code.find("base64::decode")
    out = e.alloc(st, "out", 24)
    e.child(out.root, 0, "unsigned char", fn.module)
    st2, ok = e.call(st.fork(), fn, [out, NULL])
    if st2 is None:
        post(e, st, False, "returns")
        return e
    post(e, st2, z3.Not(to_bool(ok)), "is refused")
    return e


def c14_tasks():
    return [("b64_tables", ()), ("b64_encode_null", ()), ("b64_decode_null", ()), ("b64_decode", ())] + \
        [("b64_encode", (r,)) for r in range(3)]
