"""Contracts of VertexValue::fromData / toData, written from the documentation of the formats (not from the code).

Values are double-precision terms; a supported element is described by the bit position and width of each component.
"""
import z3
from .sym import F16, F32, F64, RNE, RNA, RTZ, WIDE, int_to_fp, fp_to_int_wide, is_fp

NAMES = ["X8", "X8Y8", "X8Y8Z8", "X8Y8Z8W8", "W2X10Y10Z10", "W2Z10Y10X10", "X16", "X16Y16", "X16Y16Z16", "X16Y16Z16W16",
         "X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32", "X64", "X64Y64", "X64Y64Z64", "X64Y64Z64W64",
         "Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat"]
TYPES = ["UNorm", "SNorm", "UInt", "SInt", "Float"]


def plain(n, w):
    return [(i, i*w, w) for i in range(n)]


# component -> (component, lowest bit, width)
FIELDS = ([plain(n, 8) for n in (1, 2, 3, 4)] +
          [[(0, 20, 10), (1, 10, 10), (2, 0, 10), (3, 30, 2)], [(0, 0, 10), (1, 10, 10), (2, 20, 10), (3, 30, 2)]] +
          [plain(n, 16) for n in (1, 2, 3, 4)] + [plain(n, 32) for n in (1, 2, 3, 4)] +
          [plain(n, 64) for n in (1, 2, 3, 4)] +
          [[(0, 0, 11), (1, 11, 11), (2, 22, 10)], [(0, 0, 9), (1, 9, 9), (2, 18, 9)]])
PACKED, SHARED = 18, 19


def size(layout):
    return (sum(w for _, _, w in FIELDS[layout]) + (5 if layout == SHARED else 0))//8


def kind(layout):
    return "packed" if layout == PACKED else "shared" if layout == SHARED else FIELDS[layout][0][2]


def valid(layout, ty):
    if not 0 <= layout < 20 or not 0 <= ty < 5:
        return False
    k = kind(layout)
    if k in (8, 10):
        return ty != 4
    if k == 16:
        return True
    if k in (32, 64):
        return ty >= 2
    return ty == 4


def unspecified(layout, ty):
    """Accepted by fromData/toData although the pair is not a supported element; no property speaks about them."""
    return kind(layout) in (32, 64) and ty in (0, 1)


def bits(data, lo, w):
    """Bits [lo, lo+w) of the little-endian bytes `data` (8-bit terms)."""
    first, last = lo//8, (lo + w - 1)//8
    v = z3.Concat(list(reversed(data[first:last + 1]))) if last > first else data[first]
    return z3.simplify(z3.Extract(lo - first*8 + w - 1, lo - first*8, v))


def dbl(x):
    return z3.FPVal(x, F64)


def code_max(w):
    return dbl(float(2**w - 1))


def half_of(code, w):
    """The bits of the half float with the value of an unsigned 11/10-bit float."""
    pad = 15 - w
    return z3.Concat(z3.BitVecVal(0, 1), code, z3.BitVecVal(0, pad))


def decode_code(code, w, ty):
    if ty == 0:
        return z3.fpDiv(RNE, int_to_fp(code, w, False, F64), code_max(w))
    if ty == 1:
        # the code with its lowest value at zero: adding 2^(w-1) flips the sign bit
        u = code ^ z3.BitVecVal(1 << (w - 1), w)
        return z3.fpSub(RNE, z3.fpMul(RNE, z3.fpDiv(RNE, int_to_fp(u, w, False, F64), code_max(w)), dbl(2.0)), dbl(1.0))
    if ty in (2, 3):
        return int_to_fp(code, w, ty == 3, F64)
    if w == 64:
        return z3.fpBVToFP(code, F64)
    if w == 32:
        return z3.fpFPToFP(RNE, z3.fpBVToFP(code, F32), F64)
    if w == 16:
        return z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, z3.fpBVToFP(code, F16), F32), F64)
    raise ValueError(w)


def decode(data, layout, ty):
    out = [dbl(0.0), dbl(0.0), dbl(0.0), dbl(1.0)]
    for comp, lo, w in FIELDS[layout]:
        code = bits(data, lo, w)
        if layout == PACKED:
            out[comp] = decode_code(half_of(code, w), 16, 4)
        elif layout == SHARED:
            # code * 2^(e - 15 - 9)
            e = z3.ZeroExt(6, bits(data, 27, 5))
            scale = z3.fpBVToFP(z3.Concat(z3.BitVecVal(0, 1), z3.simplify(e + z3.BitVecVal(1023 - 24, 11)),
                                          z3.BitVecVal(0, 52)), F64)
            out[comp] = z3.fpMul(RNE, int_to_fp(code, w, False, F64), scale)
        else:
            out[comp] = decode_code(code, w, ty)
    return out


def fmin(a, b):
    return z3.If(z3.fpLT(b, a), b, a)


def fmax(a, b):
    return z3.If(z3.fpLT(a, b), b, a)


def clamp(v, lo, hi):
    return fmin(fmax(v, dbl(lo)), dbl(hi))


def rnd(x):
    return z3.fpRoundToIntegral(RNA, x)


def encode_code(v, w, ty):
    """The code stored for a normalised or integer component (v is not NaN)."""
    if ty == 0:
        x = rnd(z3.fpMul(RNE, clamp(v, 0.0, 1.0), code_max(w)))
        return z3.Extract(w - 1, 0, fp_to_int_wide(x))
    if ty == 1:
        unit = z3.fpAdd(RNE, z3.fpMul(RNE, clamp(v, -1.0, 1.0), dbl(0.5)), dbl(0.5))
        u = z3.Extract(w - 1, 0, fp_to_int_wide(rnd(z3.fpMul(RNE, unit, code_max(w)))))
        return u ^ z3.BitVecVal(1 << (w - 1), w)
    lo, hi = (0, 2**w - 1) if ty == 2 else (-2**(w - 1), 2**(w - 1) - 1)
    x = z3.Extract(w - 1, 0, fp_to_int_wide(rnd(clamp(v, float(lo), float(hi)))))
    if w < 64:
        return x
    return z3.If(z3.fpGEQ(v, dbl(float(hi))), z3.BitVecVal(hi, w), x)


def same_float(code, v, sort):
    """code is the encoding of the floating-point term v (any NaN for NaN)."""
    return z3.fpBVToFP(code, sort) == v


def half_ok(code, f):
    """code (16 bits) is the half nearest to the single f; a tie may go either way."""
    h = z3.fpBVToFP(code, F16)
    return z3.Or(h == z3.fpFPToFP(RNE, f, F16), h == z3.fpFPToFP(RNA, f, F16))


def encode_post(data, layout, ty, v):
    """[(name, condition)] on the stored bytes `data` for non-NaN components v (a list of four terms)."""
    res = []
    for comp, lo, w in FIELDS[layout]:
        code = bits(data, lo, w)
        x = v[comp]
        name = "component %s" % "xyzw"[comp]
        if layout == PACKED:
            # the nearest half of the value (negative values as zero) cut to the component's mantissa
            f = z3.fpFPToFP(RNE, fmax(x, dbl(0.0)), F32)
            pad = 15 - w
            cs = []
            for mode in (RNE, RNA):
                h = z3.fpToIEEEBV(z3.fpFPToFP(mode, f, F16))
                cs.append(code == z3.Extract(14, pad, h))
            res.append((name, z3.Or(cs)))
        elif ty == 4 and w == 64:
            res.append((name, z3.fpBVToFP(code, F64) == x))
        elif ty == 4 and w == 32:
            res.append((name, z3.fpBVToFP(code, F32) == z3.fpFPToFP(RNE, x, F32)))
        elif ty == 4:
            res.append((name, half_ok(code, z3.fpFPToFP(RNE, x, F32))))
        else:
            res.append((name, code == encode_code(x, w, ty)))
    return res


def shared_encode(v):
    """The shared exponent format, as defined by EXT_texture_shared_exponent: (facts defining ghost terms, post(data))."""
    c = [clamp_max(x) for x in v[:3]]
    m = dbl(0.0)
    for x in c:
        m = fmax(m, x)
    bits_m = z3.BitVec("maxbits", 64)
    facts = [z3.fpBVToFP(bits_m, F64) == m]
    field = z3.ZeroExt(21, z3.Extract(62, 52, bits_m))
    # floor(log2(max)) + 1, at least -15
    low = field <= 1023 - 16
    n0 = z3.If(low, z3.BitVecVal(-15, 32), field - 1022)

    def scale(n):
        ex = z3.Extract(10, 0, z3.BitVecVal(9 + 1023, 32) - n)
        return z3.fpBVToFP(z3.Concat(z3.BitVecVal(0, 1), ex, z3.BitVecVal(0, 52)), F64)
    up = z3.fpGT(rnd(z3.fpMul(RNE, m, scale(n0))), dbl(511.0))
    n = z3.If(up, n0 + 1, n0)

    def posts(data):
        res = [("exponent", bits(data, 27, 5) == z3.Extract(4, 0, n + 15))]
        for comp, lo, w in FIELDS[SHARED]:
            x = rnd(z3.fpMul(RNE, c[comp], scale(n)))
            res.append(("component %s" % "xyzw"[comp], bits(data, lo, w) == z3.Extract(w - 1, 0, fp_to_int_wide(x))))
        return res
    return facts, posts


def clamp_max(x):
    t = z3.If(z3.fpLT(dbl(0.0), x), x, dbl(0.0))
    return z3.If(z3.fpLT(dbl(65408.0), t), dbl(65408.0), t)
