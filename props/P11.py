"""Bit utilities: rotate, count, width, ceil, single bit, raw-encoding casts."""
from spec import *
UT = (('u8', 'unsigned char'), ('u16', 'unsigned short'), ('u32', 'unsigned'), ('u64', 'unsigned long'), ('ull', 'unsigned long long'))
H = ('ccmath/ccmath.hpp', 'ccmath/internal/support/bits.hpp', 'ccmath/internal/support/ctz.hpp')
def ctz_spec(bv, w):
    r = BVV(w, 32)
    for i in reversed(range(w)): r = If(Extract(i, i, bv) == 1, BVV(i, 32), r)
    return r
def clz32(bv, w): return z3.ZeroExt(16, clz_spec(bv, w))
def pop(bv, w):
    r = BVV(0, 32)
    for i in range(w): r = r + z3.ZeroExt(31, Extract(i, i, bv))
    return r
def rot(bv, w, cnt, left):
    """rotation by the signed 32-bit count"""
    k = Extract(w - 1, 0, cnt) if w < 32 else (z3.SignExt(w - 32, cnt) if w > 32 else cnt)
    k = k & (w - 1)
    return z3.RotateLeft(bv, k) if left else z3.RotateRight(bv, k)
def targets(tier):
    T = []
    for cfg in ('G', 'K', 'KC', 'GC'):
        for s, ty in UT:
            w = WIDTH[ty]
            def add(nm, body, f, args=None, out='int', req=None, doc=''):
                def ens(i, o, g, f=f): return [("value", o.r.bv == f(i))]
                T.append(Target("bits_%s_%s_%s" % (nm, s, cfg), cfg, args or [("x", ty)], [("r", out)], body, ens, requires=req, headers=H, samples=40, doc=doc))
            add('countl_zero', "r = ccm::support::countl_zero(x);", lambda i, w=w: clz32(i.x.bv, w), doc="number of leading zero bits; the width for 0")
            add('countr_zero', "r = ccm::support::countr_zero(x);", lambda i, w=w: ctz_spec(i.x.bv, w), doc="number of trailing zero bits; the width for 0")
            if w >= 16: add('ctz', "r = ccm::support::ctz(x);", lambda i, w=w: ctz_spec(i.x.bv, w), req=lambda i: [i.x.bv != 0], doc="number of trailing zero bits of a nonzero value")
            if w >= 32: add('countr_one', "r = ccm::support::countr_one(x);", lambda i, w=w: ctz_spec(~i.x.bv, w), doc="number of trailing one bits")
            add('countl_one', "r = ccm::support::countl_one(x);", lambda i, w=w: clz32(~i.x.bv, w), doc="number of leading one bits")
            add('bit_width', "r = ccm::support::bit_width(x);", lambda i, w=w: w - clz32(i.x.bv, w), doc="one plus the index of the highest set bit; 0 for 0")
            add('popcount', "r = ccm::support::popcount(x);", lambda i, w=w: pop(i.x.bv, w), doc="number of set bits")
            add('single', "r = ccm::support::has_single_bit(x);", lambda i, w=w: If(pop(i.x.bv, w) == 1, BVV(1, 8), BVV(0, 8)), out='bool', doc="exactly one bit set") if w >= 16 else None
            def ceil(i, w=w):
                r = BVV(0, w)
                for k in reversed(range(w)): r = If(ULE(i.x.bv, BVV(1 << k, w)), BVV(1 << k, w), r)
                return r
            add('bit_ceil', "r = ccm::support::bit_ceil(x);", ceil, out=ty, req=lambda i, w=w: [ULE(i.x.bv, BVV(1 << (w - 1), w))], doc="least power of two not below x (x at most the greatest representable power)")
            # the count may be any int except the most negative one for rotl, whose negation is not representable
            add('rotr', "r = ccm::support::rotr(x, c);", lambda i, w=w: rot(i.x.bv, w, i.c.bv, False), args=[("x", ty), ("c", "int")], out=ty, req=lambda i: [i.c.bv != BVV(1 << 31, 32)], doc="rotate right, negative counts rotate left")
            add('rotl', "r = ccm::support::rotl(x, c);", lambda i, w=w: rot(i.x.bv, w, i.c.bv, True), args=[("x", ty), ("c", "int")], out=ty, req=lambda i: [i.c.bv != BVV(1 << 31, 32)], doc="rotate left, negative counts rotate right")
        for nm, fty, ity, fn in (('d2u', 'double', 'unsigned long', 'double_to_uint64'), ('f2u', 'float', 'unsigned', 'float_to_uint32'), ('u2d', 'unsigned long', 'double', 'uint64_to_double'), ('u2f', 'unsigned', 'float', 'uint32_to_float'),
                                 ('d2i', 'double', 'long', 'double_to_int64'), ('i2d', 'long', 'double', 'int64_to_double'), ('f2i', 'float', 'int', 'float_to_int32'), ('i2f', 'int', 'float', 'int32_to_float')):
            def ens(i, o, g): return [("value", o.r.bv == i.x.bv)]
            T.append(Target("bits_%s_%s" % (nm, cfg), cfg, [("x", fty)], [("r", ity)], "r = ccm::support::%s(x);" % fn, ens, headers=H, samples=40, doc="the same bits"))
        for nm, fty, fn, sh in (('top16d', 'double', 'top16_bits_of_double', 48), ('top12d', 'double', 'top12_bits_of_double', 52), ('top12f', 'float', 'top12_bits_of_float', 20)):
            def ens(i, o, g, sh=sh): return [("value", o.r.bv == Extract(31, 0, ZX(LShR(i.x.bv, sh), 64)))]
            T.append(Target("bits_%s_%s" % (nm, cfg), cfg, [("x", fty)], [("r", "unsigned")], "r = ccm::support::%s(x);" % fn, ens, headers=H, samples=40, doc="the leading bits of the encoding"))
    return T
