"""fabs/abs, copysign, signbit: sign-bit operations."""
from spec import *
from props.P01 import SFX
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            sf = SFX[ty] if cfg == 'K' else ''
            def eabs(i, o, g): return [("value", If(i.x.nan, o.r.nan, o.r.bv == i.x.abs_.bv))]
            T.append(Target("fabs_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::fabs%s(x);" % sf, eabs, rms=rms_for(cfg), doc="r is x with the sign bit cleared"))
            T.append(Target("abs_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::abs(x);", eabs, rms=rms_for(cfg), doc="as fabs"))
            def ecs(i, o, g): return [("magnitude", If(i.x.nan, o.r.nan, o.r.abs_.bv == i.x.abs_.bv)), ("sign", o.r.sign == i.y.sign)]
            T.append(Target("copysign_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty)], "r = ccm::copysign%s(x, y);" % sf, ecs, rms=rms_for(cfg), doc="r has x's magnitude and y's sign, for NaN operands too"))
            def esb(i, o, g): return [("value", (o.r.bv != 0) == (i.x.sign == 1))]
            T.append(Target("signbit_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", "bool")], "r = ccm::signbit(x);", esb, rms=rms_for(cfg), doc="the sign bit, also for zeros and NaNs"))
    for s, ty in INTS_ALL:
        if ty in SIGNED:
            w = WIDTH[ty]
            def ens(i, o, g): return [("value", o.r.bv == If(i.x.bv < 0, -i.x.bv, i.x.bv))]
            T.append(Target("abs_int_%s" % s, 'G', [("x", ty)], [("r", ty)], "r = ccm::abs(x);", ens, requires=lambda i, w=w: [i.x.bv != BVV(1 << (w - 1), w)] if w >= 32 else [], samples=60, doc="|x| (x not the minimum of int, long, long long)"))
        def ens(i, o, g, ty=ty): return [("value", (o.r.bv != 0) == (i.x.bv < 0 if ty in SIGNED else z3.BoolVal(False)))]
        T.append(Target("signbit_int_%s" % s, 'G', [("x", ty)], [("r", "bool")], "r = ccm::signbit(x);", ens, samples=60, doc="x < 0"))
        def ens(i, o, g, ty=ty): return [("value", o.r.fp == z3.fpAbs(i2f(ty, i.x, i.rmz)))]
        T.append(Target("fabs_int_%s" % s, 'G', [("x", ty)], [("r", "double")], "r = ccm::fabs(x);", ens, samples=60, doc="|double(x)|"))
        if WIDTH[ty] == 64 and ty != 'unsigned long':
            pass
    for nm, ty in (('labs', 'long'), ('llabs', 'long long')):
        def ens(i, o, g): return [("value", o.r.bv == If(i.x.bv < 0, -i.x.bv, i.x.bv))]
        T.append(Target(nm + '_G', 'G', [("x", ty)], [("r", ty)], "r = ccm::%s(x);" % nm, ens, requires=lambda i: [i.x.bv != BVV(1 << 63, 64)], samples=60, doc="|x|"))
    for s, ty in INTS_ALL:
        def ens(i, o, g, ty=ty):
            a, b = i2f(ty, i.x, i.rmz), i2f(ty, i.y, i.rmz)
            return [("value", o.r.fp == If(z3.fpIsNegative(b), z3.fpNeg(z3.fpAbs(a)), z3.fpAbs(a)))]
        T.append(Target("copysign_int_%s" % s, 'G', [("x", ty), ("y", ty)], [("r", "double")], "r = ccm::copysign(x, y);", ens, samples=60, doc="magnitude of double(x), sign of y"))
    return T
