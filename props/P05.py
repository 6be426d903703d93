"""logb / ilogb: the binary exponent."""
from spec import *
from props.P01 import SFX
I32MAX, I32MIN = 0x7fffffff, 0x80000000
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            sf = SFX[ty] if cfg == 'K' else ''
            def ens(i, o, g):
                ue, _ = unbiased(i.x)
                return [("value", If(i.x.nan, o.r.nan, If(i.x.inf, And(o.r.inf, o.r.sign == 0), If(i.x.zero, And(o.r.inf, o.r.sign == 1), o.r.fp == z3.fpSignedToFP(RNE, ue, o.r.fp.sort())))))]
            T.append(Target("logb_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::logb%s(x);" % sf, ens, rms=rms_for(cfg), doc="r is the exponent of x's leading bit; +inf for infinities, -inf for zeros, NaN for NaN"))
            def ens(i, o, g):
                ue, _ = unbiased(i.x)
                return [("value", If(i.x.zero, o.r.bv == I32MIN, If(i.x.nan, o.r.bv == I32MIN, If(i.x.inf, o.r.bv == I32MAX, o.r.bv == ue))))]
            T.append(Target("ilogb_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", "int")], "r = ccm::ilogb%s(x);" % sf, ens, rms=rms_for(cfg), doc="r is the exponent of x's leading bit; FP_ILOGB0, INT_MAX, FP_ILOGBNAN for zero, infinity, NaN"))
    return T
