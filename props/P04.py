"""frexp / modf / ldexp / scalbn: exact decomposition and single-rounding scaling."""
from spec import *
from props.P01 import SFX
EXTRA = {}
def frexp_ens(i, o, g):
    ue, uf = unbiased(i.x)
    m = bits_of(i.x.ty, i.x.sign, BVV(i.x.bias - 1, i.x.eb), uf)
    fin = And(i.x.finite, Not(i.x.zero))
    return [("mantissa", If(i.x.nan, o.r.nan, If(fin, o.r.bv == m.bv, o.r.bv == i.x.bv))),
            ("exponent", If(fin, o.e.bv == ue + 1, If(i.x.zero, o.e.bv == 0, True)))]
def modf_ens(i, o, g):
    t = z3.fpRoundToIntegral(RTZ, i.x.fp)
    d = z3.fpSub(RNE, i.x.fp, t)
    z = bits_of(i.x.ty, i.x.sign, BVV(0, i.x.eb), BVV(0, i.x.fb))
    return [("integral-part", eq_or_nan(o.ip, t)), ("fraction", If(i.x.nan, o.r.nan, If(Or(i.x.inf, z3.fpIsZero(d)), o.r.bv == z.bv, o.r.fp == d)))]
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            sf = SFX[ty] if cfg == 'K' else ''
            T.append(Target("frexp_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", ty), ("e", "int")], "r = ccm::frexp%s(x, &e);" % ('' if ty == 'double' else sf), frexp_ens, rms=rms_for(cfg), doc="finite nonzero x: |r| in [1/2,1), sign kept, r*2^e == x exactly; zero, infinity and NaN returned as they are, e = 0 for zero"))
            T.append(Target("modf_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", ty), ("ip", ty)], "r = ccm::modf%s(x, &ip);" % sf, modf_ens, rms=rms_for(cfg), doc="ip = x truncated, r = x - ip exactly, both with the sign of x"))
            for fn, et in (('ldexp', 'int'), ('scalbn', 'int'), ('scalbln', 'long')):
                def ens(i, o, g, cfg=cfg, et=et):
                    e = i.n.bv
                    if et == 'long': e = If(e > 1000000, BVV(1000000, 64), If(e < -1000000, BVV(-1000000 & mask(64), 64), e)); e = Extract(31, 0, e)
                    return [("value", eq_or_nan(o.r, scale_fp(i.x, e, eff_rm(cfg, i))))]
                T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty), ("n", et)], [("r", ty)], "r = ccm::%s%s(x, n);" % (fn, sf), ens, rms=rms_for(cfg), doc="r is x*2^n rounded once in the mode in force"))
    return T
