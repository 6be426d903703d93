"""rint / nearbyint follow the rounding mode in force."""
from spec import *
from props.P01 import SFX
# Known finding: GCC expands __builtin_rintf inline (|x| + 2^23 - 2^23, sign restored), so on the
# compiled code negative values are rounded in the opposite direction in the directed modes.
def gcc_rintf(i):
    if i.rm not in ('RTN', 'RTP'): return z3.BoolVal(False)
    a = z3.fpAbs(i.x.fp)
    neg = And(i.x.neg, z3.fpLT(a, z3.FPVal(8388608.0, SORT[32])))
    if i.rm == 'RTN': return Or(neg, z3.fpLT(a, z3.FPVal(1.0, SORT[32])))   # and [0,1) gives -0
    return neg
KNOWN = [dict(id='rintf-gcc-directed-negative', pred=gcc_rintf, witness=dict(x=0xc17c0000), rm='RTP', native_only=True)]
def targets(tier):
    T = []
    for fn in ('rint', 'nearbyint'):
        for cfg in ('G', 'K', 'KC', 'KC_DN', 'KC_UP', 'KC_TZ', 'GS4'):
            for s, ty in FT:
                def ens(i, o, g, cfg=cfg):
                    r = z3.fpRoundToIntegral(eff_rm(cfg, i), i.x.fp)
                    return [("value", eq_or_nan(o.r, r)), ("errno-untouched", no_errno(g))]
                nm = fn if cfg != 'K' else fn + SFX[ty]
                T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::%s(x);" % nm, ens, rms=rms_for(cfg), known=KNOWN if (fn, ty) == ('rint', 'float') and cfg in ('G',) else [], doc="r is x rounded to an integral value in the rounding mode in force (dynamic at run time, CCM_CONSTEXPR_ROUNDING_MODE in constant evaluation)"))
        for s, ty in INTS_ALL:
            def ens(i, o, g, ty=ty): return [("value", o.r.fp == i2f(ty, i.x, i.rmz))]
            T.append(Target("%s_int_%s" % (fn, s), 'G', [("x", ty)], [("r", "double")], "r = ccm::%s(x);" % fn, ens, samples=60, doc="integral argument"))
    return T
