"""round: to nearest integral value, ties away from zero, whatever the rounding mode."""
from spec import *
from props.P01 import SFX
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            def ens(i, o, g):
                r = z3.fpRoundToIntegral(RNA, i.x.fp)
                return [("value", eq_or_nan(o.r, r)), ("errno-untouched", no_errno(g))]
            nm = 'round' if cfg != 'K' else 'round' + SFX[ty]
            T.append(Target("round_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::%s(x);" % nm, ens, rms=rms_for(cfg), doc="r is the integral value nearest x, ties away from zero, in every dynamic rounding mode"))
    for s, ty in INTS_ALL:
        def ens(i, o, g, ty=ty): return [("value", o.r.fp == i2f(ty, i.x, i.rmz))]
        T.append(Target("round_int_%s" % s, 'G', [("x", ty)], [("r", "double")], "r = ccm::round(x);", ens, samples=60, doc="integral argument: the nearest double"))
    return T
