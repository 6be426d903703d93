"""floor / ceil / trunc: directed rounding to an integral value."""
from spec import *
FN = {'floor': RTN, 'ceil': RTP, 'trunc': RTZ}
SFX = {'float': 'f', 'double': '', 'long double': 'l'}
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for fn, rm in FN.items():
            for s, ty in FT:
                def ens(i, o, g, rm=rm):
                    r = z3.fpRoundToIntegral(rm, i.x.fp)
                    return [("value", eq_or_nan(o.r, r)), ("errno-untouched", no_errno(g))]
                nm = fn if cfg != 'K' else fn + SFX[ty]
                T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::%s(x);" % nm, ens, rms=rms_for(cfg),
                    doc="r is x rounded to an integral value toward %s (sign of zero, infinities and NaN preserved); errno unchanged" % {'floor': '-inf', 'ceil': '+inf', 'trunc': 'zero'}[fn]))
    for fn in FN:
        for s, ty in INTS_ALL:
            def ens(i, o, g, ty=ty): return [("value", o.r.fp == i2f(ty, i.x, i.rmz))]
            T.append(Target("%s_int_%s" % (fn, s), 'G', [("x", ty)], [("r", "double")], "r = ccm::%s(x);" % fn, ens, samples=60, doc="integral argument: the nearest double to the integer"))
    return T
