"""Floating-point classification."""
from spec import *
def b(o): return o.r.bv != 0
CLS = [('isnan', lambda x: x.nan), ('isinf', lambda x: x.inf), ('isfinite', lambda x: x.finite), ('isnormal', lambda x: x.normal)]
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            for fn, f in CLS:
                def ens(i, o, g, f=f): return [("value", b(o) == f(i.x)), ("errno-untouched", no_errno(g))]
                T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty)], [("r", "bool")], "r = ccm::%s(x);" % fn, ens, rms=rms_for(cfg), doc="exactly the IEEE class"))
            def ens(i, o, g):
                x = i.x
                return [("value", o.r.bv == If(x.nan, BVV(0, 32), If(x.inf, BVV(1, 32), If(x.zero, BVV(2, 32), If(x.sub, BVV(3, 32), BVV(4, 32))))))]
            T.append(Target("fpclassify_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", "int")], "r = ccm::fpclassify(x);", ens, rms=rms_for(cfg), doc="FP_NAN, FP_INFINITE, FP_ZERO, FP_SUBNORMAL, FP_NORMAL (0..4, the C library's values)"))
    for s, ty in INTS_ALL:
        for fn, f in (('isnan', lambda i: z3.BoolVal(False)), ('isinf', lambda i: z3.BoolVal(False)), ('isfinite', lambda i: z3.BoolVal(True)), ('isnormal', lambda i: i.x.bv != 0)):
            def ens(i, o, g, f=f): return [("value", b(o) == f(i))]
            T.append(Target("%s_int_%s" % (fn, s), 'G', [("x", ty)], [("r", "bool")], "r = ccm::%s(x);" % fn, ens, samples=40, doc="integral argument"))
    return T
