"""exp / log family: special values, domain and range ends."""
from spec import *
# threshold below/above which the correctly rounded result (round to nearest) is 0 / infinity, with a margin of one
EXPR = {'exp': {'float': (-104.5, 89.5), 'double': (-746.0, 710.0), 'long double': (-11516.0, 11357.0)},
        'exp2': {'float': (-151.0, 128.0), 'double': (-1076.0, 1024.0), 'long double': (-16447.0, 16384.0)}}
def F(ty, v): return z3.FPVal(v, SORT[WIDTH[ty]])
def targets(tier):
    T = []
    for s, ty in FT: add_type(T, s, ty, tier)
    return T
def add_type(T, s, ty, tier):
    S = SORT[WIDTH[ty]]
    pinf, minf, one, zero, mone = z3.fpPlusInfinity(S), z3.fpMinusInfinity(S), F(ty, 1.0), z3.fpPlusZero(S), F(ty, -1.0)
    for cfg in ('G', 'K', 'KC', 'D'):
        def add(nm, fn, ens, req=None, doc='', rms=ALLRM):
            T.append(Target("%s_%s_%s" % (nm, s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::%s(x);" % fn, ens, requires=req, rms=rms_for(cfg, rms), samples=60, prune=True, doc=doc, inputs_hook=hook(ty, nm)))
        for fn in ('exp', 'exp2', 'expm1'):
            def ens(i, o, g, fn=fn):
                c = [("nan", Implies(i.x.nan, o.r.nan)), ("plus-infinity", Implies(And(i.x.inf, i.x.sign == 0), o.r.fp == pinf)),
                     ("minus-infinity", Implies(And(i.x.inf, i.x.sign == 1), o.r.fp == (mone if fn == 'expm1' else zero)))]
                c.append(("zero", Implies(i.x.zero, (o.r.fp == i.x.fp) if fn == 'expm1' else o.r.fp == one)))
                return c
            add(fn + "_special", fn, ens, lambda i: [Or(i.x.nan, i.x.inf, i.x.zero)], "NaN, infinities and zeros as C Annex F prescribes")
        for fn in ('log', 'log2', 'log10', 'log1p'):
            def ens(i, o, g, fn=fn, cfg=cfg):
                dom = z3.fpLT(i.x.fp, mone if fn == 'log1p' else zero)
                pole = z3.fpEQ(i.x.fp, mone if fn == 'log1p' else zero)
                c = [("nan", Implies(i.x.nan, o.r.nan)), ("plus-infinity", Implies(And(i.x.inf, i.x.sign == 0), o.r.fp == pinf)),
                     ("domain", Implies(dom, o.r.nan)), ("pole", Implies(pole, o.r.fp == minf))]
                c.append(("zero", Implies(i.x.zero, o.r.fp == i.x.fp)) if fn == 'log1p' else ("one", Implies(z3.fpEQ(i.x.fp, one), z3.fpIsZero(o.r.fp))))
                if cfg != 'KC' and fn != 'log1p': c.append(("exception", And(Implies(dom, (g.raised & 1) != 0), Implies(pole, (g.raised & 4) != 0))))
                return c
            add(fn + "_special", fn, ens, lambda i, fn=fn: [Or(i.x.nan, i.x.inf, z3.fpLEQ(i.x.fp, zero), z3.fpEQ(i.x.fp, one))] if fn != 'log1p' else [Or(i.x.nan, i.x.inf, i.x.zero, z3.fpLEQ(i.x.fp, mone))], "NaN outside the domain, -infinity at the pole, exact zero at the zero of the function")
        if ty != 'long double' or cfg in ('G', 'K'):
            for fn in ('exp', 'exp2'):
                lo, hi = EXPR[fn][ty] if ty != 'double' else (-1076.0, 1024.0)
                def ens(i, o, g, lo=lo, hi=hi):
                    return [("overflow", Implies(z3.fpGEQ(i.x.fp, F(ty, hi)), o.r.fp == pinf)), ("underflow", Implies(z3.fpLEQ(i.x.fp, F(ty, lo)), o.r.fp == zero))]
                add(fn + "_range", fn, ens, lambda i, lo=lo, hi=hi: [Or(z3.fpGEQ(i.x.fp, F(ty, hi)), z3.fpLEQ(i.x.fp, F(ty, lo)))], "infinity past the overflow threshold, zero past the underflow threshold (round to nearest)", rms=('RNE',))
import random as _r
def hook(ty, nm):
    def f(rng):
        import runner
        eb, fb = {'float': (8, 23), 'double': (11, 52), 'long double': (15, 63)}[ty]
        k = rng.randrange(8)
        if nm.endswith('range'):
            b = (rng.getrandbits(1) << (eb + fb)) | (((1 << (eb - 1)) - 1 + rng.randrange(7, 1 << (eb - 1))) << fb) | rng.getrandbits(fb)
        else:
            e, f = [(0, 0), ((1 << eb) - 1, 0), ((1 << eb) - 1, rng.getrandbits(fb) | 1), ((1 << (eb - 1)) - 1, 0), (rng.randrange(1, (1 << eb) - 1), rng.getrandbits(fb)), (0, rng.getrandbits(fb))][rng.randrange(6)]
            b = (rng.getrandbits(1) << (eb + fb)) | (e << fb) | f
        return [fix80(b) if ty == 'long double' else b]
    return f
