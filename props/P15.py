"""trigonometric family: special values, domains, quadrant of atan2."""
from spec import *
def F(ty, v): return z3.FPVal(v, SORT[WIDTH[ty]])
PI = {32: 0x40490fdb, 64: 0x400921fb54442d18}
# Known finding: the long double kernel path converts its arguments to double first
def inexact(i):
    def one(v):
        d = z3.fpFPToFP(i.rmz, v.fp, SORT[64])
        return And(Not(v.nan), Not(z3.fpFPToFP(RNE, d, SORT[80]) == v.fp))
    return Or(*[one(getattr(i, n)) for n in ('x', 'y') if hasattr(i, n)])
def known(fn, ty, cfg):
    if ty != 'long double' or cfg not in ('KC', 'D'): return []
    w = dict(y=0x80007a81a3fbeaa14165, x=0) if fn == 'atan2' else dict(x=0x3fff8000000000000001)
    return [dict(id='longdouble-trig-through-double', pred=inexact, witness=w, rm='RNE')]
def targets(tier):
    T = []
    for s, ty in FT: add_type(T, s, ty, tier)
    return T
def add_type(T, s, ty, tier):
    S = SORT[WIDTH[ty]]
    one, zero, mone = F(ty, 1.0), z3.fpPlusZero(S), F(ty, -1.0)
    for cfg in ('G', 'K', 'KC', 'D'):
        if cfg == 'D' and False: continue
        def add(nm, fn, ens, req=None, doc='', rms=ALLRM):
            T.append(Target("%s_%s_%s" % (nm, s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::%s(x);" % fn, ens, requires=req, rms=rms_for(cfg, rms), samples=60, prune=True, known=known(fn, ty, cfg), doc=doc, inputs_hook=hook(ty)))
        for fn in ('sin', 'cos', 'tan'):
            def ens(i, o, g, fn=fn):
                return [("nan", Implies(i.x.nan, o.r.nan)), ("infinity", Implies(i.x.inf, o.r.nan)),
                        ("zero", Implies(i.x.zero, o.r.fp == (one if fn == 'cos' else i.x.fp)))]
            add(fn + "_special", fn, ens, lambda i: [Or(i.x.nan, i.x.inf, i.x.zero)], "NaN and infinities give NaN; sin and tan keep a zero, cos(0) is 1")
        for fn in ('asin', 'acos'):
            def ens(i, o, g, fn=fn):
                c = [("nan", Implies(i.x.nan, o.r.nan)), ("domain", Implies(Or(z3.fpGT(i.x.fp, one), z3.fpLT(i.x.fp, mone)), o.r.nan))]
                c.append(("zero", Implies(i.x.zero, o.r.fp == i.x.fp)) if fn == 'asin' else ("one", Implies(i.x.fp == one, o.r.fp == zero)))
                return c
            add(fn + "_special", fn, ens, lambda i, fn=fn: [Or(i.x.nan, i.x.zero, z3.fpGT(i.x.fp, one), z3.fpLT(i.x.fp, mone), i.x.fp == one)] if fn == 'acos' else [Or(i.x.nan, i.x.zero, z3.fpGT(i.x.fp, one), z3.fpLT(i.x.fp, mone))], "NaN outside [-1,1]; asin keeps a zero, acos(1) is +0")
        def ens(i, o, g):
            return [("nan", Implies(i.x.nan, o.r.nan)), ("zero", Implies(i.x.zero, o.r.fp == i.x.fp)), ("infinity", Implies(i.x.inf, near(o.r, i.x.sign, 0.5)))]
        add("atan_special", "atan", ens, lambda i: [Or(i.x.nan, i.x.inf, i.x.zero)], "atan keeps a zero and is half pi with the sign of the argument at the infinities")
        def ens(i, o, g):
            y, x, r = i.y, i.x, o.r
            xneg = x.sign == 1
            return [("nan", Implies(Or(x.nan, y.nan), r.nan)),
                    ("y-zero", Implies(And(y.zero, Not(x.nan)), If(xneg, near(r, y.sign, 1.0), And(r.zero, r.sign == y.sign)))),
                    ("x-zero", Implies(And(x.zero, Not(y.nan), Not(y.zero)), near(r, y.sign, 0.5))),
                    ("x-infinite", Implies(And(x.inf, y.finite), If(xneg, near(r, y.sign, 1.0), And(r.zero, r.sign == y.sign)))),
                    ("y-infinite", Implies(And(y.inf, x.finite), near(r, y.sign, 0.5))),
                    ("both-infinite", Implies(And(x.inf, y.inf), If(xneg, near(r, y.sign, 0.75), near(r, y.sign, 0.25))))]
        T.append(Target("atan2_special_%s_%s" % (s, cfg), cfg, [("y", ty), ("x", ty)], [("r", ty)], "r = ccm::atan2(y, x);", ens, requires=lambda i: [Or(Not(i.x.finite), Not(i.y.finite), i.x.zero, i.y.zero)],
            rms=rms_for(cfg), samples=120, known=known('atan2', ty, cfg), prune=True, doc="the special cases of C Annex F", inputs_hook=hook(ty, 2)))
def near(r, sign, k):
    """r is k*pi with the given sign, within 2^-20 relative"""
    import math
    lo, hi = k * math.pi * (1 - 2.0**-20), k * math.pi * (1 + 2.0**-20)
    a = r.abs_.fp; S = a.sort()
    return And(r.sign == sign, z3.fpGEQ(a, z3.FPVal(lo, S)), z3.fpLEQ(a, z3.FPVal(hi, S)))
def hook(ty, n=1):
    def one(rng):
        eb, fb = {'float': (8, 23), 'double': (11, 52), 'long double': (15, 63)}[ty]
        e, f = [(0, 0), ((1 << eb) - 1, 0), ((1 << eb) - 1, rng.getrandbits(fb) | 1), ((1 << (eb - 1)) - 1, 0), ((1 << (eb - 1)) - 1, rng.getrandbits(fb)), (rng.randrange(1, (1 << eb) - 1), rng.getrandbits(fb)), (0, rng.getrandbits(fb))][rng.randrange(7)]
        b = (rng.getrandbits(1) << (eb + fb)) | (e << fb) | f
        return fix80(b) if ty == 'long double' else b
    return lambda rng: [one(rng) for _ in range(n)]
