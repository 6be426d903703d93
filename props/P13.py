"""Floating-point helpers of ccm::ext."""
from spec import *
NM = ('clamp', 'saturate', 'step', 'sign', 'fract', 'chgsign', 'rcp', 'normalize', 'unlerp', 'inverse_lerp', 'remap', 'repeat', 'move_towards', 'smoothstep', 'approximately', 'mix', 'ping_pong')
H = ('ccmath/ccmath.hpp',) + tuple('ccmath/ext/%s.hpp' % x for x in NM)
def le(a, b): return z3.fpLEQ(a.fp, b.fp)
def lt(a, b): return z3.fpLT(a.fp, b.fp)
def targets(tier):
    T = []
    for s, ty in FT: add_type(T, s, ty)
    return T
def add_type(T, s, ty):
    w = WIDTH[ty]; S = SORT[w]
    def K(v): return z3.FPVal(v, S)
    def add(nm, args, body, ens, req=None, doc='', out=ty, cfgs=('G', 'K', 'KC'), rms=('RNE', 'RTP'), **kw):
        for c in cfgs: T.append(Target("ext_%s_%s_%s" % (nm, s, c), c, args, [("r", out)] + ([("t", out)] if "t = " in body else []), body, ens, requires=req, headers=H, samples=100, rms=rms_for(c, rms), doc=doc, **kw))
    X = [("x", ty)]; XY = [("x", ty), ("y", ty)]
    def ens(i, o, g): return [("nan", Implies(i.v.nan, z3.fpEQ(o.r.fp, i.lo.fp))), ("low", Implies(lt(i.v, i.lo), z3.fpEQ(o.r.fp, i.lo.fp))), ("high", Implies(lt(i.hi, i.v), z3.fpEQ(o.r.fp, i.hi.fp))), ("inside", Implies(And(le(i.lo, i.v), le(i.v, i.hi)), z3.fpEQ(o.r.fp, i.v.fp)))]
    add("clamp", [("v", ty), ("lo", ty), ("hi", ty)], "r = ccm::ext::clamp(v, lo, hi);", ens, lambda i: [le(i.lo, i.hi)], "v held to [lo, hi]; lo for NaN")
    def ens(i, o, g): return [("range", And(z3.fpGEQ(o.r.fp, K(0)), z3.fpLEQ(o.r.fp, K(1)))), ("inside", Implies(And(z3.fpGEQ(i.x.fp, K(0)), z3.fpLEQ(i.x.fp, K(1))), z3.fpEQ(o.r.fp, i.x.fp))), ("high", Implies(z3.fpGT(i.x.fp, K(1)), z3.fpEQ(o.r.fp, K(1)))), ("low", Implies(z3.fpLT(i.x.fp, K(0)), o.r.zero))]
    add("saturate", X, "r = ccm::ext::saturate(x);", ens, None, "x held to [0, 1]")
    def ens(i, o, g): return [("value", o.r.fp == If(lt(i.y, i.x), K(0), K(1)))]
    add("step", XY, "r = ccm::ext::step(x, y);", ens, None, "0 below the edge, 1 otherwise")
    def ens(i, o, g): return [("value", z3.fpEQ(o.r.fp, If(z3.fpGT(i.x.fp, K(0)), K(1), If(z3.fpLT(i.x.fp, K(0)), K(-1), K(0)))))]
    add("sign", X, "r = ccm::ext::sign(x);", ens, None, "-1, 0 or 1 (0 for NaN)")
    def ens(i, o, g):
        return [("range", And(z3.fpGEQ(o.r.fp, K(0)), z3.fpLEQ(o.r.fp, K(1)))), ("value", o.r.fp == z3.fpSub(i.rmz, i.x.fp, o.t.fp))]
    add("fract", X, "t = ccm::floor(x); r = ccm::ext::fract(x);", ens, lambda i: [i.x.finite], "x - floor(x), floor being P01, between 0 and 1", rms=('RNE',))
    def ens(i, o, g): return [("value", If(i.x.nan, o.r.nan, o.r.abs_.bv == i.x.abs_.bv)), ("sign", Implies(Not(i.x.nan), o.r.sign == i.y.sign))]
    add("chgsign", XY, "r = ccm::ext::chgsign(x, y);", ens, None, "|x| with y's sign") if ty != 'long double' else None
    def ens(i, o, g): return [("value", eq_or_nan(o.r, z3.fpDiv(i.rmz, K(1), i.x.fp)))]
    add("rcp", X, "r = ccm::ext::rcp(x);", ens, None, "1/x rounded once")
    A3 = [("x", ty), ("lo", ty), ("hi", ty)]
    def ens(i, o, g): return [("range", And(z3.fpGEQ(o.r.fp, K(0)), z3.fpLEQ(o.r.fp, K(1))))]
    add("normalize", A3, "r = ccm::ext::normalize(x, lo, hi);", ens, None, "within [0, 1] whatever the arguments")
    def ens(i, o, g): return [("range", And(z3.fpGEQ(o.r.fp, K(0)), z3.fpLEQ(o.r.fp, K(1)))), ("degenerate", Implies(And(i.lo.finite, z3.fpEQ(i.lo.fp, i.hi.fp)), o.r.zero))]
    add("safe_normalize", A3, "r = ccm::ext::safe::normalize(x, lo, hi);", ens, None, "within [0, 1]; 0 for an empty range")
    def ens(i, o, g):
        l = z3.fpSub(i.rmz, i.hi.fp, i.lo.fp)
        return [("value", If(z3.fpIsZero(l), o.r.zero, eq_or_nan(o.r, z3.fpDiv(i.rmz, z3.fpSub(i.rmz, i.x.fp, i.lo.fp), l))))]
    for fn in ('unlerp', 'inverse_lerp'): add("safe_" + fn, A3, "r = ccm::ext::safe::%s(lo, hi, x);" % fn, ens, None, "0 for an empty range, (x - lo) / (hi - lo) otherwise")
    def ens(i, o, g): return [("zero", o.r.zero)]
    add("safe_repeat0", XY, "r = ccm::ext::safe::repeat(x, y);", ens, lambda i: [i.y.zero], "0 for a zero length")
    def ens(i, o, g): return [("start", Implies(Not(i.d.nan), o.r.bv == i.d.bv))]
    add("safe_remap0", [("a", ty), ("d", ty), ("e", ty), ("x", ty)], "r = ccm::ext::safe::remap(a, a, d, e, x);", ens, lambda i: [i.a.finite], "the destination start for an empty source range")
    def ens(i, o, g):
        d = z3.fpSub(i.rmz, i.y.fp, i.x.fp)
        return [("reaches", Implies(z3.fpLEQ(z3.fpAbs(d), i.m.fp), o.r.bv == i.y.bv)), ("steps", Implies(Not(z3.fpLEQ(z3.fpAbs(d), i.m.fp)), o.r.fp == z3.fpAdd(i.rmz, i.x.fp, If(z3.fpGT(d, K(0)), i.m.fp, z3.fpNeg(i.m.fp)))))]
    add("move_towards", XY + [("m", ty)], "r = ccm::ext::move_towards(x, y, m);", ens, lambda i: [i.x.finite, i.y.finite, z3.fpGEQ(i.m.fp, K(0))], "the target when it is within reach, never past it, never away from it", cfgs=('G', 'K'))
    def ens(i, o, g): return [("value", (o.r.bv != 0) == z3.fpLEQ(z3.fpAbs(z3.fpSub(i.rmz, i.x.fp, i.y.fp)), i.e.fp))]
    add("approximately", XY + [("e", ty)], "r = ccm::ext::approximately(x, y, e);", ens, None, "|x - y| <= e", out="bool")
    def ens(i, o, g): return [("start", z3.fpEQ(o.r.fp, i.x.fp))]
    add("mix0", XY, "r = ccm::ext::mix(x, y, %s(0));" % ty.replace(' ', '_').replace('long_double', '(long double)'), ens, lambda i: [i.x.finite, i.y.finite], "x at weight 0", rms=('RNE',)) if ty != 'long double' else None
    def ens(i, o, g): return [("end", z3.fpEQ(o.r.fp, i.y.fp))]
    add("mix1", XY, "r = ccm::ext::mix(x, y, %s(1));" % ty.replace(' ', '_').replace('long_double', '(long double)'), ens, lambda i: [i.x.finite, i.y.finite], "y at weight 1", rms=('RNE',)) if ty != 'long double' else None
    if ty != 'long double':
        def ens(i, o, g): return [("low", Implies(le(i.x, i.lo), o.r.zero)), ("high", Implies(le(i.hi, i.x), z3.fpEQ(o.r.fp, K(1))))]
        add("smoothstep_ends", A3, "r = ccm::ext::smoothstep(lo, hi, x);", ens, lambda i: [i.lo.finite, i.hi.finite, i.x.finite, lt(i.lo, i.hi), Not(z3.fpIsInf(z3.fpSub(i.rmz, i.x.fp, i.lo.fp)))], "0 at or below the lower edge, 1 at or above the upper edge", rms=('RNE',))
        def ens(i, o, g): return [("range", And(z3.fpGEQ(o.r.fp, K(0)), z3.fpLEQ(o.r.fp, K(1))))]
        if ty == 'float': add("smoothstep_range", X, "r = ccm::ext::smoothstep(%s(0), %s(1), x);" % (ty, ty), ens, None, "within [0, 1]", rms=('RNE',), cfgs=('G',))
    def ens(i, o, g): return [("zero", o.r.zero)]
    add("ping_pong0", XY, "r = ccm::ext::ping_pong(x, y);", ens, lambda i: [i.y.zero], "0 for an empty range", rms=('RNE',)) if ty == 'double' else None
