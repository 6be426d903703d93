"""fmin / fmax / fdim / min / max."""
from spec import *
from props.P01 import SFX
def mm(i, o, less):
    x, y = i.x, i.y
    pick_x = z3.fpLT(x.fp, y.fp) if less else z3.fpGT(x.fp, y.fp)
    pick_y = z3.fpGT(x.fp, y.fp) if less else z3.fpLT(x.fp, y.fp)
    return [("value", If(And(x.nan, y.nan), o.r.nan, If(x.nan, o.r.bv == y.bv, If(y.nan, o.r.bv == x.bv, If(pick_x, o.r.bv == x.bv, If(pick_y, o.r.bv == y.bv, Or(o.r.bv == x.bv, o.r.bv == y.bv)))))))]
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            sf = SFX[ty] if cfg == 'K' else ''
            for fn, less in (('fmin', True), ('fmax', False), ('min', True), ('max', False)):
                def ens(i, o, g, less=less): return mm(i, o, less)
                nm = fn + (sf if fn == 'fmax' else '')
                T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty)], "r = ccm::%s(x, y);" % nm, ens, rms=rms_for(cfg, ('RNE', 'RTN')), doc="the lesser/greater operand; the other one when exactly one is NaN; NaN when both are"))
            def ens(i, o, g):
                x, y = i.x, i.y
                d = z3.fpSub(i.rmz if cfg in 'GK' else RNE, x.fp, y.fp)
                return [("value", If(Or(x.nan, y.nan), o.r.nan, If(z3.fpGT(x.fp, y.fp), o.r.fp == d, And(o.r.zero, o.r.sign == 0))))]
            def ens_rm(i, o, g):
                x, y = i.x, i.y
                d = z3.fpSub(i.rmz, x.fp, y.fp)
                return [("value", If(Or(x.nan, y.nan), o.r.nan, If(z3.fpGT(x.fp, y.fp), o.r.fp == d, And(o.r.zero, o.r.sign == 0))))]
            T.append(Target("fdim_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty)], "r = ccm::fdim%s(x, y);" % sf, ens_rm, rms=rms_for(cfg), doc="x - y rounded once when x > y, +0 otherwise, NaN if either is NaN"))
    for s, ty in INTS_ALL:
        for fn, less in (('min', True), ('max', False), ('fmin', True)):
            def ens(i, o, g, less=less, ty=ty):
                lt = (i.x.bv < i.y.bv) if ty in SIGNED else ULT(i.x.bv, i.y.bv)
                return [("value", o.r.bv == (If(lt, i.x.bv, i.y.bv) if less else If(lt, i.y.bv, i.x.bv)))]
            T.append(Target("%s_int_%s" % (fn, s), 'G', [("x", ty), ("y", ty)], [("r", ty)], "r = ccm::%s(x, y);" % fn, ens, samples=60, doc="integral operands"))
        def ens(i, o, g, ty=ty):
            a, b = i2f(ty, i.x, i.rmz), i2f(ty, i.y, i.rmz)
            return [("value", If(z3.fpGT(a, b), o.r.fp == z3.fpSub(i.rmz, a, b), And(o.r.zero, o.r.sign == 0)))]
        T.append(Target("fdim_int_%s" % s, 'G', [("x", ty), ("y", ty)], [("r", "double")], "r = ccm::fdim(x, y);", ens, samples=60, doc="integral operands, as double"))
    MIX = [('int', 'double'), ('float', 'double'), ('double', 'float'), ('long', 'double'), ('float', 'long double'), ('double', 'int')]
    for k, (a, b) in enumerate(MIX):
        ct = 'long double' if 'long double' in (a, b) else 'double'
        for fn, less in (('min', True), ('max', False), ('fmin', True), ('fmax', False)):
            def ens(i, o, g, a=a, b=b, ct=ct, less=less):
                def pr(v, ty): return z3.fpFPToFP(RNE, v.fp, SORT[WIDTH[ct]]) if ty in FLT else i2f(ty, v, i.rmz, ct)
                x, y = pr(i.x, a), pr(i.y, b)
                cx = z3.fpLT(x, y) if less else z3.fpGT(x, y); cy = z3.fpGT(x, y) if less else z3.fpLT(x, y)
                nx, ny = z3.fpIsNaN(x), z3.fpIsNaN(y)
                return [("value", If(And(nx, ny), o.r.nan, If(nx, o.r.fp == y, If(ny, o.r.fp == x, If(cx, o.r.fp == x, If(cy, o.r.fp == y, Or(o.r.fp == x, o.r.fp == y)))))))]
            T.append(Target("%s_mix%d" % (fn, k), 'G', [("x", a), ("y", b)], [("r", ct)], "r = ccm::%s(x, y);" % fn, ens, samples=80, doc="mixed operands %s, %s: in the common type" % (a, b)))
    return T
