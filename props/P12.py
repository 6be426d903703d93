"""Integer helpers of ccm::ext."""
from spec import *
H = ('ccmath/ccmath.hpp',) + tuple('ccmath/ext/%s.hpp' % x for x in ('abs_diff', 'align', 'ceil_div', 'is_power_of_two', 'sign', 'step', 'clamp'))
IT = tuple(x for x in INTS_ALL if x[0] not in ('ll', 'ull'))
def lt(ty, a, b): return (a < b) if ty in SIGNED else ULT(a, b)
def le(ty, a, b): return (a <= b) if ty in SIGNED else ULE(a, b)
def ext(ty, v, w): return z3.SignExt(w - v.size(), v) if ty in SIGNED else z3.ZeroExt(w - v.size(), v)
def pop1(bv, w): return And(bv != 0, (bv & (bv - 1)) == 0)
def targets(tier):
    T = []
    def add(nm, args, out, body, ens, req=None, doc='', cfgs=('G', 'K')):
        for c in cfgs: T.append(Target("ext_%s_%s" % (nm, c), c, args, [("r", out)], body, ens, requires=req, headers=H, samples=60, doc=doc))
    for s, ty in IT:
        w = WIDTH[ty]; sg = ty in SIGNED
        def ens(i, o, g, ty=ty, w=w):
            d = ext(ty, i.x.bv, w + 2) - ext(ty, i.y.bv, w + 2); m = If(d < 0, -d, d)
            return [("value", ext(ty, o.r.bv, w + 2) == m)]
        def req(i, ty=ty, w=w):
            d = ext(ty, i.x.bv, w + 2) - ext(ty, i.y.bv, w + 2); m = If(d < 0, -d, d)
            return [ULE(m, BVV((1 << (w - 1 if ty in SIGNED else w)) - 1, w + 2))]
        add("abs_diff_" + s, [("x", ty), ("y", ty)], ty, "r = ccm::ext::abs_diff(x, y);", ens, req, "|x - y| whenever it is representable")
        for al in (1, 8, 64) + ((4096,) if w > 16 else ()):
            def dn(i, o, g, ty=ty, w=w, al=al):
                a, r = ext(ty, i.x.bv, w + 2), ext(ty, o.r.bv, w + 2)
                return [("multiple", (o.r.bv & (al - 1)) == 0), ("below", And(r <= a, a - r < al))]
            def up(i, o, g, ty=ty, w=w, al=al):
                a, r = ext(ty, i.x.bv, w + 2), ext(ty, o.r.bv, w + 2)
                return [("multiple", (o.r.bv & (al - 1)) == 0), ("above", And(r >= a, r - a < al))]
            def rq(i, ty=ty, w=w, al=al): 
                mx = (1 << (w - 1 if ty in SIGNED else w)) - 1
                return [le(ty, i.x.bv, BVV(mx - (al - 1), w))] if al > 1 else []
            add("align_down%d_%s" % (al, s), [("x", ty)], ty, "r = ccm::ext::align_down<%s, %d>(x);" % (ty, al), dn, None, "greatest multiple of the alignment not above x")
            add("align_up%d_%s" % (al, s), [("x", ty)], ty, "r = ccm::ext::align_up<%s, %d>(x);" % (ty, al), up, rq, "least multiple of the alignment not below x, when x plus alignment minus one is representable")
        W = max(32, w)
        def cd(i, o, g, ty=ty, w=w, W=W):
            a, b = ext(ty, i.x.bv, W), ext(ty, i.y.bv, W)
            q, r = (a / b, z3.SRem(a, b)) if ty in SIGNED else (z3.UDiv(a, b), z3.URem(a, b))
            up = And(r != 0, ((r < 0) == (b < 0)) if ty in SIGNED else z3.BoolVal(True))
            return [("value", o.r.bv == Extract(w - 1, 0, q + If(up, BVV(1, W), BVV(0, W))))]
        rq = lambda i, ty=ty, w=w: [i.y.bv != 0] + ([Or(i.x.bv != BVV(1 << (w - 1), w), i.y.bv != BVV((1 << w) - 1, w))] if ty in SIGNED else [])
        add("ceil_div_" + s, [("x", ty), ("y", ty)], ty, "r = ccm::ext::ceil_div(x, y);", cd, rq, "ceiling of the quotient, for a nonzero divisor and a representable quotient")
        def sd(i, o, g, f=cd): return [("zero", Implies(i.y.bv == 0, o.r.bv == 0)), ("value", Implies(i.y.bv != 0, f(i, o, g)[0][1]))]
        add("safe_ceil_div_" + s, [("x", ty), ("y", ty)], ty, "r = ccm::ext::safe::ceil_div(x, y);", sd, (lambda i, w=w: [Or(i.x.bv != BVV(1 << (w - 1), w), i.y.bv != BVV((1 << w) - 1, w))]) if sg else None, "as ceil_div, 0 for a zero divisor")
        def sign(i, o, g, ty=ty, w=w): return [("value", o.r.bv == If(i.x.bv == 0, BVV(0, w), If((i.x.bv < 0) if ty in SIGNED else z3.BoolVal(False), BVV((1 << w) - 1, w), BVV(1, w))))]
        add("sign_" + s, [("x", ty)], ty, "r = ccm::ext::sign(x);", sign, None, "-1, 0 or 1")
        def step(i, o, g, ty=ty, w=w): return [("value", o.r.bv == If(lt(ty, i.y.bv, i.x.bv), BVV(0, w), BVV(1, w)))]
        add("step_" + s, [("x", ty), ("y", ty)], ty, "r = ccm::ext::step(x, y);", step, None, "0 below the edge, 1 from it on")
        def cl(i, o, g, ty=ty): return [("value", o.r.bv == If(lt(ty, i.v.bv, i.lo.bv), i.lo.bv, If(lt(ty, i.hi.bv, i.v.bv), i.hi.bv, i.v.bv)))]
        add("clamp_" + s, [("v", ty), ("lo", ty), ("hi", ty)], ty, "r = ccm::ext::clamp(v, lo, hi);", cl, lambda i, ty=ty: [le(ty, i.lo.bv, i.hi.bv)], "v held to [lo, hi]")
        def p2(i, o, g, w=w, sg=sg): return [("value", (o.r.bv != 0) == And(pop1(i.x.bv, w), (i.x.bv > 0) if sg else z3.BoolVal(True)))]
        if w >= 16:
            if not sg: add("ispow2_" + s, [("x", ty)], "bool", "r = ccm::ext::is_power_of_two(x) && ccm::ext::ispow2(x);", p2, None, "exactly one bit set")
            else: add("ispow2_" + s, [("x", ty)], "bool", "r = ccm::ext::is_power_of_two(x);", p2, lambda i, w=w: [i.x.bv != BVV(1 << (w - 1), w)], "positive power of two (the minimum value is excluded by the documentation)")
            add("safe_ispow2_" + s, [("x", ty)], "bool", "r = ccm::ext::safe::is_power_of_two(x) && ccm::ext::safe::ispow2(x);", p2, None, "positive power of two, for every value")
    return T
