"""pow, hypot, cbrt, tgamma, lgamma: special values (C Annex F) and the sign of a power."""
from spec import *
from lib import int_odd, V
def F(ty, v): return z3.FPVal(v, SORT[WIDTH[ty]])
from sym import FV, isc
def det(ex, I, a):
    """contract of a kernel: its result is a function of its arguments (kernels are pure)"""
    import lib
    if I.ty[0] != 'f': return ex.call_body(ex.mod.func(I.x['callee']), a)
    vals = [BV(x.bv(), x.w) if isinstance(x, FV) else (BVV(int(x), 64) if isc(x) else SX(x, 64)) for x in a]
    k = "ker_" + I.x['callee']; w = I.ty[1]
    if k not in lib.UFS: lib.UFS[k] = z3.Function(k, *[z3.BitVecSort(v.size()) for v in vals], z3.BitVecSort(79 if w == 80 else w))
    r = lib.UFS[k](*vals)
    return ex.Fb(w, mk80(r) if w == 80 else r)
OPQ = {r"^_ZN3ccm8internal4impl\d+(log|log_double|sin|sin_double)_impl(E|I)": det, r"lgamma_detail8stirling": det, r"lgamma_detail16log_gamma_reduce": det, r"lgamma_detail19positive_lfactorial": det}
def nonneg(ex, I, a):
    """contract of the long double power kernels on a positive base: a function of the arguments, never negative"""
    r = V(det(ex, I, a))
    return ex.Fb(80, If(r.nan, r.bv, r.abs_.bv))
POW = {r"powl_bounded_integer": nonneg, r"powl_ld80_general_finite": nonneg}
ASSUMPTIONS = ["the long double kernels powl_bounded_integer and powl_ld80_general_finite are never negative on a positive base (used by pow_sign; sampled natively through its callers only)"]
def quiet(i, names):
    return [Or(Not(v.nan), Extract(v.fb - 1, v.fb - 1, v.frac) == 1) for v in (getattr(i, n) for n in names)]
# Known finding: the long double kernel path of hypot converts its arguments to double first
def beyond(i):
    big = lambda v: And(v.finite, ULE(BVV(16383 + 1023, 15), v.exp))          # at least 2^1023: may round to infinity in double
    return Or(And(big(i.x), i.y.nan), And(big(i.y), i.x.nan))
def known(cfg): return [dict(id='longdouble-hypot-through-double', pred=beyond, witness=dict(x=0x7f008000000000000000, y=0x7fffc000000000000000), rm='RNE')] if cfg in ('KC', 'D') else []
def targets(tier):
    T = []
    for s, ty in FT: add_type(T, s, ty, tier)
    return T
def pow_clauses(ty):
    S = SORT[WIDTH[ty]]
    one = F(ty, 1.0)
    def ens(i, o, g):
        x, y, r = i.x, i.y, o.r
        integer, odd = int_odd(y)
        ax = x.abs_.fp
        xneg, yneg = x.sign == 1, y.sign == 1
        pinf, pzero = And(r.inf, r.sign == 0), And(r.zero, r.sign == 0)
        sgn = If(And(xneg, odd), BVV(1, 1), BVV(0, 1))
        nn = And(Not(x.nan), Not(y.nan))
        return [("exponent-zero", Implies(y.zero, r.fp == one)), ("base-one", Implies(x.fp == one, r.fp == one)),
                ("nan", Implies(And(Or(x.nan, y.nan), Not(y.zero), Not(x.fp == one)), r.nan)),
                ("domain", Implies(And(x.finite, xneg, Not(x.zero), y.finite, Not(integer)), r.nan)),
                ("base-zero", Implies(And(x.zero, y.finite, Not(y.zero)), And(If(yneg, r.inf, r.zero), r.sign == sgn))),
                ("base-infinite", Implies(And(x.inf, y.finite, Not(y.zero)), And(If(yneg, r.zero, r.inf), r.sign == sgn))),
                ("exponent-infinite", Implies(And(y.inf, Not(x.nan)), If(ax == one, r.fp == one, If(z3.fpLT(ax, one) == yneg, pinf, pzero))))]
    return ens
def pow_classes(ty):
    one = F(ty, 1.0)
    rest = lambda i: [Not(i.x.fp == one), Not(i.y.zero)]
    return [("exp-zero", lambda i: [i.y.zero]), ("base-one", lambda i: [i.x.fp == one]), ("base-nan", lambda i: rest(i) + [i.x.nan]), ("exp-nan", lambda i: rest(i) + [i.y.nan, Not(i.x.nan)]),
            ("base-zero", lambda i: rest(i) + [i.x.zero, i.y.finite]), ("base-infinite", lambda i: rest(i) + [i.x.inf, i.y.finite]), ("exp-infinite", lambda i: rest(i) + [i.y.inf, Not(i.x.nan)]),
            ("domain", lambda i: [i.x.finite, i.x.sign == 1, Not(i.x.zero), i.y.finite, Not(int_odd(i.y)[0])])]
def add_type(T, s, ty, tier):
    S = SORT[WIDTH[ty]]
    one, zero = F(ty, 1.0), z3.fpPlusZero(S)
    pinf = z3.fpPlusInfinity(S)
    for cfg in ('G', 'K', 'KC', 'D'):
        through_double = ty == 'long double'
        rms = rms_for(cfg) if tier == 'thorough' else {'G': ('RNE',), 'K': ('RTP',), 'KC': ('RNE',), 'D': ('RTN',)}[cfg]
        def add(nm, args, call, ens, req, doc, **k):
            T.append(Target("%s_%s_%s" % (nm, s, cfg), cfg, [(a, ty) for a in args], [("r", ty)], "r = ccm::%s;" % call, ens, requires=lambda i: req(i) + quiet(i, args), rms=rms, prune=True, doc=doc, inputs_hook=hook(ty, len(args)), **dict(dict(samples=100), **k)))
        if not (cfg == 'D' and through_double):
            for cl, req in pow_classes(ty)[:1] + pow_classes(ty)[2:]:
                add("pow_" + cl.replace("-", "_"), "xy", "pow(x, y)", pow_clauses(ty), req, "the special cases of C Annex F, domain and pole included", samples=40)
        def ens(i, o, g, cfg=cfg):
            x, y, r = i.x, i.y, o.r
            c = [("infinity", Implies(Or(x.inf, y.inf), r.fp == pinf)), ("nan", Implies(And(Or(x.nan, y.nan), Not(x.inf), Not(y.inf)), r.nan))]
            c.append(("zero", Implies(And(x.zero, y.zero), r.fp == zero)))
            if not through_double: c.append(("one-zero", And(Implies(And(x.zero, y.finite), r.fp == y.abs_.fp), Implies(And(y.zero, x.finite), r.fp == x.abs_.fp))))
            return c
        add("hypot_special", "xy", "hypot(x, y)", ens, lambda i: [Or(Not(i.x.finite), Not(i.y.finite), i.x.zero, i.y.zero)] if not through_double else [Or(Not(i.x.finite), Not(i.y.finite), And(i.x.zero, i.y.zero))], "an infinity wins over NaN; |x| when the other argument is zero", known=known(cfg) if through_double else [])
        add("cbrt_special", "x", "cbrt(x)", lambda i, o, g: [("nan", Implies(i.x.nan, o.r.nan)), ("fixed", Implies(Or(i.x.inf, i.x.zero), o.r.fp == i.x.fp))], lambda i: [Or(Not(i.x.finite), i.x.zero)], "keeps zeros and infinities")
        def ens(i, o, g):
            x, r = i.x, o.r
            integer, odd = int_odd(x)
            return [("nan", Implies(x.nan, r.nan)), ("infinity", Implies(x.inf, If(x.sign == 1, r.nan, r.fp == pinf))), ("zero", Implies(x.zero, And(r.inf, r.sign == x.sign))),
                    ("negative-integer", Implies(And(x.sign == 1, integer, Not(x.zero)), r.nan))]
        add("tgamma_special", "x", "tgamma(x)", ens, lambda i: [Or(Not(i.x.finite), i.x.zero, And(i.x.sign == 1, int_odd(i.x)[0]))], "poles, domain and infinities")
        if cfg in ('KC', 'D') and not through_double:
            def ens(i, o, g):
                x = i.x; W = x.fb + 1 + x.eb
                whole = Extract(0, 0, z3.LShR(ZX(Concat(BVV(1, 1), x.frac), W), x.fb - (ZX(x.exp, W) - x.bias)))          # parity of the integral part of |x|
                return [("underflow", And(o.r.zero, o.r.sign == (whole ^ 1)))]
            add("tgamma_left", "x", "tgamma(x)", ens, lambda i: [z3.fpLT(i.x.fp, F(ty, -184.0)), i.x.finite, Not(int_odd(i.x)[0])], "zero with the alternating sign far to the left, without undefined behaviour", kinds=('mem', 'ub', 'cvt', 'trap', 'abort', 'unreachable', 'unwind'))
        neg = lambda i: And(i.x.sign == 1, int_odd(i.x)[0], Not(i.x.zero))
        def ens(i, o, g):
            x, r = i.x, o.r
            return [("nan", Implies(x.nan, r.nan)), ("infinity", Implies(x.inf, r.fp == pinf)), ("pole", Implies(Or(x.zero, neg(i)), r.fp == pinf))]
        add("lgamma_special", "x", "lgamma(x)", ens, lambda i: [Or(Not(i.x.finite), i.x.zero)], "infinite at zero and at the infinities", opaque=OPQ)
        add("lgamma_pole", "x", "lgamma(x)", ens, lambda i: [neg(i)], "infinite at the negative integers", opaque=OPQ)
        T.append(Target("lgamma_zeros_%s_%s" % (s, cfg), cfg, [("x", 'bool')], [("r", ty)], "r = ccm::lgamma(x ? static_cast<%s>(1) : static_cast<%s>(2));" % (ty, ty), lambda i, o, g: [("zero", o.r.zero)], rms=rms, samples=4, prune=True, doc="lgamma(1) and lgamma(2) are zero"))
        if cfg in ('KC', 'D'):
            add("lgamma_integer", "x", "lgamma(x)", lambda i, o, g: [], lambda i: [i.x.sign == 0, int_odd(i.x)[0], i.x.fp != zero], "every positive integral argument is handled without undefined behaviour", opaque=OPQ, kinds=('mem', 'ub', 'cvt', 'trap', 'abort', 'unreachable', 'unwind'))
        if not (cfg == 'D' and through_double):
            T.append(Target("pow_base_one_%s_%s" % (s, cfg), cfg, [("y", ty)], [("r", ty)], "r = ccm::pow(static_cast<%s>(1), y);" % ty, lambda i, o, g: [("base-one", o.r.fp == one)], requires=lambda i: quiet(i, "y"), rms=rms, samples=40, prune=True, doc="1 to any power, NaN included", inputs_hook=hook(ty)))
        if through_double and (cfg in ('K', 'KC') or tier == 'thorough') and cfg != 'D':
            def ens(i, o, g):
                integer, odd = int_odd(i.y)
                return [("sign", Implies(And(integer, Not(o.r.nan), Not(o.s.nan)), o.s.sign == (o.r.sign ^ If(odd, BVV(1, 1), BVV(0, 1)))))]
            T.append(Target("pow_sign_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty), ("s", ty)], "r = ccm::pow(x, y); s = ccm::pow(-x, y);", ens, requires=lambda i: [i.x.sign == 0, Not(i.x.nan), Not(i.y.nan), i.y.finite, i.x.finite, Not(i.x.zero), Not(i.y.zero)], rms=rms, samples=200, prune=True, opaque=POW, doc="a negative base changes the sign of odd powers only, overflow and underflow included", inputs_hook=hook(ty, 2)))
def hook(ty, n=1):
    def one(rng):
        eb, fb = {'float': (8, 23), 'double': (11, 52), 'long double': (15, 63)}[ty]
        bias = (1 << (eb - 1)) - 1
        k = rng.randrange(10)
        if k >= 7:                       # an integer or a half-integer, often odd, of any magnitude
            u = rng.choice([0, 1, 2, 3, fb - 1, fb, fb + 1, rng.randrange(0, fb + 3)])
            f = rng.getrandbits(fb); keep = min(u + rng.choice([0, 0, 1]), fb)
            f = f >> (fb - keep) << (fb - keep) if keep else 0
            e = bias + u
        else: e, f = [(0, 0), ((1 << eb) - 1, 0), ((1 << eb) - 1, rng.getrandbits(fb) | 1 << (fb - 1)), (bias, 0), (bias + 1, 0), (rng.randrange(1, (1 << eb) - 1), rng.getrandbits(fb)), (0, rng.getrandbits(fb))][k]
        b = (rng.getrandbits(1) << (eb + fb)) | (e << fb) | f
        return fix80(b) if ty == 'long double' else b
    return lambda rng: [one(rng) for _ in range(n)]
