"""overload families: every spelling of a function is the same function"""
from spec import *
ASSUMPTIONS = ["a call of a libm function or compiler builtin twice with the same argument and rounding mode gives the same result"]
CHUNK = 24
INTS = [('i', 'int'), ('u', 'unsigned'), ('j', 'long'), ('m', 'unsigned long'), ('h', 'short'), ('a', 'signed char'), ('x', 'long long'), ('y', 'unsigned long long'), ('b', 'bool')]
#       name        suffixed  integral
UN = [('exp', 1, 1), ('exp2', 1, 1), ('expm1', 1, 1), ('log', 1, 1), ('log2', 1, 1), ('log10', 1, 1), ('log1p', 1, 1),
      ('sin', 1, 1), ('cos', 1, 1), ('tan', 1, 1), ('asin', 1, 1), ('acos', 1, 1), ('atan', 1, 1), ('sqrt', 1, 1), ('cbrt', 1, 0),
      ('tgamma', 1, 1), ('gamma', 0, 1), ('lgamma', 1, 1), ('floor', 1, 1), ('ceil', 1, 1), ('trunc', 1, 1), ('round', 1, 1), ('rint', 1, 1), ('nearbyint', 1, 1),
      ('fabs', 1, 1), ('logb', 1, 0), ('nextup', 1, 1), ('nextdown', 1, 1)]
BIN = [('fdim', 1, 1), ('fmod', 1, 1), ('remainder', 1, 1), ('copysign', 1, 1), ('pow', 1, 1), ('hypot', 1, 0), ('atan2', 1, 0), ('nextafter', 1, 1)]
def det(ex, I, a):
    """contract of a kernel that both spellings end in: its result is a function of its arguments (kernels are pure)"""
    import lib
    name = I.x['callee']
    if I.ty[0] != 'f' or any(not isinstance(x, FV) for x in a): return ex.call_body(ex.mod.func(name), a)
    k = "ker_" + name
    vals = [BV(x.bv(), x.w) for x in a]; w = I.ty[1]
    if k not in lib.UFS: lib.UFS[k] = z3.Function(k, *[z3.BitVecSort(v.size()) for v in vals], z3.BitVecSort(79 if w == 80 else w))
    r = lib.UFS[k](*vals)
    return ex.Fb(w, mk80(r) if w == 80 else r)
KER = "(exp|exp2|expm1|log|log2|log10|log1p|sin|cos|tan|asin|acos|atan|atan2|cbrt|hypot|gamma|lgamma)"
OPQ = {r"^_ZN3ccm8internal4impl\d+%s(_float|_double|)_impl(E|I)" % KER: det, r"(?#heavy)^_ZN3ccm3gen7pow_gen(E|I)": det, r"^_ZN3ccm3gen8sqrt_gen(E|I)": det, r"^_ZN3ccm3gen(8fmod_gen|13remainder_gen)I": det}
def same(i, o, g): return [("same-value", Or(o.r.bv == o.s.bv, And(o.r.nan, o.s.nan))), ("result-type", o.t.bool)]
def targets(tier):
    T = []
    for cfg in ('G', 'KC') if tier == 'quick' else ('G', 'GC', 'K', 'KC', 'D'):
        for fn, sfx, integ in UN:
            kw = dict(rms=("RNE", "RTP") if cfg == "G" else ("RNE",), kinds=(), samples=40, prune=True, solver=dict(ms=4000), timeout=30, opaque=OPQ)
            if sfx:
                for c, ty in (('f', 'float'), ('l', 'long double')):
                    T.append(Target("%s%s_%s" % (fn, c, cfg), cfg, [("x", ty)], [("r", ty), ("s", ty), ("t", "bool")], "auto q = ccm::%s%s(x); r = q; s = ccm::%s(x); t = std::is_same_v<decltype(q), %s>;" % (fn, c, fn, ty), same, doc="%s%s is %s at %s" % (fn, c, fn, ty), **kw))
            if integ:
                for c, ty in INTS if cfg == 'G' else INTS[:3]:
                    T.append(Target("%s_int_%s_%s" % (fn, c, cfg), cfg, [("x", ty)], [("r", "double"), ("s", "double"), ("t", "bool")], "auto q = ccm::%s(x); r = q; s = ccm::%s(static_cast<double>(x)); t = std::is_same_v<decltype(q), double>;" % (fn, fn), same, doc="%s of %s converts to double" % (fn, ty), **kw))
        for fn, sfx, integ in BIN:
            kw = dict(rms=("RNE", "RTP") if cfg == "G" else ("RNE",), kinds=(), samples=40, prune=True, solver=dict(ms=4000), timeout=30, opaque=OPQ)
            if sfx:
                for c, ty in (('f', 'float'), ('l', 'long double')):
                    T.append(Target("%s%s_%s" % (fn, c, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty), ("s", ty), ("t", "bool")], "auto q = ccm::%s%s(x, y); r = q; s = ccm::%s(x, y); t = std::is_same_v<decltype(q), %s>;" % (fn, c, fn, ty), same, doc="%s%s is %s at %s" % (fn, c, fn, ty), **kw))
            if integ:
                for c, ty in INTS if cfg == 'G' else INTS[:3]:
                    T.append(Target("%s_int_%s_%s" % (fn, c, cfg), cfg, [("x", ty), ("y", ty)], [("r", "double"), ("s", "double"), ("t", "bool")], "auto q = ccm::%s(x, y); r = q; s = ccm::%s(static_cast<double>(x), static_cast<double>(y)); t = std::is_same_v<decltype(q), double>;" % (fn, fn), same, doc="%s of %s converts to double" % (fn, ty), **kw))
        add_other(T, cfg)
    return T
MIXED = [('int', 'double'), ('double', 'int'), ('float', 'int'), ('float', 'double'), ('double', 'float'), ('long', 'float'), ('int', 'long double'), ('float', 'long double'), ('int', 'int'), ('unsigned long', 'short')]
def prom(a, b):
    a, b = [x if x in FLT else 'double' for x in (a, b)]
    return 'long double' if 'long double' in (a, b) else 'double' if 'double' in (a, b) else 'float'
def add_other(T, cfg):
    kw = dict(rms=("RNE", "RTP") if cfg == "G" else ("RNE",), kinds=(), samples=40, prune=True, solver=dict(ms=4000), timeout=30, opaque=OPQ)
    def both(nm, args, ty, call, ref, doc, extra=''):
        T.append(Target("%s_%s" % (nm, cfg), cfg, args, [("r", ty), ("s", ty), ("t", "bool")], "auto q = %s; r = q; s = %s; t = std::is_same_v<decltype(q), %s>;" % (call, ref, ty), same, doc=doc, **kw))
    for k, (a, b) in enumerate(MIXED):
        ty = prom(a, b)
        both("pow_mixed%d" % k, [("x", a), ("y", b)], ty, "ccm::pow(x, y)", "ccm::pow<%s>(static_cast<%s>(x), static_cast<%s>(y))" % (ty, ty, ty), "pow(%s, %s) is pow in the promoted type %s" % (a, b, ty))
        if a in FLT and b in FLT: both("fdim_mixed%d" % k, [("x", a), ("y", b)], ty, "ccm::fdim(x, y)", "ccm::fdim(static_cast<%s>(x), static_cast<%s>(y))" % (ty, ty), "fdim(%s, %s) is fdim in %s" % (a, b, ty))
    for c, ty in (('f', 'float'), ('l', 'long double')):
        X = [("x", ty)]
        both("ldexp" + c, X + [("n", "int")], ty, "ccm::ldexp%s(x, n)" % c, "ccm::ldexp(x, n)", "suffix")
        both("scalbn" + c, X + [("n", "int")], ty, "ccm::scalbn%s(x, n)" % c, "ccm::scalbn(x, n)", "suffix")
        both("scalbln" + c, X + [("n", "long")], ty, "ccm::scalbln%s(x, n)" % c, "ccm::scalbln(x, n)", "suffix")
        both("nexttoward" + c, X + [("y", "long double")], ty, "ccm::nexttoward%s(x, y)" % c, "ccm::nexttoward(x, y)", "suffix")
        both("fma" + c, X + [("y", ty), ("z", ty)], ty, "ccm::fma%s(x, y, z)" % c, "ccm::fma(x, y, z)", "suffix") if cfg == 'G' else None
        T.append(Target("ilogb%s_%s" % (c, cfg), cfg, X, [("r", "int"), ("s", "int")], "r = ccm::ilogb%s(x); s = ccm::ilogb(x);" % c, lambda i, o, g: [("same-value", o.r.bv == o.s.bv)], doc="suffix", **kw))
        for nm, pt in (('frexp', 'int'), ('modf', ty)):
            def ens(i, o, g, pt=pt):
                e = o.m.bv == o.n.bv
                return [("same-value", Or(o.r.bv == o.s.bv, And(o.r.nan, o.s.nan))), ("same-part", e if pt == 'int' else Or(e, And(o.m.nan, o.n.nan)))]
            T.append(Target("%s%s_%s" % (nm, c, cfg), cfg, X, [("r", ty), ("s", ty), ("m", pt), ("n", pt)], "m = n = 0; r = ccm::%s%s(x, &m); s = ccm::%s(x, &n);" % (nm, c, nm), ens, doc="suffix", **kw))
        if cfg == 'G':
            for m in ('remquo',):
                ref = "ccm::remquo<double>(static_cast<double>(x), static_cast<double>(y), &n)" if c == 'l' else "ccm::remquo(x, y, &n)"
                T.append(Target("%s%s_%s" % (m, c, cfg), cfg, X + [("y", ty)], [("r", ty), ("s", ty), ("m", 'int'), ("n", 'int')], "m = n = 0; r = ccm::remquo%s(x, y, &m); s = %s;" % (c, ref), lambda i, o, g: [("same-value", Or(o.r.bv == o.s.bv, And(o.r.nan, o.s.nan))), ("same-quotient", o.m.bv == o.n.bv)], doc="suffix", **kw))
    for c, ity in INTS[:3]:
        both("ldexp_int_" + c, [("x", ity), ("n", "int")], "double", "ccm::ldexp(x, n)", "ccm::ldexp(static_cast<double>(x), n)", "integral argument")
        both("scalbn_int_" + c, [("x", ity), ("n", "int")], "double", "ccm::scalbn(x, n)", "ccm::scalbn(static_cast<double>(x), n)", "integral argument")
        both("scalbln_int_" + c, [("x", ity), ("n", "long")], "double", "ccm::scalbln(x, n)", "ccm::scalbln(static_cast<double>(x), n)", "integral argument")
        both("nexttoward_int_" + c, [("x", ity), ("y", "long double")], "double", "ccm::nexttoward(x, y)", "ccm::nexttoward(static_cast<double>(x), y)", "integral argument")
        if cfg == 'G':
            T.append(Target("remquo_int_%s_%s" % (c, cfg), cfg, [("x", ity), ("y", ity)], [("r", "double"), ("s", "double"), ("m", 'int'), ("n", 'int')], "m = n = 0; r = ccm::remquo(x, y, &m); s = ccm::remquo(static_cast<double>(x), static_cast<double>(y), &n);", lambda i, o, g: [("same-value", Or(o.r.bv == o.s.bv, And(o.r.nan, o.s.nan))), ("same-quotient", o.m.bv == o.n.bv)], doc="integral arguments", **kw))
