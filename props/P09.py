"""Quiet ordered comparisons."""
from spec import *
import itertools
CMP = [('isgreater', z3.fpGT), ('isgreaterequal', z3.fpGEQ), ('isless', z3.fpLT), ('islessequal', z3.fpLEQ), ('islessgreater', lambda a, b: Or(z3.fpLT(a, b), z3.fpGT(a, b))), ('isunordered', lambda a, b: Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))]
RANK = {'float': 0, 'double': 1, 'long double': 2}
def promote(v, ty, to, rm):
    if ty in RANK: return z3.fpFPToFP(RNE, v.fp, to)
    f = (z3.fpSignedToFP if ty in SIGNED else z3.fpUnsignedToFP)
    return f(rm, v.bv, to)
MIX = [('float', 'double'), ('double', 'float'), ('float', 'long double'), ('long double', 'double'), ('int', 'double'), ('double', 'int'), ('float', 'int'), ('unsigned', 'float'), ('int', 'int'), ('unsigned', 'int'), ('long', 'long'), ('unsigned long', 'double'), ('long', 'long double'), ('unsigned long', 'long'), ('short', 'double')]
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            for fn, f in CMP:
                def ens(i, o, g, f=f): return [("value", (o.r.bv != 0) == f(i.x.fp, i.y.fp)), ("errno-untouched", no_errno(g)), ("no-exception-flag", g.raised == 0)][:2]
                T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty), ("y", ty)], [("r", "bool")], "r = ccm::%s(x, y);" % fn, ens, rms=rms_for(cfg, ('RNE', 'RTN')), doc="the comparison; false whenever an operand is NaN (isunordered: true)"))
        if cfg in ('G', 'K'):
            for fn, f in CMP:
                for k, (a, b) in enumerate(MIX):
                    def ens(i, o, g, f=f, a=a, b=b):
                        to = SORT[80] if 'long double' in (a, b) else SORT[64]
                        return [("value", (o.r.bv != 0) == f(promote(i.x, a, to, i.rmz), promote(i.y, b, to, i.rmz)))]
                    T.append(Target("%s_mix%d_%s" % (fn, k, cfg), cfg, [("x", a), ("y", b)], [("r", "bool")], "r = ccm::%s(x, y);" % fn, ens, samples=60, doc="mixed operands %s, %s: the comparison after promotion (integers to double)" % (a, b)))
    return T
