"""nextafter / nexttoward / nextup / nextdown: adjacent representable values."""
from spec import *
from props.P01 import SFX
def targets(tier):
    T = []
    for cfg in ('G', 'GC', 'K', 'KC'):
        for s, ty in FT:
            sf = SFX[ty] if cfg == 'K' else ''
            def ens(i, o, g): 
                sp = nextafter_spec(i.x, i.y)
                return [("value", If(Or(i.x.nan, i.y.nan), o.r.nan, o.r.bv == sp))]
            T.append(Target("nextafter_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty)], "r = ccm::nextafter%s(x, y);" % sf, ens, rms=rms_for(cfg), doc="the representable value next to x in the direction of y; y when they compare equal; NaN if either is NaN"))
            T.append(Target("nexttoward_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", "long double")], [("r", ty)], "r = ccm::nexttoward%s(x, y);" % sf, ens, rms=rms_for(cfg), doc="as nextafter with a long double direction"))
            for fn, f in (('nextup', next_up_bits), ('nextdown', next_down_bits)):
                def ens(i, o, g, f=f): return [("value", If(i.x.nan, o.r.nan, o.r.bv == f(i.x).bv))]
                T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::%s%s(x);" % (fn, sf), ens, rms=rms_for(cfg), doc="the least value above / greatest value below x (infinity maps to itself outward)"))
    return T
