"""Specification vocabulary shared by the property modules."""
import z3
from sym import *
from core import *
And, Or, Not, Implies, If, Extract, Concat, ULT, ULE, UGT, UGE, LShR = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Extract, z3.Concat, z3.ULT, z3.ULE, z3.UGT, z3.UGE, z3.LShR
FT = (('f', 'float'), ('d', 'double'), ('l', 'long double'))
FDT = FT[:2]
def BVV(v, w): return z3.BitVecVal(v, w)
def ZX(x, w): return z3.ZeroExt(w - x.size(), x) if w > x.size() else x
def SX(x, w): return z3.SignExt(w - x.size(), x) if w > x.size() else x
def same(a, bv):
    """bitwise equal, where `a` is Val and bv another Val"""
    return a.bv == bv.bv
def eq_or_nan(a, fp):
    """result Val `a` is the value fp (sign of zero included; any NaN for a NaN)"""
    return z3.If(z3.fpIsNaN(fp), a.nan, a.fp == fp)
def fpval(sort, x): return z3.FPVal(x, sort)
def bits_of(ty, s, e, f):
    """Val from sign/exp/frac bit-vectors (adds the x87 integer bit)"""
    if ty == 'long double':
        one = z3.If(e != 0, BVV(1, 1), BVV(0, 1))
        return Val(ty, z3.Concat(s, e, one, f))
    return Val(ty, z3.Concat(s, e, f))
def const_f(ty, s, e, f):
    eb, fb = {'float': (8, 23), 'double': (11, 52), 'long double': (15, 63)}[ty]
    return bits_of(ty, BVV(s, 1), BVV(e, eb), BVV(f, fb))
def fcfgs(ty):
    return ()
def no_errno(gh): return gh.errno == gh.errno_in
ALLRM = ('RNE', 'RTN', 'RTP', 'RTZ')
def rms_for(cfg, rms=ALLRM):
    return ('RNE',) if cfg.startswith(('KC', 'GC')) else rms
CE_MODE = {'KC': RNE, 'KC_DN': RTN, 'KC_UP': RTP, 'KC_TZ': RTZ}
def eff_rm(cfg, i):
    """rounding mode in force: the configured one in constant evaluation, the dynamic one at run time"""
    return CE_MODE[cfg] if cfg.startswith('KC') else i.rmz
INTS = (('i', 'int'), ('u', 'unsigned'), ('q', 'long'), ('uq', 'unsigned long'))
INTS_ALL = INTS + (('h', 'short'), ('b', 'signed char'), ('ub', 'unsigned char'), ('uh', 'unsigned short'), ('ll', 'long long'), ('ull', 'unsigned long long'))
def i2f(ty_int, val, rm, ty='double'):
    f = z3.fpSignedToFP if ty_int in SIGNED else z3.fpUnsignedToFP
    return f(rm, val.bv, SORT[WIDTH[ty]])
def clz_spec(bv, w):
    """number of leading zero bits of bv (w bits), w if zero, as a 16-bit term"""
    r = BVV(w, 16)
    for i in range(w): r = z3.If(z3.Extract(i, i, bv) == 1, BVV(w - 1 - i, 16), r)
    return r
def unbiased(v):
    """for a nonzero finite Val: (exponent of the leading bit as 32-bit term, fraction bits below the leading bit)"""
    n = clz_spec(v.frac, v.fb)
    n32 = z3.ZeroExt(16, n)
    nf = v.frac << (ZX(n, v.fb) + 1 if v.fb >= 16 else None)
    e = z3.If(v.exp == 0, BVV(0, 32) - n32 - BVV(v.bias, 32), z3.ZeroExt(32 - v.eb, v.exp) - BVV(v.bias, 32))
    f = z3.If(v.exp == 0, nf, v.frac)
    return e, f
def T_(v): return v
def nan_or(cond_nan, a, other): return If(cond_nan, a.nan, other)
def scale_fp(v, e32, rm):
    """mathematically v * 2^e rounded once in mode rm (v: float Val, e32: signed 32-bit term), via a wide exponent format"""
    eb = v.eb + 3
    W = z3.FPSort(eb, v.fb + 1)
    w = z3.fpFPToFP(RNE, v.fp, W)                      # exact
    lim = 3 << (v.eb + 0)                               # beyond every finite result
    ec = If(e32 > lim, BVV(lim, 32), If(e32 < -lim, BVV(-lim & 0xffffffff, 32), e32))
    # wide encoding of v: compute exponent field directly from the input bits
    ue, uf = unbiased(v)
    wbias = (1 << (eb - 1)) - 1
    we = z3.Extract(eb - 1, 0, ue + ec + wbias)
    wv = z3.fpBVToFP(z3.Concat(v.sign, we, uf), W)
    r = z3.fpFPToFP(rm, wv, v.fp.sort())
    return If(Or(v.zero, Not(v.finite)), v.fp, r)
def next_up_bits(v):
    """representation of the least value greater than v (v not NaN), as Val"""
    w = v.w
    if w == 80:
        c = Concat(v.sign, v.exp, v.frac); n = 79
    else: c = v.bv; n = w
    inf = ((1 << v.eb) - 1) << v.fb
    r = If(v.zero, BVV(1, n), If(And(v.inf, v.sign == 0), c, If(v.sign == 0, c + 1, c - 1)))
    r = If(And(v.sub, v.sign == 1, v.frac == 1), BVV(1 << (n - 1), n), r)
    if w == 80:
        from sym import mk80
        return Val(v.ty, mk80(r))
    return Val(v.ty, r)
def negated(v):
    return Val(v.ty, v.bv ^ BVV(1 << (v.w - 1), v.w))
def next_down_bits(v):
    return negated(next_up_bits(negated(v)))

def nextafter_spec(x, y):
    """C nextafter/nexttoward: bits of the result (x returned when x is NaN, y's NaN converted is any NaN)"""
    fx, fy = x.fp, y.fp
    if x.w != y.w:
        fx = z3.fpFPToFP(RNE, fx, fy.sort())           # exact widening
        yv = Val(x.ty, 0); ybits = None
    eqb = y.bv if x.w == y.w else If(y.zero, bits_of(x.ty, y.sign, BVV(0, x.eb), BVV(0, x.fb)).bv, x.bv)
    qn = const_f(x.ty, 0, (1 << x.eb) - 1, 1 << (x.fb - 1)).bv
    return If(x.nan, x.bv, If(y.nan, y.bv if x.w == y.w else qn, If(z3.fpEQ(fx, fy), eqb,
           If(x.zero, bits_of(x.ty, y.sign, BVV(0, x.eb), BVV(1, x.fb)).bv,
              If(z3.fpLT(fx, fy), next_up_bits(x).bv, next_down_bits(x).bv)))))

def jam_right(x, n):
    """x >> n with every bit shifted out or-ed into the lowest bit (n: term of x's width)"""
    w = x.size()
    s = LShR(x, n)
    lost = (s << n) != x
    lost = If(ULT(n, BVV(w, w)), lost, x != 0)
    return If(ULT(n, BVV(w, w)), s, BVV(0, w)) | If(lost, BVV(1, w), BVV(0, w))
def round_spec(eb, fb, sg, base, M, sticky, rm):
    """IEEE rounding of (-1)^sg * m * 2^base for the W-bit integer M with its top bit set, m = M, or M < m < M + 1 when sticky;
    base is a signed 32-bit term.  (exponent field, fraction field)"""
    bias = (1 << (eb - 1)) - 1; emax = (1 << eb) - 1; p = fb + 1; W = M.size(); E = 32
    re = base + (W - 1) + bias                             # biased exponent of the leading bit
    sub = re <= 0
    sh = If(sub, 1 - re, BVV(0, E))
    big = UGE(sh, BVV(W, E))
    k = If(big, BVV(W - 1, W), ZX(sh, W) if W >= E else Extract(W - 1, 0, sh))
    sr = LShR(M, k)
    V = If(big, BVV(0, W), sr)
    # round bit and the bits below it: of V, together with those the subnormal shift drops
    dropped = Or(And(Not(big), (sr << k) != M), big)       # the leading bit of M is set, so a full shift always drops something
    G = And(Not(big), Extract(W - p - 1, W - p - 1, V) == 1)
    T = Or(sticky, dropped, And(Not(big), Extract(W - p - 2, 0, V) != 0))
    F = Extract(W - 1, W - p, V)
    lsb = Extract(0, 0, F) == 1
    neg = sg == 1
    up = {'RNE': And(G, Or(T, lsb)), 'RTZ': z3.BoolVal(False), 'RTP': And(Not(neg), Or(G, T)), 'RTN': And(neg, Or(G, T))}[rm]
    R = Concat(If(sub, BVV(0, E), re), Extract(fb - 1, 0, F)) + If(up, BVV(1, E + fb), BVV(0, E + fb))
    over = UGE(Extract(E + fb - 1, fb, R), BVV(emax, E))
    infv = {'RNE': z3.BoolVal(True), 'RTZ': z3.BoolVal(False), 'RTP': Not(neg), 'RTN': neg}[rm]
    return (If(over, If(infv, BVV(emax, eb), BVV(emax - 1, eb)), Extract(fb + eb - 1, fb, R)),
            If(over, If(infv, BVV(0, fb), BVV(mask(fb), fb)), Extract(fb - 1, 0, R)))
def fma_parts(eb, fb, v):
    s, e, f = v; emax = (1 << eb) - 1; bias = (1 << (eb - 1)) - 1
    return dict(s=s, nan=And(e == emax, f != 0), inf=And(e == emax, f == 0), zero=And(e == 0, f == 0), m=Concat(If(e == 0, BVV(0, 1), BVV(1, 1)), f),
                e=ZX(If(e == 0, BVV(1, eb), e), 32) - BVV(bias + fb, 32))          # value = m * 2^e
def ext32(n, N):
    """non-negative 32-bit n as an N-bit shift amount"""
    return ZX(n, N) if N >= 32 else If(n >= N, BVV(N, N), Extract(N - 1, 0, n))
def left(m, W, N):
    """(m as an N-bit value whose leading bit is moved to position W - 1, leading zeros of m within its own width as a 32-bit term)"""
    n = m.size(); z = ZX(clz_spec(m, n), 32)
    return ZX(m, N) << ext32(z + (W - n), N), z
def low_bits(v, n):
    """one of the n lowest bits of v is set (n a 32-bit term)"""
    N = v.size()
    return And(n > 0, If(n >= N, v != 0, (v & ((BVV(1, N) << ext32(n, N)) - 1)) != 0))
def fma_bits(eb, fb, X, Y, Z, rm, mul, W=None, rnd=None, N=None, trace=None):
    """IEEE 754 fusedMultiplyAdd on encodings without an explicit integer bit: X, Y, Z = (sign, exp, frac) terms; result as the same
    triple plus a flag for a NaN result.  Exact product and addend, both with the leading bit at position W - 1, W = 4p; the one with the
    smaller exponent shifted down to the other's scale (lost bits only as a sticky flag: then the other one has 2p zero low bits); added;
    normalised; rounded once.  N > W + 1: width of the integers used."""
    emax = (1 << eb) - 1; p = fb + 1; W = W or 4 * p; N = N or W + 2
    x, y, z = [fma_parts(eb, fb, v) for v in (X, Y, Z)]
    ps = x['s'] ^ y['s']
    P = mul(x['m'], y['m'])                                 # 2p bits
    A0, za = left(P, W, N); B0, zb = left(z['m'], W, N)
    pt = x['e'] + y['e'] + (2 * p - 1) - za                 # exponents of the leading bits
    zt = z['e'] + (p - 1) - zb
    def down(v, n): return If(n >= N, BVV(0, N), LShR(v, ext32(n, N))), low_bits(v, n)
    zz = z['zero']
    pg = And(pt > zt, Not(zz)); zg = And(zt > pt, Not(zz))
    Bs, bl = down(B0, pt - zt); As, al = down(A0, zt - pt)
    A = If(zg, As, A0); sa = And(zg, al)
    B = If(zz, BVV(0, N), If(pg, Bs, B0)); sb = And(pg, bl)
    base = If(zg, zt, pt) - (W - 1)
    same = Or(zz, ps == z['s']); one = BVV(1, N)
    # same sign
    S = A + B; c = LShR(S, W) != 0; st = Or(sa, sb)
    M1 = If(c, LShR(S, 1), S); k1 = Or(st, And(c, Extract(0, 0, S) == 1)); b1 = base + If(c, BVV(1, 32), BVV(0, 32))
    # opposite sign: (A, sa) against (B, sb), each standing for a value in [v, v + 1) when its sticky flag is set
    agt = Or(UGT(A, B), And(A == B, sa, Not(sb)))
    bgt = Or(UGT(B, A), And(A == B, sb, Not(sa)))
    D = If(agt, A - B - If(sb, one, 0 * one), B - A - If(sa, one, 0 * one))
    zd = ZX(clz_spec(D, N), 32) - (N - W)
    M2 = D << ext32(zd, N); b2 = base - zd
    sg = If(same, ps, If(agt, ps, z['s']))
    M, k, b = Extract(W - 1, 0, If(same, M1, M2)), If(same, k1, st), If(same, b1, b2)
    exact0 = And(Not(same), Not(agt), Not(bgt))
    if trace is not None: trace.update(P=P, A0=A0, mz=z['m'], B0=B0, D=D, same=same, exact0=exact0, sp=Or(*[q[j] for q in (x, y, z) for j in ('nan', 'inf')] + [x['zero'], y['zero']]))
    re_, rf_ = (rnd or round_spec)(eb, fb, sg, b, M, k, rm)
    zs = If(ps == z['s'], ps, BVV(1 if rm == 'RTN' else 0, 1))               # exact zero sum
    nan = Or(x['nan'], y['nan'], z['nan'], And(x['inf'], y['zero']), And(x['zero'], y['inf']), And(Or(x['inf'], y['inf']), z['inf'], ps != z['s']))
    inf = Or(x['inf'], y['inf'], z['inf']); isx = Or(x['inf'], y['inf'])
    pz = Or(x['zero'], y['zero'])
    s = If(inf, If(isx, ps, z['s']), If(And(pz, zz), zs, If(pz, z['s'], If(exact0, zs, sg))))
    e = If(inf, BVV(emax, eb), If(pz, Z[1], If(exact0, BVV(0, eb), re_)))
    f = If(inf, BVV(0, fb), If(pz, Z[2], If(exact0, BVV(0, fb), rf_)))
    return nan, s, e, f
def mul2p(a, b):
    n = a.size() + b.size()
    return ZX(a, n) * ZX(b, n)
def fma_spec(x, y, z, rm, mul=mul2p, W=None, rnd=None, N=None, trace=None):
    """(NaN result, Val) for Vals x, y, z of one type"""
    nan, s, e, f = fma_bits(x.eb, x.fb, *[(v.sign, v.exp, v.frac) for v in (x, y, z)], rm, mul, W, rnd, N, trace)
    return nan, bits_of(x.ty, s, e, f)

def fma_cases(vx, vy, vz, mul, W, N, split=False):
    """case split of fma_spec: special operands, zero addend, signs and order of the leading bits"""
    eb, fb = vx.eb, vx.fb; p = fb + 1
    x, y, z = [fma_parts(eb, fb, (v.sign, v.exp, v.frac)) for v in (vx, vy, vz)]
    sp = Or(*[q[k] for q in (x, y, z) for k in ('nan', 'inf')] + [x['zero'], y['zero']])
    pt = x['e'] + y['e'] + (2 * p - 1) - left(mul(x['m'], y['m']), W, N)[1]; zt = z['e'] + (p - 1) - left(z['m'], W, N)[1]
    opp = (x['s'] ^ y['s']) != z['s']; d = pt - zt
    C = [("special", sp), ("zero-addend", And(Not(sp), z['zero']))]
    for sn, sc in (("same", Not(opp)), ("opp", opp)):
        for on, oc in (("p>>z", d > 2 * p), ("p>z", And(d > 0, d <= 2 * p)), ("eq", d == 0), ("z>p", And(d < 0, d >= -2 * p)), ("z>>p", d < -2 * p)) if split else (("p>z", d > 0), ("eq", d == 0), ("z>p", d < 0)): C.append((sn + "," + on, And(Not(sp), Not(z['zero']), sc, oc)))
    return C
def fma_facts(t, p):
    """facts about the terms of fma_bits (collected in its trace) that hold for every input"""
    W = 4 * p; N = t['A0'].size()
    def al(m, v, low): return Implies(m != 0, And(LShR(v, W) == 0, Extract(W - 1, W - 1, v) == 1, Extract(low - 1, 0, v) == 0))
    return [("product-aligned", al(t['P'], t['A0'], 2 * p)), ("addend-aligned", al(t['mz'], t['B0'], 3 * p)), ("no-lost-cancellation", Or(t['sp'], t['same'], t['exact0'], t['D'] != 0)), ("difference-fits", Or(t['sp'], t['same'], t['exact0'], LShR(t['D'], W) == 0))]
