"""Contracts for LLVM intrinsics and external (libm / libc / fenv) functions.
Everything in EXTERN is an assumed contract and is listed in the evidence."""
import re, z3
from sym import *
import sym as S

def find(name):
    if name in EXACT: return EXACT[name]
    for pat, f in PATS:
        if pat.match(name): return f
    return None

EXACT = {}; PATS = []
def exact(*names):
    def d(f):
        for n in names: EXACT[n] = f
        return f
    return d
def pat(p):
    def d(f):
        PATS.append((re.compile(p + r'$'), f)); return f
    return d

def ew(t, f, *vs):
    """apply elementwise for vectors"""
    if t[0] == 'v':
        return [f(*[v[i] if isinstance(v, list) else v for v in vs]) for i in range(t[1])]
    return f(*vs)
def width(t): return t[2][1] if t[0] == 'v' else t[1]

@pat(r'llvm\.(lifetime|dbg|experimental\.noalias\.scope|invariant|donothing|prefetch)\..*')
def _nop(ex, I, a, n): return None
@pat(r'llvm\.experimental\.noalias.*')
def _nop2(ex, I, a, n): return None
@pat(r'llvm\.assume')
def _assume(ex, I, a, n):
    c = a[0]
    if c is True: return None
    ex.ub(n_not(c), "assumption may be false")
@pat(r'llvm\.(ubsantrap|trap|debugtrap)')
def _trap(ex, I, a, n):
    ex.obls.append((ex.guard.expr(), 'trap', "trap %s in %s" % (a[0] if a else '', ex.fr.F.name)))
    ex.guard = None
@exact('abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz')
def _abort(ex, I, a, n):
    ex.obls.append((ex.guard.expr(), 'abort', "%s reachable in %s" % (n, ex.fr.F.name)))
    ex.guard = None
@pat(r'llvm\.expect\..*|llvm\.launder.*|llvm\.strip\.invariant.*|llvm\.ssa\.copy.*|llvm\.annotation.*')
def _id(ex, I, a, n): return a[0]
@pat(r'llvm\.is\.constant\..*')
def _isc(ex, I, a, n): return False
@pat(r'llvm\.objectsize\..*')
def _os(ex, I, a, n): return mask(I.ty[1])
@pat(r'llvm\.stacksave.*')
def _ss(ex, I, a, n): return PV([(True, None, 0)])
@pat(r'llvm\.stackrestore.*')
def _sr(ex, I, a, n): return None

@pat(r'llvm\.fabs\..*')
def _fabs(ex, I, a, n): return ew(I.ty, ex.fabs, a[0])
@exact('fabs', 'fabsf', 'fabsl')
def _fabs2(ex, I, a, n): return ex.fabs(a[0])
@pat(r'llvm\.copysign\..*|copysign[fl]?')
def _cps(ex, I, a, n): return ew(I.ty, ex.copysign, a[0], a[1])
def rti(rm):
    def h(ex, I, a, n):
        if not n.startswith('llvm.'): ex.externs.add(n)
        r = rm(ex)
        def f(x):
            y = ex.fsimp(z3.fpRoundToIntegral(r, x.fp()), x)
            return ex.F(x.w, y)
        return ew(I.ty, f, a[0])
    return h
for base, rm in (('floor', lambda e: RTN), ('ceil', lambda e: RTP), ('trunc', lambda e: RTZ), ('round', lambda e: RNA), ('roundeven', lambda e: RNE), ('rint', lambda e: e.rm), ('nearbyint', lambda e: e.rm)):
    PATS.append((re.compile(r'(llvm\.%s\..*|%s[fl]?)$' % (base, base)), rti(rm)))
@pat(r'llvm\.sqrt\..*|sqrt[fl]?')
def _sqrt(ex, I, a, n):
    if not n.startswith('llvm.'): ex.externs.add(n)
    u = ex.uf.get('sqrt')
    def f(x):
        if u: return u(ex, 'sqrt', x)
        return ex.F(x.w, ex.fsimp(z3.fpSqrt(ex.rm, x.fp()), x))
    return ew(I.ty, f, a[0])
@pat(r'llvm\.fma\..*|fma[fl]?|llvm\.fmuladd\..*')
def _fma(ex, I, a, n):
    if not n.startswith('llvm.'): ex.externs.add(n)
    u = ex.uf.get('fma')
    def f(x, y, z):
        if u: return u(ex, 'fma', x, y, z)
        return ex.F(x.w, ex.fsimp(z3.fpFMA(ex.rm, x.fp(), y.fp(), z.fp()), x, y, z))
    return ew(I.ty, f, *a)
@pat(r'llvm\.(minnum|maxnum)\..*|f(min|max)[fl]?')
def _mm(ex, I, a, n):
    if not n.startswith('llvm.'): ex.externs.add(n)
    mx = 'max' in n
    def f(x, y):
        X, Y = x.fp(), y.fp()
        lt = z3.fpGT(X, Y) if mx else z3.fpLT(X, Y)
        gt = z3.fpLT(X, Y) if mx else z3.fpGT(X, Y)
        anyz = ex.fresh('b', 'fmz')  # +-0 choice unspecified
        bits = z3.If(z3.fpIsNaN(X), BV(y.bv(), x.w), z3.If(z3.fpIsNaN(Y), BV(x.bv(), x.w), z3.If(lt, BV(x.bv(), x.w), z3.If(gt, BV(y.bv(), x.w), z3.If(anyz, BV(x.bv(), x.w), BV(y.bv(), x.w))))))
        return ex.Fb(x.w, bits)
    return ew(I.ty, f, *a)
@pat(r'llvm\.is\.fpclass\..*')
def _fpc(ex, I, a, n):
    m = a[1]
    def f(x):
        X = x.fp()
        neg = z3.fpIsNegative(X); pos = z3.fpIsPositive(X)
        b = BV(x.bv(), x.w)
        qb = {16: 9, 32: 22, 64: 51, 80: 62}[x.w]
        quiet = z3.Extract(qb, qb, b) == 1
        cs = [z3.And(z3.fpIsNaN(X), z3.Not(quiet)), z3.And(z3.fpIsNaN(X), quiet), z3.And(neg, z3.fpIsInf(X)), z3.And(neg, z3.fpIsNormal(X)), z3.And(neg, z3.fpIsSubnormal(X)), z3.And(neg, z3.fpIsZero(X)), z3.And(pos, z3.fpIsZero(X)), z3.And(pos, z3.fpIsSubnormal(X)), z3.And(pos, z3.fpIsNormal(X)), z3.And(pos, z3.fpIsInf(X))]
        if m & 3 == 3:
            cs[0] = z3.fpIsNaN(X); cs[1] = z3.BoolVal(False)
        return simp(z3.Or(*[c for i, c in enumerate(cs) if m >> i & 1])) if m else False
    return ew(I.ty, f, a[0])

# integer intrinsics
@pat(r'llvm\.ctlz\..*')
def _ctlz(ex, I, a, n):
    w = width(I.ty)
    zp = a[1]
    def f(x):
        if isc(x):
            if x == 0: return w if not zp else ex.fresh(w, "poison")
            return w - x.bit_length()
        r = z3.BitVecVal(w, w) if not zp else ex.fresh_for(w, n.split(".")[1], BV(x, w))
        for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i, w), r)
        return r
    return ew(I.ty, f, a[0])
@pat(r'llvm\.cttz\..*')
def _cttz(ex, I, a, n):
    w = width(I.ty); zp = a[1]
    def f(x):
        if isc(x):
            if x == 0: return w if not zp else ex.fresh(w, "poison")
            return (x & -x).bit_length() - 1
        r = z3.BitVecVal(w, w) if not zp else ex.fresh_for(w, n.split(".")[1], BV(x, w))
        for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i, w), r)
        return r
    return ew(I.ty, f, a[0])
@pat(r'llvm\.ctpop\..*')
def _ctpop(ex, I, a, n):
    w = width(I.ty)
    def f(x):
        if isc(x): return bin(x).count('1')
        r = [z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)]
        while len(r) > 1: r = [r[i] + r[i + 1] if i + 1 < len(r) else r[i] for i in range(0, len(r), 2)]
        return r[0]
    return ew(I.ty, f, a[0])
@pat(r'llvm\.bswap\..*')
def _bswap(ex, I, a, n):
    w = width(I.ty)
    def f(x):
        if isc(x): return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(w // 8)])
    return ew(I.ty, f, a[0])
@pat(r'llvm\.bitreverse\..*')
def _brev(ex, I, a, n):
    w = width(I.ty)
    def f(x):
        if isc(x): return int(format(x, '0%db' % w)[::-1], 2)
        return z3.Concat(*[z3.Extract(i, i, x) for i in range(w)])
    return ew(I.ty, f, a[0])
@pat(r'llvm\.fsh[lr]\..*')
def _fsh(ex, I, a, n):
    w = width(I.ty); left = 'fshl' in n
    def f(x, y, s):
        if isc(s):
            s %= w
            if s == 0: return x if left else y
            sh = s if left else w - s
            if isc(x) and isc(y): return ((x << sh) | (y >> (w - sh))) & mask(w)
            return fold(z3.simplify(z3.Concat(z3.Extract(w - 1 - sh, 0, BV(x, w)), z3.Extract(w - 1, w - sh, BV(y, w)))))
        c = z3.Concat(BV(x, w), BV(y, w))
        k = z3.ZeroExt(w, z3.URem(s, z3.BitVecVal(w, w)))
        if left: return z3.Extract(2 * w - 1, w, c << k)
        return z3.Extract(w - 1, 0, z3.LShR(c, k))
    return ew(I.ty, f, *a)
@pat(r'llvm\.([us])(min|max)\..*')
def _minmax(ex, I, a, n):
    m = re.match(r'llvm\.([us])(min|max)', n); w = width(I.ty)
    p = m.group(1) + ('lt' if m.group(2) == 'min' else 'gt')
    return ew(I.ty, lambda x, y: ite(ex.icmp(p, x, y, ('i', w)), x, y, w), *a)
@pat(r'llvm\.abs\..*')
def _abs(ex, I, a, n):
    w = width(I.ty)
    if a[1] is True:
        bad = [simp(BV(x, w) == (1 << (w - 1))) for x in (a[0] if isinstance(a[0], list) else [a[0]])]
        b = n_or(*bad)
        if b is not False: ex.ub(b, "abs of minimum value is poison")
    return ew(I.ty, lambda x: ite(ex.icmp('slt', x, 0, ('i', w)), ex.binop('sub', 0, x, w), x, w), a[0])
@pat(r'llvm\.([us])(add|sub|mul)\.with\.overflow\..*')
def _ovf(ex, I, a, n):
    m = re.match(r'llvm\.([us])(add|sub|mul)', n); sg = m.group(1) == 's'; op = m.group(2)
    t = I.ty[1][0]; w = width(t)
    def f(x, y):
        r = ex.binop(op, x, y, w)
        if isc(x) and isc(y):
            X, Y = (sgn(x, w), sgn(y, w)) if sg else (x, y)
            full = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
            return r, (full != (sgn(r, w) if sg else r))
        X, Y = BV(x, w), BV(y, w)
        if op == 'add' and not sg: return r, simp(z3.ULT(BV(r, w), X))
        if op == 'sub' and not sg: return r, simp(z3.ULT(X, Y))
        k = w if op == 'mul' else 1
        ext = z3.SignExt if sg else z3.ZeroExt
        XX, YY = ext(k, X), ext(k, Y)
        full = {'add': XX + YY, 'sub': XX - YY, 'mul': XX * YY}[op]
        return r, simp(full != ext(k, BV(r, w)))
    if t[0] == 'v':
        ps = [f(x, y) for x, y in zip(*a)]
        return [[p[0] for p in ps], [p[1] for p in ps]]
    r, o = f(*a)
    return [r, o]
@pat(r'llvm\.([us])(add|sub)\.sat\..*')
def _sat(ex, I, a, n):
    m = re.match(r'llvm\.([us])(add|sub)', n); sg = m.group(1) == 's'; op = m.group(2); w = width(I.ty)
    def f(x, y):
        ext = z3.SignExt if sg else z3.ZeroExt
        X, Y = ext(2, BV(x, w)), ext(2, BV(y, w))
        v = X + Y if op == 'add' else X - Y
        lo = -(1 << (w - 1)) if sg else 0
        hi = (1 << (w - 1)) - 1 if sg else mask(w)
        r = z3.If(v < lo, z3.BitVecVal(lo, w), z3.If(v > hi, z3.BitVecVal(hi, w), z3.Extract(w - 1, 0, v)))
        return simp(r)
    return ew(I.ty, f, *a)
@pat(r'llvm\.vector\.reduce\.(add|mul|and|or|xor|smax|smin|umax|umin)\..*')
def _vred(ex, I, a, n):
    op = n.split('.')[3]; w = I.ty[1]
    r = a[0][0]
    for x in a[0][1:]:
        if op in BINOPS: r = ex.binop(op, r, x, w)
        else:
            p = op[0] + ('gt' if 'max' in op else 'lt')
            r = ite(ex.icmp(p, r, x, ('i', w)), r, x, w)
    return r
@pat(r'llvm\.vector\.reduce\.(fadd|fmul)\..*')
def _vfred(ex, I, a, n):
    op = n.split('.')[3]
    r = a[0]
    for x in a[1]: r = ex.fbin(op, r, x)
    return r
@pat(r'llvm\.mem(cpy|move)\..*|mem(cpy|move)')
def _memcpy(ex, I, a, n):
    d, s, k = a[0], a[1], a[2]
    if not isc(k): raise Unsupported("symbolic memcpy")
    if k == 0: return d
    if len(s.alts) != 1 or len(d.alts) != 1 or not isc(s.alts[0][2]) or not isc(d.alts[0][2]): 
        for i in range(k): ex.store(ex.padd(d, i), ex.load(ex.padd(s, i), ('i', 8)), ('i', 8))
        return d
    (_, so, sf), (_, do, df) = s.alts[0], d.alts[0]
    if so is None or do is None or sf + k > ex.objs[so][1] or df + k > ex.objs[do][1]:
        ex.mem_ub(True, "memcpy out of bounds"); return d
    cells = ex.cells(so)
    if any((o < sf < o + z) or (o < sf + k < o + z) for o, (z, _) in cells.items()):
        bs = {o: (1, v) for o, v in ex.to_bytes(so, cells).items()}
        cells = bs
    new = {df + o - sf: v for o, v in cells.items() if sf <= o < sf + k}
    # drop destination range
    dc = dict(ex.cells(do))
    if any((o < df < o + z) or (o < df + k < o + z) for o, (z, _) in dc.items()):
        dc = {o: (1, v) for o, v in ex.to_bytes(do, dc).items()}
    dc = {o: v for o, v in dc.items() if not (df <= o < df + k)}
    dc.update(new)
    ex.memory = dict(ex.memory); ex.memory[do] = dc
    return d
@pat(r'llvm\.memset\..*|memset')
def _memset(ex, I, a, n):
    d, v, k = a[0], a[1], a[2]
    if not isc(k): raise Unsupported("symbolic memset")
    if n == 'memset' and isc(v): v &= 255
    i = 0
    if isc(v) and v == 0:
        while k - i >= 8:
            ex.store(ex.padd(d, i), 0, ('i', 64)); i += 8
    while i < k:
        ex.store(ex.padd(d, i), v, ('i', 8)); i += 1
    return d

# ---- environment (assumed contracts, listed in evidence)
FE = {'INVALID': 1, 'DENORM': 2, 'DIVBYZERO': 4, 'OVERFLOW': 8, 'UNDERFLOW': 16, 'INEXACT': 32}
@exact('fegetround')
def _fgr(ex, I, a, n):
    ex.externs.add(n)
    if ex.rmsel is None:
        return {'roundNearestTiesToEven': 0, 'RNE': 0}.get(str(ex.rm), {str(RNE): 0, str(RTN): 0x400, str(RTP): 0x800, str(RTZ): 0xc00}.get(str(ex.rm)))
    return z3.Concat(z3.BitVecVal(0, 20), ex.rmsel, z3.BitVecVal(0, 10))
@exact('feraiseexcept')
def _fre(ex, I, a, n):
    ex.externs.add(n)
    g = ex.guard.expr()
    v = a[0]
    ex.ghost_or('raised', v, 32)
    return 0
@exact('__errno_location')
def _eno(ex, I, a, n):
    ex.externs.add(n)
    return PV([(True, ex.errno_obj(), 0)])
@exact('fesetround', 'feclearexcept', 'fetestexcept', 'feenableexcept', 'fedisableexcept')
def _fsr(ex, I, a, n): raise Unsupported("fenv mutation " + n)
@exact('strlen')
def _strlen(ex, I, a, n): raise Unsupported("strlen")

# ---- assumed contracts of libm functions with an exact mathematical definition
LTY = {32: 'float', 64: 'double', 80: 'long double'}
def V(x):
    import core
    return core.Val(LTY[x.w], BV(x.bv(), x.w))
def fromv(ex, v): return ex.Fb(v.w, fold(z3.simplify(v.bv)))
def choose(ex, w, nan, fpres, v=None):
    """FV with value fpres (FP term), quiet-NaN bits unspecified"""
    return ex.F(w, fpres)
@pat(r'llvm\.frexp\..*')
def _frexp(ex, I, a, n):
    ex.externs.add('frexp')
    m, e = frexp_spec(ex, a[0]); return [m, e]
def frexp_spec(ex, x):
    import spec
    v = V(x)
    ue, uf = spec.unbiased(v)
    fin = z3.And(v.finite, z3.Not(v.zero))
    m = spec.bits_of(v.ty, v.sign, z3.BitVecVal(v.bias - 1, v.eb), uf)
    nn = ex.havoc(('f', x.w), 'nan')
    bits = z3.If(fin, m.bv, v.bv)
    return ex.Fb(x.w, bits), z3.If(fin, ue + 1, z3.If(v.zero, z3.BitVecVal(0, 32), ex.fresh(32, 'frexp')))
@exact('frexp', 'frexpf', 'frexpl')
def _frexp2(ex, I, a, n):
    ex.externs.add(n)
    m, e = frexp_spec(ex, a[0]); ex.store(a[1], e, ('i', 32)); return m
@exact('modf', 'modff', 'modfl')
def _modf(ex, I, a, n):
    import spec
    ex.externs.add(n)
    x = a[0]; v = V(x)
    t = z3.fpRoundToIntegral(RTZ, x.fp()); d = z3.fpSub(RNE, x.fp(), t)
    tv = ex.F(x.w, t)
    tb = ex.Fb(x.w, z3.If(v.nan, v.bv, BV(tv.bv(), x.w)))
    ex.store(a[1], tb, ('f', x.w))
    dv = ex.F(x.w, d)
    z = spec.bits_of(v.ty, v.sign, z3.BitVecVal(0, v.eb), z3.BitVecVal(0, v.fb))
    return ex.Fb(x.w, z3.If(v.nan, v.bv, z3.If(z3.Or(v.inf, z3.fpIsZero(d)), z.bv, BV(dv.bv(), x.w))))
@pat(r'llvm\.ldexp\..*|ldexp[fl]?|scalbn[fl]?|scalbln[fl]?')
def _ldexp(ex, I, a, n):
    import spec
    ex.externs.add(n.split('.')[1] if n.startswith('llvm') else n)
    e = a[1]
    if n.startswith('scalbln'):
        e = BV(e, 64); L = 1000000
        e = z3.Extract(31, 0, z3.If(e > L, z3.BitVecVal(L, 64), z3.If(e < -L, z3.BitVecVal(-L & mask(64), 64), e)))
    e = BV(e, 32)
    v = V(a[0])
    return ex.F(a[0].w, spec.scale_fp(v, e, ex.rm))
@exact('nextafter', 'nextafterf', 'nextafterl', 'nexttoward', 'nexttowardf', 'nexttowardl')
def _nxt(ex, I, a, n):
    import spec
    ex.externs.add(n)
    x, y = V(a[0]), V(a[1])
    r = spec.nextafter_spec(x, y)
    ex.memory = dict(ex.memory); ex.memory[ex.errno_obj()] = {0: (4, ex.fresh(32, 'errno'))}
    return ex.Fb(x.w, r)
@exact('logb', 'logbf', 'logbl')
def _logb(ex, I, a, n):
    import spec
    ex.externs.add(n)
    v = V(a[0]); ue, _ = spec.unbiased(v)
    S = SORT[v.w]
    r = z3.fpSignedToFP(RNE, ue, S)
    return ex.F(v.w, z3.If(v.nan, v.fp, z3.If(v.inf, z3.fpPlusInfinity(S), z3.If(v.zero, z3.fpMinusInfinity(S), r))))
@exact('ilogb', 'ilogbf', 'ilogbl')
def _ilogb(ex, I, a, n):
    import spec
    ex.externs.add(n)
    v = V(a[0]); ue, _ = spec.unbiased(v)
    return z3.If(v.nan, z3.BitVecVal(1 << 31, 32), z3.If(v.inf, z3.BitVecVal((1 << 31) - 1, 32), z3.If(v.zero, z3.BitVecVal(1 << 31, 32), ue)))
@exact('fdim', 'fdimf', 'fdiml')
def _fdim(ex, I, a, n):
    ex.externs.add(n)
    x, y = a[0].fp(), a[1].fp()
    S = x.sort()
    ex.memory = dict(ex.memory); ex.memory[ex.errno_obj()] = {0: (4, ex.fresh(32, 'errno'))}
    return ex.F(a[0].w, z3.If(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)), z3.fpNaN(S), z3.If(z3.fpGT(x, y), z3.fpSub(ex.rm, x, y), z3.FPVal(0, S))))

UFS = {}
def int_odd(y):
    """(integer, odd) of the value of y, from its encoding; infinities and NaN are neither"""
    W = y.fb + 1 + y.eb
    u = z3.ZeroExt(W - y.eb, y.exp) - y.bias
    sig = z3.ZeroExt(W - y.fb - 1, z3.Concat(z3.BitVecVal(1, 1), y.frac)); low = z3.BitVecVal((1 << (y.fb + 1)) - 1, W)
    inside = z3.And(y.normal, u >= 0, u <= y.fb)
    return z3.And(y.finite, z3.Or(y.zero, z3.And(y.normal, u > y.fb), z3.And(inside, ((sig << (u + 1)) & low) == 0))), z3.And(inside, ((sig << u) & low) == (1 << y.fb))
def annexf(n, a, r, ex):
    """assumed special cases of the C library functions (C11 Annex F); r is the otherwise unspecified result"""
    import core
    b = n[:-1] if n[-1] in 'fl' and n not in ('ceil',) else n
    ty, x = r.ty, a[0]
    eb, fb = r.eb, r.fb
    import spec
    c = lambda s, e, f: spec.bits_of(ty, z3.BitVecVal(s, 1) if isinstance(s, int) else s, z3.BitVecVal(e, eb), z3.BitVecVal(f, fb)).bv
    E = (1 << eb) - 1; bias = E >> 1
    pinf, minf, one, zero, mone = c(0, E, 0), c(1, E, 0), c(0, bias, 0), c(0, 0, 0), c(1, bias, 0)
    qn = z3.If(r.nan, r.bv, c(0, E, 1 << (fb - 1)))             # some NaN
    S = r.fp.sort(); lt0 = z3.fpLT(x.fp, z3.FPVal(0, S)); eq = lambda v: z3.fpEQ(x.fp, z3.FPVal(v, S)); lt = lambda v: z3.fpLT(x.fp, z3.FPVal(v, S)); gt = lambda v: z3.fpGT(x.fp, z3.FPVal(v, S))
    pi, ni = z3.And(x.inf, x.sign == 0), z3.And(x.inf, x.sign == 1)
    def pim(sign, k):                                           # some value within 2^-30 (relative; float 2^-22) of k*pi
        import math
        q = spec.Val(ty, z3.Concat(sign if not isinstance(sign, int) else z3.BitVecVal(sign, 1), z3.Extract(r.w - 2, 0, r.bv)))
        t = 2.0 ** (-22 if r.w == 32 else -30)
        lo, hi = z3.FPVal(k * math.pi * (1 - t), S), z3.FPVal(k * math.pi * (1 + t), S)
        mid = spec.Val(ty, z3.Concat(q.sign, z3.Extract(r.w - 2, 0, core.fp_bits(k * math.pi, ty))))
        return z3.If(z3.And(z3.fpGEQ(q.abs_.fp, lo), z3.fpLEQ(q.abs_.fp, hi)), q.bv, mid.bv)
    T = {'exp': [(pi, pinf), (ni, zero), (x.zero, one)], 'exp2': [(pi, pinf), (ni, zero), (x.zero, one)], 'expm1': [(pi, pinf), (ni, mone), (x.zero, x.bv)],
         'log': [(pi, pinf), (lt0, qn), (x.zero, minf), (eq(1), zero)], 'log1p': [(pi, pinf), (lt(-1), qn), (eq(-1), minf), (x.zero, x.bv)],
         'sin': [(x.inf, qn), (x.zero, x.bv)], 'tan': [(x.inf, qn), (x.zero, x.bv)], 'cos': [(x.inf, qn), (x.zero, one)],
         'asin': [(gt(1), qn), (lt(-1), qn), (x.zero, x.bv)], 'acos': [(gt(1), qn), (lt(-1), qn), (eq(1), zero)], 'atan': [(x.zero, x.bv), (x.inf, pim(x.sign, 0.5))],
         'cbrt': [(x.inf, x.bv), (x.zero, x.bv)], 'tgamma': [(pi, pinf), (ni, qn), (x.zero, c(x.sign, E, 0))], 'lgamma': [(x.inf, pinf), (x.zero, pinf), (eq(1), zero), (eq(2), zero)]}
    T['log2'] = T['log10'] = T['log']
    if str(ex.rm) == str(RNE):       # beyond these the result in round to nearest is infinity / zero
        R = {'exp': {32: (-104.5, 89.5), 64: (-746.0, 710.0), 80: (-11516.0, 11357.0)}, 'exp2': {32: (-151.0, 128.0), 64: (-1076.0, 1024.0), 80: (-16447.0, 16384.0)}}
        if b in R:
            lo, hi = R[b][x.w]
            T[b] += [(z3.fpGEQ(x.fp, z3.FPVal(hi, S)), pinf), (z3.fpLEQ(x.fp, z3.FPVal(lo, S)), zero)]
    if b == 'atan2':
        y, x = a[0], a[1]
        zs = c(y.sign, 0, 0); xn = x.sign == 1
        cs = [(z3.Or(x.nan, y.nan), qn), (z3.And(x.inf, y.inf), z3.If(xn, pim(y.sign, 0.75), pim(y.sign, 0.25))), (y.inf, pim(y.sign, 0.5)),
              (z3.Or(x.inf, y.zero), z3.If(xn, pim(y.sign, 1.0), zs)), (x.zero, pim(y.sign, 0.5))]
    elif b == 'hypot':
        y = a[1]
        # the result is exact |x| when the other argument is zero
        cs = [(z3.Or(x.inf, y.inf), pinf), (z3.Or(x.nan, y.nan), qn), (x.zero, y.abs_.bv), (y.zero, x.abs_.bv)]
    elif b in ('fmod', 'remainder'):
        y = a[1]
        cs = [(z3.Or(x.nan, y.nan, x.inf, y.zero), qn), (z3.Or(y.inf, x.zero), x.bv)]
    elif b == 'pow':
        y = a[1]; integer, odd = int_odd(y); sg = z3.If(z3.And(x.sign == 1, odd), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)); yn = y.sign == 1
        big = z3.fpGT(x.abs_.fp, z3.FPVal(1, S)); one_abs = z3.fpEQ(x.abs_.fp, z3.FPVal(1, S))
        cs = [(z3.Or(y.zero, eq(1)), one), (z3.Or(x.nan, y.nan), qn), (y.inf, z3.If(one_abs, one, z3.If(big == yn, zero, pinf))),
              (x.zero, z3.If(yn, c(sg, E, 0), c(sg, 0, 0))), (x.inf, z3.If(yn, c(sg, 0, 0), c(sg, E, 0))), (z3.And(x.sign == 1, z3.Not(integer)), qn)]
    elif b in T: cs = [(x.nan, qn)] + T[b]
    else: return None
    if b in ('tgamma', 'lgamma'):                               # poles at the negative integers
        integer, odd = int_odd(x)
        cs.append((z3.And(x.sign == 1, integer), qn if b == 'tgamma' else pinf))
    res = r.bv
    # outside the listed cases a NaN result is excluded
    for cnd, v in reversed(cs): res = z3.If(cnd, v, res)
    ex.keep.append(res)
    ex.trusted_annexf = True
    return core.Val(ty, res)
def ufcall(ex, I, a, n):
    if not n.startswith('llvm.'): ex.externs.add(n)
    doms = []; vals = []
    for x in a:
        if isinstance(x, FV): vals.append(BV(x.bv(), x.w))
        elif isinstance(x, PV): raise Unsupported("pointer arg to " + n)
        else: vals.append(x if not isc(x) else z3.BitVecVal(int(x), 32))
    rw = 79 if I.ty == ('f', 80) else I.ty[1]
    if n.startswith('llvm.'):
        p = n.split('.'); n = p[1] + {'f32': 'f', 'f64': '', 'f80': 'l'}[p[2]]
        ex.externs.add(n)
    key = (n, tuple(v.size() for v in vals), rw)
    if key not in UFS:
        UFS[key] = z3.Function("ext_" + n, *[z3.BitVecSort(v.size()) for v in vals], z3.BitVecSort(rw))
    r = UFS[key](*vals)
    if I.ty == ('f', 80): r = mk80(r)
    if I.ty[0] == 'f':
        sp = annexf(n, [V(x) for x in a if isinstance(x, FV)], V(ex.Fb(I.ty[1], r)), ex)
        if sp is not None: return ex.Fb(I.ty[1], fold(z3.simplify(sp.bv)))
    return ex.Fb(I.ty[1], r) if I.ty[0] == 'f' else r
for f in "exp exp2 expm1 log log2 log10 log1p pow sin cos tan asin acos atan atan2 sinh cosh tanh asinh acosh atanh cbrt hypot tgamma lgamma fmod remainder erf erfc".split():
    for s in ("", "f", "l"): EXACT[f + s] = ufcall
@pat(r'llvm\.(exp|exp2|log|log2|log10|sin|cos|pow)\..*')
def _llm(ex, I, a, n):
    if I.ty[0] == 'v': raise Unsupported(n)
    return ufcall(ex, I, a, n)
