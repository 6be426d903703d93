"""Contracts of the multi-word integers (types::BigInt) used by callers, and the targets that verify the bodies against them."""
import re
from spec import *
from sym import n_not, simp, PV, isc, bvmul, ite, fold
def rd(ex, p, N):
    ws = [BV(ex.load(ex.padd(p, 8 * k), ('i', 64)), 64) for k in range(N // 64)]
    return z3.simplify(Concat(*reversed(ws))) if len(ws) > 1 else ws[0]
def wr(ex, p, v, N):
    for k, w in enumerate(words(v, N)): ex.store(ex.padd(p, 8 * k), w, ('i', 64))
def words(v, N): return [simp(Extract(64 * k + 63, 64 * k, v)) for k in range(N // 64)]
def b2i(c, w): return ite(c, 1, 0, w)
def shift_spec(left, v, n):
    """v shifted by n (any n: 0 when n >= width)"""
    N = v.size(); nn = BV(n, 64)
    if isc(n): return BVV(0, N) if n >= N else (v << n if left else LShR(v, n))
    x = ZX(nn, N) if N >= 64 else Extract(N - 1, 0, nn)
    return v << x if left else LShR(v, x)
def lowmask(n, N):
    """2^min(n, N) - 1 for a signed 32-bit n >= 0"""
    x = ZX(BV(n, 32), N)
    return (BVV(1, N) << x) - 1
def _name(n, name): return re.search(n, name)
def contracts(widths=(128, 256)):
    """{regex on the mangled name: behaviour}: what callers may assume of the callees, established by targets() below"""
    C = {}
    for N in widths:
        B = r"6BigIntILm%dELb0EmE" % N; W = N // 64
        def sh(left, N=N):
            def f(ex, I, a):
                if N == 128:
                    v = Concat(BV(a[1], 64), BV(a[0], 64)); n = a[2]
                    ex.callee_requires(simp(ULT(BV(n, 64), N)), "shift count of a 128-bit integer below its width")
                    return words(z3.simplify(shift_spec(left, v, n)), N)
                v = rd(ex, a[1], N)
                wr(ex, a[0], z3.simplify(shift_spec(left, v, a[2])), N)
            return f
        C[r"^_ZN3ccm5types9multiword5shiftILNS1_9DirectionE0ELb0EmLm%dEEESt5array" % W + r".*S6_m$"] = sh(True)
        C[r"^_ZN3ccm5types9multiword5shiftILNS1_9DirectionE1ELb0EmLm%dEEESt5array" % W + r".*S6_m$"] = sh(False)
        def lbn(ex, I, a, N=N):
            v = rd(ex, a[0], N); n = a[1]
            if isc(n):
                n = n - (1 << 32) if n >> 31 else n
                if n <= 0: return False
                return simp(Extract(min(n, N) - 1, 0, v) != 0)
            return simp(And(n > 0, If(n >= N, v != 0, (v & lowmask(n, N)) != 0)))
        C[r"18lower_bits_nonzeroINS_5types%sEEEbRKT_i$" % B] = lbn
        def mul(ex, I, a, N=N):
            if len(a) == 3:
                x, y = rd(ex, a[1], N), rd(ex, a[2], N)
                if N > 128: ex.callee_requires(simp(And(LShR(x, 64) == 0, LShR(y, 64) == 0)), "one-word factors")
                wr(ex, a[0], z3.simplify(bvmul(x, y)), N)
                return None
            x, y = rd(ex, a[0], N), rd(ex, a[1], N)
            return words(z3.simplify(bvmul(x, y)), N)
        C[r"^_ZNK3ccm5types%smlERKS2_$" % B] = mul
        def addo(sub, N=N):
            def f(ex, I, a):
                x, y = rd(ex, a[0], N), rd(ex, a[1], N)
                wr(ex, a[0], z3.simplify(x - y if sub else x + y), N)
                return simp(If(ULT(x, y) if sub else ULT(x + y, x), BVV(1, 64), BVV(0, 64)))
            return f
        C[r"^_ZN3ccm5types%s12add_overflowERKS2_$" % B] = addo(False)
        C[r"^_ZN3ccm5types%s12sub_overflowERKS2_$" % B] = addo(True)
        def inc(ex, I, a, N=N): wr(ex, a[0], z3.simplify(rd(ex, a[0], N) + 1), N)
        C[r"^_ZN3ccm5types%s9incrementEv$" % B] = inc
        def cmp_(ex, I, a, N=N):
            x, y = rd(ex, a[0], N), rd(ex, a[1], N)
            return simp(If(x == y, BVV(0, 32), If(UGT(x, y), BVV(1, 32), BVV(-1, 32))))
        C[r"^_ZN3ccm5types3cmpERKNS0_%sES4_$" % B] = cmp_
        def clz(ex, I, a, N=N): return simp(ZX(clz_spec(rd(ex, a[0], N), N), 32))
        C[r"^_ZN3ccm5types9multiword11countl_zeroImLm%dEEEiRKSt5array" % W] = clz
        def isz(ex, I, a, N=N): return simp(rd(ex, a[0], N) == 0)
        C[r"^_ZNK3ccm5types%s7is_zeroEv$" % B] = isz
    return C
def names(p, N): return [("%s%d" % (p, k), 'unsigned long') for k in range(N // 64)]
def val(ns, p, N):
    ws = [getattr(ns, "%s%d" % (p, k)).bv for k in range(N // 64)]
    return Concat(*reversed(ws)) if len(ws) > 1 else ws[0]
def decl(p, N): return "const std::uint64_t w%s[] = {%s}; U %s(w%s);" % (p, ", ".join("%s%d" % (p, k) for k in range(N // 64)), p, p)
def out(p, e, N): return "{ const U t_ = %s; %s }" % (e, " ".join("%s%d = t_.val[%d];" % (p, k, k) for k in range(N // 64)))
def targets(T, cfg, N, pre='', which=None):
    """verify the bodies of the callees above for UInt<N> in configuration cfg"""
    U = "using U = ccm::types::UInt<%d>; " % N
    x, y = names('x', N), names('y', N)
    def add(nm, args, outs, body, ens, req=None, **k):
        if which and nm not in which: return
        k.setdefault('samples', 100)
        T.append(Target("%sbig%d_%s_%s" % (pre, N, nm, cfg), cfg, args, outs, U + body, ens, requires=req, **k))
    for nm, op, left in (('shl', '<<', True), ('shr', '>>', False)):
        add(nm, x + [("n", 'unsigned long')], names('r', N), decl('x', N) + out('r', 'x %s n' % op, N), lambda i, o, g, left=left: [("shift", val(o, 'r', N) == shift_spec(left, val(i, 'x', N), i.n.bv))],
            lambda i: [ULT(i.n.bv, N)], inputs_hook=lambda rng: [rng.getrandbits(64) for _ in range(N // 64)] + [rng.randrange(N)], doc="shift by any count below the width")
    bits = lambda rng, k: [rng.choice([0, 0, (1 << 64) - 1, rng.getrandbits(64), 1 << rng.randrange(64)]) for _ in range(k)]
    hx = lambda rng: bits(rng, N // 64)
    hxy = lambda rng: hx(rng) + hx(rng)
    def lbn(i, o, g):
        v = val(i, 'x', N); n = i.n.bv
        return [("low-bits", (o.r.bv != 0) == And(n > 0, If(n >= N, v != 0, (v & lowmask(n, N)) != 0)))]
    add('lowbits', x + [("n", 'int')], [("r", 'bool')], decl('x', N) + "r = ccm::support::fp::fma_internal::lower_bits_nonzero<U>(x, n);", lbn, inputs_hook=lambda rng: hx(rng) + [rng.randrange(-3, N + 9) & 0xffffffff], cut=low_cut(N))
    def mulens(i, o, g):
        X, Y = val(i, 'x', N), val(i, 'y', N)
        if N > 128: return [("product", val(o, 'r', N) == ZX(bvmul(ZX(i.x0.bv, 128), ZX(i.y0.bv, 128)), N))]
        part = lambda a, b: ZX(bvmul(ZX(a.bv, 128), ZX(b.bv, 128)), N)
        S = part(i.x0, i.y0) + ((part(i.x1, i.y0) + part(i.x0, i.y1)) << 64)
        a, b, c, d, B = z3.Ints("lem_x0 lem_x1 lem_y0 lem_y1 lem_B")
        lem = (a + B * b) * (c + B * d) == a * c + B * (b * c + a * d) + B * B * (b * d)       # B = 2^64: the last term vanishes modulo 2^128
        return [("partial-products", val(o, 'r', N) == S), ("product-lemma", lem)] + ([("product", val(o, 'r', N) == X * Y)] if getattr(g, 'native', False) else [])
    add('mul', x + y, names('r', N), decl('x', N) + decl('y', N) + out('r', 'x * y', N), mulens,
        None if N <= 128 else lambda i: [LShR(val(i, 'x', N), 64) == 0, LShR(val(i, 'y', N), 64) == 0], inputs_hook=hxy if N <= 128 else lambda rng: bits(rng, 1) + [0] * (N // 64 - 1) + bits(rng, 1) + [0] * (N // 64 - 1), doc="low half of the exact product")
    for nm, op, sub in (('add', '+', False), ('sub', '-', True)):
        def ens(i, o, g, sub=sub):
            a, b = val(i, 'x', N), val(i, 'y', N)
            return [("sum", val(o, 'r', N) == (a - b if sub else a + b)), ("carry", o.c.bv == If(ULT(a, b) if sub else ULT(a + b, a), BVV(1, 64), BVV(0, 64)))]
        add(nm, x + y, names('r', N) + [("c", 'unsigned long')], decl('x', N) + decl('y', N) + "c = x.%s_overflow(y);" % nm + out('r', 'x', N), ens, inputs_hook=hxy)
    add('inc', x, names('r', N), decl('x', N) + "++x;" + out('r', 'x', N), lambda i, o, g: [("successor", val(o, 'r', N) == val(i, 'x', N) + 1)], inputs_hook=hx)
    def cm(i, o, g):
        a, b = val(i, 'x', N), val(i, 'y', N)
        return [("order", o.r.bv == If(a == b, BVV(0, 32), If(UGT(a, b), BVV(1, 32), BVV(-1, 32))))]
    add('cmp', x + y, [("r", 'int')], decl('x', N) + decl('y', N) + "r = cmp(x, y);", cm, inputs_hook=hxy)
    add('clz', x, [("r", 'int')], decl('x', N) + "r = ccm::support::countl_zero(x);", lambda i, o, g: [("leading-zeros", o.r.bv == ZX(clz_spec(val(i, 'x', N), N), 32))], inputs_hook=hx)
    add('zero', x, [("r", 'bool')], decl('x', N) + "r = x.is_zero();", lambda i, o, g: [("zero", (o.r.bv != 0) == (val(i, 'x', N) == 0))], inputs_hook=hx)
def low_cut(N): return None
