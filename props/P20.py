"""BigInt: multi-word integer arithmetic is exact modulo 2^N."""
from spec import *
from sym import bvmul, simp, isc
import lib
from props import bigint
ASSUMPTIONS = ["products of words are related to products of whole numbers by the partial-products lemma, proved over the integers"]
UWT = {16: 'unsigned short', 32: 'unsigned', 64: 'unsigned long'}
class Big:
    """one instantiation BigInt<N, signed, W-bit words>"""
    def __init__(self, N, signed=False, W=None):
        self.N = N; self.s = signed; self.W = W or {16: 16, 32: 32, 96: 32}.get(N, 64)
        self.C = N // self.W; self.tag = "%s%d%s" % ('i' if signed else 'u', N, '' if self.W == 64 or W is None else 'w%d' % self.W)
        self.cpp = "ccm::types::BigInt<%d, %s, std::uint%d_t>" % (N, 'true' if signed else 'false', self.W)
    def args(self, p): return [("%s%d" % (p, k), UWT[self.W]) for k in range(self.C)]
    def val(self, ns, p):
        ws = [getattr(ns, "%s%d" % (p, k)).bv for k in range(self.C)]
        return Concat(*reversed(ws)) if len(ws) > 1 else ws[0]
    def decl(self, p, T=None): return "const std::uint%d_t w%s[] = {%s}; %s %s(w%s); " % (self.W, p, ", ".join("%s%d" % (p, k) for k in range(self.C)), T or self.cpp, p, p)
    def out(self, p, e): return "{ const %s t_ = %s; %s }" % (self.cpp, e, " ".join("%s%d = t_.val[%d];" % (p, k, k) for k in range(self.C)))
    def rnd(self, rng):
        v = rng.choice([0, 1, 2, (1 << self.N) - 1, 1 << (self.N - 1), (1 << (self.N - 1)) - 1, rng.getrandbits(self.N), rng.getrandbits(self.N), rng.getrandbits(rng.randrange(1, self.N + 1)), 1 << rng.randrange(self.N)])
        return [(v >> (self.W * k)) & ((1 << self.W) - 1) for k in range(self.C)]
def shl(v, n): N = v.size(); return If(UGE(n, N), BVV(0, N), v << fit(n, N))
def shr(v, n, s):
    N = v.size()
    return v >> fit(n, N) if s else LShR(v, fit(n, N))
def fit(n, N): return n if n.size() == N else ZX(n, N) if n.size() < N else Extract(N - 1, 0, n)
def lt(a, b, s): return a < b if s else ULT(a, b)
def add_ops(T, B, cfg, full_=False):
    N, X, Y = B.N, B.args('x'), B.args('y')
    pre = "using U = %s; " % B.cpp
    def add(nm, args, outs, body, ens, req=None, hook=None, **k):
        k.setdefault('samples', 60)
        T.append(Target("%s_%s_%s" % (nm, B.tag, cfg), cfg, args, outs, pre + body, ens, requires=req, inputs_hook=hook, **k))
    h1 = lambda rng: B.rnd(rng)
    h2 = lambda rng: B.rnd(rng) + (B.rnd(rng))
    x, y = (lambda i: B.val(i, 'x')), (lambda i: B.val(i, 'y'))
    R = B.args('r'); dx, dxy = B.decl('x'), B.decl('x') + B.decl('y')
    def op2(nm, e, f, extra="", **k): add(nm, X + Y, R, dxy + extra + B.out('r', e), lambda i, o, g: [("value", B.val(o, 'r') == f(x(i), y(i)))], hook=h2, **k)
    def op1(nm, e, f, extra="", **k): add(nm, X, R, dx + extra + B.out('r', e), lambda i, o, g: [("value", B.val(o, 'r') == f(x(i)))], hook=h1, **k)
    op2('add', "x + y", lambda a, b: a + b); op2('addrv', "x + U(y)", lambda a, b: a + b); op2('addeq', "x", lambda a, b: a + b, "x += y; ")
    op2('sub', "x - y", lambda a, b: a - b); op2('subrv', "x - U(y)", lambda a, b: a - b); op2('subeq', "x", lambda a, b: a - b, "x -= y; ")
    op2('and', "x & y", lambda a, b: a & b); op2('or', "x | y", lambda a, b: a | b); op2('xor', "x ^ y", lambda a, b: a ^ b)
    op2('andeq', "x", lambda a, b: a & b, "x &= y; "); op2('oreq', "x", lambda a, b: a | b, "x |= y; "); op2('xoreq', "x", lambda a, b: a ^ b, "x ^= y; ")
    op1('not', "~x", lambda a: ~a); op1('neg', "-x", lambda a: -a)
    op1('preinc', "++x", lambda a: a + 1); op1('postinc', "x", lambda a: a + 1, "x++; "); op1('predec', "--x", lambda a: a - 1); op1('postdec', "x", lambda a: a - 1, "x--; ")
    op1('oldinc', "x++", lambda a: a); op1('olddec', "x--", lambda a: a)
    for nm, sub in (('add', False), ('sub', True)):
        add(nm + 'carry', X + Y, [("c", UWT[B.W])], dxy + "c = x.%s_overflow(y);" % nm, lambda i, o, g, sub=sub: [("carry", o.c.bv == If(ULT(x(i), y(i)) if sub else ULT(x(i) + y(i), x(i)), BVV(1, B.W), BVV(0, B.W)))], hook=h2)
    for nm, e, f in (('eq', "x == y", lambda a, b: a == b), ('ne', "x != y", lambda a, b: a != b), ('lt', "x < y", lambda a, b: lt(a, b, B.s)), ('gt', "x > y", lambda a, b: lt(b, a, B.s)), ('le', "x <= y", lambda a, b: Not(lt(b, a, B.s))), ('ge', "x >= y", lambda a, b: Not(lt(a, b, B.s)))):
        add(nm, X + Y, [("r", 'bool')], dxy + "r = %s;" % e, lambda i, o, g, f=f: [("order", (o.r.bv != 0) == f(x(i), y(i)))], hook=lambda rng: (lambda a: a + (a if rng.random() < .3 else B.rnd(rng)))(B.rnd(rng)))
    cnt = [("n", 'unsigned long')]
    hc = lambda rng: B.rnd(rng) + [rng.choice([0, 1, B.W - 1, B.W, B.W + 1, N - 1, rng.randrange(N)]) % N]
    below = lambda i: [ULT(i.n.bv, N)]
    for nm, e, ex_, f in (('shl', "x << n", "", lambda a, n: shl(a, n)), ('shleq', "x", "x <<= n; ", lambda a, n: shl(a, n)), ('shr', "x >> n", "", lambda a, n: shr(a, n, B.s)), ('shreq', "x", "x >>= n; ", lambda a, n: shr(a, n, B.s))):
        add(nm, X + cnt, R, dx + ex_ + B.out('r', e), lambda i, o, g, f=f: [("shift", B.val(o, 'r') == f(x(i), i.n.bv))], below, hook=hc)
    add('shlint', X + [("n", 'int')], R, dx + B.out('r', "x << n"), lambda i, o, g: [("shift", B.val(o, 'r') == shl(x(i), i.n.bv))], lambda i: [ULT(i.n.bv, N)], hook=hc)
    add('getbit', X + cnt, [("r", 'bool')], dx + "r = x.get_bit(n);", lambda i, o, g: [("bit", o.r.bv == ZX(Extract(0, 0, LShR(x(i), fit(i.n.bv, N))), 8))], below, hook=hc)
    add('setbit', X + cnt, R, dx + "x.set_bit(n); " + B.out('r', 'x'), lambda i, o, g: [("bit", B.val(o, 'r') == x(i) | (BVV(1, N) << fit(i.n.bv, N)))], below, hook=hc)
    add('bool', X, [("r", 'bool'), ("z", 'bool'), ("n", 'bool')], dx + "r = static_cast<bool>(x); z = x.is_zero(); n = x.is_neg();", lambda i, o, g: [("nonzero", (o.r.bv != 0) == (x(i) != 0)), ("zero", (o.z.bv != 0) == (x(i) == 0)), ("negative", (o.n.bv != 0) == (x(i) < 0 if B.s else z3.BoolVal(False)))], hook=h1)
    add('limits', [("d", 'int')], R + B.args('s'), B.out('r', "std::numeric_limits<U>::max()") + B.out('s', "std::numeric_limits<U>::min()"), lambda i, o, g: [("max", B.val(o, 'r') == BVV((1 << (N - (1 if B.s else 0))) - 1, N)), ("min", B.val(o, 's') == BVV(1 << (N - 1) if B.s else 0, N))], samples=1)
    for nm, ty, w, s in (('int', 'int', 32, 1), ('uns', 'unsigned', 32, 0), ('long', 'long', 64, 1), ('ulong', 'unsigned long', 64, 0), ('i128', '__int128', 128, 1), ('u128', 'unsigned __int128', 128, 0), ('uchar', 'unsigned char', 8, 0), ('schar', 'signed char', 8, 1)):
        def conv(v, n, s): return v if v.size() == n else Extract(n - 1, 0, v) if v.size() > n else (SX if s else ZX)(v, n)
        ok = w != 128
        add('from' + nm, [("v", ty)] if ok else [("a", 'unsigned long'), ("b", 'unsigned long')], R, ("" if ok else "const %s v = static_cast<%s>((static_cast<unsigned __int128>(b) << 64) | a); " % (ty, ty)) + B.out('r', "U(v)"), lambda i, o, g, s=s, ok=ok, conv=conv: [("value", B.val(o, 'r') == conv(i.v.bv if ok else Concat(i.b.bv, i.a.bv), N, s))])
        add('to' + nm, X, [("r", ty)] if ok else [("a", 'unsigned long'), ("b", 'unsigned long')], dx + ("r = static_cast<%s>(x);" % ty if ok else "const auto v = static_cast<unsigned __int128>(static_cast<%s>(x)); a = static_cast<unsigned long>(v); b = static_cast<unsigned long>(v >> 64);" % ty), lambda i, o, g, w=w, ok=ok, conv=conv: [("value", (o.r.bv if ok else Concat(o.b.bv, o.a.bv)) == conv(x(i), w, B.s))], hook=h1)
    if B.s: return
    def bits(nm, e, f, args=None): add(nm, X, [("r", 'int')], dx + "r = ccm::support::%s(x);" % e, lambda i, o, g: [("count", o.r.bv == ZX(f(x(i)), 32))], hook=h1)
    bits('clz', 'countl_zero', lambda a: clz_spec(a, N)); bits('clo', 'countl_one', lambda a: clz_spec(~a, N)); bits('ctz', 'countr_zero', lambda a: clz_spec(rev(a), N)); bits('cto', 'countr_one', lambda a: clz_spec(~rev(a), N))
    
    for nm, e, f in (('popcount', 'popcount', lambda a: a), ('zeros', 'count_zeros', lambda a: ~a)):
        add(nm, X, [("r", 'int')], dx + "r = ccm::support::%s(x);" % e, lambda i, o, g, f=f: [("count", o.r.bv == (popn(f(x(i))) if getattr(g, 'native', False) else pop(f(x(i)), B.W)))], hook=h1, opaque={r"support8popcountI[jm]E": pop_contract})
    bits('width', 'bit_width', lambda a: BVV(N, 32) - ZX(clz_spec(a, N), 32))
    add('onebit', X, [("r", 'bool')], dx + "r = ccm::support::has_single_bit(x);", lambda i, o, g: [("power-of-two", (o.r.bv != 0) == And(x(i) != 0, x(i) & (x(i) - 1) == 0))], hook=h1)
    for nm, left in (('rotl', True), ('rotr', False)) if N <= 128 or full_ else ():
        def spec(a, n, left=left):
            k = z3.SRem(n, BVV(N, 32)); k = fit(If(k < 0, k + N, k), N); l, r = (k, BVV(N, N) - k) if left else (BVV(N, N) - k, k)
            return (a << l) | LShR(a, r)
        add(nm, X + [("n", 'int')], R, dx + B.out('r', "ccm::support::%s(x, n)" % nm), lambda i, o, g, spec=spec: [("rotation", B.val(o, 'r') == spec(x(i), i.n.bv))], lambda i: [i.n.bv > -(1 << 20), i.n.bv < (1 << 20)] , hook=lambda rng: B.rnd(rng) + [rng.choice([0, 1, N, -1, -N, rng.randrange(-3 * N, 3 * N)]) & 0xffffffff])
    add('masks', [("d", 'int')], [a for p in 'abcd' for a in B.args(p)], "".join(B.out(p, "ccm::support::mask_%s<U, %d>()" % (m, c)) for p, m, c in (('a', 'trailing_ones', N // 2 - 5), ('b', 'leading_ones', N // 2 + 3), ('c', 'trailing_zeros', B.W), ('d', 'leading_zeros', 7))),
        lambda i, o, g: [("trailing-ones", B.val(o, 'a') == (1 << (N // 2 - 5)) - 1), ("leading-ones", B.val(o, 'b') == ((1 << (N // 2 + 3)) - 1) << (N // 2 - 3)), ("trailing-zeros", B.val(o, 'c') == BVV((1 << N) - (1 << B.W), N)), ("leading-zeros", B.val(o, 'd') == (1 << (N - 7)) - 1)], samples=1)
def rev(a):
    N = a.size()
    return Concat(*[Extract(k, k, a) for k in range(N)])
def pop(a, W):
    """bits set, counted word by word"""
    r = BVV(0, 32)
    for k in range(0, a.size(), W): r = r + fit(popw(Extract(k + W - 1, k, a)), 32)
    return r
def popn(a):
    L = [ZX(Extract(j, j, a), 32) for j in range(a.size())]
    while len(L) > 1: L = [L[j] + L[j + 1] if j + 1 < len(L) else L[j] for j in range(0, len(L), 2)]
    return L[0]
def clz_spec(v, N):
    r = BVV(N, 32)
    for k in range(N): r = If(Extract(k, k, v) == 1, BVV(N - 1 - k, 32), r)
    return r
def add_conv(T, A, B, cfg):
    """converting constructor A -> B: the value is kept modulo 2^N; sign-extended when both are signed, zero-extended when A is unsigned"""
    def ens(i, o, g):
        a = A.val(i, 'x')
        w = a if A.N == B.N else Extract(B.N - 1, 0, a) if A.N > B.N else (SX if A.s and B.s else ZX)(a, B.N)
        return [("value", B.val(o, 'r') == w)]
    T.append(Target("conv_%s_%s_%s" % (A.tag, B.tag, cfg), cfg, A.args('x'), B.args('r'), A.decl('x') + B.out('r', "%s(x)" % B.cpp), ens, samples=60, inputs_hook=lambda rng: A.rnd(rng)))
def prods(xs, ys, W, O):
    """the partial products of two word vectors added up column by column: the words of the sum (O bits), each with what it takes from the column before"""
    n = O // W; V = 3 * W; carry = BVV(0, V); out = []
    for k in range(n):
        S = carry
        for a, x in enumerate(xs):
            if 0 <= k - a < len(ys): S = S + ZX(bvmul(ZX(x, 2 * W), ZX(ys[k - a], 2 * W)), V)
        out.append(Extract(W - 1, 0, S)); carry = LShR(S, W)
    return out
def lemma(n, m):
    """integers: with c_k the k-th column of partial products and c_k + q_(k-1) = B*q_k + r_k, the r_k are the digits of the product up to the last carry"""
    xs, ys, Bs = [z3.Int("lem_x%d" % k) for k in range(n)], [z3.Int("lem_y%d" % k) for k in range(m)], z3.Int("lem_B")
    q = [z3.IntVal(0)] + [z3.Int("lem_q%d" % k) for k in range(n + m)]
    def pw(k):
        r = z3.IntVal(1)
        for _ in range(k): r = r * Bs
        return r
    col = [sum((xs[a] * ys[k - a] for a in range(n) if 0 <= k - a < m), z3.IntVal(0)) for k in range(n + m)]
    digits = sum((pw(k) * (col[k] + q[k] - Bs * q[k + 1]) for k in range(n + m)), z3.IntVal(0))
    return sum((pw(k) * v for k, v in enumerate(xs)), z3.IntVal(0)) * sum((pw(k) * v for k, v in enumerate(ys)), z3.IntVal(0)) == digits + pw(n + m) * q[n + m]
def mac_contract(ex, I, a):
    """mul_add_with_carry on a two-word accumulator: the accumulator takes the exact sum modulo 2^2W and the carry out is returned (targets muladd_*)"""
    W = I.ty[1]; st = W // 8
    acc = Concat(BV(ex.load(ex.padd(a[0], st), ('i', W)), W), BV(ex.load(a[0], ('i', W)), W))
    S = z3.simplify(ZX(acc, 2 * W + 1) + ZX(bvmul(ZX(BV(a[1], W), 2 * W), ZX(BV(a[2], W), 2 * W)), 2 * W + 1))
    ex.store(a[0], simp(Extract(W - 1, 0, S)), ('i', W)); ex.store(ex.padd(a[0], st), simp(Extract(2 * W - 1, W, S)), ('i', W))
    return simp(ZX(Extract(2 * W, 2 * W, S), W))
MAC = {r"18mul_add_with_carryI[jm]Lm2EE": mac_contract}
def add_mac(T, cfg):
    for W in (32, 64):
        t = UWT[W]
        T.append(Target("muladd_%d_%s" % (W, cfg), cfg, [(n, t) for n in ('a0', 'a1', 'x', 'y')], [(n, t) for n in ('r0', 'r1', 'c')], "std::array<std::uint%d_t, 2> d{a0, a1}; c = ccm::types::multiword::mul_add_with_carry(d, static_cast<std::uint%d_t>(x), static_cast<std::uint%d_t>(y)); r0 = d[0]; r1 = d[1];" % (W, W, W),
            lambda i, o, g, W=W: [("sum", Concat(o.c.bv, o.r1.bv, o.r0.bv) == ZX(Concat(i.a1.bv, i.a0.bv), 3 * W) + ZX(bvmul(ZX(i.x.bv, 2 * W), ZX(i.y.bv, 2 * W)), 3 * W))], samples=100))
def pop_contract(ex, I, a):
    W = a[0].size() if not isc(a[0]) else 64
    return simp(fit(popw(BV(a[0], W)), 32))
def popw(w):
    """bits set in a word: the contract of popcount(word), established by P11"""
    W = w.size(); n = 'popw%d' % W
    if n not in lib.UFS: lib.UFS[n] = z3.Function(n, z3.BitVecSort(W), z3.BitVecSort(8))
    return If(w == 0, BVV(0, 8), lib.UFS[n](w))
def words(B, ns, p): return [getattr(ns, "%s%d" % (p, k)).bv for k in range(B.C)]
def add_mul(T, B, cfg, full_=False):
    N, W = B.N, B.W; X, Y, R = B.args('x'), B.args('y'), B.args('r')
    h2 = lambda rng: B.rnd(rng) + B.rnd(rng)
    nat = lambda g: getattr(g, 'native', False)
    dxy = B.decl('x') + B.decl('y')
    def low(i, o, g):
        L = [("word%d" % k, getattr(o, "r%d" % k).bv == w) for k, w in enumerate(prods(words(B, i, 'x'), words(B, i, 'y'), W, N))] + [("product-lemma", lemma(B.C, B.C))]
        return L + ([("product", B.val(o, 'r') == B.val(i, 'x') * B.val(i, 'y'))] if nat(g) else [])
    T.append(Target("mul_%s_%s" % (B.tag, cfg), cfg, X + Y, R, dxy + B.out('r', "x * y"), low, samples=60, inputs_hook=h2, opaque=MAC, doc="product modulo 2^N"))
    T.append(Target("muleq_%s_%s" % (B.tag, cfg), cfg, X + Y, R, dxy + "x *= y; " + B.out('r', "x"), low, samples=60, inputs_hook=h2, opaque=MAC))
    if B.s: return
    def scal(i, o, g):
        ps = prods(words(B, i, 'x'), [i.k.bv], W, N + W)
        L = [("word%d" % k, (getattr(o, "r%d" % k) if k < B.C else o.c).bv == w) for k, w in enumerate(ps)] + [("product-lemma", lemma(B.C, 1))]
        return L + ([("product", Concat(o.c.bv, B.val(o, 'r')) == ZX(B.val(i, 'x'), N + W) * ZX(i.k.bv, N + W))] if nat(g) else [])
    T.append(Target("mulword_%s_%s" % (B.tag, cfg), cfg, X + [("k", UWT[W])], R + [("c", UWT[W])], B.decl('x') + "c = x.mul(k); " + B.out('r', "x"), scal, samples=60, inputs_hook=lambda rng: B.rnd(rng) + [rng.choice([0, 1, (1 << W) - 1, rng.getrandbits(W)])], opaque=MAC, doc="product with one word and the carry out of it"))
    if N > 128 or N == 96 and not full_: return
    D = Big(2 * N, False, W)
    def full(i, o, g):
        L = [("word%d" % k, getattr(o, "r%d" % k).bv == w) for k, w in enumerate(prods(words(B, i, 'x'), words(B, i, 'y'), W, 2 * N))] + [("product-lemma", lemma(B.C, B.C))]
        return L + ([("product", D.val(o, 'r') == ZX(B.val(i, 'x'), 2 * N) * ZX(B.val(i, 'y'), 2 * N))] if nat(g) else [])
    T.append(Target("fullmul_%s_%s" % (B.tag, cfg), cfg, X + Y, D.args('r'), dxy + D.out('r', "x.ful_mul(y)"), full, samples=60, inputs_hook=h2, opaque=MAC, doc="exact product"))
def mag(B, v): return If(v < 0, -v, v) if B.s else v
def add_div(T, B, cfg):
    N = B.N; X, Y = B.args('x'), B.args('y'); big = (1 << (N - 1))
    def ens(i, o, g):
        x, y, q, r = B.val(i, 'x'), B.val(i, 'y'), B.val(o, 'q'), B.val(o, 'r')
        if getattr(g, 'native', False):
            if B.s: return [("quotient", q == x / y), ("remainder", r == z3.SRem(x, y))]
            return [("quotient", q == z3.UDiv(x, y)), ("remainder", r == z3.URem(x, y))]
        D = mag(B, y)
        sq = (lambda v: If((x < 0) != (y < 0), -v, v)) if B.s else (lambda v: v)
        sr = (lambda v: If(x < 0, -v, v)) if B.s else (lambda v: v)
        how = [And(q == 0, r == x, ULT(mag(B, x), D)), And(y == 1, q == x, r == 0)]
        if B.s: how.append(And(x == big, y == big, q == 1, r == 0))
        if 'div' in g.cut: how.append(And(q == sq(g.cut['div'][0]), r == sr(g.cut['div'][1]), ULT(g.cut['div'][1], D)))
        return [("quotient-and-remainder", Or(*how))]
    hook = lambda rng: B.rnd(rng) + (lambda v: v if any(v) else [3] + v[1:])(B.rnd(rng))
    pre = "using U = %s; " % B.cpp + B.decl('x') + B.decl('y')
    req = lambda i: [B.val(i, 'y') != 0]
    T.append(Target("div_%s_%s" % (B.tag, cfg), cfg, X + Y, B.args('q') + B.args('r'), pre + "const auto m_ = x.div(y); if (!m_) return; const U m = *m_; " + B.out('q', "x") + B.out('r', "m"), ens, requires=req, samples=100, inputs_hook=hook, cut=div_cut(B), shifts=True, opaque=bigint.contracts((N,)), doc="truncating division: quotient * divisor + remainder is the dividend, |remainder| < |divisor|, the remainder has the dividend's sign"))
    # the operators are div's quotient and remainder (division itself through its contract)
    def det(ex, I, a):
        W = B.W; out = []
        for k in 'qr':
            n = 'udiv%s%d' % (k, N)
            if n not in lib.UFS: lib.UFS[n] = z3.Function(n, *[z3.BitVecSort(N)] * 3)
            out.append(lib.UFS[n](bigint.rd(ex, a[1], N), bigint.rd(ex, a[2], N)))
        bigint.wr(ex, a[0], out[0], N); bigint.wr(ex, ex.padd(a[0], N // 8), out[1], N)
    def ens2(i, o, g): return [("quotient", B.val(o, 'q') == B.val(o, 's')), ("assigned-quotient", B.val(o, 't') == B.val(o, 's')), ("remainder", B.val(o, 'r') == B.val(o, 'u'))]
    T.append(Target("divops_%s_%s" % (B.tag, cfg), cfg, X + Y, [a for p in 'qrstu' for a in B.args(p)], pre + "U z(x); const auto m_ = z.div(y); if (!m_) return; const U m = *m_; U w(x); w /= y; " + B.out('q', "x / y") + B.out('r', "x % y") + B.out('s', "z") + B.out('t', "w") + B.out('u', "m"), ens2, requires=req, samples=100, inputs_hook=hook, opaque={r"15divide_unsignedE": det}))
    T.append(Target("divzero_%s_%s" % (B.tag, cfg), cfg, X, [("r", 'bool')] + B.args('q'), "using U = %s; " % B.cpp + B.decl('x') + "r = x.div(U::zero()).has_value(); " + B.out('q', "x"), lambda i, o, g: [("no-value", o.r.bv == 0), ("unchanged", B.val(o, 'q') == B.val(i, 'x'))], samples=60, inputs_hook=lambda rng: B.rnd(rng), opaque={r"15divide_unsignedE": det}))
def div_cut(B):
    """Loop contract of the shift-and-subtract division X / D. At the loop head, with c the bit to be decided:
       -1 <= c < N,  D*2^(c+1) does not exceed N+1 bits,  R < D*2^(c+1),  the quotient Q has no bit at c or below,  Q*D = X - R,  and the subtractor is D*2^c (D/2 once c = -1).
    The step (c, Q, R) -> (c-1, Q, R) or (c-1, Q + 2^c, R - D*2^c) keeps Q*D + R = X: division-step-lemma, over the integers."""
    N, W = B.N, B.W
    def rd(ex, mem, o):
        cells = mem[o]
        if not all(k * W // 8 in cells and cells[k * W // 8][0] == W // 8 for k in range(B.C)): return None
        ws = [BV(cells[k * W // 8][1], W) for k in range(B.C)]
        return z3.simplify(Concat(*reversed(ws)) if len(ws) > 1 else ws[0])
    def same(ex, G, v, X):
        """v is X wherever the loop is reached (which object plays which part; a wrong guess would only fail the obligations)"""
        if v.eq(z3.simplify(X)): return True
        s = z3.Solver(); s.set("timeout", 5000); s.add(*ex.requires); s.add(G); s.add(v != X)
        return s.check() == z3.unsat
    def low(c): return BVV(1, N) << fit(SX(c, max(N, 32)), N)
    def sub(D, c): return If(c < 0, LShR(D, 1), D << fit(c, N))
    def inv(X, D, Q, R, c):
        s = D << fit(c, N)
        return [("range", And(c >= -1, c < N)), ("subtractor-fits", Implies(c >= 0, LShR(s, fit(c, N)) == D)), ("remainder-bound", If(c >= 0, ULT(ZX(R, N + 1), ZX(s, N + 1) << 1), ULT(R, D))),
                ("remainder", ULE(R, X)), ("quotient-bits", If(c >= 0, Q & (low(c) | (low(c) - 1)) == 0, True))]
    def step(X, D, a, b):
        (Q, R, c), (Q1, R1, c1) = a, b
        s = D << fit(c, N); bit = low(c)
        return And(c >= 0, c1 == c - 1, Or(And(Q1 == Q, R1 == R), And(ULE(s, R), Q & bit == 0, Q1 == Q | bit, R1 == R - s)))
    def shift_lemma(D, c):
        s, s1 = D << fit(c, N), D << fit(c - 1, N)
        return Implies(And(c >= 0, c < N, LShR(s, fit(c, N)) == D), If(c == 0, s == D, And(LShR(s, 1) == s1, LShR(s1, fit(c - 1, N)) == D, ZX(s1, N + 1) << 1 == ZX(s, N + 1))))
    def bit_lemma(c): return Implies(And(c >= 0, c < N), And(low(c) & (low(c) - 1) == 0, If(c == 0, low(c) == 1, low(c - 1) | (low(c - 1) - 1) == low(c) - 1)))
    def oblige(ex, G, name, D, X, a, b, S1, known=()):
        """the step from state a to the values b keeps the invariant"""
        c = a[2]; facts = [shift_lemma(D, c), bit_lemma(c)] + list(known)
        for nm, f in [("step", step(X, D, a, b)), ("subtractor", S1 == sub(D, b[2]))]: ex.invs.append((G, Implies(And(*facts), f), "%s-%s" % (name, nm)))
        facts.append(step(X, D, a, b))
        for nm, f in inv(X, D, *b): ex.invs.append((G, Implies(And(*facts), f), "%s-%s" % (name, nm)))
    def cut(ex, fname, it, phis, guard, st):
        if it == 1:
            cur = [p for p, t, i, c in phis if t == ('i', 32) and not isc(i)]
            if len(cur) != 1: return None
            st.update(cur=cur[0], mem=None, mem1=ex.hdrmem); st.pop('mem')
            return None
        if 'cur' not in st: return None
        X, D = mag(B, B.val(ex.ins, 'x')), mag(B, B.val(ex.ins, 'y')); G = BO(guard.expr())
        ini, now = ({p: i for p, t, i, c in phis}, {p: c for p, t, i, c in phis})
        if it == 2:
            ch = list(ex.changed_cells(st['mem1'], ex.hdrmem)); objs = {o for o, k, sz, v in ch}
            role = {}
            for o in objs:
                v = rd(ex, st['mem1'], o) if o in st['mem1'] else None
                if v is None: continue
                if z3.is_bv_value(v) and v.as_long() == 0: role.setdefault('q', []).append(o)
                elif same(ex, G, v, X): role.setdefault('r', []).append(o)
                else: role.setdefault('s', []).append(o)
            if any(len(role.get(k, [])) != 1 for k in 'qrs') or any(not isinstance(v, int) and not z3.is_bv(v) for o, k, sz, v in ch):
                st.pop('cur'); return None
            q, r, s_ = (role[k][0] for k in 'qrs'); st.update(q=q, r=r, s=s_)
            c0 = BV(ini[st['cur']], 32); S0 = rd(ex, st['mem1'], s_)
            Q1, R1, S1, c1 = rd(ex, ex.hdrmem, q), rd(ex, ex.hdrmem, r), rd(ex, ex.hdrmem, s_), BV(now[st['cur']], 32)
            start = (BVV(0, N), X, c0)
            ex.invs.append((G, And(c0 >= 0, S0 == D << fit(c0, N)), "division-entry-subtractor"))
            for nm, f in inv(X, D, *start): ex.invs.append((G, f, "division-entry-" + nm))
            oblige(ex, G, "division-first-step", D, X, start, (Q1, R1, c1), S1, [c0 >= 0, S0 == D << fit(c0, N)] + [f for _, f in inv(X, D, *start)])
            d, k = z3.BitVec("lem_d", N), z3.BitVec("lem_c", 32)
            ex.invs.append((z3.BoolVal(True), shift_lemma(d, k), "shift-lemma")); ex.invs.append((z3.BoolVal(True), bit_lemma(k), "bit-lemma"))
            Q, R, c = ex.cut_var(N), ex.cut_var(N), SX(ex.cut_var(10), 32)
            ex.side.append(Implies(G, And(*[f for _, f in inv(X, D, Q, R, c)])))
            mem = dict(ex.hdrmem); hv = set()
            for o, k, sz, v in ch:
                cells = dict(mem[o]); full = {q: Q, r: R, s_: sub(D, c)}.get(o)
                cells[k] = (sz, ex.cut_var(8 * sz) if full is None else simp(Extract(8 * (k + sz) - 1, 8 * k, full)))
                mem[o] = cells; hv.add((o, k, sz))
            for o in [o for o in mem if isinstance(o, str) or ex.objs[o][0] == 'errno']:         # floating-point flags and errno: nothing is claimed of them
                cells = dict(mem[o])
                for k, (sz, v) in mem[o].items(): cells[k] = (sz, ex.cut_var(8 * sz)); hv.add((o, k, sz))
                mem[o] = cells
            for o, full in ((q, Q), (r, R), (s_, sub(D, c))):                   # whole objects, also where a word did not change in the first step
                cells = dict(mem[o])
                for k in range(B.C): cells[k * W // 8] = (W // 8, simp(Extract(W * k + W - 1, W * k, full))); hv.add((o, k * W // 8, W // 8))
                mem[o] = cells
            st.update(mem=mem, havoc=hv, at=(Q, R, c)); ex.cutout['div'] = (Q, R)
            return {st['cur']: c}
        if 'at' not in st: return None
        Q1, R1, S1, c1 = (rd(ex, ex.hdrmem, st[k]) if k != 'c' else BV(now[st['cur']], 32) for k in ('q', 'r', 's', 'c'))
        if Q1 is None or R1 is None or S1 is None: return None
        oblige(ex, G, "division-invariant", D, X, st['at'], (Q1, R1, c1), S1)
        q, d, x, r, t = z3.Ints("lem_q lem_d lem_x lem_r lem_t")
        ex.invs.append((z3.BoolVal(True), Implies(q * d == x - r, (q + t) * d == x - (r - t * d)), "division-step-lemma"))
        return 'STOP'
    return cut
def targets(tier):
    T = []
    full = tier == 'thorough'
    for cfg in ('K', 'KC', 'G', 'GC') if full else ('K', 'KC', 'G'):
        for N in (64, 96, 128, 192, 256) if full else (96, 128, 192):
            for s in (False, True): add_ops(T, Big(N, s), cfg, full)
        add_mac(T, cfg)
        for N in (64, 96, 128, 192, 256) if full else (96, 128, 192):
            for s in (False, True): add_mul(T, Big(N, s), cfg, full)
        for B in (Big(128), Big(128, True), Big(192), Big(96, True)) if full else (Big(128),) + ((Big(128, True),) if cfg == 'K' else ()): add_div(T, B, cfg)
        U = lambda n, w: Big(n, False, w); S = lambda n, w: Big(n, True, w)
        for A, B in ((U(64, 64), U(128, 64)), (U(128, 64), U(64, 64)), (S(64, 64), S(192, 64)), (S(64, 32), S(128, 64)), (S(96, 32), S(256, 64)), (U(96, 32), U(128, 64)), (U(128, 64), U(96, 32)), (S(128, 64), S(96, 32)), (S(64, 64), S(96, 32)), (U(256, 64), U(96, 32)), (S(128, 32), S(64, 64)), (U(96, 32), S(128, 64)), (S(128, 64), U(128, 64)), (U(128, 64), S(128, 64)), (U(64, 32), U(192, 64)), (S(64, 32), S(192, 64))):
            add_conv(T, A, B, cfg)
    return T
