"""fmod and remainder: exact, for every pair of finite operands."""
from spec import *
ASSUMPTIONS = ["at run time the platform's fmod and remainder (compiler builtins) are exact",
    "the residue loop's invariant (residue * 2^steps is congruent to the dividend modulo the divisor) enters the proof as facts about a ghost residue; its step is proved over the integers by the residue-step lemma"]
REMQUO = False
def sig(v):
    """(integer significand, exponent field of its unit) of a finite value"""
    m = Concat(If(v.exp == 0, BVV(0, 1), BVV(1, 1)), v.frac)
    return m, If(v.exp == 0, BVV(1, 16), ZX(v.exp, 16))
def problem(fn, i):
    """x = A * 2^E units, modulus M units, unit's exponent field u: the residue of interest is A * 2^E mod M"""
    a, ax = sig(i.x); y, ay = sig(i.y); W = a.size() + 3
    a, y = ZX(a, W), ZX(y, W)
    if fn == 'fmod': return a, If(ULT(ax, ay), BVV(0, 16), ax - ay), y, y, ay, ULT(ax, ay)
    half = ULT(ax, ay)                                 # x is counted in finer units than y, by one binade (two or more: |x| < |y|/2)
    y1 = If(half, y << 1, y)
    return a, If(half, BVV(0, 16), ax - ay), y1 << 1, y1, If(half, ax, ay), ULT(ax + 1, ay)
def has_urem(t):
    seen = set(); st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I): return e
        st.extend(e.children())
    return None
def mod_cut(fn):
    def cut(ex, fname, it, phis, guard, st):
        if it == 1:
            res = [(p, t, i) for p, t, i, c in phis if t[0] == 'i' and not isc(i) and not isinstance(i, (bool, FV, PV)) and z3.is_bv(i) and has_urem(i) is not None]
            cnt = [(p, t, i) for p, t, i, c in phis if t == ('i', 32) and (p, t, i) not in res]
            if len(phis) != 2 or len(res) != 1 or len(cnt) != 1: return None
            (pm, tm, im), (ps, ts, is_) = res[0], cnt[0]
            w = tm[1]; G = guard.expr()
            A, E, M, _, _, _ = problem(fn, ex.ins)
            Mw, Aw = fit(M, w), fit(A, w); s0 = BV(is_, 32)
            u = has_urem(im)
            ex.invs.append((G, And(BV(im, w) == z3.URem(Aw, Mw), s0 == ZX(E, 32), Mw != 0), "residue-loop-entry"))
            R = fit(ex.cut_var(M.size()), w); m = ZX(ex.cut_var(M.size()), w); s = ZX(ex.cut_var(16), 32)
            inv = And(ULT(m, Mw), ULE(s, ZX(E, 32)))
            nxt = step(m, Mw)
            # the ghost residue R = A * 2^E mod M; whatever pair the invariant describes leads to it
            ex.side.append(Implies(G, And(inv, ULT(R, Mw), Implies(s == 0, m == R), Implies(E == 0, R == z3.URem(Aw, Mw)), Implies(s == 1, nxt == R))))
            st.update(on=True, m=m, s=s, pm=pm, ps=ps, w=w, M=Mw, E=E, R=R)
            ex.cutout['R'] = Extract(M.size() - 1, 0, R)
            return {pm: m, ps: s}
        if not st.get('on'): return None
        cur = {p: c for p, t, i, c in phis}
        w, m, s, M = st['w'], st['m'], st['s'], st['M']
        m1, s1 = BV(cur[st['pm']], w), BV(cur[st['ps']], 32)
        ex.invs.append((guard.expr(), And(s1 == s - 1, s != 0, m1 == step(m, M), ULT(m1, M)), "residue-loop-invariant"))
        a, k, r, q, P = z3.Ints("lem_m lem_M lem_r lem_q lem_P")
        # a * 2P = q * M + r: after the step, (2a) * P and (2a - M) * P leave the same residue r
        ex.invs.append((z3.BoolVal(True), Implies(a * (2 * P) == q * k + r, And((2 * a) * P == q * k + r, (2 * a - k) * P == (q - P) * k + r)), "residue-step-lemma"))
        return 'STOP'
    return cut
def step(m, M): return If(UGE(m, M - m), m - (M - m), m + m)
def fit(x, W): return ZX(x, W) if x.size() <= W else Extract(W - 1, 0, x)
def exact(fn, i, o, g):
    A, E, M, Y, u, small = problem(fn, i)
    r = o.r
    if getattr(g, 'native', False):
        W = (1 << i.x.eb) + 80
        R = Extract(M.size() - 1, 0, z3.URem(ZX(A, W) << ZX(E, W), ZX(M, W)))
    else: R = g.cut.get('R', z3.BitVec('ghost_residue', M.size()))          # no loop contract applied: nothing is known of it
    mag = r.bv == r.bv
    m, ur = sig(r); W = A.size()
    # |r| = m units of field ur; v: the same in units of field u
    if fn == 'fmod':
        lt = ULT(abs_(i.x), abs_(i.y))
        val = And(ULE(ur, u), LShR(R, W - 3) == 0, ZX(m, 2 * W) == ZX(R, 2 * W) << ZX(u - ur, 2 * W), r.sign == i.x.sign)
        return If(lt, r.bv == i.x.bv, val)
    odd = UGE(R, Y)
    low = (R << 1)                                  # R < 2Y
    c0 = ULE(low, Y)
    c2 = UGE(low, Y + (Y << 1))
    v = If(c0, R, If(c2, (Y << 1) - R, If(odd, R - Y, Y - R)))
    neg = And(Not(c0), Or(c2, Not(odd)))
    val = And(ULE(ur, u), ZX(m, 2 * W) == ZX(v, 2 * W) << ZX(u - ur, 2 * W), r.sign == If(neg, ~i.x.sign, i.x.sign))
    return If(small, r.bv == i.x.bv, val)
def abs_(v): return Concat(v.exp, v.frac)
# remquo: relative to the contract of fmod, which it calls with 8y
def fmod_contract(ty):
    def f(ex, I, a):
        x, y = (Val(ty, BV(v.bv(), v.w)) for v in a)
        r = Val(ty, ex.cut_var(x.w))
        fin = And(x.finite, y.finite, Not(y.zero))
        ex.callee_requires(simp(fin), "fmod is called with finite operands, the divisor not zero")
        _, E, m, _, u, _ = problem('fmod', NSxy(x, y))
        k, ur = sig(r)
        # what fmod guarantees: the residue of x modulo y, in y's units, with x's sign
        ex.side.append(Implies(fin, And(r.finite, ULT(abs_(r), abs_(y)), r.sign == x.sign, Implies(ULT(abs_(x), abs_(y)), r.bv == x.bv), ULE(ur, u))))
        ex.cutout.setdefault('fmod', []).append((BO(ex.guard.expr()), x, y, r))
        return ex.Fb(x.w, r.bv)
    return f
class NSxy:
    def __init__(self, x, y): self.x = x; self.y = y
def near(r8, y, r, q):
    """r = |r8| - n*|y| with n = |r8| / |y| rounded to nearest, ties to even (|r8| < 8|y|), carrying r8's sign; q = n modulo 8"""
    k, ur = sig(r8); m, uy = sig(y); W = k.size() + 6
    k, m = ZX(k, W), ZX(m, W)
    tiny = ULT(ur + 1, uy)
    d = uy - ur
    fine = d == 1                                             # r8's unit is one binade finer than y's: count in it
    K = If(fine, k, k << ZX(ur - uy, W)); M = If(fine, m << 1, m); u = If(fine, ur, uy)
    n, rest = nearest(K, M)
    neg = rest < 0; mag = If(neg, -rest, rest)
    mr, urr = sig(r)
    val = And(ULE(urr, u), ZX(mr, 2 * W) == ZX(mag, 2 * W) << ZX(u - urr, 2 * W), r.sign == If(neg, ~r8.sign, r8.sign))
    return If(tiny, And(r.bv == r8.bv, q == 0), And(val, q == n))
def parts(r8, y):
    k, ur = sig(r8); m, uy = sig(y); W = k.size() + 6
    k, m = ZX(k, W), ZX(m, W)
    yield "tiny", ULT(ur + 1, uy)
    for d in range(-1, 4):
        D = ur - uy == BVV(d & 0xffff, 16)
        K, M = (k, m << 1) if d == -1 else (k << d, m)
        n, _ = nearest4(K, M)
        for v in range(9):
            if v <= (8 if d >= 2 else 4 if d == 1 else 2 if d == 0 else 1) or True: yield "%d,%d" % (d, v), And(D, n == v)
def nearest4(K, M):
    n, rest = BVV(0, 4), K
    for j in range(1, 9):
        up = UGT(K << 1, M * (2 * j - 1)) if j % 2 else UGE(K << 1, M * (2 * j - 1))
        n, rest = If(up, BVV(j, 4), n), If(up, K - M * j, rest)
    return n, rest
def nearest(K, M):
    """(n mod 8, K - n*M) for 0 <= K < 8M, by comparison with the odd multiples of M/2"""
    n, rest = BVV(0, 3), K
    for j in range(1, 9):
        up = UGT(K << 1, M * (2 * j - 1)) if j % 2 else UGE(K << 1, M * (2 * j - 1))
        n, rest = If(up, BVV(j & 7, 3), n), If(up, K - M * j, rest)
    return n, rest
def wide(i, r, q):
    """the same for concrete operands, from the definition"""
    a, ax = sig(i.x); y, ay = sig(i.y); W = (1 << i.x.eb) + 80
    lo = If(ULT(ax, ay), ax, ay)
    X, Y = ZX(a, W) << ZX(ax - lo, W), ZX(y, W) << ZX(ay - lo, W)
    n, rest = z3.UDiv(X, Y), z3.URem(X, Y)
    up = Or(UGT(rest << 1, Y), And((rest << 1) == Y, Extract(0, 0, n) == 1))
    n = If(up, n + 1, n); mag = If(up, Y - rest, rest)
    mr, ur = sig(r)
    return And(If(ULE(ur, lo), ZX(mr, W) == mag << ZX(lo - ur, W), ZX(mr, W) << ZX(ur - lo, W) == mag), r.sign == If(And(up, mag != 0), ~i.x.sign, i.x.sign), Extract(2, 0, n) == q)
def add_remquo(T, s, ty, tier):
    for cfg in ('KC', 'GC', 'G') if tier == 'thorough' else ('KC', 'G'):
        def ens(i, o, g):
            nan = Or(i.x.nan, i.y.nan, i.x.inf, i.y.zero)
            L = [("nan", Implies(nan, o.r.nan)), ("infinite-divisor", Implies(And(Not(nan), i.y.inf), And(o.r.bv == i.x.bv, o.q.bv == 0)))]
            neg = i.x.sign != i.y.sign
            q = o.q.bv; mag = If(neg, -q, q)
            L.append(("quotient-sign", Implies(Not(Or(nan, i.y.inf)), And(mag >= 0, mag <= 8))))
            q3 = Extract(2, 0, mag)
            if getattr(g, 'native', False): return L + [("remainder-and-quotient", Or(nan, i.y.inf, wide(i, o.r, q3)))]
            calls = g.cut.get('fmod', [])
            # the residue modulo 8y: x itself if x is known to be less than 8y, otherwise what fmod gave for (x, 8y)
            big = UGE(ZX(i.y.exp, 16), BVV((1 << i.y.eb) - 4, 16))
            ok = [(big, i.x)]
            for G, x, y, r in calls:
                m8, u8 = sig(y); m, u = sig(i.y)
                W = m8.size() + 4
                is8y = And(ULE(u, u8), ULE(u8, u + 3), ZX(m8, W) << ZX(u8 - u, W) == ZX(m, W) << 3)
                ok.append((And(G, x.bv == i.x.bv, is8y), r))
            L.append(("reduced", Or(nan, i.y.inf, *[c for c, _ in ok])))
            for k, (c, r8) in enumerate(ok):
                for nm, cs in parts(r8, i.y): L.append(("remainder-and-quotient[%d,%s]" % (k, nm), Or(nan, i.y.inf, Not(c), Not(cs), near(r8, i.y, o.r, q3))))
            return L
        T.append(Target("remquo_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty), ("q", 'int')], "q = 0; r = ccm::remquo(x, y, &q);", ens, rms=rms_for(cfg), samples=300, opaque={r"^_ZN3ccm4fmodI%s" % s: fmod_contract(ty)}))
def targets(tier):
    T = []
    for fn in ('fmod', 'remainder'):
        for s, ty in FT: add_type(T, fn, s, ty, tier)
    if REMQUO:
        for s, ty in FDT: add_remquo(T, s, ty, tier)
    return T
def add_type(T, fn, s, ty, tier):
    for cfg in ('G', 'K'):
        b = "__builtin_%s%s" % (fn, {'float': 'f', 'double': '', 'long double': 'l'}[ty])
        T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty), ("s", ty)], "r = ccm::%s(x, y); s = %s(x, y);" % (fn, b), lambda i, o, g: [("platform-function", Or(o.r.bv == o.s.bv, And(o.r.nan, o.s.nan)))], rms=rms_for(cfg), samples=100, doc="run time: the platform's function, which is exact (assumed)"))
    for cfg in ('KC', 'GC'):
        def ens(i, o, g):
            nan = Or(i.x.nan, i.y.nan, i.x.inf, i.y.zero)
            return [("nan", Implies(nan, o.r.nan)), ("infinite-divisor", Implies(And(Not(nan), i.y.inf), o.r.bv == i.x.bv)),
                    ("exact", Or(nan, i.y.inf, exact(fn, i, o, g)))]
        T.append(Target("%s_%s_%s" % (fn, s, cfg), cfg, [("x", ty), ("y", ty)], [("r", ty)], "r = ccm::%s(x, y);" % fn, ens, rms=rms_for(cfg), samples=300, cut=mod_cut(fn)))
