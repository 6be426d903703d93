"""sqrt: correctly rounded in every mode, on every path."""
from spec import *
def sqrt_cut(ex, fname, it, phis, guard, st):
    """Loop contract of the digit recurrence (role of each variable found by its initial value, not its name).
    With one = 2^n and N = M*one (M: the significand scaled into [one, 4*one)), before step k:
       r * 2^(n-k) = N - y^2,  r < 2y + 2^(n-k),  2^(n-k) divides y,  one <= y < 2*one."""
    if it == 1:
        con = [(p, t, i) for p, t, i, c in phis if isc(i)]
        sym = [(p, t, i) for p, t, i, c in phis if not isc(i) and t[0] == 'i']
        if len(con) != 2 or len(sym) != 1: return None
        (pa, ta, a), (pb, tb, b) = con
        if a == 2 * b: y, c, one = pa, pb, a
        elif b == 2 * a: y, c, one = pb, pa, b
        else: return None
        if one & (one - 1): return None
        n = one.bit_length() - 1
        if n not in (23, 52, 63): return None
        w = sym[0][1][1]
        W = 2 * n + 8
        M = ZX(sym[0][2], W) if w <= W else Extract(W - 1, 0, sym[0][2])
        st.update(on=True, y=y, r=sym[0][0], n=n, w=w, W=W, N=(M + one) << n, Nraw=sym[0][2])
    if not st.get('on'): return None
    n, w, W, N = st['n'], st['w'], st['W'], st['N']
    k = it - 1
    if k > n: return None
    cur = {p: c for p, t, i, c in phis}
    c2 = 1 << (n - k)
    def bounds(y, r):
        lo = (Extract(n - k - 1, 0, y) == 0) if k < n else z3.BoolVal(True)
        return And(ULE(y, BVV((2 << n) - 1, w)), UGE(y, BVV(1 << n, w)), lo, ULT(r, (y << 1) + c2))
    y0, r0 = BV(cur[st['y']], w), BV(cur[st['r']], w)
    G = BO(guard.expr())
    # obligation: the step is one of the two recurrence steps and keeps the bounds (no multiplication involved)
    if k == 0: step = y0 == 1 << n
    else:
        py, pr = st['py'], st['pr']
        c = 1 << (n - k)
        V = n + 6
        step = Or(And(y0 == py, fit(r0, V) == fit(pr, V) << 1), And(y0 == py + c, fit(r0, V) == (fit(pr, V) << 1) - (fit(py, V) << 1) - c))
        # lemma (integers, nonlinear): either step leaves  r*2^(n-k) - (N - y^2)  unchanged (it is 0 at the start)
        if k == 1:
            ai, bi, Ni, ci = z3.Ints("lem_y lem_r lem_N lem_c")
            rel = lambda r, y, m: r * m - (Ni - y * y)
            ex.invs.append((z3.BoolVal(True), And(rel(2 * bi, ai, ci) == rel(bi, ai, 2 * ci), rel(2 * bi - 2 * ai - ci, ai + ci, ci) == rel(bi, ai, 2 * ci)), "digit-recurrence-lemma"))
    goal = And(step, bounds(y0, r0))
    if k == 0:
        ex.invs.append((guard.expr(), And(goal, N == scaled(ex.ins.x)[1]), "digit-recurrence-entry"))
        st['N'] = scaled(ex.ins.x)[1]                    # from here on the specification's own term
    else: ex.invs.append((z3.BoolVal(True), Implies(st['facts'], goal), "digit-recurrence-invariant[%d]" % k))
    # the new values: exactly the bits the bounds allow to be nonzero
    y = z3.Concat(BVV(0, w - n - 1), BVV(1, 1), ex.cut_var(k), BVV(0, n - k)) if 0 < k < n else BVV(1 << n, w) if k == 0 else z3.Concat(BVV(0, w - n - 1), BVV(1, 1), ex.cut_var(k))
    r = ZX(ex.cut_var(n + 3), w)
    st['py'], st['pr'] = y, r
    facts = [bounds(y, r)]; st['facts'] = facts[0]
    N = st['N']
    if k == n:
        ai, ri = z3.Ints("lem_y lem_r")
        Ni = ri + ai * ai
        ex.invs.append((z3.BoolVal(True), Ni - (ai + 1) * (ai + 1) == ri - 2 * ai - 1, "square-lemma"))
        yw, rw = fit(y, W), fit(r, W)
        # what the invariant and the lemmas say about the last y: N - y^2 = r and N - (y+1)^2 = r - 2y - 1
        ex.cutout.setdefault('exits', []).append((G, yw, rw, And(N - yw * yw == rw, N - (yw + 1) * (yw + 1) == rw - 2 * yw - 1)))
    ex.side.append(z3.Implies(G, z3.And(*facts)))
    return {st['y']: y, st['r']: r}
def fit(x, W): return ZX(x, W) if x.size() <= W else Extract(W - 1, 0, x)
def scaled(x):
    """(E, N): x = N * 2^(2E-2n) with N = M*2^n, M in [2^n, 2^(n+2))"""
    n = x.fb; W = 2 * n + 8; one = 1 << n
    e, f = unbiased(x)
    m = ZX(f, W) | one
    odd = Extract(0, 0, e) == 1
    return If(odd, e - 1, e) >> 1, If(odd, m << 1, m) << n
def sqrt_int(i, o, rm, parts=None):
    """r is the square root of x (positive, finite, nonzero) correctly rounded, in integers: with x = M*2^(2E-n), N = M*2^n and s the
    result's significand, s^2 is compared with N on the grid of the result"""
    x, r = i.x, o.r
    n = x.fb; W = 2 * n + 8; one = 1 << n
    E, N = scaled(x)
    re = ZX(r.exp, 32) - r.bias
    s = If(re == E, ZX(r.frac, W) | one, BVV(2 * one, W))
    ok = And(r.sign == 0, Or(re == E, And(re == E + 1, r.frac == 0)))
    if r.w == 80: ok = And(ok, Extract(63, 63, r.bv) == 1)
    if not parts: return And(ok, cond(N - s * s, s, rm))
    strong = And(ok, Or(*[And(G, Or(And(s == y, cond(q, y, rm)), And(s == y + 1, cond(q - 2 * y - 1, y + 1, rm)))) for G, y, q, f in parts]))
    lem = lambda s, t, q, N: Implies(And(s == t, N - t * t == q, cond(q, t, rm)), cond(N - s * s, s, rm))
    fresh = [z3.BitVec("lem!" + c, W) for c in 'stqN']
    inst = [lem(s, t, q2, N) for G, y, q, f in parts for t, q2 in ((y, q), (y + 1, q - 2 * y - 1))]
    return strong, lem(*fresh), Implies(And(strong, *inst, *[Implies(G, f) for G, y, q, f in parts]), And(ok, cond(N - s * s, s, rm)))
def cond(R, s, rm):
    """R = N - s^2 as a signed number: which grid point s is"""
    return {'RNE': And(R > -s, R <= s), 'RTN': And(R >= 0, R <= 2 * s), 'RTZ': And(R >= 0, R <= 2 * s), 'RTP': And(R > 1 - 2 * s, R <= 0)}[rm]
CEM = {'KC': 'RNE', 'KC_UP': 'RTP', 'KC_DN': 'RTN', 'KC_TZ': 'RTZ'}
def rounded(i, o, g, special, rm):
    ex = g.cut.get('exits')
    if not ex: return [("correctly-rounded", Or(special, sqrt_int(i, o, rm)))]
    strong, lemma, final = sqrt_int(i, o, rm, ex)
    return [("remainder-bound", Or(special, strong)), ("rounding-lemma", lemma), ("correctly-rounded", Or(special, final))]
def targets(tier):
    T = []
    for s, ty in FT: add_type(T, s, ty, tier)
    return T
def add_type(T, s, ty, tier):
    S = SORT[WIDTH[ty]]
    for cfg in ('G', 'GC', 'K', 'KC', 'KC_UP', 'KC_DN', 'KC_TZ', 'D'):
        def ens(i, o, g, cfg=cfg):
            return [("correctly-rounded", eq_or_nan(o.r, z3.fpSqrt(eff_rm(cfg, i), i.x.fp)))]
        def ensk(i, o, g, cfg=cfg):
            special = Or(i.x.nan, i.x.zero, i.x.inf, i.x.neg)
            return [("special", And(Implies(Or(i.x.nan, And(i.x.neg, Not(i.x.zero))), o.r.nan), Implies(Or(i.x.zero, And(i.x.inf, i.x.sign == 0)), o.r.bv == i.x.bv))),
                    *rounded(i, o, g, special, CEM.get(cfg, i.rm))]
        kern = cfg.startswith('KC')
        T.append(Target("sqrt_%s_%s" % (s, cfg), cfg, [("x", ty)], [("r", ty)], "r = ccm::sqrt(x);", ensk if kern else ens, rms=rms_for(cfg), samples=200, cut=sqrt_cut))
