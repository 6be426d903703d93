"""fma: one rounding of the exact x*y+z, on every path and in every mode."""
from spec import *
from sym import FV, n_not, isc, simp, lead0, bvmul, BO
from props import bigint
import lib
BUDGET = {'quick': 800, 'thorough': 3600}
def targets(tier):
    T = []
    for s, ty in (FT[1], FT[0]): add_type(T, s, ty, tier)          # slowest first
    for s, ty in FT[:2]: add_facts(T, s, ty)
    add_helpers(T); add_dispatch(T)
    for s, ty in FT: add_builtin(T, s, ty)
    for s, ty, N, W in (('f', 'float', 128, 96), ('d', 'double', 256, 212)): add_round(T, s, ty, N, W)
    for cfg in ('K', 'KC'):
        for N in (128, 256): bigint.targets(T, cfg, N)
    return T
CEM = {'KC': 'RNE', 'KC_UP': 'RTP', 'KC_DN': 'RTN', 'KC_TZ': 'RTZ'}
ACC = {'float': (128, 96), 'double': (256, 212)}
# ---- contract of round_normalized, established by add_round: round_spec of its arguments; to the callers an uninterpreted function
def RND(ty, rm):
    w = WIDTH[ty]; W = ACC[ty][1]
    return z3.Function("round_normalized_%s_%s" % (ty, rm), z3.BitVecSort(1), z3.BitVecSort(32), z3.BitVecSort(W), z3.BoolSort(), z3.BitVecSort(w - 1))          # exponent and fraction; the sign is the argument's
def round_contract(s, ty, cfg):
    N, W = ACC[ty]
    def f(ex, I, a):
        ex.used_round = True
        rm = CEM.get(cfg, ex.ins.rm)
        sg = Extract(0, 0, BV(a[0], 8)); base = BV(a[1], 32)
        if N == 128: m = Concat(BV(a[3], 64), BV(a[2], 64)); k = a[4]
        else: m = bigint.rd(ex, a[2], N); k = a[3]
        k = BO(k) if not z3.is_bv(k) else k != 0
        ex.callee_requires(simp(And(LShR(m, W) == 0, Extract(W - 1, W - 1, m) == 1)), "accumulator normalised to %d bits" % W)
        ex.callee_requires(simp(And(BV(a[1], 32) > -(1 << 20), BV(a[1], 32) < (1 << 20))), "exponent in range")
        return FV(WIDTH[ty], Concat(sg, RND(ty, rm)(sg, base, Extract(W - 1, 0, m), k)), None, ex)
    return f
def width_spec(v):
    """number of significant bits of v as a 32-bit term"""
    l = lead0(v)
    if l == v.size(): return BVV(0, 32)
    n = v.size() - l; v = simp(Extract(n - 1, 0, v))
    return BVV(n, 32) - ZX(clz_spec(v, n), 32)
def decoded(v):
    """(mantissa, width, exponent of its lowest bit, exponent of its leading bit) of a finite nonzero value"""
    q = fma_parts(v.eb, v.fb, (v.sign, v.exp, v.frac)); n = v.fb + 1
    z = ZX(clz_spec(q['m'], n), 32)
    return q['m'], BVV(n, 32) - z, q['e'], q['e'] + (n - 1) - z
def decode_contract(ty):
    off = {'float': (0, 4, 8, 12, 16), 'double': (0, 8, 16, 20, 24)}[ty]; w = WIDTH[ty]
    def f(ex, I, a):
        v = Val(ty, BV(ex.load(a[1], ('i', w)), w))
        ex.callee_requires(simp(And(v.finite, Not(v.zero))), "decode_finite_nonzero: finite nonzero operand")
        m, n, l, t = decoded(v)
        for o, x, k in zip(off, (ZX(v.sign, 8), ZX(m, w), n, l, t), (8, w, 32, 32, 32)): ex.store(ex.padd(a[0], o), simp(x), ('i', k))
    return f
def width_contract(N):
    def f(ex, I, a): return simp(width_spec(bigint.rd(ex, a[0], N)))
    return f
HELPERS = {r"12fma_internal21decode_finite_nonzeroIfE": decode_contract('float'), r"12fma_internal21decode_finite_nonzeroIdE": decode_contract('double'), r"12fma_internal13int_bit_widthImEE": width_contract(64)}
for N_ in (128, 256): HELPERS[r"12fma_internal13int_bit_widthINS_5types6BigIntILm%dE" % N_] = width_contract(N_)
def add_helpers(T):
    for s, ty in FT[:2]:
        mt = {'float': 'unsigned', 'double': 'unsigned long'}[ty]
        def ens(i, o, g):
            m, n, l, t = decoded(i.x)
            return [("sign", o.s.bv == ZX(i.x.sign, 8)), ("mantissa", o.m.bv == ZX(m, o.m.w)), ("width", o.w.bv == n), ("lowest-bit", o.l.bv == l), ("leading-bit", o.t.bv == t)]
        T.append(Target("fmadecode_%s" % s, 'KC', [("x", ty)], [("s", 'unsigned char'), ("m", mt), ("w", 'int'), ("l", 'int'), ("t", 'int')], "using namespace ccm::support::fp; const auto d = fma_internal::decode_finite_nonzero<%s>(FPBits<%s>(x)); s = d.sign.is_neg(); m = d.mantissa; w = d.width; l = d.lsb_exponent; t = d.top_exponent;" % (ty, ty), ens, requires=lambda i: [i.x.finite, Not(i.x.zero)], samples=200))
    for N in (64, 128, 256):
        ws = bigint.names('x', N); U = "const std::uint64_t v = x0;" if N == 64 else "using U = ccm::types::UInt<%d>; " % N + bigint.decl('v', N).replace('v0', 'x0').replace('v1', 'x1').replace('v2', 'x2').replace('v3', 'x3')
        T.append(Target("fmawidth_%d" % N, 'KC', ws, [("r", 'int')], U + " r = ccm::support::fp::fma_internal::int_bit_width(v);", lambda i, o, g, N=N: [("width", o.r.bv == width_spec(bigint.val(i, 'x', N)))], samples=100, inputs_hook=lambda rng, N=N: [rng.choice([0, 0, rng.getrandbits(64), 1 << rng.randrange(64)]) for _ in range(N // 64)], opaque=bigint.contracts()))
def no_wide(ex, I, a):
    ex.callee_requires(False, "the wide fallback is never needed: the accumulator holds every sum exactly up to a sticky bit")
    return a[2]
def add_round(T, s, ty, N, W):
    ws = [("m%d" % k, 'unsigned long') for k in range(N // 64)]
    for cfg in ('K', 'KC', 'KC_UP', 'KC_DN', 'KC_TZ'):
        def ens(i, o, g, cfg=cfg):
            m = Extract(W - 1, 0, bigint.val(i, 'm', N)); v = o.r
            e, f = round_spec(v.eb, v.fb, Extract(0, 0, i.s.bv), i.e.bv, m, i.k.bv != 0, CEM.get(cfg, i.rm))
            return [("round", o.r.bv == Concat(Extract(0, 0, i.s.bv), e, f))]
        def req(i):
            m = bigint.val(i, 'm', N)
            return [LShR(m, W) == 0, Extract(W - 1, W - 1, m) == 1, i.e.bv > -(1 << 20), i.e.bv < (1 << 20)]
        def hook(rng):
            m = (1 << (W - 1)) | rng.choice([0, rng.getrandbits(W - 1), rng.getrandbits(W - 1) & ~((1 << rng.randrange(W - 1)) - 1), (1 << (W - 1)) - (1 << rng.randrange(W - 1))])
            lo = -(1 << (Val(ty, 0).eb - 1)) - W - 60
            return [rng.randrange(2), rng.randrange(lo, -lo) & 0xffffffff] + [(m >> (64 * k)) & ((1 << 64) - 1) for k in range(N // 64)] + [rng.randrange(2)]
        body = "const std::uint64_t wm[] = {%s}; ccm::types::UInt<%d> m(wm); r = ccm::support::fp::fma_internal::round_normalized<%s, ccm::types::UInt<%d>, %d, true>(s ? ccm::types::Sign::NEG : ccm::types::Sign::POS, e, m, k);" % (", ".join("m%d" % k for k in range(N // 64)), N, ty, N, W)
        C = {k: v for k, v in bigint.contracts().items()}
        T.append(Target("fmaround_%s_%s" % (s, cfg), cfg, [("s", 'bool'), ("e", 'int')] + ws + [("k", 'bool')], [("r", ty)], body, ens, requires=req, rms=rms_for(cfg), samples=200, inputs_hook=hook, opaque=C, doc="one rounding of a normalised sign, exponent, mantissa and sticky bit; the callers' contract"))
def add_builtin(T, s, ty):
    for cfg in ('G', 'GC'):
        def ens(i, o, g, cfg=cfg): return [("fma", eq_or_nan(o.r, z3.fpFMA(RNE if cfg == 'GC' else i.rmz, i.x.fp, i.y.fp, i.z.fp)))]
        T.append(Target("fma_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", ty), ("z", ty)], [("r", ty)], "r = ccm::fma(x, y, z);", ens, rms=rms_for(cfg), samples=300))
def add_facts(T, s, ty):
    def ens(i, o, g):
        tr = {}; fma_spec(i.x, i.y, i.z, 'RNE', mulz, ACC[ty][1], None, ACC[ty][0], tr)
        return fma_facts(tr, i.x.fb + 1)
    T.append(Target("fmafacts_%s" % s, 'KC', [("x", ty), ("y", ty), ("z", ty)], [("r", ty)], "r = x;", ens, samples=20, doc="lemmas about the exact sum in the contract of fma, used as facts by its proofs"))
def add_dispatch(T):
    """the other configurations evaluate the same kernel (whose contract fma_d_K establishes)"""
    def det(ex, I, a):
        vals = [BV(v.bv(), 64) for v in a]
        if 'kerfma' not in lib.UFS: lib.UFS['kerfma'] = z3.Function('kerfma', *[z3.BitVecSort(64)] * 4)
        return ex.Fb(64, lib.UFS['kerfma'](*vals))
    for cfg in ('KC', 'KC_UP', 'KC_DN', 'KC_TZ', 'K'):
        T.append(Target("fmadispatch_d_%s" % cfg, cfg, [("x", 'double'), ("y", 'double'), ("z", 'double')], [("r", 'double'), ("s", 'double')], "r = ccm::fma(x, y, z); s = ccm::support::fp::fma_internal::fixed_fma<double, true>(x, y, z);", lambda i, o, g: [("same-kernel", Or(o.r.bv == o.s.bv, And(o.r.nan, o.s.nan)))], rms=rms_for(cfg), samples=100, opaque={r"12fma_internal9fixed_fmaId": det}))
def mulz(a, b): return bvmul(ZX(a, 2 * a.size()), ZX(b, 2 * b.size()))
def add_type(T, s, ty, tier):
    # only the sign of an exact zero sum depends on the mode here (the rounding itself is round_normalized's, verified in every mode)
    full = tier == 'thorough'
    for cfg in ('K', 'KC', 'KC_UP', 'KC_DN', 'KC_TZ') if full else ('K', 'KC') if s == 'f' else ('K',):
        def ens(i, o, g, cfg=cfg):
            rm = CEM.get(cfg, i.rm)
            if getattr(g, 'native', False): return [("fma", eq_or_nan(o.r, z3.fpFMA(RMS[rm][0], i.x.fp, i.y.fp, i.z.fp)))]
            v = o.r
            def rnd(eb, fb, sg, b, M, k, rm_):
                r = Val(ty, Concat(sg, RND(ty, rm)(sg, b, M, k)))
                return r.exp, r.frac
            used = getattr(g, 'ex', None) is None or getattr(g.ex, 'used_round', False)
            tr = {}
            nan, w = fma_spec(i.x, i.y, i.z, rm, mulz, ACC[ty][1], rnd if used else None, ACC[ty][0], tr)
            return [("fma", If(nan, o.r.nan, o.r.bv == w.bv), [f for _, f in fma_facts(tr, i.x.fb + 1)])]       # facts: target fmafacts
        C = dict(bigint.contracts()); C.update(HELPERS)
        C[r"12fma_internal16round_normalizedI%sNS_5types6BigIntILm%dE" % (s, ACC[ty][0])] = round_contract(s, ty, cfg)
        C[r"12fma_internal8wide_fmaI%sL" % s] = no_wide
        T.append(Target("fma_%s_%s" % (s, cfg), cfg, [("x", ty), ("y", ty), ("z", ty)], [("r", ty)], "r = ccm::fma(x, y, z);", ens, rms=rms_for(cfg, ALLRM if full else ('RNE', 'RTN') if s == 'f' else ('RTN',)), samples=300, opaque=C, solver={'ms': 1000}, timeout={'quick': 400, 'thorough': 900}, cases=lambda i: fma_cases(i.x, i.y, i.z, mulz, ACC[ty][1], ACC[ty][0]), shifts=True))
