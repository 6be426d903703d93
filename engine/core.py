"""Targets, obligations, solving, replay, evidence."""
import os, sys, json, time, subprocess, hashlib, ctypes, random, traceback, struct, tempfile, shutil, signal
import multiprocessing as mp
import z3
from sym import *
import lib
from llvmir import Module

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "/usr/bin/clang++-18"
OPT = "/usr/bin/opt-18"
GXX = "/usr/bin/g++"
STDH = "<type_traits> <limits> <cstdint> <cstddef> <array> <cfenv> <cerrno> <cfloat> <climits> <utility> <optional> <cstring> <cstdio> <string_view> <functional> <cstdlib> <bitset> <cassert> <algorithm> <immintrin.h> <numeric> <tuple> <bit> <concepts> <ostream> <iterator> <memory> <new> <compare> <string>".split()

WIDTH = {'float': 32, 'double': 64, 'long double': 80, 'int': 32, 'unsigned': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'bool': 8, 'unsigned char': 8, 'signed char': 8, 'char': 8, 'short': 16, 'unsigned short': 16, '__int128': 128, 'unsigned __int128': 128, 'std::uint8_t': 8, 'std::uint16_t': 16, 'std::uint32_t': 32, 'std::uint64_t': 64, 'std::int8_t': 8, 'std::int16_t': 16, 'std::int32_t': 32, 'std::int64_t': 64, 'std::size_t': 64}
FLT = ('float', 'double', 'long double')
SIGNED = {'int', 'long', 'long long', 'short', 'signed char', 'char', '__int128', 'std::int8_t', 'std::int16_t', 'std::int32_t', 'std::int64_t'}

class Val:
    """specification-side view of an input/output value"""
    def __init__(self, ty, bv):
        self.ty = ty; self.w = WIDTH[ty]; self.bv = BV(bv, self.w)
        self.isf = ty in FLT
    @property
    def fp(self):
        if not hasattr(self, '_fp'): self._fp = bv2fp(self.bv, self.w)
        return self._fp
    def __eq__(self, o): return self.bv == BV(o.bv if isinstance(o, Val) else o, self.w)
    def __ne__(self, o): return self.bv != BV(o.bv if isinstance(o, Val) else o, self.w)
    __hash__ = None
    @property
    def bool(self): return self.bv != 0
    # field access on floats (IEEE-style, without x87's explicit bit)
    @property
    def eb(self): return {32: 8, 64: 11, 80: 15}[self.w]
    @property
    def fb(self): return {32: 23, 64: 52, 80: 63}[self.w]
    @property
    def bias(self): return (1 << (self.eb - 1)) - 1
    @property
    def sign(self): return z3.Extract(self.w - 1, self.w - 1, self.bv)
    @property
    def exp(self): return z3.Extract(self.w - 2, self.w - 1 - self.eb, self.bv)
    @property
    def frac(self): return z3.Extract(self.fb - 1, 0, self.bv)
    @property
    def nan(self): return z3.And(self.exp == (1 << self.eb) - 1, self.frac != 0)
    @property
    def inf(self): return z3.And(self.exp == (1 << self.eb) - 1, self.frac == 0)
    @property
    def zero(self): return z3.And(self.exp == 0, self.frac == 0)
    @property
    def finite(self): return self.exp != (1 << self.eb) - 1
    @property
    def sub(self): return z3.And(self.exp == 0, self.frac != 0)
    @property
    def normal(self): return z3.And(self.exp != 0, self.exp != (1 << self.eb) - 1)
    @property
    def neg(self): return self.sign == 1
    @property
    def abs_(self): return Val(self.ty, z3.Concat(z3.BitVecVal(0, 1), z3.Extract(self.w - 2, 0, self.bv)))

def fp_bits(v, ty):
    """encoding (as a bit-vector term of the register width) of the double v converted to ty"""
    import struct
    if ty == 'float': return z3.BitVecVal(struct.unpack('<I', struct.pack('<f', v))[0], 32)
    b = struct.unpack('<Q', struct.pack('<d', v))[0]
    if ty == 'double': return z3.BitVecVal(b, 64)
    e = ((b >> 52) & 0x7ff) - 1023 + 16383
    return z3.BitVecVal(((b >> 63) << 79) | (e << 64) | (1 << 63) | ((b & ((1 << 52) - 1)) << 11), 80)
class NS: pass

class Target:
    def __init__(self, name, cfg, args, outs, body, ensures, requires=None, cases=None, rms=('RNE',), headers=('ccmath/ccmath.hpp',), kinds=('mem', 'ub', 'trap', 'abort', 'unreachable', 'unwind'), uf=None, contracts=None, unwind=600, known=None, timeout=None, defs='', native=True, doc='', samples=None, lemmas=None, search=True, inputs_hook=None, std='c++20', solver=None, prune=False, opaque=None, cut=None, shifts=False):
        self.name = name; self.cfg = cfg; self.args = args; self.outs = outs; self.body = body
        self.ensures = ensures; self.requires = requires; self.cases = cases; self.rms = rms
        self.headers = list(headers); self.kinds = kinds; self.uf = uf; self.contracts = contracts; self.unwind = unwind
        self.known = known or []; self.timeout = timeout; self.defs = defs; self.native = native; self.doc = doc
        self.samples = samples; self.search = search; self.inputs_hook = inputs_hook; self.std = std; self.solver = solver; self.prune = prune; self.opaque = opaque or {}; self.cut = cut; self.shifts = shifts          # shifts: wide variable shifts are abstracted too

# ------------------------------------------------------------ configurations
class Cfg:
    def __init__(self, name, gcc=False, pre='', flags=(), native='clang', desc=''):
        self.name = name; self.gcc = gcc; self.pre = pre; self.flags = list(flags); self.native = native; self.desc = desc
CFGS = {}
def cfg(*a, **k):
    c = Cfg(*a, **k); CFGS[c.name] = c; return c
CE = "#define __builtin_is_constant_evaluated() true\n"
cfg('G', gcc=True, native='gcc', desc='GCC branch of the library, run-time evaluation')
cfg('K', desc='Clang branch of the library, run-time evaluation')
cfg('KC', pre=CE, desc='Clang branch, constant-evaluation path (in-repo kernels)')
cfg('GC', gcc=True, native='gcc', pre=CE, desc='GCC branch, constant-evaluation path')
cfg('KC_DN', pre="#define CCM_CONSTEXPR_ROUNDING_MODE FE_DOWNWARD\n" + CE, desc='Clang, constant evaluation with CCM_CONSTEXPR_ROUNDING_MODE=FE_DOWNWARD')
cfg('KC_UP', pre="#define CCM_CONSTEXPR_ROUNDING_MODE FE_UPWARD\n" + CE, desc='... FE_UPWARD')
cfg('KC_TZ', pre="#define CCM_CONSTEXPR_ROUNDING_MODE FE_TOWARDZERO\n" + CE, desc='... FE_TOWARDZERO')
cfg('D', gcc=True, native='gcc', pre="#define CCM_CONFIG_DETERMINISTIC 1\n", desc='GCC branch, CCM_CONFIG_DETERMINISTIC (in-repo kernels at run time)')
cfg('KS4', flags=['-msse4.1'], desc='Clang branch, run time, SSE4.1 enabled')
cfg('GS4', gcc=True, native='gcc', flags=['-msse4.1'], desc='GCC branch, run time, SSE4.1 enabled')

UBSAN = ['-fsanitize=undefined', '-fno-sanitize=vptr,function,float-divide-by-zero,float-cast-overflow,alignment,null,object-size,pointer-overflow', '-fsanitize-trap=undefined']

PIPE = "cgscc(inline),function(sroa,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-speculate-blocks>,instsimplify,sroa,dce),function(loop-simplify,lcssa)"

def tu_text(c, targets, shim):
    s = []
    for h in STDH: s.append("#include " + h)
    if c.gcc and not shim or (c.gcc and shim and c.native == 'clang'): s.append("#undef __clang__\n#undef __clang_major__\n#undef __GNUC__\n#undef __GNUC_MINOR__\n#define __GNUC__ 13\n#define __GNUC_MINOR__ 3")
    s.append(c.pre)
    hs = []
    for t in targets:
        for h in t.headers:
            if h not in hs: hs.append(h)
    s += ["#include <%s>" % h for h in hs]
    seen = set()
    for t in targets:
        if t.defs and t.defs not in seen:
            seen.add(t.defs); s.append(t.defs)
    for t in targets:
        ar = ", ".join(["%s %s" % (ty, n) for n, ty in t.args] + ["%s* %s_p" % (ty, n) for n, ty in t.outs])
        refs = "".join(" %s& %s = *%s_p;" % (ty, n, n) for n, ty in t.outs)
        s.append('extern "C" __attribute__((noinline)) void %s(%s) {%s %s }' % (t.name, ar, refs, t.body))
    if shim:
        for t in targets:
            b = []
            for k, (n, ty) in enumerate(t.args):
                b.append("%s a%d; std::memcpy(&a%d, in+%d, %d);" % (ty, k, k, 16 * k, WIDTH[ty] // 8))
            for k, (n, ty) in enumerate(t.outs):
                b.append("%s o%d; std::memcpy(&o%d, out+%d, %d);" % (ty, k, k, 16 * k, WIDTH[ty] // 8))
            b.append("std::fesetround(rm); std::feclearexcept(FE_ALL_EXCEPT); errno = *err;")
            b.append("%s(%s);" % (t.name, ", ".join(["a%d" % k for k in range(len(t.args))] + ["&o%d" % k for k in range(len(t.outs))])))
            b.append("*err = errno; *exc = std::fetestexcept(FE_ALL_EXCEPT); std::fesetround(FE_TONEAREST);")
            for k, (n, ty) in enumerate(t.outs):
                b.append("std::memcpy(out+%d, &o%d, %d);" % (16 * k, k, WIDTH[ty] // 8))
            s.append('extern "C" __attribute__((noinline)) void %s__shim(const unsigned char* in, unsigned char* out, int rm, int* err, int* exc) { %s }' % (t.name, " ".join(b)))
    return "\n".join(s) + "\n"

def sh(cmd, timeout=300):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def build_ir(work, tag, c, targets, extra=(), std='c++20', pipe=PIPE):
    src = os.path.join(work, tag + ".cpp"); open(src, "w").write(tu_text(c, targets, False))
    raw = os.path.join(work, tag + ".raw.ll"); out = os.path.join(work, tag + ".ll")
    rc, o = sh([CLANG, "-std=" + std, "-I" + REPO + "/include", "-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-fno-exceptions", "-fno-math-errno", "-w", "-ferror-limit=0", "-S", "-emit-llvm", src, "-o", raw] + c.flags + list(extra))
    if rc: return None, o
    op = [k for t in targets for k in t.opaque]
    if op:          # callees verified on their own and used through their contract: keep the call
        import re
        ls = open(raw).read().split("\n")
        for i, l in enumerate(ls):
            hit = [k for k in op if re.search(k, l.split("(")[0].split("@")[-1])] if l.startswith("define ") else []
            if hit: ls[i] = re.sub(r' #(\d+)', r' noinline #\1', l, count=1)
            if any('heavy' in k for k in hit):          # "(?#heavy)": large, always used through its contract; the body is not needed here
                e = ls.index("}", i); ls[i] = ls[i][:ls[i].rindex("{") + 1] + " unreachable }"; ls[i + 1:e + 1] = [""] * (e - i)
        open(raw, "w").write("\n".join(ls))
    rc, o = sh([OPT, "-passes=globaldce," + pipe, "-inline-threshold=2000000", "-S", raw, "-o", out])
    if rc: return None, o
    return out, raw

def build_native(work, tag, c, targets, std='c++20', san=False):
    src = os.path.join(work, tag + ".nat.cpp"); open(src, "w").write(tu_text(c, targets, True))
    so = os.path.join(work, tag + (".san.so" if san else ".so"))
    comp = GXX if c.native == 'gcc' else CLANG
    fl = ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"] if san else []
    rc, o = sh([comp, "-std=" + std, "-I" + REPO + "/include", "-O1", "-ffp-contract=off", "-fno-math-errno", "-w", "-shared", "-fPIC", src, "-o", so] + c.flags + fl)
    return (so if rc == 0 else None), o

# ------------------------------------------------------------ obligations
RMS = {'RNE': (RNE, 0), 'RTN': (RTN, 0x400), 'RTP': (RTP, 0x800), 'RTZ': (RTZ, 0xc00)}

def mk_inputs(t):
    ns = NS(); syms = []
    for n, ty in t.args:
        w = WIDTH[ty]
        if ty == 'long double':
            v = z3.BitVec("in_" + n, 79); b = mk80(v)
        elif ty == 'bool':
            v = z3.BitVec("in_" + n, 1); b = z3.ZeroExt(7, v)
        else:
            v = z3.BitVec("in_" + n, w); b = v
        syms.append((n, ty, v)); setattr(ns, n, Val(ty, b))
    return ns, syms

def exec_target(mod, t, rmname):
    ins, syms = mk_inputs(t)
    rm = RMS[rmname][0]
    ins.rm = rmname; ins.rmz = rm
    req = list(t.requires(ins)) if t.requires else []
    ex = Exec(mod, rm=rm, unwind=t.unwind, contracts=(t.contracts(ins) if t.contracts else None), uf=t.uf, requires=req)
    ex.prune = t.prune; ex.opaque = t.opaque; ex.cut = t.cut; ex.ins = ins
    args = []
    for (n, ty), (_, _, v) in zip(t.args, syms):
        val = getattr(ins, n)
        if ty in FLT: args.append(FV(val.w, val.bv, None, ex))
        elif ty == 'bool': args.append(v == 1)
        else: args.append(val.bv)
    mem = {}
    outobjs = []
    ins.old = NS()
    oldsyms = []
    for n, ty in t.outs:
        o = ex.new_obj("out_" + n, 16)
        w = WIDTH[ty]
        old = z3.BitVec("old_" + n, w)
        mem[o] = {0: ((w // 8), old)}
        setattr(ins.old, n, Val(ty, old))
        oldsyms.append(("old_" + n, ty, old))
        outobjs.append((n, ty, o)); args.append(PV([(True, o, 0)]))
    ex.run(t.name, args, mem)
    outs = NS(); outdefs = []
    outs.final = NS()
    returned = ex.guard is not None
    ghost = NS(); ghost.cut = ex.cutout; ghost.ex = ex
    if returned:
        for n, ty, o in outobjs:
            w = WIDTH[ty]
            if ty == 'bool':
                v = ex.load(PV([(True, o, 0)]), ('i', 8))
            elif ty in FLT:
                v = ex.load(PV([(True, o, 0)]), ('f', w)).bv()
            else:
                v = ex.load(PV([(True, o, 0)]), ('i', w))
            y = z3.BitVec("out_" + n, w)
            outdefs.append((n, ty, y, BV(v, w)))
            setattr(outs, n, Val(ty, y))
        en = ex.errno_obj()
        ghost.errno_in = ex.errno0
        ghost.errno = z3.BitVec("out_errno", 32)
        ghost.raised = z3.BitVec("out_raised", 32)
        outdefs.append(("errno", None, ghost.errno, BV(ex.load(PV([(True, en, 0)]), ('i', 32)), 32)))
        outdefs.append(("raised", None, ghost.raised, BV(ex.ghost('raised', 32), 32)))
    return ex, ins, syms, oldsyms, outs, outdefs, ghost, req

def obligations(t, rmname, X):
    ex, ins, syms, oldsyms, outs, outdefs, ghost, req = X
    obs = []
    cases = t.cases(ins) if t.cases else [("all", z3.BoolVal(True))]
    known = [k for k in t.known if not k.get('native_only')]
    nk = [z3.Not(k['pred'](ins)) for k in known]
    safety = {}
    for g, kind, text in ex.obls:
        if kind in t.kinds: safety.setdefault(kind, []).append((g, text))
    for kind, gs in safety.items():
        obs.append(dict(name="%s/%s/%s" % (t.name, rmname, kind), kind=kind, hyp=req + nk, goal=z3.Not(z3.Or(*[BO(g) for g, _ in gs])), text="; ".join(sorted({x for _, x in gs}))[:600]))
    for g, goal, text in ex.invs:
        obs.append(dict(name="%s/%s/%s" % (t.name, rmname, text), kind='invariant', hyp=[] if z3.is_true(BO(g)) else req + nk + [BO(g)], goal=goal, text=text, nodefs=z3.is_true(BO(g))))
    if t.cases:
        obs.append(dict(name="%s/%s/cases-exhaustive" % (t.name, rmname), kind='lemma', hyp=req, goal=z3.Or(*[c for _, c in cases]), text="case split covers every input", nodefs=True))
    if ex.guard is not None:
        posts = t.ensures(ins, outs, ghost)
        for cn, cc in cases:
            for post in posts:          # (name, formula[, facts established by other obligations of the property])
                pn, pf = post[:2]; facts = list(post[2]) if len(post) > 2 else []
                obs.append(dict(name="%s/%s/%s%s" % (t.name, rmname, pn, "" if cn == "all" else "[" + cn + "]"), kind='post', hyp=req + nk + [cc] + facts + [z3.Not(BO(g)) for g in ex.stops], goal=pf, text=pn, case=cn))
    return obs

def obl_formula(o, X):
    ex, ins, syms, oldsyms, outs, outdefs, ghost, req = X
    fs = list(o['hyp'])
    goal = o['goal']
    if not o.get('nodefs'):
        fs += ex.side
        goal = z3.substitute(goal, *[(y, d) for _, _, y, d in outdefs]) if outdefs else goal
        fs = [z3.substitute(f, *[(y, d) for _, _, y, d in outdefs]) for f in fs] if outdefs else fs
    fs.append(z3.Not(goal))
    return fs

def prune_side(fs, side_ids):
    """drop definitional side constraints not connected to the goal"""
    from collections import defaultdict
    def vars_of(e, memo={}):
        k = e.get_id()
        if k in memo: return memo[k][0]
        seen = set(); out = set(); st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st += x.children()
        memo[k] = (out, e)
        return out
    side = [(f, vars_of(f)) for f in fs if f.get_id() in side_ids]
    core = [f for f in fs if f.get_id() not in side_ids]
    need = set()
    for f in core: need |= vars_of(f)
    keep = []
    ch = True
    rest = side
    while ch:
        ch = False
        nr = []
        for f, v in rest:
            fresh = {x for x in v if x.startswith('fb!')}
            if fresh & need: keep.append(f); need |= v; ch = True
            else: nr.append((f, v))
        rest = nr
    return core + keep

SIMP = ('simplify', 'propagate-values', 'simplify')
def solve_z3(fs, ms, mode=0):
    """returns (verdict, model-dict or None)"""
    tac = z3.TryFor(z3.Then(z3.With('simplify', elim_and=False), 'propagate-values', 'solve-eqs', 'fpa2bv', 'propagate-values', z3.With('simplify', som=False), 'solve-eqs', 'ackermannize_bv', 'bit-blast', z3.With('simplify', local_ctx=True, flat=False), 'sat'), ms) if mode == 0 else z3.TryFor(z3.Tactic('default'), ms)
    try:
        s = tac.solver()
        s.set("timeout", ms)
        for f in fs: s.add(f)
        r = s.check()
    except z3.Z3Exception as e:
        return 'unknown', None
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat:
        m = s.model()
        d = {}
        for v in m.decls():
            if v.name().startswith(('in_', 'old_', 'errno_in')):
                x = m[v]
                if z3.is_bv_value(x): d[v.name()] = x.as_long()
        return 'sat', d
    return 'unknown', None

def solve_int(goal, ms):
    """lemmas over the mathematical integers: polynomial normal form, then z3's arithmetic solver"""
    if z3.is_true(z3.simplify(goal, som=True)): return 'unsat'
    s = z3.Solver(); s.set("timeout", ms); s.add(z3.Not(goal))
    return str(s.check())
def has_int(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.sort().kind() == z3.Z3_INT_SORT: return True
        st += x.children()
    return False
def dump_smt2(fs, path, logic=None):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = s.to_smt2()
    if logic: txt = "(set-logic %s)\n" % logic + txt
    open(path, "w").write(txt)

def to_cnf(fs, path):
    g = z3.Goal()
    for f in fs: g.add(f)
    r = z3.Then(z3.With('simplify', elim_and=False), 'propagate-values', 'solve-eqs', 'fpa2bv', 'propagate-values', 'simplify', 'solve-eqs', 'ackermannize_bv', 'bit-blast', z3.With('simplify', local_ctx=True, flat=False), 'tseitin-cnf')(g)
    if len(r) != 1: return None
    d = r[0].dimacs(False) if hasattr(r[0], 'dimacs') else None
    # z3's header can under-report the highest variable index: rewrite it
    ls = d.split("\n"); mx = 0; nc = 0
    for l in ls:
        if not l or l[0] in 'pc': continue
        nc += 1
        for x in l.split():
            v = int(x) if x[0] != '-' else -int(x)
            if v > mx: mx = v
    body = [l for l in ls if l and l[0] not in 'pc']
    open(path, "w").write("p cnf %d %d\n" % (mx, nc) + "\n".join(body) + "\n")
    return path

# ------------------------------------------------------------ arithmetic abstraction
_HEAVY1 = {z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_REM}
_HEAVY2 = _HEAVY1 | {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_ROUND_TO_INTEGRAL}
_BVH = {z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I}
def _axioms(k, r, a):
    """facts of IEEE 754 / modular arithmetic that hold for the abstracted result r = op(a)"""
    I, Z, N, neg = z3.fpIsInf, z3.fpIsZero, z3.fpIsNaN, z3.fpIsNegative
    ax = []
    if k in _SHIFT:
        ax = [z3.Implies(a[1] == 0, r == a[0]), z3.Implies(a[0] == 0, r == 0)]
        if k == z3.Z3_OP_BLSHR: ax.append(z3.ULE(r, a[0]))
        return ax
    if k == z3.Z3_OP_BMUL:
        w = r.size(); lx, ly = lead0(a[0]), lead0(a[1])
        for n in (1, 2):
            if w > n: ax.append(z3.Extract(n - 1, 0, r) == z3.Extract(n - 1, 0, a[0]) * z3.Extract(n - 1, 0, a[1]))
        if lx + ly >= w:                # the product does not wrap
            ax.append((r == 0) == z3.Or(a[0] == 0, a[1] == 0))
            ax.append(z3.Implies(a[0] != 0, z3.UGE(r, a[1]))); ax.append(z3.Implies(a[1] != 0, z3.UGE(r, a[0])))
        return ax
    if k in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB):
        rm, x, y = a
        one = z3.FPVal(1, r.sort())
        if k == z3.Z3_OP_FPA_MUL:
            ax.append(N(r) == z3.Or(N(x), N(y), z3.And(I(x), Z(y)), z3.And(Z(x), I(y))))
            ax.append(z3.Implies(z3.Not(N(r)), z3.And(neg(r) == (neg(x) != neg(y)), z3.Implies(z3.Or(I(x), I(y)), I(r)), z3.Implies(z3.Or(Z(x), Z(y)), Z(r)))))
            ax += [z3.Implies(x == one, r == y), z3.Implies(y == one, r == x)]
        elif k == z3.Z3_OP_FPA_DIV:
            ax.append(N(r) == z3.Or(N(x), N(y), z3.And(I(x), I(y)), z3.And(Z(x), Z(y))))
            ax.append(z3.Implies(z3.Not(N(r)), z3.And(neg(r) == (neg(x) != neg(y)), z3.Implies(z3.Or(I(x), Z(y)), I(r)), z3.Implies(z3.Or(Z(x), I(y)), Z(r)))))
            ax.append(z3.Implies(y == one, r == x))
            fin = z3.And(z3.Not(N(r)), z3.Not(Z(y)))
            ax.append(z3.Implies(z3.And(fin, z3.fpGEQ(z3.fpAbs(x), z3.fpAbs(y))), z3.fpGEQ(z3.fpAbs(r), one)))
            ax.append(z3.Implies(z3.And(fin, z3.fpLEQ(z3.fpAbs(x), z3.fpAbs(y))), z3.fpLEQ(z3.fpAbs(r), one)))
        else:
            if k == z3.Z3_OP_FPA_SUB: y = z3.fpNeg(y)
            ax.append(N(r) == z3.Or(N(x), N(y), z3.And(I(x), I(y), neg(x) != neg(y))))
            ax.append(z3.Implies(z3.Not(N(r)), z3.And(z3.Implies(I(x), r == x), z3.Implies(I(y), r == y), z3.Implies(z3.And(Z(x), z3.Not(Z(y))), r == y), z3.Implies(z3.And(Z(y), z3.Not(Z(x))), r == x),
                z3.Implies(z3.And(neg(x) == neg(y)), neg(r) == neg(x)))))
            ny = z3.fpNeg(y)
            ax += [z3.Implies(z3.And(z3.Not(N(r)), z3.fpGT(x, ny)), z3.fpGT(r, z3.FPVal(0, r.sort()))), z3.Implies(z3.And(z3.Not(N(r)), z3.fpLT(x, ny)), z3.fpLT(r, z3.FPVal(0, r.sort()))), z3.Implies(z3.And(z3.Not(N(r)), z3.fpEQ(x, ny)), Z(r))]
        for u, v in ((x, a[2]), (a[2], x)):
            if z3.is_fp_value(u) and not z3.is_fp_value(v):
                for cst in (1, 2, -1, -2):          # exact evaluation at a few points
                    c = z3.FPVal(cst, r.sort()); u1, v1 = (u, c) if u is x else (c, u)
                    fn = {z3.Z3_OP_FPA_MUL: z3.fpMul, z3.Z3_OP_FPA_DIV: z3.fpDiv, z3.Z3_OP_FPA_ADD: z3.fpAdd, z3.Z3_OP_FPA_SUB: z3.fpSub}[k]
                    ax.append(z3.Implies(v == c, r == z3.simplify(fn(rm, u1, v1))))
    elif k == z3.Z3_OP_FPA_SQRT:
        rm, x = a
        ax.append(N(r) == z3.Or(N(x), z3.And(neg(x), z3.Not(Z(x)))))
        ax.append(z3.Implies(z3.Or(Z(x), z3.And(I(x), z3.Not(neg(x)))), r == x))
        ax.append(z3.Implies(z3.And(z3.Not(N(r)), z3.Not(Z(x)), z3.Not(I(x))), z3.And(z3.fpIsNormal(r), z3.Not(neg(r)))))
    return ax

def _monotone(k, r, a, r2, a2):
    """monotonicity of a correctly rounded operation between two applications in the same rounding mode"""
    N = z3.fpIsNaN; le = z3.fpLEQ
    if k not in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB): return []
    (rm, x, y), (rm2, x2, y2) = a, a2
    z = z3.FPVal(0, r.sort()); ok = z3.And(rm == rm2, z3.Not(N(r)), z3.Not(N(r2)))
    out = []
    for (p, u, v), (q, u2, v2) in (((r, x, y), (r2, x2, y2)), ((r2, x2, y2), (r, x, y))):
        if k == z3.Z3_OP_FPA_ADD:
            out += [z3.Implies(z3.And(ok, le(u, u2), le(v, v2)), le(p, q)), z3.Implies(z3.And(ok, le(u, v2), le(v, u2)), le(p, q))]
        elif k == z3.Z3_OP_FPA_SUB: out.append(z3.Implies(z3.And(ok, le(u, u2), le(v2, v)), le(p, q)))
        elif k == z3.Z3_OP_FPA_MUL: out += [z3.Implies(z3.And(ok, le(z, u), le(z, v), le(u, u2), le(v, v2)), le(p, q)), z3.Implies(z3.And(ok, le(z, u), le(z, v), le(u, v2), le(v, u2)), le(p, q))]
        else: out.append(z3.Implies(z3.And(ok, le(z, u), z3.fpGT(v2, z), le(u, u2), le(v2, v)), le(p, q)))
    return out

_SHIFT = {z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR}
def abstract_heavy(fs, level, shifts=False):
    """over-approximation of the formulas: every non-constant heavy operation becomes a fresh constant constrained by
    congruence with its siblings and by the facts above.  unsat here implies unsat of the originals.  Returns (formulas, count)."""
    heavy = (_HEAVY1 if level == 1 else _HEAVY2) | _BVH | (_SHIFT if shifts else set())
    memo = {}; table = {}; groups = {}; extra = []; keepalive = []
    def const(x): return z3.is_bv_value(x) or z3.is_fp_value(x) or z3.is_fprm_value(x)
    for f in fs:
        st = [(f, False)]
        while st:
            e, ready = st.pop()
            i = e.get_id()
            if i in memo: continue
            ch = e.children()
            if not ready and ch:
                st.append((e, True)); st += [(c, False) for c in ch if c.get_id() not in memo]
                continue
            if not ch: memo[i] = e; keepalive.append(e); continue
            nc = [memo[c.get_id()] for c in ch]
            k = e.decl().kind()
            if k == z3.Z3_OP_FPA_SUB and k in heavy:          # x - y is x + (-y), in every rounding mode
                k = z3.Z3_OP_FPA_ADD; y = nc[2]
                y = z3.simplify(-y) if z3.is_fp_value(y) else (y.arg(0) if y.decl().kind() == z3.Z3_OP_FPA_NEG else z3.fpNeg(y))
                ny = memo.setdefault(('neg', y.get_id()), y); nc = [nc[0], nc[1], ny]; keepalive.append(ny)
            if z3.is_app(e) and k in heavy and not (k == z3.Z3_OP_BMUL and (len(nc) != 2 or e.size() <= 2 or any(z3.is_bv_value(z3.simplify(c)) for c in nc))) and not all(const(c) for c in nc) and not (k in _SHIFT and (z3.is_bv_value(nc[1]) or e.size() < 96)):
                if k in _BVH and k != z3.Z3_OP_BMUL and z3.is_bv_value(nc[1]): 
                    v = nc[1].as_long()
                    if v and v & (v - 1) == 0: memo[i] = e.decl()(*nc); keepalive.append((e, memo[i])); continue
                if k in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_ADD): key = (k, nc[0].get_id(), tuple(sorted(c.get_id() for c in nc[1:])))
                elif k == z3.Z3_OP_BMUL: key = (k, tuple(sorted(c.get_id() for c in nc)))
                else: key = (k, tuple(c.get_id() for c in nc))
                if key not in table:
                    r = z3.FreshConst(e.sort(), 'abs')
                    sib = groups.setdefault((k, e.sort().sexpr()), [])
                    for r2, nc2 in sib[-24:]:
                        eqs = [z3.And(*[p == q for p, q in zip(nc, nc2)])]
                        if k in (z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_ADD): eqs.append(z3.And(nc[0] == nc2[0], nc[1] == nc2[2], nc[2] == nc2[1]))
                        if k == z3.Z3_OP_BMUL: eqs.append(z3.And(nc[0] == nc2[1], nc[1] == nc2[0]))
                        extra.append(z3.Implies(z3.Or(*eqs), r == r2))
                        if len(sib) <= 8: extra += _monotone(k, r, nc, r2, nc2)
                    if k == z3.Z3_OP_BMUL:          # a narrower product of the same operands is the low part of the wider one
                        for r2, nc2 in groups.setdefault('mul', []):
                            (wd, wa), (nd, na) = ((r, nc), (r2, nc2)) if r.size() > r2.size() else ((r2, nc2), (r, nc))
                            n = nd.size()
                            if n == wd.size(): continue
                            lo = [z3.Extract(n - 1, 0, x) for x in wa]
                            extra.append(z3.Implies(z3.Or(z3.And(lo[0] == na[0], lo[1] == na[1]), z3.And(lo[0] == na[1], lo[1] == na[0])), nd == z3.Extract(n - 1, 0, wd)))
                        if len(groups['mul']) < 24: groups['mul'].append((r, nc))
                    sib.append((r, nc)); extra += _axioms(k, r, nc); table[key] = r; keepalive.append(nc)
                memo[i] = table[key]; keepalive.append(e)
            else:
                if all(c.get_id() == d.get_id() for c, d in zip(ch, nc)): memo[i] = e
                elif z3.is_and(e): memo[i] = z3.And(*nc)
                elif z3.is_or(e): memo[i] = z3.Or(*nc)
                else: memo[i] = e.decl()(*nc)
                keepalive.append((e, memo[i]))
    return [memo[f.get_id()] for f in fs] + extra, len(table)
