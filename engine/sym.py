"""Verification-condition generator: forward symbolic execution of LLVM IR with
path merging.  One run over a function yields, for *all* inputs, a term for each
result, ghost terms (errno, raised FP exceptions) and the list of side
obligations (unreachable code, traps, out-of-bounds accesses, unwinding
assertions).  Loops are unrolled until the back-edge guard is refuted; if that
never happens an unwinding obligation is emitted (so nothing is bounded
silently), or a loop contract can be supplied."""
import z3, itertools, re
from llvmir import Module

RNE, RTP, RTN, RTZ, RNA = z3.RNE(), z3.RTP(), z3.RTN(), z3.RTZ(), z3.RNA()
SORT = {16: z3.FPSort(5, 11), 32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53), 80: z3.FPSort(15, 64), 128: z3.FPSort(15, 113)}
MASK = {}
def mask(w): return (1 << w) - 1

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- integers
def isc(x): return isinstance(x, (int, bool))
def BV(x, w):
    return z3.BitVecVal(x, w) if isc(x) else x
def BO(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x
def n_not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def n_and(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
        else: o.append(x)
    if not o: return True
    return o[0] if len(o) == 1 else z3.And(*o)
def n_or(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
        else: o.append(x)
    if not o: return False
    return o[0] if len(o) == 1 else z3.Or(*o)
def fold(e):
    """normalise to python constants where trivially constant"""
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def simp(e):
    if isc(e): return e
    return fold(z3.simplify(e))
def ite(c, a, b, w=None):
    if isinstance(c, bool): return a if c else b
    if a is b: return a
    if isc(a) and isc(b) and a == b and isinstance(a, bool) == isinstance(b, bool): return a
    if isinstance(a, bool) or isinstance(b, bool) or (not isc(a) and z3.is_bool(a)) or (not isc(b) and z3.is_bool(b)):
        if a is True and b is False: return c
        if a is False and b is True: return n_not(c)
        return z3.If(c, BO(a), BO(b))
    if not isc(a) and not isc(b) and a.eq(b): return a
    if w is None:
        w = (a if not isc(a) else b).size()
    if z3.is_eq(c):             # (x == k ? k : x) is x
        p, q = c.arg(0), c.arg(1)
        A, B = BV(a, w), BV(b, w)
        if (B.eq(p) and A.eq(q)) or (B.eq(q) and A.eq(p)): return b
    return z3.If(c, BV(a, w), BV(b, w))
def lead0(e, depth=6):
    """a lower bound on the number of leading zero bits of the term e (syntactic)"""
    w = e.size()
    if z3.is_bv_value(e): return w - e.as_long().bit_length()
    k = e.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT: return e.params()[0] + lead0(e.arg(0), depth)
    if k == z3.Z3_OP_CONCAT:
        n = 0
        for c in e.children():
            l = lead0(c, depth); n += l
            if l < c.size(): break
        return n
    if depth and k == z3.Z3_OP_ITE: return min(lead0(e.arg(1), depth - 1), lead0(e.arg(2), depth - 1))
    if depth and k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR): return min(lead0(c, depth - 1) for c in e.children())
    if depth and k == z3.Z3_OP_BAND: return max(lead0(c, depth - 1) for c in e.children())
    if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0: return max(0, lead0(e.arg(0), depth) - (e.arg(0).size() - 1 - e.params()[0]))
    return 0
def bvmul(A, B):
    """A * B, formed at the width the operands need when they are zero-extended"""
    w = A.size(); n = 2 * w - lead0(A) - lead0(B)
    if n >= w or n < 2: return A * B
    def low(x):
        y = z3.simplify(z3.Extract(n - 1, 0, x))
        return y
    return z3.Concat(z3.BitVecVal(0, w - n), low(A) * low(B))

# ---------------------------------------------------------------- floats
class FV:
    """floating value: bit-vector view and/or FP-theory view (80-bit x87 values keep
    the explicit integer bit in the bit-vector view)."""
    __slots__ = ("w", "_bv", "_fp", "ex")
    def __init__(self, w, bv=None, fp=None, ex=None):
        self.w = w; self._bv = bv; self._fp = fp; self.ex = ex
    def fp(self):
        if self._fp is None:
            self._fp = bv2fp(self._bv, self.w)
        return self._fp
    def bv(self):
        if self._bv is None:
            self._bv = self.ex.fp2bv(self._fp, self.w)
        return self._bv
    def has_bv(self): return self._bv is not None

def bv2fp(b, w):
    b = BV(b, w if w != 80 else 80)
    if w == 80:
        b = z3.Concat(z3.Extract(79, 64, b), z3.Extract(62, 0, b))
    r = z3.fpBVToFP(b, SORT[w])
    return z3.simplify(r) if z3.is_bv_value(b) or z3.is_bv_value(z3.simplify(b)) and False else r

class PV:
    """pointer: list of (cond, obj, off) – obj None means null / integer address"""
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = alts

class FnPtr:
    def __init__(self, n): self.n = n

# ---------------------------------------------------------------- guards
class Guard:
    """conjunction of literals; literal = (z3 ast, polarity)"""
    __slots__ = ("lits", "_e")
    def __init__(self, lits=()):
        self.lits = frozenset(lits); self._e = None
    def add(self, cond):
        """cond: bool or z3 Bool; returns Guard or None if false"""
        if isinstance(cond, bool): return self if cond else None
        if z3.is_true(cond): return self
        if z3.is_false(cond): return None
        if z3.is_and(cond):
            g = self
            for c in cond.children():
                g = g.add(c)
                if g is None: return None
            return g
        pol = True
        while z3.is_not(cond):
            cond = cond.arg(0); pol = not pol
        k = Lit(cond, pol)
        if Lit(cond, not pol) in self.lits: return None
        if k in self.lits: return self
        return Guard(self.lits | {k})
    def expr(self):
        if self._e is None:
            self._e = n_and(*[l.expr() for l in sorted(self.lits, key=lambda l: l.key)])
        return self._e

class Lit:
    __slots__ = ("c", "pol", "key")
    def __init__(self, c, pol): self.c = c; self.pol = pol; self.key = (c.get_id(), pol)
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return self.key == o.key
    def expr(self): return self.c if self.pol else z3.Not(self.c)

def guard_join(gs):
    """disjunction of guards (assumed mutually exclusive)."""
    gs = list(dict.fromkeys(gs))
    ch = True
    while ch and len(gs) > 1:
        ch = False
        for i in range(len(gs)):
            for j in range(i + 1, len(gs)):
                a, b = gs[i].lits, gs[j].lits
                if len(a) == len(b):
                    da = a - b
                    if len(da) == 1:
                        (x,) = da; (y,) = b - a
                        if x.key[0] == y.key[0]:
                            ng = Guard(a & b)
                            gs = [g for k, g in enumerate(gs) if k not in (i, j)] + [ng]
                            ch = True; break
                if a <= b:
                    gs = [g for k, g in enumerate(gs) if k != j]; ch = True; break
                if b <= a:
                    gs = [g for k, g in enumerate(gs) if k != i]; ch = True; break
            if ch: break
    if len(gs) == 1: return gs[0]
    common = frozenset.intersection(*[g.lits for g in gs])
    rest = n_or(*[Guard(g.lits - common).expr() for g in gs])
    g = Guard(common)
    return g.add(rest) if not isinstance(rest, bool) else g

# ---------------------------------------------------------------- memory
class Obj:
    """cells: {off: (size, value)} ; value: int/BV/FV/PV ; missing -> fresh"""
    __slots__ = ("name", "size", "const", "cells", "init", "elem")
_oid = itertools.count(1)

class Rec:
    __slots__ = ("pred", "guard", "phis", "mem")
    def __init__(self, pred, guard, phis, mem):
        self.pred = pred; self.guard = guard; self.phis = phis; self.mem = mem

class Obligation:
    def __init__(self, name, kind, goal, assume=()):
        self.name = name; self.kind = kind; self.goal = goal; self.assume = list(assume)

class Exec:
    def __init__(self, mod, rm=None, unwind=600, contracts=None, uf=None, requires=None, loop_check=None, trap_kind='ub'):
        self.mod = mod
        self.rm = rm if rm is not None else RNE     # z3 RoundingMode expr
        self.rmsel = None                            # BV2 selecting it when symbolic
        self.side = []                               # definitional constraints
        self.obls = []                               # (guardexpr, kind, text): must be False
        self.fresh_n = itertools.count()
        self.objs = {}                               # id -> (name,size,const)
        self.gobj = {}                               # global name -> id
        self.fp2bv_memo = {}
        self.unwind = unwind
        self.contracts = contracts or {}
        self.uf = uf or {}
        self.requires = requires or []
        self.called = set()
        self.externs = set()
        self.raised = 0                              # ghost: FP exceptions raised via feraiseexcept (BV32)
        self.depth = 0
        self.loop_notes = []
        self.keep = []; self.fresh_memo = {}
        self.prune = False; self.opaque = {}
        self.cut = None; self.cutout = {}; self.invs = []; self.stops = []              # loop cut: replaces loop-header values by fresh ones constrained by an invariant

    # -- helpers
    def fresh(self, w, tag="u"):
        v = z3.BitVec("%s!%d" % (tag, next(self.fresh_n)), w) if w != 'b' else z3.Bool("%s!%d" % (tag, next(self.fresh_n)))
        return v
    def fresh_for(self, w, tag, *terms):
        """unspecified value that is a function of the given terms (the same terms give the same unknown)"""
        k = (w, tag) + tuple(t.get_id() for t in terms)
        if k not in self.fresh_memo: self.fresh_memo[k] = (self.fresh(w, tag), terms)
        return self.fresh_memo[k][0]
    def fp2bv(self, fp, w):
        k = fp.get_id()
        if k in self.fp2bv_memo: return self.fp2bv_memo[k][0]
        s = z3.simplify(fp)
        if z3.is_fp_value(s) and not s.isNaN():
            eb, sb = s.ebits(), s.sbits()
            bv = z3.simplify(z3.fpToIEEEBV(s)).as_long()
            if w == 80:
                bv = fix80(bv)
            self.fp2bv_memo[k] = (bv, fp)
            return bv
        n = 79 if w == 80 else w
        b = z3.BitVec("fb!%d" % next(self.fresh_n), n)
        self.side.append(z3.fpBVToFP(b, SORT[w]) == fp)
        if w == 80:
            ex = z3.If(z3.Extract(77, 63, b) != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            r = z3.Concat(z3.Extract(78, 63, b), ex, z3.Extract(62, 0, b))
        else: r = b
        self.fp2bv_memo[k] = (r, fp)
        return r
    def F(self, w, fp): return FV(w, None, fp, self)
    def Fb(self, w, bv): return FV(w, bv, None, self)

    def ghost_or(self, name, v, w):
        old = self.memory.get('#' + name, {0: (w // 8, 0)})[0][1]
        new = self.binop('or', old, v, w)
        self.memory = dict(self.memory); self.memory['#' + name] = {0: (w // 8, new)}
    def ghost(self, name, w):
        return self.memory.get('#' + name, {0: (w // 8, 0)})[0][1]
    def errno_obj(self):
        if not hasattr(self, '_errno'):
            self._errno = self.new_obj('errno', 4)
            self.errno0 = z3.BitVec('errno_in', 32)
            self.ginit_cells[self._errno] = {0: (4, self.errno0)}
        return self._errno
    def new_obj(self, name, size, const=False):
        i = next(_oid)
        self.objs[i] = (name, size, const)
        return i

    # -- constants
    def cval(self, c):
        k = c[0]
        if k == 'int':
            if c[1] == 1: return bool(c[2])
            return c[2]
        if k == 'fp': return FV(c[1], c[2], None, self)
        if k == 'null': return PV([(True, None, 0)])
        if k == 'gaddr': return PV([(True, self.global_obj(c[1]), 0)])
        if k == 'fnptr': return FnPtr(c[1])
        if k == 'undef': return self.havoc(c[1], "undef")
        if k == 'zero': return self.zero(c[1])
        if k == 'agg': return [self.cval(x) for x in c[2]]
        if k == 'cgep':
            return self.gep(c[1], [self.cval(x) for x in c[2]], c[3])
        if k == 'inttoptr': return PV([(True, None, self.cval(c[1]))])
        raise Unsupported("const %r" % (c,))
    def zero(self, t):
        k = t[0]
        if k == 'i': return False if t[1] == 1 else 0
        if k == 'f': return FV(t[1], 0, None, self)
        if k == 'p': return PV([(True, None, 0)])
        if k == 'a' or k == 'v': return [self.zero(t[2]) for _ in range(t[1])]
        if k == 's': return [self.zero(x) for x in t[1]]
        raise Unsupported(t)
    def havoc(self, t, tag="h"):
        k = t[0]
        if k == 'i': return self.fresh('b' if t[1] == 1 else t[1], tag)
        if k == 'f':
            if t[1] == 80:
                b = self.fresh(79, tag)
                return FV(80, mk80(b), None, self)
            return FV(t[1], self.fresh(t[1], tag), None, self)
        if k == 'p': return PV([(True, None, self.fresh(64, tag))])
        if k in 'av': return [self.havoc(t[2], tag) for _ in range(t[1])]
        if k == 's': return [self.havoc(x, tag) for x in t[1]]
        raise Unsupported(t)

    def global_obj(self, name):
        if name in self.gobj: return self.gobj[name]
        t, init, const = self.mod.ginit(name)
        i = self.new_obj(name, self.mod.size(t), const and init is not None)
        self.gobj[name] = i
        cells = {}
        if init is not None:
            self.flatten(t, init, 0, cells)
        self.ginit_cells[i] = cells
        return i
    def flatten(self, t, c, off, cells):
        k = t[0]
        if c[0] == 'zero':
            if k == 'a':
                es = self.mod.size(t[2])
                for j in range(t[1]): self.flatten(t[2], ('zero', t[2]), off + j * es, cells)
            elif k == 's':
                for tt, o in zip(t[1], t[2]): self.flatten(tt, ('zero', tt), off + o, cells)
            elif k == 'v':
                es = self.mod.size(t[2])
                for j in range(t[1]): cells[off + j * es] = (es, self.zero(t[2]))
            else:
                cells[off] = (self.mod.size(t), self.zero(t))
            return
        if k == 'a':
            es = self.mod.size(t[2])
            for j, x in enumerate(c[2]) if c[0] == 'agg' else []:
                self.flatten(t[2], x, off + j * es, cells)
        elif k == 's':
            for tt, o, x in zip(t[1], t[2], c[2]) if c[0] == 'agg' else []:
                self.flatten(tt, x, off + o, cells)
        elif k == 'v' and c[0] == 'agg':
            es = self.mod.size(t[2])
            for j, x in enumerate(c[2]): cells[off + j * es] = (es, self.cval(x))
        elif c[0] == 'undef':
            pass
        else:
            v = self.cval(c)
            if t == ('i', 1): v = ite(v, 1, 0, 8)
            cells[off] = (self.mod.size(t), v)

    # -- entry point
    def run(self, fname, args, mem0=None):
        """args: list of values (python int/BV, FV, PV).  returns (value, mem, guardexpr)"""
        self.ginit_cells = {}
        self.memory = dict(mem0 or {})
        self.guard = Guard()
        F = self.mod.func(fname)
        if F is None or F.decl: raise Unsupported("no body for " + fname)
        v = self.call_body(F, args)
        return v

    def call_body(self, F, args):
        self.depth += 1
        if self.depth > 60: raise Unsupported("recursion depth")
        self.called.add(F.name)
        active = self.__dict__.setdefault('active', [])
        if F.name in active and not self.loop_feasible(self.guard.expr()):      # recursion that the conditions on the way here exclude
            self.depth -= 1; self.guard = None
            return None
        active.append(F.name)
        env = {}
        for (pid, t), a in zip(F.args, args):
            env[pid] = a
        fr = Frame(F, self.loops(F))
        fr.env = env
        save = getattr(self, 'fr', None)
        self.fr = fr
        entry = Rec(None, self.guard, {}, self.memory)
        pend = {F.entry: [entry]}
        fr.scopes = [Scope(set(F.blocks), pend, None)]
        self.run_order(fr.order[None], pend)
        self.fr = save
        self.depth -= 1; active.pop()
        rets = fr.returns
        if not rets:
            self.guard = None
            return None
        self.guard = guard_join([r[0] for r in rets])
        com = self.guard.lits
        self.memory = self.merge_mem([(Guard(r[0].lits - com).expr(), r[2]) for r in rets])
        if F.ret == ('void',): return None
        return self.merge_vals([(Guard(r[0].lits - com).expr(), r[1]) for r in rets], F.ret)

    # -- merging
    def merge_vals(self, xs, t=None):
        """xs: list of (cond, value) mutually exclusive & exhaustive under join guard"""
        v = xs[-1][1]
        for c, a in reversed(xs[:-1]):
            v = self.mite(c, a, v, t)
        return v
    def mite(self, c, a, b, t=None):
        if isinstance(c, bool): return a if c else b
        if a is b: return a
        if isinstance(a, FV):
            if a._bv is not None and b._bv is not None:
                if isc(a._bv) and isc(b._bv) and a._bv == b._bv: return a
                if not isc(a._bv) and not isc(b._bv) and a._bv.eq(b._bv): return a
                n = ite(c, a._bv, b._bv, a.w)
                fp = None
                if a._fp is not None and b._fp is not None and not (isc(a._bv) or isc(b._bv)):
                    fp = z3.If(c, a._fp, b._fp)
                return FV(a.w, n, fp, self)
            # keep IEEE bits precise where they exist: materialise
            fp = z3.If(c, a.fp(), b.fp())
            bv = ite(c, a.bv(), b.bv(), a.w)
            return FV(a.w, bv, fp, self)
        if isinstance(a, PV) or isinstance(b, PV):
            if not isinstance(a, PV) or not isinstance(b, PV): raise Unsupported("ptr/fn merge")
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                return PV([(True, a.alts[0][1], ite(c, a.alts[0][2], b.alts[0][2], 64))])
            out = []
            for cc, o, f in a.alts: out.append((n_and(c, cc), o, f))
            nc = n_not(c)
            for cc, o, f in b.alts: out.append((n_and(nc, cc), o, f))
            return PV(out)
        if isinstance(a, list):
            ts = [None] * len(a) if t is None else (list(t[1]) if t[0] == 's' else [t[2]] * len(a))
            return [self.mite(c, x, y, k) for x, y, k in zip(a, b, ts)]
        if isinstance(a, FnPtr):
            if isinstance(b, FnPtr) and a.n == b.n: return a
            raise Unsupported("fnptr merge")
        if a is None: return b
        if b is None: return a
        return ite(c, a, b, t[1] if t is not None and t[0] == 'i' and t[1] > 1 else None)
    def merge_mem(self, xs):
        if len(xs) == 1: return xs[0][1]
        mems = [m for _, m in xs]
        first = mems[0]
        if all(m is first for m in mems): return first
        out = {}
        keys = set()
        for m in mems: keys.update(m)
        for k in keys:
            cs = [m.get(k, self.ginit_cells.get(k)) for m in mems]
            if isinstance(k, str): cs = [c if c is not None else {0: (4, 0)} for c in cs]
            c0 = next(c for c in cs if c is not None)
            if all(c is c0 or c is None for c in cs):
                out[k] = c0; continue
            cs = [(c if c is not None else self.ginit_cells.get(k, {})) for c in cs]
            out[k] = self.merge_cells(k, [(g, c) for (g, _), c in zip(xs, cs)])
        return out
    def merge_cells(self, oid, xs):
        offs = set()
        for _, c in xs: offs.update(c)
        res = {}
        for o in sorted(offs):
            vs = [c.get(o) for _, c in xs]
            sizes = {v[0] for v in vs if v is not None}
            if len(sizes) != 1:
                return self.merge_bytes(oid, xs)
            sz = sizes.pop()
            kinds = {type(v[1]) if not isc(v[1]) and not isinstance(v[1], z3.ExprRef) else int for v in vs if v is not None}
            if len(kinds) > 1: 
                return self.merge_bytes(oid, xs)
            val = None
            items = []
            for (g, c), v in zip(xs, vs):
                if v is None:
                    # uninitialised or overlapped by other cell
                    if any(oo < o < oo + s or o < oo < o + sz for oo, (s, _) in c.items()): return self.merge_bytes(oid, xs)
                    if c is not None:
                        v = (sz, self.uninit_like(next(x[1] for x in vs if x is not None), sz, oid, o))
                items.append((g, v[1]))
            res[o] = (sz, self.merge_vals(items, ('i', sz * 8)))
        return res
    def uninit_like(self, v, sz, oid, off):
        if oid in self.ginit_cells and off in self.ginit_cells[oid]: return self.ginit_cells[oid][off][1]
        if isinstance(v, FV): return self.havoc(('f', v.w))
        if isinstance(v, PV): return PV([(True, None, self.fresh(64))])
        return self.fresh(sz * 8)
    def merge_bytes(self, oid, xs):
        bs = [(g, self.to_bytes(oid, c)) for g, c in xs]
        offs = set()
        for _, b in bs: offs.update(b)
        res = {}
        for o in offs:
            items = [(g, b[o] if o in b else self.fresh(8)) for g, b in bs]
            res[o] = (1, self.merge_vals(items, ('i', 8)))
        return res
    def val_bv(self, v, sz):
        """value -> bit-vector of sz*8 bits"""
        if isinstance(v, FV):
            b = v.bv()
            if v.w < sz * 8:
                return fold(z3.ZeroExt(sz * 8 - v.w, b)) if not isc(b) else b
            return b
        if isinstance(v, PV): raise Unsupported("pointer bytes")
        if isinstance(v, bool): return int(v)
        if not isc(v) and z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, sz * 8), z3.BitVecVal(0, sz * 8))
        return v
    def to_bytes(self, oid, cells):
        out = {}
        for o, (sz, v) in cells.items():
            b = self.val_bv(v, sz)
            for i in range(sz):
                out[o + i] = (b >> (8 * i)) & 255 if isc(b) else (z3.Extract(8 * i + 7, 8 * i, b) if sz > 1 else b)
        return out

    # -- loops / ordering
    def loops(self, F):
        if hasattr(F, '_li') if False else F.name in _LI.get(id(self.mod), {}):
            return _LI[id(self.mod)][F.name]
        li = LoopInfo(F)
        _LI.setdefault(id(self.mod), {})[F.name] = li
        return li

    def run_order(self, order, pend):
        for n in order:
            if isinstance(n, Loop):
                self.run_loop(n, pend)
            else:
                recs = pend.pop(n, None)
                if recs: self.exec_block(n, recs)

    def run_loop(self, L, pend):
        recs = pend.pop(L.header, None)
        if not recs: return
        fr = self.fr
        it = 0
        order = fr.order[L]
        F = fr.F
        while recs:
            it += 1
            if it > 3 and (it & (it - 1) == 0 or it % 32 == 0):
                g = guard_join([r.guard for r in recs])
                if not self.loop_feasible(g.expr()):
                    break
            if it > self.unwind:
                g = guard_join([r.guard for r in recs])
                self.obls.append((g.expr(), 'unwind', "loop in %s unrolled %d times" % (F.name, self.unwind)))
                break
            if self.cut:
                recs = self.cut_loop(L, recs, it)
                if recs is None: break                                  # the loop contract is closed: nothing is left to run
            sc = Scope(L.blocks, {L.header: recs}, L)
            fr.scopes.append(sc)
            self.run_order(order, sc.pend)
            fr.scopes.pop()
            recs = sc.back
        self.loop_notes.append((F.name, it))

    def cut_loop(self, L, recs, it):
        """apply the loop contract: the contract object sees the merged header values (by phi) and may replace some of them"""
        fr = self.fr; B = fr.F.blocks[L.header]
        g = guard_join([r.guard for r in recs])
        conds = [Guard(r.guard.lits - g.lits).expr() for r in recs]
        phis = {p.id: recs[0].phis[p.id] if len(recs) == 1 else self.merge_vals([(c, r.phis[p.id]) for c, r in zip(conds, recs)], p.ty) for p in B.phis}
        mem = recs[0].mem if len(recs) == 1 else self.merge_mem([(c, r.mem) for c, r in zip(conds, recs)])
        if it == 1: L.init = dict(phis); L.cutst = {}
        self.hdrmem = mem
        new = self.cut(self, fr.F.name, it, [(p.id, p.ty, L.init[p.id], phis[p.id]) for p in B.phis], g, L.cutst)
        if new is None: return recs
        if new == 'STOP':
            hv = L.cutst.get('havoc')
            if hv is not None:
                for r in recs:
                    for o, cells in r.mem.items():
                        if o not in L.cutmem or cells is L.cutmem[o]: continue          # (objects born in the loop body are dead here)
                        for k, (sz, v) in cells.items():
                            if (o, k, sz) in hv: continue
                            w = L.cutmem[o].get(k)
                            if w is None or w[0] != sz or not self.same_val(w[1], v): raise Unsupported("memory changed in a loop beyond its contract: %s+%d" % (self.objs[o][0] if o in self.objs else o, k))
            elif any(r.mem is not L.cutmem and not self.same_mem(r.mem, L.cutmem) for r in recs): raise Unsupported("memory changed in a loop under contract")
            self.stops.append(g.expr())         # this execution goes round again: only those that leave the loop reach the end
            return None
        L.cutmem = mem = L.cutst.pop('mem', mem)
        phis.update(new)
        return [Rec(recs[0].pred, g, phis, mem)]

    def same_mem(self, a, b):
        if a is b: return True
        for k in set(a) | set(b):
            x, y = a.get(k, self.ginit_cells.get(k)), b.get(k, self.ginit_cells.get(k))
            if x is y: continue
            if x is None or y is None or set(x) != set(y): return False
            for o in x:
                (s1, v1), (s2, v2) = x[o], y[o]
                if s1 != s2 or not (v1 is v2 or isc(v1) and isc(v2) and v1 == v2 or isinstance(v1, z3.ExprRef) and isinstance(v2, z3.ExprRef) and v1.eq(v2)): return False
        return True
    def same_val(self, a, b): return a is b or isc(a) and isc(b) and a == b or isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)
    def changed_cells(self, a, b):
        """cells of memory b that are not those of memory a"""
        for o, cells in b.items():
            if o not in a or a[o] is cells: continue
            for k, (sz, v) in cells.items():
                w = a[o].get(k)
                if w is None or w[0] != sz or not self.same_val(w[1], v): yield o, k, sz, v
    def cut_var(self, w): return z3.BitVec("fb!cut%d" % next(self.fresh_n), w)

    def loop_feasible(self, g, ms=3000):
        if isinstance(g, bool): return g
        s = z3.SolverFor("QF_BV") if False else z3.Solver()
        s.set("timeout", ms)
        for r in self.requires: s.add(r)
        s.add(g)
        r = s.check()
        return r != z3.unsat

    def emit(self, src, dst, guard):
        fr = self.fr
        B = fr.F.blocks[dst]
        phis = {}
        for p in B.phis:
            phis[p.id] = self.ev(p.x[src])
        rec = Rec(src, guard, phis, self.memory)
        for sc in reversed(fr.scopes):
            if sc.loop is not None and dst == sc.loop.header:
                sc.back.append(rec); return
            if dst in sc.blocks:
                sc.pend.setdefault(dst, []).append(rec); return
        raise Unsupported("edge out of function")

    def exec_block(self, bid, recs):
        fr = self.fr
        B = fr.F.blocks[bid]
        g = guard_join([r.guard for r in recs])
        if len(recs) == 1:
            r = recs[0]
            for p in B.phis: fr.env[p.id] = r.phis[p.id]
            self.memory = r.mem
        else:
            com = g.lits
            conds = [Guard(r.guard.lits - com).expr() for r in recs]
            for p in B.phis:
                fr.env[p.id] = self.merge_vals([(c, r.phis[p.id]) for c, r in zip(conds, recs)], p.ty)
            self.memory = self.merge_mem([(c, r.mem) for c, r in zip(conds, recs)])
        self.guard = g
        for ins in B.ins:
            self.instr(ins)
            if self.guard is None: return
        t = B.term
        if t.op == 'br':
            if not t.ops:
                self.emit(bid, t.x['succs'][0], self.guard)
            else:
                c = self.cond(self.ev(t.ops[0]))
                a, b = t.x['succs'][0], t.x['succs'][1]
                if a == b:
                    self.emit(bid, a, self.guard); return
                g1 = self.guard.add(c)
                g2 = self.guard.add(n_not(c))
                if self.prune and g1 is not None and g2 is not None:
                    if not self.feasible(g1): g1 = None
                    elif not self.feasible(g2): g2 = None
                if g1 is not None: self.emit(bid, a, g1)
                if g2 is not None: self.emit(bid, b, g2)
        elif t.op == 'switch':
            v = self.ev(t.ops[0])
            rest = self.guard
            tgt = {}
            w = None
            for cv, dst in t.x['cases']:
                k = self.cval(cv[1])
                w = cv[1][1]
                if isc(v):
                    c = (int(v) == int(k))
                else:
                    c = simp(BV(v, w) == BV(k, w))
                tgt.setdefault(dst, []).append(c)
            default = t.x['default']
            anyc = n_or(*[c for cs in tgt.values() for c in cs])
            tgt.setdefault(default, []).append(n_not(anyc))
            for dst, cs in tgt.items():
                g = self.guard.add(n_or(*cs))
                if g is not None: self.emit(bid, dst, g)
        elif t.op == 'ret':
            v = self.ev(t.ops[0]) if t.ops else None
            fr.returns.append((self.guard, v, self.memory))
        elif t.op == 'unreachable':
            self.obls.append((self.guard.expr(), 'unreachable', "unreachable reached in " + fr.F.name))
        elif t.op == 'invoke':
            self.instr(t)
            if self.guard is not None:
                self.emit(bid, t.x['succs'][0], self.guard)
        else:
            raise Unsupported("terminator " + t.op)

    def feasible(self, g):
        """False only when the path condition contradicts the precondition (heavy arithmetic over-approximated)"""
        import core
        e = g.expr()
        if isinstance(e, bool): return e
        memo = self.__dict__.setdefault('feas', {})
        if e.get_id() in memo: return memo[e.get_id()][0]
        fs = core.prune_side(list(self.requires) + [e] + self.side, {s.get_id() for s in self.side})
        fs, _ = core.abstract_heavy(fs, 2)
        v, _ = core.solve_z3(fs, 2000)
        memo[e.get_id()] = (v != 'unsat', e)
        return v != 'unsat'
    def cond(self, c):
        if isc(c): return bool(c)
        return simp(c)

    # -- evaluation
    def ev(self, o):
        if o[0] == 'c': return self.cval(o[1])
        return self.fr.env[o[1]]

    def instr(self, I):
        op = I.op
        m = getattr(self, 'i_' + op, None)
        if m is None:
            if op in BINOPS:
                a, b = self.ev(I.ops[0]), self.ev(I.ops[1])
                if I.ty[0] == 'v':
                    r = [self.binop(op, x, y, I.ty[2][1]) for x, y in zip(a, b)]
                else:
                    r = self.binop(op, a, b, I.ty[1])
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                a, b = self.ev(I.ops[0]), self.ev(I.ops[1])
                if I.ty[0] == 'v':
                    r = [self.fbin(op, x, y) for x, y in zip(a, b)]
                else:
                    r = self.fbin(op, a, b)
            else:
                raise Unsupported("instruction " + op)
        else:
            r = m(I)
        if I.ty != ('void',):
            self.fr.env[I.id] = r

    def binop(self, op, a, b, w):
        if w == 1:
            if op == 'and': return n_and(a, b)
            if op == 'or': return n_or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool): return b if not a else n_not(b)
                if isinstance(b, bool): return a if not b else n_not(a)
                return z3.Xor(a, b)
            a = ite(a, 1, 0, 1); b = ite(b, 1, 0, 1)
            return simp(BV(self.binop2(op, a, b, 1), 1) == 1)
        return self.binop2(op, a, b, w)
    def binop2(self, op, a, b, w):
        M = mask(w)
        if isc(a) and isc(b):
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else self.poison_shift(w)
            if op == 'lshr': return a >> b if b < w else self.poison_shift(w)
            if op == 'ashr': return (sgn(a, w) >> b) & M if b < w else self.poison_shift(w)
            if op == 'udiv' and b: return a // b
            if op == 'urem' and b: return a % b
            if op in ('sdiv', 'srem') and b:
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & M
        if isc(b) and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
        if isc(a) and a == 0 and op in ('add', 'or', 'xor'): return b
        if op == 'and' and (isc(a) and a == 0 or isc(b) and b == 0): return 0
        if op == 'mul' and (isc(a) and a == 0 or isc(b) and b == 0): return 0
        if op == 'mul' and isc(b) and b == 1: return a
        if op == 'mul' and isc(a) and a == 1: return b
        A, B = BV(a, w), BV(b, w)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            r = {'add': A + B, 'sub': A - B, 'mul': bvmul(A, B) if op == 'mul' else None, 'and': A & B, 'or': A | B, 'xor': A ^ B}[op]
            return r if op == 'mul' else fold(r)
        if op in ('shl', 'lshr', 'ashr'):
            r = A << B if op == 'shl' else (z3.LShR(A, B) if op == 'lshr' else A >> B)
            if isc(b):
                return fold(z3.simplify(r)) if b < w else self.poison_shift(w)
            c = simp(z3.ULT(B, w))
            if c is True: return r
            return z3.If(BO(c), r, self.fresh_for(w, 'poison', r))
        # divisions: division by zero is immediate UB
        z = simp(B == 0)
        if z is not False:
            self.ub(z, "division by zero")
        if op == 'udiv': return z3.UDiv(A, B)
        if op == 'urem': return z3.URem(A, B)
        ov = simp(z3.And(A == (1 << (w - 1)), B == M))
        if ov is not False: self.ub(ov, "signed division overflow")
        if op == 'sdiv': return A / B
        if op == 'srem': return z3.SRem(A, B)
        raise Unsupported(op)
    def poison_shift(self, w): return self.fresh(w, "poison")
    def ub(self, cond, text):
        g = self.guard.add(cond) if not isinstance(cond, bool) else (self.guard if cond else None)
        if g is not None:
            self.obls.append((g.expr(), 'ub', text + " in " + self.fr.F.name))

    def fbin(self, op, a, b):
        w = a.w
        u = self.uf.get(op)
        if u is not None: return u(self, op, a, b)
        if op == 'frem':                                # clang folds fmod into this instruction: the contract assumed for fmod
            import lib
            I = type('I', (), {})(); I.ty = ('f', w)
            return lib.ufcall(self, I, [a, b], 'fmod' + {32: 'f', 64: '', 80: 'l'}[w])
        if op == 'fmul' and a.w in DBL2:
            # exact rewriting of a multiplication by two on the encoding (keeps normalisation loops in bit-vector logic)
            for p, q in ((a, b), (b, a)):
                if isc(q._bv) and q._bv == DBL2[w] and p._bv is not None and not isc(p._bv): return self.dbl(p)
        x, y = a.fp(), b.fp()
        if op == 'fadd': r = z3.fpAdd(self.rm, x, y)
        elif op == 'fsub': r = z3.fpSub(self.rm, x, y)
        elif op == 'fmul': r = z3.fpMul(self.rm, x, y)
        elif op == 'fdiv': r = z3.fpDiv(self.rm, x, y)
        else: raise Unsupported(op)
        return self.F(w, self.fsimp(r, a, b))
    def dbl(self, p):
        w = p.w; b = p.bv()
        eb, fb = {32: (8, 23), 64: (11, 52), 80: (15, 63)}[w]
        mw = fb + (1 if w == 80 else 0)              # stored significand bits (x87 stores the integer bit)
        s = z3.Extract(w - 1, w - 1, b); e = z3.Extract(w - 2, mw, b); m = z3.Extract(mw - 1, 0, b); f = z3.Extract(fb - 1, 0, b)
        top = (1 << eb) - 1
        if w == 80:
            m2 = z3.Concat(z3.Extract(62, 0, b), z3.BitVecVal(0, 1))
            sub = z3.Concat(s, z3.BitVecVal(0, 14), z3.Extract(62, 62, b), m2)
            def enc(E, F): return z3.Concat(z3.BitVecVal(E, 15), z3.BitVecVal((1 << 63) | F, 64))
        else:
            sub = z3.Concat(s, z3.Extract(w - 3, 0, b), z3.BitVecVal(0, 1))       # exponent field 0: shift the magnitude
            def enc(E, F): return z3.BitVecVal((E << fb) | F, w - 1)
        # a loop that doubles a subnormal until it is normal: the guard says which branch is taken
        zero_e = z3.simplify(e == 0)
        if not z3.is_false(zero_e) and self.implied(zero_e): return self.Fb(w, z3.simplify(sub))
        nor = z3.Concat(s, e + 1, m)
        # overflow (exponent field top-1): infinity or the largest finite value, by mode
        inf = z3.Concat(s, enc(top, 0)); mx = z3.Concat(s, enc(top - 1, (1 << fb) - 1))
        if self.rm.eq(RNE): ov = inf
        elif self.rm.eq(RTZ): ov = mx
        elif self.rm.eq(RTP): ov = z3.If(s == 0, inf, mx)
        else: ov = z3.If(s == 1, inf, mx)
        nanq = b | z3.BitVecVal(1 << (fb - 1), w)
        r = z3.If(e == 0, sub, z3.If(e == top, z3.If(f == 0, b, nanq), z3.If(e == top - 1, ov, nor)))
        return self.Fb(w, z3.simplify(r))
    def implied(self, c, ms=1500):
        s = z3.Solver(); s.set("timeout", ms)
        for r in self.requires: s.add(r)
        g = self.guard.expr()
        if not isinstance(g, bool): s.add(g)
        s.add(z3.Not(c))
        return s.check() == z3.unsat
    def fsimp(self, r, *ops):
        if all(isc(o._bv) if o._bv is not None else z3.is_fp_value(o._fp) for o in ops) and (self.rmsel is None):
            return z3.simplify(r)
        return r

    def i_fneg(self, I):
        a = self.ev(I.ops[0])
        return [self.fneg(x) for x in a] if isinstance(a, list) else self.fneg(a)
    def fneg(self, a):
        if a._bv is None:
            return self.F(a.w, z3.fpNeg(a._fp))
        b = a._bv
        s = 1 << (a.w - 1)
        nb = b ^ s if isc(b) else z3.simplify(b ^ z3.BitVecVal(s, a.w))
        return FV(a.w, nb, z3.fpNeg(a._fp) if a._fp is not None else None, self)
    def fabs(self, a):
        if a._bv is None: return self.F(a.w, z3.fpAbs(a._fp))
        b = a._bv; s = mask(a.w - 1)
        nb = b & s if isc(b) else b & z3.BitVecVal(s, a.w)
        return FV(a.w, nb, z3.fpAbs(a._fp) if a._fp is not None else None, self)
    def copysign(self, a, b):
        w = a.w; m = mask(w - 1)
        x, y = a.bv(), b.bv()
        if isc(x) and isc(y): return self.Fb(w, (x & m) | (y & ~m & mask(w)))
        return self.Fb(w, z3.simplify(z3.Concat(z3.Extract(w - 1, w - 1, BV(y, w)), z3.Extract(w - 2, 0, BV(x, w)))))

    def i_icmp(self, I):
        a, b = self.ev(I.ops[0]), self.ev(I.ops[1])
        t = I.opty[0]
        if t[0] == 'v': return [self.icmp(I.x, x, y, t[2]) for x, y in zip(a, b)]
        return self.icmp(I.x, a, b, t)
    def icmp(self, p, a, b, t):
        if t[0] == 'p':
            e = self.ptr_eq(a, b)
            if p == 'eq': return e
            if p == 'ne': return n_not(e)
            if len(a.alts) == 1 and len(b.alts) == 1 and a.alts[0][1] == b.alts[0][1]:
                return self.icmp(p, a.alts[0][2], b.alts[0][2], ('i', 64))
            raise Unsupported("pointer order")
        w = t[1]
        if w == 1:
            a = ite(a, 1, 0, 1); b = ite(b, 1, 0, 1)
        if isc(a) and isc(b):
            sa, sb = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b, 'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[p]
        A, B = BV(a, w), BV(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'sgt': lambda: A > B, 'sge': lambda: A >= B, 'slt': lambda: A < B, 'sle': lambda: A <= B}[p]()
        return fold(r) if not (isc(a) or isc(b)) else simp(r)
    def ptr_eq(self, a, b):
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            return isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.n == b.n
        cs = []
        for c1, o1, f1 in a.alts:
            for c2, o2, f2 in b.alts:
                if o1 != o2: continue
                e = (f1 == f2) if isc(f1) and isc(f2) else simp(BV(f1, 64) == BV(f2, 64))
                cs.append(n_and(c1, c2, e))
        return n_or(*cs)

    def i_fcmp(self, I):
        a, b = self.ev(I.ops[0]), self.ev(I.ops[1])
        if isinstance(a, list): return [self.fcmp(I.x, x, y) for x, y in zip(a, b)]
        return self.fcmp(I.x, a, b)
    def fcmp(self, p, a, b):
        if p == 'false': return False
        if p == 'true': return True
        x, y = a.fp(), b.fp()
        if p == 'uno' or p == 'ord':
            if a is b or x.eq(y): r = z3.fpIsNaN(x)
            else: r = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if p == 'ord': r = z3.Not(r)
            return simp(r)
        q = p[1:]
        # constant operands: simplify special cases to keep terms small
        r = {'eq': lambda: z3.fpEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y), 'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y))}[q]()
        if p[0] == 'o' and q == 'ne':
            r = z3.And(r, z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(y)))
        if p[0] == 'u' and q != 'ne':
            inv = {'eq': None, 'gt': z3.fpLEQ, 'ge': z3.fpLT, 'lt': z3.fpGEQ, 'le': z3.fpGT}[q]
            r = z3.Not(inv(x, y)) if inv else z3.Or(r, z3.fpIsNaN(x), z3.fpIsNaN(y))
        if (isc(a._bv) or z3.is_fp_value(x)) and (isc(b._bv) or z3.is_fp_value(y)): return simp(r)
        return r

    def i_select(self, I):
        c, a, b = (self.ev(o) for o in I.ops)
        if isinstance(c, list):
            return [self.mite(self.cond(k), x, y, I.ty[2]) for k, x, y in zip(c, a, b)]
        return self.mite(self.cond(c), a, b, I.ty)
    def i_freeze(self, I): return self.ev(I.ops[0])

    def vec(f):
        def g(self, I):
            a = self.ev(I.ops[0])
            t, s = I.ty, I.opty[0]
            if t[0] == 'v' and s[0] == 'v': return [f(self, x, s[2], t[2]) for x in a]
            return f(self, a, s, t)
        return g
    @vec
    def i_trunc(self, a, s, t):
        w = t[1]
        if isc(a): r = a & mask(w); return bool(r) if w == 1 else r
        r = z3.Extract(w - 1, 0, a)
        return simp(r == 1) if w == 1 else fold(z3.simplify(r))
    @vec
    def i_zext(self, a, s, t):
        if s[1] == 1: return ite(a, 1, 0, t[1])
        if isc(a): return a
        return z3.ZeroExt(t[1] - s[1], a)
    @vec
    def i_sext(self, a, s, t):
        if s[1] == 1: return ite(a, mask(t[1]), 0, t[1])
        if isc(a): return sgn(a, s[1]) & mask(t[1])
        return z3.SignExt(t[1] - s[1], a)
    @vec
    def i_fptrunc(self, a, s, t): return self.F(t[1], self.fsimp(z3.fpFPToFP(self.rm, a.fp(), SORT[t[1]]), a))
    @vec
    def i_fpext(self, a, s, t): return self.F(t[1], self.fsimp(z3.fpFPToFP(RNE, a.fp(), SORT[t[1]]), a))
    @vec
    def i_sitofp(self, a, s, t):
        w = s[1]
        if w == 1: a = ite(a, 1, 0, 1)
        r = z3.fpSignedToFP(self.rm, BV(a, w), SORT[t[1]])
        return self.F(t[1], z3.simplify(r) if isc(a) and self.rmsel is None else r)
    @vec
    def i_uitofp(self, a, s, t):
        w = s[1]
        if w == 1: a = ite(a, 1, 0, 1)
        r = z3.fpUnsignedToFP(self.rm, BV(a, w), SORT[t[1]])
        return self.F(t[1], z3.simplify(r) if isc(a) and self.rmsel is None else r)
    def f2i(self, a, w, signed, rm=None):
        """C conversion; out of range / NaN -> arbitrary value (poison)"""
        x = a.fp(); S = x.sort()
        rm = rm or RTZ
        ri = z3.fpRoundToIntegral(rm, x)
        if signed:
            lo = z3.fpSignedToFP(RTZ, z3.BitVecVal(1 << (w - 1), w), S)
            hi = z3.fpUnsignedToFP(RTZ, z3.BitVecVal(1 << (w - 1), w), S)
            ok = z3.And(z3.fpGEQ(ri, lo), z3.fpLT(ri, hi))
            v = z3.fpToSBV(rm, x, z3.BitVecSort(w))
        else:
            hi = z3.fpUnsignedToFP(RTZ, z3.BitVecVal(1 << w, w + 1), S)
            ok = z3.And(z3.fpGEQ(ri, z3.FPVal(0, S)), z3.fpLT(ri, hi))
            v = z3.fpToUBV(rm, x, z3.BitVecSort(w))
        ok = z3.And(z3.Not(z3.fpIsNaN(x)), ok)
        ok = simp(ok)
        if ok is True: return fold(z3.simplify(v))
        return z3.If(BO(ok), v, self.fresh_for(w, "poison", v)), ok
    @vec
    def i_fptosi(self, a, s, t):
        r = self.f2i(a, t[1], True)
        if isinstance(r, tuple):
            self.cvt_range(r[1]); return r[0]
        return r
    @vec
    def i_fptoui(self, a, s, t):
        r = self.f2i(a, t[1], False)
        if isinstance(r, tuple):
            self.cvt_range(r[1]); return r[0]
        return r
    def cvt_range(self, ok):
        # out-of-range float->int conversion is undefined behaviour in C++, poison in IR.
        g = self.guard.add(n_not(ok))
        if g is not None:
            self.obls.append((g.expr(), 'cvt', "float-to-integer conversion out of range in " + self.fr.F.name))

    def i_bitcast(self, I):
        a = self.ev(I.ops[0]); s, t = I.opty[0], I.ty
        return self.bitcast(a, s, t)
    def bits(self, a, s):
        if s[0] == 'i': return ite(a, 1, 0, 1) if s[1] == 1 else a
        if s[0] == 'f': return a.bv()
        if s[0] == 'v':
            ew = s[2][1]
            parts = [self.bits(x, s[2]) for x in a]
            if all(isc(p) for p in parts):
                r = 0
                for i, p in enumerate(parts): r |= p << (i * ew)
                return r
            return z3.Concat(*[BV(p, ew) for p in reversed(parts)])
        raise Unsupported("bits %r" % (s,))
    def unbits(self, b, t):
        if t[0] == 'i':
            if t[1] == 1: return bool(b) if isc(b) else simp(b == 1)
            return b
        if t[0] == 'f': return self.Fb(t[1], b)
        if t[0] == 'v':
            ew = t[2][1]
            return [self.unbits((b >> (i * ew)) & mask(ew) if isc(b) else fold(z3.simplify(z3.Extract(i * ew + ew - 1, i * ew, b))), t[2]) for i in range(t[1])]
        raise Unsupported("unbits %r" % (t,))
    def bitcast(self, a, s, t):
        if s == t or s[0] == 'p': return a
        return self.unbits(self.bits(a, s), t)

    def i_extractvalue(self, I):
        a = self.ev(I.ops[0])
        for k in I.x: a = a[k]
        return a
    def i_insertvalue(self, I):
        a, v = self.ev(I.ops[0]), self.ev(I.ops[1])
        def ins(a, ix):
            a = list(a)
            a[ix[0]] = v if len(ix) == 1 else ins(a[ix[0]], ix[1:])
            return a
        return ins(a, I.x)
    def i_extractelement(self, I):
        a, k = self.ev(I.ops[0]), self.ev(I.ops[1])
        if isc(k): return a[k]
        v = a[-1]
        w = I.opty[1][1]
        for j in range(len(a) - 2, -1, -1): v = self.mite(simp(BV(k, w) == j), a[j], v, I.ty)
        return v
    def i_insertelement(self, I):
        a, v, k = (self.ev(o) for o in I.ops)
        a = list(a)
        if isc(k): a[k] = v
        else:
            w = I.opty[2][1]
            a = [self.mite(simp(BV(k, w) == j), v, x, I.ty[2]) for j, x in enumerate(a)]
        return a
    def i_shufflevector(self, I):
        a, b = self.ev(I.ops[0]), self.ev(I.ops[1])
        z = a + b
        return [z[m] if m >= 0 else self.havoc(I.ty[2]) for m in I.x]

    # -- memory
    def i_alloca(self, I):
        n = self.ev(I.ops[0]) if I.ops else 1
        if not isc(n): raise Unsupported("VLA")
        o = self.new_obj("alloca", I.x * n)
        self.memory = dict(self.memory); self.memory[o] = {}
        return PV([(True, o, 0)])
    def gep(self, t, vals, tys):
        base = vals[0]
        off = 0
        def addi(off, k, sz, w):
            if isc(k):
                d = sgn(k, w) * sz
                return (off + d) & mask(64) if isc(off) else fold(off + z3.BitVecVal(d & mask(64), 64))
            K = z3.SignExt(64 - w, k) if w < 64 else k
            return fold(BV(off, 64) + K * sz) if not (isc(off) and off == 0) else (K * sz if sz != 1 else K)
        off = addi(0, vals[1], self.mod.size(t), tys[1][1])
        for v, ty in zip(vals[2:], tys[2:]):
            if t[0] == 's':
                off = addi(off, t[2][v], 1, 64); t = t[1][v]
            else:
                t = t[2]
                off = addi(off, v, self.mod.size(t), ty[1])
        if isinstance(base, FnPtr): raise Unsupported("gep fn")
        out = []
        for c, o, f in base.alts:
            if isc(f) and isc(off): out.append((c, o, (f + off) & mask(64)))
            elif isc(off) and off == 0: out.append((c, o, f))
            elif isc(f) and f == 0: out.append((c, o, off))
            else: out.append((c, o, BV(f, 64) + BV(off, 64)))
        return PV(out)
    def i_gep(self, I):
        return self.gep(I.x, [self.ev(o) for o in I.ops], I.opty)
    def cells(self, o):
        c = self.memory.get(o)
        if c is None:
            c = self.ginit_cells.get(o)
            if c is None: c = {}
        return c
    def i_load(self, I):
        p = self.ev(I.ops[0])
        return self.load(p, I.ty)
    def load(self, p, t):
        if t[0] in ('v', 'a'):
            es = self.mod.size(t[2])
            if t[0] == 'v' and t[2] == ('i', 1):
                n = t[1]
                b = self.load(p, ('i', 8 * ((n + 7) // 8)))
                return [simp(z3.Extract(i, i, BV(b, 8 * ((n + 7) // 8))) == 1) for i in range(n)]
            return [self.load(self.padd(p, i * es), t[2]) for i in range(t[1])]
        if t[0] == 's':
            return [self.load(self.padd(p, o), tt) for tt, o in zip(t[1], t[2])]
        if isinstance(p, FnPtr): raise Unsupported("load of function")
        sz = self.mod.size(t) if t[0] != 'i' else (t[1] + 7) // 8
        if t == ('f', 80): sz = 10
        res = []
        for c, o, f in p.alts:
            if o is None:
                self.mem_ub(c, "load through null/invalid pointer")
                continue
            res.append((c, self.load_obj(o, f, sz, t, c)))
        if not res:
            return self.havoc(t)
        return self.merge_vals(res, t)
    def mem_ub(self, c, text):
        g = self.guard.add(c) if not isinstance(c, bool) else (self.guard if c else None)
        if g is not None: self.obls.append((g.expr(), 'mem', text + " in " + self.fr.F.name))
    def padd(self, p, d):
        if d == 0: return p
        return PV([(c, o, (f + d) & mask(64) if isc(f) else f + d) for c, o, f in p.alts])
    def load_obj(self, o, f, sz, t, c):
        name, size, const = self.objs[o]
        if isc(f):
            if f + sz > size:
                self.mem_ub(c, "out-of-bounds load of %s" % name)
                return self.havoc(t)
            return self.load_at(o, f, sz, t)
        f = simp(f)
        if isc(f): return self.load_obj(o, f, sz, t, c)
        inb = simp(z3.ULE(f, z3.BitVecVal(size - sz, 64)))
        if inb is not True:
            self.mem_ub(n_and(c, n_not(inb)) if not isinstance(c, bool) else n_not(inb), "out-of-bounds load of %s (size %d)" % (name, size))
        stride, base = self.stride(f, size, sz)
        cand = list(range(base, size - sz + 1, stride))
        if len(cand) > 5000: raise Unsupported("huge symbolic object")
        return self.lookup(o, f, cand, sz, t)
    def stride(self, f, size, sz):
        """largest power-of-two-ish stride known to divide the offset (syntactic)"""
        s, b = self._stride(f)
        if s == 0: s = 1
        return max(1, s), (b % s if s else b)
    def _stride(self, e):
        if z3.is_bv_value(e): return (0, e.as_long())
        k = e.decl().kind()
        import math
        if k == z3.Z3_OP_BADD:
            s, b = 0, 0
            for ch in e.children():
                s1, b1 = self._stride(ch)
                if s1 == 1: return (1, 0)
                s = math.gcd(s, s1); b += b1
            return (s, b)
        if k == z3.Z3_OP_BMUL:
            cs = [ch.as_long() for ch in e.children() if z3.is_bv_value(ch)]
            if cs:
                c = cs[0]
                # multiplication may wrap: only the power-of-two part survives modulo 2^64
                return (c & -c, 0) if c & (c - 1) else (c, 0)
        if k == z3.Z3_OP_CONCAT:
            last = e.children()[-1]
            if z3.is_bv_value(last):
                return (1 << last.size(), last.as_long())
            s1, b1 = self._stride(last)
            if s1: return (s1 & -s1, b1 % (s1 & -s1)) 
        if k == z3.Z3_OP_ITE:
            s1, b1 = self._stride(e.arg(1)); s2, b2 = self._stride(e.arg(2))
            s = math.gcd(math.gcd(s1, s2), abs(b1 - b2))
            if s == 0: return (0, b1)
            return (s, b1 % s)
        return (1, 0)
    def lookup(self, o, f, cand, sz, t):
        vals = [self.load_at(o, x, sz, t) for x in cand]
        # binary decision on the index bits keeps lookups logarithmic in depth
        def rec(lo, hi):
            if hi - lo == 1: return vals[lo]
            mid = (lo + hi) // 2
            a, b = rec(lo, mid), rec(mid, hi)
            return self.mite(z3.ULT(f, z3.BitVecVal(cand[mid], 64)), a, b, t)
        return rec(0, len(cand))
    def load_at(self, o, f, sz, t):
        cells = self.cells(o)
        c = cells.get(f)
        if c is not None and (c[0] == sz or (t == ('f', 80) and isinstance(c[1], FV) and c[1].w == 80)):
            v = c[1]
            if t[0] == 'f':
                if isinstance(v, FV):
                    if v.w == t[1]: return v
                elif not isinstance(v, PV): 
                    if t[1] == sz * 8: return self.Fb(t[1], v)
            elif t[0] == 'i':
                if isinstance(v, FV): v = v.bv()
                if not isinstance(v, PV):
                    if t[1] == 1: 
                        return bool(v & 1) if isc(v) else simp(z3.Extract(0, 0, v) == 1)
                    if t[1] == sz * 8 and (isc(v) or z3.is_bv(v) and v.size() == t[1]): return v
            elif t[0] == 'p':
                if isinstance(v, (PV, FnPtr)): return v
                return PV([(True, None, v)])
        if t[0] == 'p':
            raise Unsupported("pointer load from bytes")
        # byte assembly
        bs = []
        nb = {}
        for oo, (s, v) in cells.items():
            if oo < f + sz and f < oo + s:
                b = self.val_bv(v, s)
                for i in range(s):
                    if f <= oo + i < f + sz:
                        nb[oo + i] = ((b >> (8 * i)) & 255) if isc(b) else (z3.Extract(8 * i + 7, 8 * i, b) if s > 1 else b)
        if len(nb) < sz:
            c2 = dict(cells)
            ch = False
            for i in range(sz):
                if f + i not in nb:
                    nb[f + i] = self.fresh(8, "uninit")
                    c2[f + i] = (1, nb[f + i]); ch = True
            if ch and self.objs[o][2] is False and not any(isinstance(v[1], PV) for v in cells.values()):
                self.memory = dict(self.memory); self.memory[o] = c2
        xs = [nb[f + i] for i in range(sz)]
        if all(isc(x) for x in xs):
            r = 0
            for i, x in enumerate(xs): r |= x << (8 * i)
        else:
            r = xs[0] if sz == 1 else fold(z3.simplify(z3.Concat(*[BV(x, 8) for x in reversed(xs)])))
        w = t[1]
        if w < sz * 8: r = r & mask(w) if isc(r) else fold(z3.simplify(z3.Extract(w - 1, 0, r)))
        if t[0] == 'f': return self.Fb(w, r)
        if w == 1: return bool(r) if isc(r) else simp(r == 1)
        return r
    def i_store(self, I):
        v, p = self.ev(I.ops[0]), self.ev(I.ops[1])
        self.store(p, v, I.opty[0])
    def store(self, p, v, t):
        if t[0] in ('v', 'a'):
            es = self.mod.size(t[2])
            if t[0] == 'v' and t[2] == ('i', 1): raise Unsupported("store <n x i1>")
            for i in range(t[1]): self.store(self.padd(p, i * es), v[i], t[2])
            return
        if t[0] == 's':
            for tt, o, x in zip(t[1], t[2], v): self.store(self.padd(p, o), x, tt)
            return
        sz = self.mod.size(t) if t[0] != 'i' else (t[1] + 7) // 8
        if t == ('f', 80): sz = 10
        if t == ('i', 1): v = ite(v, 1, 0, 8)
        elif t[0] == 'i' and t[1] < sz * 8: v = v if isc(v) else z3.ZeroExt(sz * 8 - t[1], v)
        for c, o, f in p.alts:
            if o is None:
                self.mem_ub(c, "store through null/invalid pointer"); continue
            name, size, const = self.objs[o]
            if const: self.mem_ub(c, "store to constant " + name); continue
            if not isc(f): f = simp(f)
            if isc(f):
                if f + sz > size:
                    self.mem_ub(c, "out-of-bounds store to %s" % name); continue
                self.store_at(o, f, sz, v, t, c)
            else:
                inb = simp(z3.ULE(f, z3.BitVecVal(size - sz, 64)))
                if inb is not True:
                    self.mem_ub(n_and(c, n_not(inb)), "out-of-bounds store to %s (size %d)" % (name, size))
                s, b = self.stride(f, size, sz)
                for x in range(b, size - sz + 1, s):
                    cc = n_and(c, simp(f == z3.BitVecVal(x, 64)))
                    if cc is False: continue
                    self.store_at(o, x, sz, v, t, cc)
    def store_at(self, o, f, sz, v, t, c):
        cells = dict(self.cells(o))
        if c is not True:
            old = self.load_at(o, f, sz, t if t[0] != 'i' else ('i', sz * 8))
            cells = dict(self.cells(o))
            v = self.mite(c, v, old, t if t[0] != 'i' else ('i', sz * 8))
        for oo in [k for k, (s, _) in cells.items() if k < f + sz and f < k + s and (k != f or s != sz)]:
            s, ov = cells.pop(oo)
            if f <= oo and oo + s <= f + sz: continue
            b = self.val_bv(ov, s)
            for i in range(s):
                if not (f <= oo + i < f + sz):
                    cells[oo + i] = (1, ((b >> (8 * i)) & 255) if isc(b) else (z3.Extract(8 * i + 7, 8 * i, b) if s > 1 else b))
        cells[f] = (sz, v)
        self.memory = dict(self.memory); self.memory[o] = cells

    # -- calls
    def callee_requires(self, c, text):
        """precondition of a callee used through its contract: an obligation of the caller"""
        if c is True: return
        g = self.guard.add(n_not(c)) if not isinstance(c, bool) else self.guard
        if g is not None: self.obls.append((g.expr(), 'ub', "precondition: " + text))
    def i_call(self, I):
        name = I.x['callee']
        if I.x.get('asm') is not None:
            if '""' in I.x['asm']: return None if I.ty == ('void',) else self.havoc(I.ty)
            raise Unsupported("inline asm")
        if name is None:
            raise Unsupported("indirect call")
        args = lambda: [self.ev(o) for o in I.ops]
        if name and name.startswith(('llvm.experimental.noalias', 'llvm.dbg', 'llvm.lifetime')): return None
        if name in self.contracts:
            return self.contracts[name](self, I, args())
        for k, f in self.opaque.items():
            if re.search(k, name):
                self.called.add("contract of " + name); return f(self, I, args())
        import lib
        h = lib.find(name)
        if h is not None:
            return h(self, I, args(), name)
        F = self.mod.func(name)
        if F is None or F.decl:
            raise Unsupported("call to external " + name)
        r = self.call_body(F, args())
        if self.guard is None and False: pass
        return r
    i_invoke = i_call

DBL2 = {32: 0x40000000, 64: 0x4000000000000000, 80: (0x4000 << 64) | (1 << 63)}
BINOPS = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'}

def fix80(b79):
    s = b79 >> 78; e = (b79 >> 63) & 0x7fff; f = b79 & mask(63)
    return (s << 79) | (e << 64) | ((1 if e else 0) << 63) | f
def mk80(b):
    """79-bit IEEE-style -> valid x87 80-bit encoding"""
    ex = z3.If(z3.Extract(77, 63, b) != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return z3.Concat(z3.Extract(78, 63, b), ex, z3.Extract(62, 0, b))

_LI = {}
class Scope:
    def __init__(self, blocks, pend, loop):
        self.blocks = blocks; self.pend = pend; self.loop = loop; self.back = []
class Frame:
    def __init__(self, F, li):
        self.F = F; self.order = li.order; self.returns = []
class Loop:
    def __init__(self, h): self.header = h; self.blocks = set(); self.parent = None

class LoopInfo:
    def __init__(self, F):
        succ = {b: list(dict.fromkeys(B.succs)) if B.term.op in ('br', 'switch', 'invoke') else [] for b, B in F.blocks.items()}
        for b, B in F.blocks.items():
            if B.term.op == 'invoke': succ[b] = succ[b][:1]
        # reverse post order
        seen = set(); po = []
        st = [(F.entry, iter(succ[F.entry]))]; seen.add(F.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                po.append(b); st.pop()
        rpo = po[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]: preds[s].append(b)
        # dominators
        idom = {F.entry: F.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while idx[a] > idx[c]: a = idom[a]
                        while idx[c] > idx[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == F.entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b): raise Unsupported("irreducible loop")
                    L = loops.setdefault(s, Loop(s))
                    L.blocks.add(s)
                    wk = [b]
                    while wk:
                        x = wk.pop()
                        if x in L.blocks: continue
                        L.blocks.add(x); wk += preds[x]
        ls = sorted(loops.values(), key=lambda l: len(l.blocks))
        inner = {}
        for b in rpo:
            for L in ls:
                if b in L.blocks: inner[b] = L; break
        for i, L in enumerate(ls):
            for M in ls[i + 1:]:
                if L.header in M.blocks: L.parent = M; break
        self.order = {}
        for sc in [None] + ls:
            items = []
            blocks = rpo if sc is None else [b for b in rpo if b in sc.blocks]
            emitted = set()
            node_of = {}
            for b in blocks:
                L = inner.get(b)
                # climb to child of sc
                n = b
                while L is not sc and L is not None:
                    n = L; L = L.parent
                node_of[b] = n
            # topological order of collapsed DAG
            nodes = list(dict.fromkeys(node_of[b] for b in blocks))
            ns = {n: set() for n in nodes}
            for b in blocks:
                for s in succ[b]:
                    if s in node_of and node_of[s] is not node_of[b] and node_of[s] != node_of[b]:
                        if sc is not None and s == sc.header: continue
                        ns[node_of[b]].add(node_of[s])
            indeg = {n: 0 for n in nodes}
            for n in nodes:
                for m in ns[n]: indeg[m] += 1
            wl = [n for n in nodes if indeg[n] == 0]
            order = []
            while wl:
                n = wl.pop(0); order.append(n)
                for m in ns[n]:
                    indeg[m] -= 1
                    if indeg[m] == 0: wl.append(m)
            if len(order) != len(nodes): raise Unsupported("cyclic collapsed graph")
            self.order[sc] = order
