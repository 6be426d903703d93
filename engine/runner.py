"""Runs one property: build, generate obligations, discharge, replay, evidence."""
import os, sys, json, time, subprocess, ctypes, random, traceback, shutil, signal, importlib, tempfile, re
import z3
from sym import *
import core, lib
from core import *

NCPU = int(os.environ.get("VERIF_JOBS", "8"))
PYV = sys.executable

def now(): return time.monotonic()

# ---------------------------------------------------------------- job pool
class Job:
    def __init__(self, fn, timeout, tag=None, prio=0):
        self.fn = fn; self.timeout = timeout; self.tag = tag; self.pid = None; self.t0 = None; self.status = None; self.prio = prio; self.group = None

def run_jobs(jobs, on_done, ncpu=NCPU, deadline=None, wanted=lambda j: True):
    """jobs: list of Job (fn runs in a forked child).  on_done(job) is called in the
    parent with job.status = exit code, or None on time-out / cancellation."""
    queue = list(jobs); running = []
    def kill(j):
        try: os.killpg(j.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        try: os.waitpid(j.pid, 0)
        except ChildProcessError: pass
    while queue or running:
        while queue and len(running) < ncpu:
            j = queue.pop(0)
            if not wanted(j): j.status = 'skipped'; on_done(j); continue
            if deadline and now() > deadline: j.status = None; on_done(j); continue
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
                    sys.setrecursionlimit(100000)
                    j.fn()
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                    os._exit(3)
            try: os.setpgid(pid, pid)
            except OSError: pass
            j.pid = pid; j.t0 = now(); running.append(j)
        progressed = False
        for j in list(running):
            p, st = os.waitpid(j.pid, os.WNOHANG)
            if p:
                running.remove(j); j.status = os.waitstatus_to_exitcode(st); j.dur = now() - j.t0
                try: os.killpg(j.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError): pass
                on_done(j); progressed = True
            elif now() - j.t0 > j.timeout or (deadline and now() > deadline) or not wanted(j):
                kill(j); running.remove(j); j.status = None; j.dur = now() - j.t0; on_done(j); progressed = True
        if not progressed: time.sleep(0.01)

# ---------------------------------------------------------------- native side
class Native:
    def __init__(self, so):
        self.so = ctypes.CDLL(so)
    def call(self, t, ins, rm, err=0):
        """ins: list of ints (raw bits per argument). -> (outs ints, errno, exc)"""
        buf = bytearray()
        for (n, ty), v in zip(t.args, ins):
            buf += int(v).to_bytes(16, 'little')
        bi = (ctypes.c_ubyte * max(16, len(buf)))(*buf) if buf else (ctypes.c_ubyte * 16)()
        bo = (ctypes.c_ubyte * (16 * len(t.outs) + 16))()
        for k in range(len(bo)): bo[k] = 0xA5 if k < 16 * len(t.outs) and t.outs[k // 16][1] != 'bool' else 0
        e = ctypes.c_int(err); x = ctypes.c_int(0)
        f = getattr(self.so, t.name + "__shim")
        f.restype = None
        f(bi, bo, ctypes.c_int(rm), ctypes.byref(e), ctypes.byref(x))
        outs = []
        for k, (n, ty) in enumerate(t.outs):
            outs.append(int.from_bytes(bytes(bo[16 * k:16 * k + WIDTH[ty] // 8]), 'little'))
        return outs, e.value & 0xffffffff, x.value & 0xffffffff
OLDPAT = {8: 0xA5, 16: 0xA5A5, 32: 0xA5A5A5A5, 64: 0xA5A5A5A5A5A5A5A5, 80: 0xA5A5A5A5A5A5A5A5A5A5, 128: int('A5' * 16, 16)}

def in_bits(t, symvals):
    """symbol values (79-bit long double, 1-bit bool) -> raw argument bits"""
    r = []
    for n, ty in t.args:
        v = symvals.get("in_" + n, 0)
        r.append(fix80(v) if ty == 'long double' else v)
    return r
def sym_bits(t, raw):
    r = {}
    for (n, ty), v in zip(t.args, raw):
        if ty == 'long double': v = ((v >> 64) << 63) | (v & mask(63))
        elif ty == 'bool': v &= 1
        r["in_" + n] = v
    return r

class Spec:
    """the contract of a target for one rounding mode, over symbols (no code involved)"""
    def __init__(self, t, rm):
        ins, syms = mk_inputs(t); ins.rm = rm; ins.rmz = RMS[rm][0]
        self.req = list(t.requires(ins)) if t.requires else []
        self.cases = t.cases(ins) if t.cases else []
        self.known = [(k, k['pred'](ins)) for k in t.known]
        ins.old = NS(); outs = NS(); self.outsyms = []; self.syms = [(v, ty) for _, ty, v in syms]
        self.oldsyms = []
        for n, ty in t.outs:
            o = z3.BitVec("old_" + n, WIDTH[ty]); setattr(ins.old, n, Val(ty, o)); self.oldsyms.append((o, ty))
            y = z3.BitVec("out_" + n, WIDTH[ty]); setattr(outs, n, Val(ty, y)); self.outsyms.append((y, ty))
        outs.final = NS()
        gh = NS(); gh.errno_in = z3.BitVec("errno_in", 32); gh.errno = z3.BitVec("out_errno", 32); gh.raised = z3.BitVec("out_raised", 32); gh.native = True; gh.cut = {}
        self.gh = gh; self.t = t
        self.posts = t.ensures(ins, outs, gh)
    def subst_in(self, raw):
        sb = sym_bits(self.t, raw)
        return [(v, z3.BitVecVal(sb[v.decl().name()], v.size())) for v, ty in self.syms]
    def holds(self, f, sub):
        f = z3.simplify(z3.substitute(f, *sub)) if sub else z3.simplify(f)
        return True if z3.is_true(f) else (False if z3.is_false(f) else None)
    def admissible(self, raw):
        sub = self.subst_in(raw)
        return all(self.holds(r, sub) is True for r in self.req)
    def known_hit(self, raw):
        sub = self.subst_in(raw)
        return [k for k, p in self.known if self.holds(p, sub) is True]
    def check(self, raw, outs, err_in, err, exc):
        sub = self.subst_in(raw)
        sub += [(y, z3.BitVecVal(v, y.size())) for (y, ty), v in zip(self.outsyms, outs)]
        sub += [(y, z3.BitVecVal(OLDPAT[y.size()] if ty != 'bool' else 0, y.size())) for y, ty in self.oldsyms]
        sub += [(self.gh.errno_in, z3.BitVecVal(err_in, 32)), (self.gh.errno, z3.BitVecVal(err, 32)), (self.gh.raised, z3.BitVecVal(exc, 32))]
        bad = []
        for n, f in self.posts:
            if n.startswith('~'): continue      # ghost-only clause, not observable natively
            if self.holds(f, sub) is False: bad.append(n)
        return bad

# interesting values ------------------------------------------------
def interesting(ty, rng):
    w = WIDTH[ty]
    if ty == 'bool': return rng.getrandbits(1)
    if ty in FLT:
        eb, fb = {32: (8, 23), 64: (11, 52), 80: (15, 63)}[w]
        bias = (1 << (eb - 1)) - 1
        k = rng.randrange(10)
        s = rng.getrandbits(1)
        if k == 0: e, f = rng.choice([(0, 0), ((1 << eb) - 1, 0), ((1 << eb) - 1, 1 << (fb - 1)), (0, 1), (0, mask(fb)), (1, 0), ((1 << eb) - 2, mask(fb)), (bias, 0), (bias, 1), (bias - 1, mask(fb)), (bias + 1, 0)])
        elif k == 1: e, f = 0, rng.getrandbits(rng.randrange(1, fb + 1))
        elif k in (2, 3): e, f = rng.randrange(0, (1 << eb) - 1), rng.getrandbits(fb)
        elif k in (4, 5): e, f = bias + rng.randrange(-4, fb + 4), rng.getrandbits(fb)
        elif k in (6, 7):  # halves & integers, near the binary point
            e = bias + rng.randrange(-2, fb + 2)
            n = max(0, min(fb, fb - (e - bias) - rng.randrange(-1, 3)))
            f = (rng.getrandbits(fb) >> n) << n
            if rng.random() < .3: f = (f + rng.choice([-1, 1])) & mask(fb)
        else: e, f = bias + rng.randrange(-3, 12), (rng.getrandbits(6) << (fb - 6))
        v = (s << (w - 1 if w != 80 else 79 - 0)) if False else 0
        b79 = (s << (eb + fb)) | (e << fb) | f
        return fix80(b79) if w == 80 else b79
    k = rng.randrange(6)
    if k == 0: return rng.choice([0, 1, 2, 3, mask(w), mask(w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1])
    if k == 1: return rng.getrandbits(rng.randrange(1, w + 1))
    if k == 2: return (-rng.getrandbits(rng.randrange(1, w))) & mask(w)
    if k == 3: return (rng.randrange(-80, 80)) & mask(w)
    if k == 4: return ((1 << rng.randrange(w)) + rng.randrange(-1, 2)) & mask(w)
    return rng.getrandbits(w)

# ---------------------------------------------------------------- property run
class Run:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.mod = importlib.import_module("props." + pid)
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.t0 = now()
        self.results = []     # obligations: dict(name, kind, verdict, backend, secs)
        self.viol = []        # dict(target, rm, what, input..., replay)
        self.notes = []
        self.native_samples = 0
        self.known_lines = []
        self.trusted = set()
        self.inlined = set()
        self.unext = []

    def log(self, s):
        if os.environ.get("VERIF_VERBOSE"): print("[%6.1f] %s" % (now() - self.t0, s)); sys.stdout.flush()

    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def load_known(self):
        p = os.path.join(VERIF, "known-findings.json")
        self.kf = {}
        if os.path.exists(p):
            for e in json.load(open(p))["findings"]:
                if e["property"] == self.pid and e.get("status") == "known": self.kf[e["id"]] = e

    def _run(self):
        quick = self.tier == 'quick'
        targets = self.mod.targets(self.tier)
        only = os.environ.get("VERIF_ONLY")
        if only: targets = [t for t in targets if re.search(only, t.name)]
        self.load_known()
        for t in targets:
            t.known = [k for k in t.known if k['id'] in self.kf]
        names = [t.name for t in targets]
        assert len(set(names)) == len(names), "duplicate target names"
        self.targets = targets
        self.budget = getattr(self.mod, 'BUDGET', {}).get(self.tier, 600 if quick else 3600)
        if os.environ.get("VERIF_BUDGET"): self.budget = float(os.environ["VERIF_BUDGET"])
        deadline = self.t0 + self.budget
        # 1. build
        groups = {}
        for t in targets: groups.setdefault((t.cfg, t.std, tuple(t.headers)), []).append(t)
        self.ir = {}; self.nat = {}; self.raw = {}
        ck = getattr(self.mod, 'CHUNK', 10**6)          # at most CHUNK wrappers per translation unit
        glist = [(key, ts[k:k + ck]) for key, ts in groups.items() for k in range(0, len(ts), ck)]
        jobs = []
        def mk_build(i, key, ts, native):
            def f():
                c = CFGS[key[0]]
                if native:
                    so, o = build_native(self.work, "g%d" % i, c, ts, std=key[1])
                    open(os.path.join(self.work, "g%d.nat.log" % i), "w").write(o or "")
                    if so is None: os._exit(2)
                else:
                    ll, o = build_ir(self.work, "g%d" % i, c, ts, extra=UBSAN, std=key[1])
                    open(os.path.join(self.work, "g%d.ir.log" % i), "w").write(o or "")
                    if ll is None: os._exit(2)
            return f
        for i, (key, ts) in enumerate(glist):
            jobs.append(Job(mk_build(i, key, ts, False), 300, tag=(i, False)))
            jobs.append(Job(mk_build(i, key, ts, True), 300, tag=(i, True)))
        bad = []
        def built(j):
            i, native = j.tag
            key, ts = glist[i]
            if j.status != 0: bad.append((i, native)); return
            for t in ts:
                if native: self.nat[t.name] = os.path.join(self.work, "g%d.so" % i)
                else: self.ir[t.name] = os.path.join(self.work, "g%d.ll" % i)
        run_jobs(jobs, built)
        # isolate targets whose group does not build
        if bad:
            jobs = []
            k = 1000; lst = []
            # first the wrappers that the compiler's messages name are put aside and the rest of the group is built again
            again = {}
            for i, native in bad:
                key, ts = glist[i]
                src = open(os.path.join(self.work, "g%d.%scpp" % (i, "nat." if native else ""))).read().split("\n")
                msg = open(os.path.join(self.work, "g%d.%s.log" % (i, "nat" if native else "ir")), errors='replace').read()
                named = {int(n) for n in re.findall(r"g%d\.(?:nat\.)?cpp:(\d+):" % i, msg)}
                out = [t for t in ts if any(" void %s(" % t.name in src[n - 1] or " void %s__shim(" % t.name in src[n - 1] for n in named if n <= len(src))]
                rest = [t for t in ts if t not in out]
                if out and rest and len(ts) > 2: again[(k, native)] = (key, rest); lst += [(k + 1 + x, key, [t], native, t) for x, t in enumerate(out)]; k += 1 + len(out)
                else: lst += [(k + x, key, [t], native, t) for x, t in enumerate(ts)]; k += len(ts)
            def built3(j):
                kk, native = j.tag; key, rest = again[j.tag]
                if j.status == 0:
                    for t in rest: (self.nat if native else self.ir)[t.name] = os.path.join(self.work, "g%d.%s" % (kk, "so" if native else "ll"))
                else:
                    for x, t in enumerate(rest): lst.append((100000 + kk * 1000 + x, key, [t], native, t))
            run_jobs([Job(mk_build(kk, key, rest, native), 300, tag=(kk, native)) for (kk, native), (key, rest) in again.items()], built3)
            for (kk, key, ts, native, t) in lst: jobs.append(Job(mk_build(kk, key, ts, native), 300, tag=(kk, native, t)))
            def built2(j):
                kk, native, t = j.tag
                if j.status == 0:
                    if native: self.nat[t.name] = os.path.join(self.work, "g%d.so" % kk)
                    else: self.ir[t.name] = os.path.join(self.work, "g%d.ll" % kk)
                else:
                    lp = os.path.join(self.work, "g%d.%s.log" % (kk, "nat" if native else "ir"))
                    msg = open(lp).read() if os.path.exists(lp) else ''
                    errs = [l for l in msg.split("\n") if 'error' in l][:2]
                    self.unext.append((t.name, "native" if native else "ir", "; ".join(errs)[:400]))
            run_jobs(jobs, built2)
        self.log("built: %d ir, %d native; failed %s" % (len(self.ir), len(self.nat), self.unext))
        # 2. generate + quick solve, native samples alongside
        t1 = {'quick': 12000, 'thorough': 60000}[self.tier]
        jobs = []; njobs = []
        self.pending = []
        for t in targets:
            if t.name in self.ir:
                for rm in t.rms:
                    jobs.append(Job(self.mk_gen(t, rm, t1), min(self.budget, 200 if quick else 1500), tag=('gen', t, rm)))
            else:
                self.results.append(dict(name=t.name, kind='extract', verdict='unextractable', backend='clang', secs=0, target=t.name))
        ns = getattr(self.mod, 'SAMPLES', {}).get(self.tier, 150 if quick else 1500)
        for t in targets:
            if t.name in self.nat and t.native:
                njobs.append(Job(self.mk_nat(t, ns if t.samples is None else t.samples), 120 if quick else 600, tag=('nat', t, None)))
        run_jobs(njobs + jobs, self.gen_done, deadline=deadline - (60 if quick else 120), wanted=lambda j: not (hasattr(self, 'first_viol') and now() - self.first_viol > 20))
        self.log("stage 1: %d obligations, %d pending, %d violations" % (len(self.results), len(self.pending), len(self.viol)))
        # 3. portfolio on the rest
        if self.pending and not (self.viol and quick):
            self.portfolio(deadline)
        else:
            for o in self.pending: o['verdict'] = 'unknown'; self.results.append(o)
        # 4. deeper native search on undecided targets
        und = {o['target'] for o in self.results if o['verdict'] in ('unknown', 'timeout', 'unextractable')} | {n for n, w, _ in self.unext if w == 'ir'}
        jobs = [Job(self.mk_nat(t, 1500 if quick else 20000, seed_off=7777), 60 if quick else 900, tag=('nat', t, None)) for t in targets if t.name in und and t.name in self.nat and t.native]
        if jobs and not self.viol:
            run_jobs(jobs, self.gen_done, deadline=max(deadline, now() + 60))
        return self.finish()

    # -- stage 1 job
    def mk_gen(self, t, rm, t1):
        path = os.path.join(self.work, "%s.%s.jsonl" % (t.name, rm))
        def f():
            out = open(path, "w")
            def emit(d): out.write(json.dumps(d) + "\n"); out.flush()
            try:
                mod = Module(self.ir[t.name])
                tg = now()
                X = exec_target(mod, t, rm)
                ex = X[0]
                obs = obligations(t, rm, X)
                emit(dict(meta=True, called=sorted(ex.called), externs=sorted(ex.externs), n=len(obs), gen=round(now() - tg, 2), loops=sorted({"%s x%d" % (n, i) for n, i in ex.loop_notes})))
            except Unsupported as e:
                emit(dict(name="%s/%s" % (t.name, rm), kind='extract', verdict='unextractable', backend='vcgen', secs=0, text=str(e))); return
            side_ids = {s.get_id() for s in ex.side}
            # vacuity: the precondition (plus definitional constraints) is satisfiable
            for i, o in enumerate(obs):
                t0 = now(); n1 = 0
                fs = prune_side(obl_formula(o, X), side_ids)
                lim = t.solver.get('ms', t1) if t.solver else t1
                v, m = 'unknown', None; backend = 'z3'
                if o['kind'] in ('invariant', 'post') and has_int(o['goal']):
                    v = solve_int(o['goal'], lim)
                    if v == 'sat': v = 'unknown'
                    emit(dict(name=o['name'], kind='lemma', backend='z3 (integer arithmetic)', secs=round(now() - t0, 3), text=o['text'], target=t.name, rm=rm, verdict='proved' if v == 'unsat' else 'unknown'))
                    continue
                best = None
                for lv in (1, 2):
                    afs, na = abstract_heavy(fs, lv, t.shifts)
                    if not na or (lv == 2 and na == n1): continue
                    n1 = na; best = best or afs
                    va, _ = solve_z3(afs, lim // 3)
                    if va == 'unsat': v = 'unsat'; backend = 'z3 (arithmetic abstracted, level %d)' % lv; break
                if v == 'unknown': v, m = solve_z3(fs, lim)
                d = dict(name=o['name'], kind=o['kind'], backend=backend, secs=round(now() - t0, 3), text=o['text'], target=t.name, rm=rm)
                if v == 'unknown':
                    base = os.path.join(self.work, "%s.%s.%d" % (t.name, rm, i))
                    d['verdict'] = 'pending'; d['base'] = base
                    dump_smt2(fs, base + ".smt2")
                    try:
                        emit_p = to_cnf(fs, base + ".cnf")
                        d['cnf'] = bool(emit_p)
                        if best: d['acnf'] = bool(to_cnf(best, base + ".abs.cnf"))
                    except Exception as e:
                        d['cnf'] = False
                else:
                    d['verdict'] = 'proved' if v == 'unsat' else 'refuted'
                    if m is not None: d['model'] = m
                emit(d)
            # cover
            t0 = now()
            fs = prune_side(list(X[7]) + ex.side, side_ids)
            v, m = ('sat', None) if not fs else solve_z3(fs, 3000)
            emit(dict(cover=True, target=t.name, rm=rm, verdict=v))
            emit(dict(done=True))
        return f

    def gen_done(self, j):
        kind, t, rm = j.tag
        if j.status in (None, 'skipped') and hasattr(self, 'first_viol'): return    # cut short: a violation is already in hand
        if kind == 'nat':
            p = os.path.join(self.work, "%s.nat.jsonl" % t.name)
            self.nat_done(j, t, p); return
        p = os.path.join(self.work, "%s.%s.jsonl" % (t.name, rm))
        recs = [json.loads(l) for l in open(p)] if os.path.exists(p) else []
        done = False; n = None; seen = 0
        for r in recs:
            if r.get('meta'):
                self.inlined.update(r['called']); self.trusted.update(r['externs']); n = r['n']
                self.gen_notes = getattr(self, 'gen_notes', {}); self.gen_notes[t.name + "/" + rm] = r
                continue
            if r.get('cover'):
                self.covers = getattr(self, 'covers', []); self.covers.append(r)
                if r['verdict'] == 'unsat': self.notes.append("VACUOUS contract for %s/%s" % (r['target'], r['rm']))
                continue
            if r.get('done'): done = True; continue
            seen += 1
            r.setdefault('target', t.name); r.setdefault('rm', rm)
            if r['verdict'] == 'pending': self.pending.append(r)
            else:
                self.results.append(r)
                if r['verdict'] == 'refuted': self.refuted(t, rm, r)
        if not done and not any(r.get('kind') == 'extract' for r in recs):
            miss = (n - seen) if n is not None else 1
            for k in range(max(1, miss)):
                self.results.append(dict(name="%s/%s/#%d" % (t.name, rm, seen + k), kind='post', verdict='timeout' if j.status is None else 'error', backend='vcgen', secs=0, target=t.name, rm=rm, text='generation/solving did not finish (status %r)' % (j.status,)))
            self.log("gen of %s/%s did not finish: %r" % (t.name, rm, j.status))
        self.log("gen %s/%s %s" % (t.name, rm, {k: sum(1 for r in recs if r.get('verdict') == k and not r.get('cover')) for k in ('proved', 'refuted', 'pending', 'unextractable')}))

    # -- refuted obligation: replay on the native code
    def refuted(self, t, rm, r):
        m = r.get('model') or {}
        raw = in_bits(t, m)
        rec = dict(property=self.pid, target=t.name, rounding=rm, obligation=r['name'], kind=r['kind'], text=r.get('text'), config=t.cfg + ": " + CFGS[t.cfg].desc, wrapper=t.body, inputs={n: hex(v) for (n, ty), v in zip(t.args, raw)}, types={n: ty for n, ty in t.args}, solver='sat (counterexample)', model={k: hex(v) for k, v in m.items()})
        rep = None
        if t.native and t.name in self.nat:
            rep = self.native_once(t, raw, rm, m.get('errno_in', 0))
            rec['native'] = rep
        repro = bool(rep and (rep.get('bad') or rep.get('crash')))
        if not repro and r['kind'] != 'post' and t.native:
            s = self.san_once(t, raw, rm)
            rec['sanitizer'] = s
            repro = bool(s and s.get('fail'))
        rec['reproduced'] = repro
        self.add_viol(rec, repro)

    def add_viol(self, rec, repro):
        if repro and self.tier == "quick" and not hasattr(self, "first_viol"): self.first_viol = now()
        rec['reproduced'] = repro
        self.viol.append(rec)

    def native_once(self, t, raw, rm, err=0):
        p = os.path.join(self.work, "once.json")
        def f():
            N = Native(self.nat[t.name]); S = Spec(t, rm)
            json.dump(dict(start=True), open(p, "w"))
            outs, e, x = N.call(t, raw, RMS[rm][1], err)
            bad = S.check(raw, outs, err, e, x) if S.admissible(raw) else []
            json.dump(dict(outs={n: hex(v) for (n, ty), v in zip(t.outs, outs)}, errno=e, exc=x, bad=bad), open(p, "w"))
        j = Job(f, 20)
        run_jobs([j], lambda j: None)
        d = json.load(open(p)) if os.path.exists(p) else {}
        if d.get('start'): d = dict(crash="native call did not return (exit %r)" % (j.status,))
        return d
    def san_once(self, t, raw, rm):
        key = "san_" + t.name
        so, o = build_native(self.work, key, CFGS[t.cfg], [t], std=t.std, san=True)
        if not so: return dict(fail=False, note="sanitizer build failed")
        def f():
            fd = os.open(os.path.join(self.work, key + ".log"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(fd, 2)
            Native(so).call(t, raw, RMS[rm][1])
        j = Job(f, 20); run_jobs([j], lambda j: None)
        log = open(os.path.join(self.work, key + ".log"), errors='replace').read()[-800:]
        return dict(fail=j.status != 0, status=j.status, log=log)

    # -- native sampling (cross-validation of the contract on the compiled code)
    def mk_nat(self, t, n, seed_off=0):
        p = os.path.join(self.work, "%s.nat.jsonl" % t.name)
        def f():
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            rng = random.Random("%s|%s|%d" % (t.name, self.pid, self.seed + seed_off))
            N = Native(self.nat[t.name])
            out = open(p, "w")
            specs = {rm: Spec(t, rm) for rm in t.rms}
            cnt = 0; tries = 0; t0 = now()
            ks = set()
            for rm in t.rms:
                for k in t.known:
                    raw = [k['witness'][nm] for nm, ty in t.args]
                    if k.get('rm', rm) != rm: continue
                    out.write(json.dumps(dict(at=raw, rm=rm)) + "\n"); out.flush()
                    outs, e, x = N.call(t, raw, RMS[rm][1], 0)
                    bad = specs[rm].check(raw, outs, 0, e, x)
                    if bad: out.write(json.dumps(dict(known=k['id'], bad=bad, raw=raw, rm=rm, outs=outs)) + "\n")
            lim = 20 if seed_off == 0 else 55
            if self.tier == 'thorough': lim = 300
            covered = set()
            while cnt < n and tries < 20 * n and now() - t0 < lim:
                tries += 1
                rm = rng.choice(t.rms); S = specs[rm]
                if t.inputs_hook: raw = t.inputs_hook(rng)
                else: raw = [interesting(ty, rng) for _, ty in t.args]
                if not S.admissible(raw): continue
                if S.known_hit(raw): continue
                ei = rng.choice([0, 0, 34, 33])
                out.write(json.dumps(dict(at=raw, rm=rm)) + "\n"); out.flush()
                signal.alarm(20)       # a call that does not return kills this job: reported as non-termination
                outs, e, x = N.call(t, raw, RMS[rm][1], ei)
                signal.alarm(0)
                cnt += 1
                bad = S.check(raw, outs, ei, e, x)
                if bad:
                    out.write(json.dumps(dict(bad=bad, raw=raw, rm=rm, outs=outs, errno=e, exc=x)) + "\n"); out.flush(); break
                if cnt <= 40:
                    sub = S.subst_in(raw)
                    for cn, cc in S.cases:
                        if cn not in covered and S.holds(cc, sub): covered.add(cn)
            out.write(json.dumps(dict(done=cnt, tries=tries, covered=len(covered))) + "\n"); out.flush()
        return f
    def nat_done(self, j, t, p):
        recs = [json.loads(l) for l in open(p)] if os.path.exists(p) else []
        done = False; last = None
        for r in recs:
            if 'at' in r: last = r
            if 'done' in r:
                done = True; self.native_samples += r['done']
                if r['done'] == 0: self.notes.append("no admissible native sample for " + t.name)
                if not getattr(self, 'natcount', None): self.natcount = {}
                self.natcount[t.name] = self.natcount.get(t.name, 0) + r['done']
            if 'known' in r:
                e = self.kf[r['known']]
                line = "KNOWN-FINDING: property=%s %s: %s" % (self.pid, r['known'], e['what'])
                if line not in self.known_lines: self.known_lines.append(line)
            elif 'bad' in r:
                raw = r['raw']
                self.add_viol(dict(property=self.pid, target=t.name, rounding=r['rm'], obligation=t.name + "/native", kind='native', text="; ".join(r['bad']), config=t.cfg, wrapper=t.body, inputs={n: hex(v) for (n, ty), v in zip(t.args, raw)}, types={n: ty for n, ty in t.args}, outs={n: hex(v) for (n, ty), v in zip(t.outs, r['outs'])}, errno=r.get('errno'), exc=r.get('exc')), True)
        if not done and last is not None and j.status != 3 and (j.status is not None and j.status != 0):
            self.add_viol(dict(property=self.pid, target=t.name, rounding=last['rm'], obligation=t.name + "/native-crash", kind='native', text=("native call does not return" if j.status == -14 else "native call crashed: status %r" % (j.status,)), config=t.cfg, wrapper=t.body, inputs={n: hex(v) for (n, ty), v in zip(t.args, last['at'])}, types={n: ty for n, ty in t.args}), True)
        elif not done and last is not None and j.status is None and not self.viol:
            # time-out: confirm that this very input hangs
            rep = self.native_once(t, last['at'], last['rm'])
            if rep.get('crash'):
                self.add_viol(dict(property=self.pid, target=t.name, rounding=last['rm'], obligation=t.name + "/termination", kind='native', text="native call does not return", config=t.cfg, wrapper=t.body, inputs={n: hex(v) for (n, ty), v in zip(t.args, last['at'])}, types={n: ty for n, ty in t.args}), True)
        elif not done: self.notes.append("native sampling of %s failed (status %r)" % (t.name, j.status))

    # -- portfolio
    def portfolio(self, deadline):
        jobs = []
        verd = {}; outs = {}
        tmap = {t.name: t for t in self.targets}
        quick = self.tier == 'quick'
        def ext(cmd, outp):
            def f():
                fd = os.open(outp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1); os.dup2(fd, 2)
                os.execv(cmd[0], cmd)
            return f
        def which(n): return shutil.which(n)
        CAD = "/app/lean4-dist/bin/cadical"
        kissat = which("kissat"); cvc5 = which("cvc5"); z3n = which("z3-new") or which("z3")
        order = []
        lim0 = 150 if quick else 900
        for o in self.pending:
            b = o['base']; t = tmap[o['target']]
            lim = t.timeout[self.tier] if isinstance(t.timeout, dict) else (t.timeout or lim0)
            alts = []
            if o.get('acnf') and kissat: alts.append(('kissat (arithmetic abstracted)', [kissat, "-q", "-n", b + ".abs.cnf"]))
            if o.get('cnf') and os.path.exists(b + ".cnf"):
                if kissat: alts.append(('kissat', [kissat, "-q", "-n", b + ".cnf"]))
                else:
                    cad = find_cadical()
                    if cad: alts.append(('cadical', [cad, "-q", "-n", b + ".cnf"]))
            if "_ to_fp 15 64" not in open(b + ".smt2").read(): alts.append(('cvc5', [cvc5, "--fp-exp", "--tlimit=%d" % (lim * 1000), b + ".smt2"]))
            if t.solver and 'order' in t.solver:
                alts = [a for n in t.solver['order'] for a in alts if a[0] == n]
            order.append((o, lim, alts))
        for k in range(4):
            for o, lim, alts in order:
                if k < len(alts):
                    bn, cmd = alts[k]
                    outp = o['base'] + "." + bn.replace(" ", "_") + ".out"
                    j = Job(ext(cmd, outp), lim, tag=(o, bn, outp)); jobs.append(j)
        def done(j):
            o, bn, outp = j.tag
            if j.status == 'skipped' or o['name'] in verd: return
            v = None
            if j.status is not None and os.path.exists(outp):
                txt = open(outp, errors='replace').read()
                if bn.startswith(('kissat', 'cadical')):
                    v = {10: 'sat', 20: 'unsat'}.get(j.status)
                    if v == 'sat' and 'abstracted' in bn: v = None          # the abstraction over-approximates: only unsat counts
                else:
                    ls = [l for l in txt.split("\n") if l in ('sat', 'unsat')]
                    v = ls[0] if len(ls) == 1 else None
            self.log("portfolio %s %s -> %s (%.1fs) %r %s" % (o['name'], bn, v, getattr(j, 'dur', 0), j.status, '' if v else open(outp, errors='replace').read()[:150] if os.path.exists(outp) else ''))
            if v: verd[o['name']] = (v, bn, getattr(j, 'dur', 0))
            else: outs.setdefault(o['name'], []).append('%s: %s' % (bn, 'time-out after %ds' % int(getattr(j, 'dur', 0)) if j.status is None else open(outp, errors='replace').read()[:300]))
        run_jobs(jobs, done, deadline=deadline, wanted=lambda j: j.tag[0]['name'] not in verd)
        for o in self.pending:
            v = verd.get(o['name'])
            if v is None: o['verdict'] = 'unknown'; o['out'] = outs.get(o['name'])
            else:
                o['verdict'] = 'proved' if v[0] == 'unsat' else 'refuted'; o['backend'] = v[1]; o['secs'] = round(o['secs'] + v[2], 2)
            self.results.append(o)
            if o['verdict'] == 'refuted':
                t = tmap[o['target']]
                # recover a model
                mp_ = o['base'] + ".model.json"
                def f(o=o, mp_=mp_):
                    fs = list(z3.parse_smt2_file(o['base'] + ".smt2"))
                    v, m = solve_z3(fs, 200000)
                    json.dump(m or {}, open(mp_, "w"))
                run_jobs([Job(f, 220)], lambda j: None)
                if os.path.exists(mp_): o['model'] = json.load(open(mp_))
                if o.get('model'): self.refuted(t, o['rm'], o)
                else:
                    self.add_viol(dict(property=self.pid, target=t.name, rounding=o['rm'], obligation=o['name'], kind=o['kind'], text=o['text'], config=t.cfg, wrapper=t.body, solver=o['backend'] + ": sat (no model recovered)"), False)

    def baseline(self):
        p = os.path.join(VERIF, "baseline", self.pid + ".json")
        return json.load(open(p)) if os.path.exists(p) else {}
    def write_baseline(self, res):
        d = {}
        for r in res: d.setdefault("%s/%s" % (r.get('target'), r.get('rm')), []).append(r)
        d = {k: round(sum(x['secs'] for x in v), 1) for k, v in d.items() if all(x['verdict'] == 'proved' for x in v)}
        os.makedirs(os.path.join(VERIF, "baseline"), exist_ok=True)
        json.dump(d, open(os.path.join(VERIF, "baseline", self.pid + ".json"), "w"), indent=0, sort_keys=True)

    # -- finish
    def finish(self):
        wall = now() - self.t0
        res = [r for r in self.results]
        proved = [r for r in res if r['verdict'] == 'proved']
        und = [r for r in res if r['verdict'] in ('unknown', 'timeout', 'unextractable', 'error')]
        by = {}
        for r in proved:
            b = by.setdefault(r['backend'], dict(obligations=0, solver_s=0.0)); b['obligations'] += 1; b['solver_s'] = round(b['solver_s'] + r['secs'], 2)
        for l in self.known_lines: print(l)
        # an obligation of a target whose whole contract is discharged on the unchanged tree (baseline/) and that no
        # back end discharges now: a failed proof, reported without a failing input
        base = self.baseline()
        if not self.viol and not os.environ.get("VERIF_ONLY"):
            for r in und:
                if r['verdict'] == 'unextractable': continue
                key = "%s/%s" % (r.get('target'), r.get('rm'))
                if key in base:
                    self.add_viol(dict(property=self.pid, target=r.get('target'), rounding=r.get('rm'), obligation=r['name'], kind=r['kind'], text="obligation is no longer discharged: " + (r.get('text') or ''), verdict=r['verdict'], solver=r.get('out') or "z3, kissat and cvc5: no answer within their limits", config=CFGS[[t for t in self.targets if t.name == r.get('target')][0].cfg].desc, wrapper=[t for t in self.targets if t.name == r.get('target')][0].body, baseline_secs=base[key]), False)
        # violations: prefer reproduced ones
        rc = 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set(); vl = []
        repro = [v for v in self.viol if v['reproduced']]
        chosen = repro if repro else self.viol
        for i, v in enumerate(chosen[:10]):
            p = os.path.join(VERIF, "replays", "%s-%d.json" % (self.pid, i))
            json.dump(v, open(p, "w"), indent=1)
            tail = "" if v['reproduced'] else " no-failing-input-found"
            print("VIOLATION property=%s replay=%s%s" % (self.pid, p, tail))
            print("  %s: %s inputs=%s outs=%s" % (v['obligation'], (v.get('text') or '')[:200], v.get('inputs'), v.get('outs') or (v.get('native') or {}).get('outs')))
            rc = 1
        for k, r in enumerate(und):
            if k == 25: print("UNDECIDED ... %d more (see the evidence file)" % (len(und) - k)); break
            print("UNDECIDED property=%s obligation=%s (%s) %s" % (self.pid, r['name'], r['verdict'], (r.get('text') or '')[:160]))
        for n in self.notes: print("NOTE: " + n)
        for n, w, m in self.unext: print("UNEXTRACTABLE %s (%s): %s" % (n, w, m))
        if not proved and not self.viol:
            print("ERROR: no obligation could be generated or discharged"); rc = 2
        if os.environ.get("VERIF_BASELINE"): self.write_baseline(res)
        total = len(res)
        level = getattr(self.mod, 'LEVEL', 'proof')
        bounded = sorted({r['name'] for r in und})
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
            coverage=dict(obligations=total, discharged=len(proved), refuted=sum(1 for r in res if r['verdict'] == 'refuted'), undecided=[dict(name=r['name'], why=r['verdict'], text=(r.get('text') or '')[:200]) for r in und],
                by_backend=by, solver_s=round(sum(r['secs'] for r in res), 2),
                targets=[dict(name=t.name, config=CFGS[t.cfg].desc, rounding=list(t.rms), wrapper=t.body.strip(), contract=t.doc) for t in self.targets],
                functions_under_contract=len(self.targets), bounded_standins=bounded,
                native_replays=self.native_samples, covers=dict(sat=sum(1 for c in getattr(self, 'covers', []) if c['verdict'] == 'sat'), unsat=sum(1 for c in getattr(self, 'covers', []) if c['verdict'] == 'unsat'), unknown=sum(1 for c in getattr(self, 'covers', []) if c['verdict'] == 'unknown')),
                checker_cmd="python3-vt /verif/check.py %s --tier %s" % (self.pid, self.tier),
                trusted_base=["clang 18 front end and LLVM inline/SROA/EarlyCSE/SimplifyCFG passes used to lower the real source", "/verif/engine VC generator (LLVM IR semantics)", "z3 5.3.2 / cvc5 1.1.2 / kissat back ends"] + ["assumed contract: " + e for e in sorted(self.trusted)]),
            assumptions=list(getattr(self.mod, 'ASSUMPTIONS', [])) + ["assumed contract on external function %s" % e for e in sorted(self.trusted)] + (["G configurations are parsed by clang with __clang__ undefined (GCC branch of the library); native cross-validation uses real g++ 13"] if any(CFGS[t.cfg].gcc for t in self.targets) else []) + ["%s could not be extracted (%s): %s" % u for u in self.unext],
            wall_s=round(wall, 2), violations=len(self.viol), violation_list=[dict(obligation=v['obligation'], reproduced=v['reproduced'], text=(v.get('text') or '')[:300], inputs=v.get('inputs')) for v in self.viol],
            known_findings=self.known_lines)
        ev['obligation_list'] = [dict(name=r['name'], kind=r['kind'], verdict=r['verdict'], backend=r['backend'], secs=r['secs']) for r in res]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s %s: %d obligations, %d discharged, %d undecided, %d native samples, %.1f s%s" % (self.pid, self.tier, total, len(proved), len(und), self.native_samples, wall, " -- VIOLATED" if rc else ""))
        return rc

def find_cadical():
    import glob
    for p in ["/usr/bin/cadical"] + glob.glob("/app/lean4*/bin/cadical") + glob.glob("/root/.elan/toolchains/*/bin/cadical"):
        if os.path.exists(p): return p
    return None

def selftest():
    """setup: nothing to build; make sure the installed tools answer and refute/prove one trivial obligation"""
    for c in (["/usr/bin/clang++-18", "--version"], ["g++", "--version"], ["cvc5", "--version"]):
        subprocess.run(c, stdout=subprocess.DEVNULL, check=True)
    x = z3.BitVec("x", 32)
    assert solve_z3([x * 2 != x << 1], 5000)[0] == 'unsat' and solve_z3([x == 3], 5000)[0] == 'sat'
    print("ok"); return 0

def main(argv):
    if "--selftest" in argv: return selftest()
    pid = argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return Run(pid, tier, seed).run()
