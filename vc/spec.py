"""Specification side: abstract machines over an input sequence, and the contract runner."""
import z3, time, re
from .sym import *
from . import loops, models
from .loops import CandErr, quantities
from .ir import get_func, Unsupported

class Machine:
    """Abstract sequential specification.

    n            : number of input elements (BV64)
    inp(k)       : k-th input element
    unfold(k)    : list of defining equations of the recursive spec functions at step k -> k+1
    outlen(k)    : output produced by the first k elements
    S(j)         : j-th output byte of the complete run (a fixed sequence)
    qs           : list of (name, q(k) -> BV, domain values)
    binders      : how a loop variable can denote the ghost position (set up by input object / stride)
    """
    noterm = False
    def __init__(self, n, inp_obj=None, inp_off=None, stride=1, inp=None, outlen=None, S=None, qs=(), unfold=None, window=4, base=(),
                 extra=None, reads=(1, 2), consts=(0, 1, 2, 3), monotone=None):
        self.n = n; self.io = inp_obj; self.ioff = inp_off if inp_off is not None else bv64(0); self.stride = stride
        self.inp = inp; self.outlen = outlen; self.S = S; self.qs = list(qs); self.unfold = unfold; self.window = window
        self.base = list(base); self.extra = extra; self.reads = reads; self.consts = consts
        self.in_bytes = None
    def bounds(self, ex):
        return [('n', self.n)]
    def bindings(self, ex, snap, wobjs=(), wghost=()):
        """ways in which a loop quantity can denote the ghost position; pointers into the input are preferred, then counters"""
        r = []
        for k, v in snap.phi.items():
            if isinstance(v, Ptr) and v.obj == self.io:
                def b(s, k=k):
                    d = s.phi[k].off - self.ioff
                    return d if self.stride == 1 else z3.UDiv(d, bv64(self.stride))
                r.append((f'pos({k})', b))
        if r: return r
        for k, v in snap.phi.items():
            if isinstance(v, z3.BitVecRef) and v.size() in (64, 32):
                def b(s, k=k):
                    x = s.phi[k]
                    return x if x.size() == 64 else z3.ZeroExt(32, x)
                r.append((f'{k}', b))
                r.append((f'n-{k}', lambda s, b=b: self.n - b(s)))
        r.append(('iteration', lambda s: s.it))
        for nm, q in quantities(ex, snap, wobjs, wghost).items():
            if nm.startswith('mem'): r.append((nm, q))
        return r
    def facts(self, ex, snap):
        fs = list(self.base)
        if self.unfold is None: return fs
        for nm, b in self.bindings(ex, snap):
            try: k = simp(b(snap))
            except (CandErr, KeyError): continue
            for i in range(self.window): fs += self.unfold(simp(k+i))
            fs += self.unfold(simp(k-1))
        return fs
    def candidates(self, ex, fn, header, esnap, hsnap, wobjs, wghost):
        for nm, b in self.bindings(ex, hsnap, wobjs, wghost):
            yield (f'k:={nm} <= n', lambda s, b=b: z3.ULE(b(s), self.n))
            if self.stride != 1 and nm.startswith('pos('):
                key = nm[4:-1]
                yield (f'{nm} aligned', lambda s, key=key: z3.URem(s.phi[key].off - self.ioff, bv64(self.stride)) == 0)
            # concrete output is the abstraction at k
            if self.S is not None:
                for oid in wobjs:
                    if wobjs[oid] is None:
                        yield (f'k:={nm}: buffer{oid}[0..outlen(k)) = S', self.buf_cand(ex, oid, b, None))
                        if self.falls(esnap, b): yield (f'k:={nm}: buffer{oid}[outlen(k)..outlen(n)) = S', self.buf_cand(ex, oid, b, self.n))
                for g in wghost:
                    v = hsnap.st.ghost.get(g)
                    if isinstance(v, models.Str):
                        yield (f'k:={nm}: len(str) = outlen(k)', lambda s, b=b, g=g: s.st.ghost[g].len == self.outlen(b(s)))
                        yield (f'k:={nm}: str content = S', self.str_cand(ex, g))
                        # or an already materialised string of which a prefix is final
                if self.outlen is not None:
                    for qn, q in quantities(ex, hsnap, wobjs, wghost).items():
                        yield (f'k:={nm}: {qn} = outlen(k)', lambda s, b=b, q=q: q(s) == self.outlen(b(s)))
            # control state
            for qn, q, dom in self.qs:
                for c in dom:
                    yield (f'k:={nm}: {qn} != {c}', lambda s, b=b, q=q, c=c: q(b(s)) != c)
                    for vn, var in self.small_vars(ex, hsnap, wobjs):
                        for cst in self.consts:
                            yield (f'k:={nm}: {qn}={c} -> {vn} = {cst}', lambda s, b=b, q=q, c=c, var=var, cst=cst: z3.Implies(q(b(s)) == c, var(s) == cst))
                        for d in self.reads:
                            def rd(s, b=b, q=q, c=c, var=var, d=d):
                                x = var(s)
                                i = self.inp(b(s)-d)
                                if x.size() < i.size(): raise CandErr()
                                i = i if x.size() == i.size() else z3.ZeroExt(x.size()-i.size(), i)
                                return z3.Implies(q(b(s)) == c, x == i)
                            yield (f'k:={nm}: {qn}={c} -> {vn} = in[k-{d}]', rd)
            if self.extra is not None:
                yield from self.extra(self, ex, nm, b, hsnap, wobjs, wghost)
    def small_vars(self, ex, snap, wobjs):
        for k, v in snap.phi.items():
            if isinstance(v, z3.BitVecRef): yield (k, lambda s, k=k: s.phi[k])
        for oid, offs in wobjs.items():
            o = ex.obj(snap.st, oid)
            if not isinstance(o.size, int) or o.size > 16: continue
            if offs is None:
                for i in range(o.size):
                    def g(s, oid=oid, i=i):
                        o = ex.obj(s.st, oid)
                        if o.mode == 'array': return z3.Select(o.arr, bv64(i))
                        return ex.cell_byte(o, i)
                    yield (f'obj{oid}[{i}]', g)
            else:
                for off in offs:
                    def g(s, oid=oid, off=off):
                        o = ex.obj(s.st, oid)
                        if o.mode != 'cells' or off not in o.cells or not isinstance(o.cells[off][1], z3.BitVecRef): raise CandErr()
                        return o.cells[off][1]
                    yield (f'obj{oid}+{off}', g)
    def buf_cand(self, ex, oid, b, ln):
        j = z3.BitVec('j!inv', 64)
        def c(s):
            o = ex.obj(s.st, oid)
            if o.mode != 'array': raise CandErr()
            pats = [z3.Select(o.arr, j)]
            if ln is not None: return forall(j, z3.Implies(z3.And(z3.UGE(j, self.outlen(b(s))), z3.ULT(j, self.outlen(ln))), z3.Select(o.arr, j) == self.S(j)), o.arr)
            return forall(j, z3.Implies(z3.ULT(j, self.outlen(b(s))), z3.Select(o.arr, j) == self.S(j)), o.arr)
        return c
    def falls(self, esnap, b):
        """the position starts at the end"""
        try: return z3.is_true(simp(b(esnap) == self.n))
        except (CandErr, KeyError, AttributeError): return False
    def str_cand(self, ex, g):
        j = z3.BitVec('j!inv', 64)
        def c(s):
            st = s.st; v = st.ghost.get(g)
            if v is None: raise CandErr()
            a = models.str_arr(ex, st, v)
            return forall(j, z3.Implies(z3.ULT(j, v.len), z3.Select(a, j) == self.S(j)), a)
        return c

def forall(j, body, arr):
    """universally quantified candidate (kept symbolic so that Houdini can instantiate it itself)"""
    return loops.Q(j, body, arr)

def run_contract(mod, entry, setup, post, timeout=240, strategy=('inv', 'unroll'), **kw):
    """'inv': loops are cut by invariants after a few iterations; 'unroll': only loops that run longer than 70 iterations are.
    Both are complete proofs when every obligation is discharged; the second is tried when the first does not succeed."""
    t0 = time.time(); err = None; best = None
    for i, s in enumerate(strategy):
        left = timeout - (time.time()-t0)
        if left < 5: break
        if i+1 < len(strategy): left = left*0.55
        try:
            ex = _run_contract(mod, entry, setup, post, timeout=left, unroll_limit=70 if s == 'unroll' else 5, level=int(s == 'inv2'), **kw)
        except (Unsupported, NeedInvariant, PathLimit) as e:
            err = err or e; continue
        ex.wall = time.time()-t0
        if all(o.status == 'proved' for o in ex.obligs): return ex
        if best is None or sum(o.status == 'refuted' for o in ex.obligs) > sum(o.status == 'refuted' for o in best.obligs): best = ex
    if best is not None: return best
    raise err or PathLimit('time budget')
def _run_contract(mod, entry, setup, post, contracts=None, models_=None, timeout=240, unroll_limit=70, checks=('mem', 'nsw'), max_restarts=6, extra_inv=(), max_paths=20000, cex=None, cut_all=False, level=0, merge=True):
    """Verify one function against its contract.

    setup(ex, st) -> (args, spec, ctx): builds the precondition state
    post(ex, outcome, ctx): adds obligations with ex.oblige(outcome.st, name, cond)"""
    inv = set(extra_inv)
    t0 = time.time()
    fname = entry
    if cut_all:
        # which loops are long: explored once without invariants
        try:
            while True:
                ex = Executor(mod, models_ or models.MODELS, contracts, None, unroll_limit=4, checks=checks, max_paths=2000); ex.light = 1
                ex.deadline = t0 + timeout/4; ex.inv_loops = set(inv); ex.level = level; ex.merge = merge; st = State(); fn = get_func(mod, fname)
                if fn is None: break
                args, ex.spec, _ = setup(ex, st); f = Frame(fn)
                for (t, pn), a in zip(fn.params, args): f.env[pn] = a
                st.frames = [f]
                try: ex.explore(st)
                except NeedInvariant as e:
                    if e.key in inv or len(inv) > 8: raise
                    inv.add(e.key); continue
                cut_all = False; unroll_limit = 8; break
        except (Unsupported, NeedInvariant, PathLimit): inv = set(extra_inv)
    while True:
        ex = Executor(mod, models_ or models.MODELS, contracts, None, unroll_limit=unroll_limit, checks=checks, max_paths=max_paths)
        ex.deadline = t0 + timeout
        ex.inv_loops = set(inv); ex.cut_all = cut_all; ex.level = level; ex.merge = merge
        st = State()
        fn = get_func(mod, fname)
        if fn is None: raise Unsupported('entry function not found: ' + entry)
        args, spec, ctx = setup(ex, st)
        ex.spec = spec; ex.sol.eqs = getattr(spec, 'solve_eqs', False)
        f = Frame(fn)
        for (t, pn), a in zip(fn.params, args): f.env[pn] = a
        st.frames = [f]
        pre = list(st.pc)
        if ex.sol.check(pre) == z3.unsat:
            raise Unsupported('precondition of %s is contradictory (vacuous)' % entry)
        try:
            outs = ex.explore(st)
        except NeedInvariant as e:
            if e.key in inv or len(inv) >= max_restarts: raise Unsupported('loop without usable invariant')
            inv.add(e.key)
            continue
        break
    ex.fn_label = mod.demangled.get(fname, fname)
    nout = 0
    ex.cases = []
    for o in outs:
        nout += 1
        o.st.frames = [Frame(fn)]
        post(ex, o, ctx)
    if nout == 0 and not any(z3.is_false(o.cond) for o in ex.obligs):
        raise Unsupported('no path of %s returns: vacuous' % entry)
    # vacuity: at least one outcome must be reachable
    reach = any(ex.sol.check(o.st.pc, 5000) != z3.unsat for o in outs)
    if not reach and nout: raise Unsupported('no outcome of %s is reachable: vacuous' % entry)
    # discharge
    for o in ex.obligs:
        if o.status: continue
        t = time.time()
        if z3.is_true(o.cond): o.status, o.backend = 'proved', 'simplifier'
        else:
            gr = getattr(ex.spec, 'ground', False); g = loops.ground(o.pc + [z3.Not(o.cond)]) if gr else None; ok = False
            if gr and ex.sol.eqs:
                # cheap attempts first: shifts uninterpreted, then as they are, then several solvers at once
                w = weaken(g); ok = w is not None and ex.sol.check(w, 2000) == z3.unsat
                if not ok:
                    q = ex.sol.check(g, 3000); ok = q == z3.unsat
                    if q == z3.unknown and getattr(ex.spec, 'split', None) is not None and not z3.substitute(o.cond, (ex.spec.split, z3.BitVecVal(0, ex.spec.split.size()))).eq(o.cond):
                        # every value of the shift amount by itself
                        x = ex.spec.split; t1 = time.time(); ok = True
                        for v in range(1 << x.size()):
                            if not ok or time.time() - t1 > 60: ok = False; break
                            ok = ex.sol.check([z3.substitute(f, (x, z3.BitVecVal(v, x.size()))) for f in g], 4000) == z3.unsat
                        if not ok: q = ex.sol.check(g, 3000); ok = q == z3.unsat
                    if not ok and q == z3.unknown: ok = ex.sol.race(20000) == z3.unsat
            elif gr: ok = ex.sol.check(g) == z3.unsat
            if ok: o.status, o.backend = 'proved', 'z3'; ex.sol.bq['z3'] += 1
            else: o.status, o.backend = ex.sol.prove(o.pc, o.cond, 20000)
            if o.status == 'refuted' :
                try:
                    m = ex.sol.model()
                    o.detail = model_text(m)
                    if cex is not None and len(ex.cases) < 8: ex.cases += cex(ex, m, ctx)
                except z3.Z3Exception: pass
        o.time = time.time()-t
    ex.wall = time.time()-t0
    ex.nout = nout
    return ex

def model_text(m, limit=40):
    r = []
    for d in m.decls()[:400]:
        s = f'{d.name()} = {m[d]}'
        if len(s) < 300: r.append(s.replace('\n', ' '))
    return '\n'.join(sorted(r)[:limit])

def run_lemma(obls):
    """obls: list of (name, goal, hypotheses)"""
    t0 = time.time()
    ex = Executor(None, [], None, None)
    ex.cases = []; ex.nout = 1
    for name, goal, hyps in obls:
        o = Oblig(name, hyps, goal, 'lemma', 'lemma')
        if hyps and ex.sol.check(list(hyps)) == z3.unsat: o.status, o.backend = 'refuted', 'z3'; o.detail = 'contradictory hypotheses (vacuous)'
        else:
            q = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver(); q.set('timeout', 10000); q.add(*hyps, z3.Not(goal))
            if q.check() == z3.unsat: o.status, o.backend = 'proved', 'z3'
            else: o.status, o.backend = ex.sol.prove(hyps, goal, 30000)
        ex.obligs.append(o)
    ex.wall = time.time()-t0
    return ex
