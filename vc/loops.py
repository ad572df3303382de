"""Loop invariants: cut-point verification with Houdini-style inference of the inductive subset of a candidate set.

Candidates come from (a) generic facts about the loop's own variables (linear relations to an iteration counter, bounds
against the quantities the loop compares with), and (b) the specification: the contract supplies an abstract machine
(ghost position k in the input, abstract state q(k), output-so-far) and the candidates state that some quantity of
the loop is the ghost position and that the concrete memory is the abstraction at that position.  Every surviving
candidate is checked inductive by the solver, so nothing about how the loop is written is trusted."""
import z3, time
from .sym import *
from .sym import PathEnd

class Snap:
    """loop variables at a cut point"""
    def __init__(self, st, phi, it):
        self.st, self.phi, self.it = st, phi, it

class Q:
    """a universally quantified formula: instantiated by hand inside Houdini, asserted as ForAll afterwards"""
    def __init__(self, j, body, arr=None):
        self.j, self.body, self.arr = j, body, arr
    def inst(self, t): return z3.substitute(self.body, (self.j, t))
    def fa(self):
        if self.arr is not None and z3.is_const(self.arr) and not z3.is_K(self.arr):
            return z3.ForAll([self.j], self.body, patterns=[z3.Select(self.arr, self.j)])
        return z3.ForAll([self.j], self.body)

def as_formula(c): return c.fa() if isinstance(c, Q) else c

class LoopCtx:
    def __init__(self):
        self.back = []; self.exits = []
    def backedge(self, st, vals):
        self.back.append((st, dict(vals)))

def words_shift(ex, st, v):
    """log2 of the element size when v points at an element of a sequence object, else None"""
    if v.obj in (None, 0): return None
    o = ex.obj(st, v.obj)
    if o.mode != 'words': return None
    k = o.stride().bit_length()-1
    return k if o.stride() == 1 << k and elem_index(z3.simplify(v.off, mul2concat=True), k) is not None else None
def havoc_val(v, name, ex=None, st=None):
    if isinstance(v, Ptr):
        k = words_shift(ex, st, v) if ex is not None else None
        if k: return Ptr(v.obj, z3.Concat(fresh(name + '.ix', 64-k), BV(0, k)))     # stays at an element: checked on every back edge
        return Ptr(v.obj, fresh(name + '.off'))
    if isinstance(v, Opaque): return Opaque('h')
    if isinstance(v, tuple): return tuple(havoc_val(x, name) for x in v)
    return fresh(name, v.size())

def val_eq(a, b):
    """structural identity (python level)"""
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and a.off.eq(b.off)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Opaque) and isinstance(b, Opaque): return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
    return a is b

def cut_loop(ex, st, fn, header, entry_vals, out, stop):
    entry = dict(entry_vals)
    blk = fn.blocks[header]
    prev = st.frames[-1].block
    wobjs = {}       # obj id -> None (whole array) or set of cell offsets
    wghost = set()
    ptrbases = {}
    mark = len(ex.obligs); nloop0 = len(ex.loopinfo)
    ex.ncut += 1; ncut0 = ex.ncut
    spec = ex.spec
    rounds = 0
    while True:
        rounds += 1
        if rounds > 12: raise Unsupported('loop modification set does not stabilise')
        hs = st.fork()
        f = hs.frames[-1]
        hphi = {}
        for k, v in entry.items():
            hphi[k] = havoc_val(v, 'L' + k.strip('%"'), ex, hs)
        for k, v in hphi.items(): f.env[k] = v
        for oid, offs in wobjs.items():
            o = ex.obj(hs, oid).copy()
            if o.mode in ('array', 'words') or offs is None:
                if o.mode == 'cells':
                    ex.to_array(hs, o)
                o.arr = fresh_like('L_' + o.name.strip('%@"'), o.arr)
            else:
                for off in offs:
                    if off in o.cells:
                        n, v = o.cells[off]; o.cells[off] = (n, havoc_val(v, f'L_{o.name}_{off}', ex, hs))
                    else:
                        o.cells[off] = (1, fresh(f'L_{o.name}_{off}', 8))
            hs.mem[oid] = o
        for g in sorted(wghost, key=str):
            v = hs.ghost.get(g)
            if v is None: continue
            hs.ghost[g] = v.havoc(ex, hs, g)
        it = fresh('it')
        hs.assume(z3.ULT(it, bv64(1 << 62)))
        ctx = LoopCtx()
        hs.written = set()
        f.prev = prev; f.block = header; f.idx = 0
        f.cutloops.append((header, ctx))
        h0 = hs.fork()
        hsnap = Snap(h0, hphi, it)
        # facts of the specification around every candidate ghost position
        if spec is not None:
            fs = spec.facts(ex, hsnap)
            if getattr(spec, 'lazy', False): hs.facts = hs.facts + [f for f in fs]
            else:
                for fact in fs: hs.assume(fact)
        base_pc = list(hs.pc)
        del ex.obligs[mark:]
        ex.light += 1
        try: sub = ex.explore(hs)
        finally: ex.light -= 1
        out_extra = sub
        # loop variables that advance by a constant
        ex.steps[tuple(hphi)] = {k for k, v in hphi.items() if isinstance(v, z3.BitVecRef) and ctx.back and all(isinstance(vals[k], z3.BitVecRef) and isconst(simp(vals[k] - v)) for _, vals in ctx.back)}
        # modified state
        grew = False
        for s2, vals in ctx.back:
            for k, v in vals.items():
                e = hphi[k]
                if isinstance(e, Ptr) and (not isinstance(v, Ptr) or v.obj != e.obj):
                    raise Unsupported(f'loop pointer {k} moves between objects')
                if isinstance(e, Ptr) and words_shift(ex, h0, e) and words_shift(ex, s2, v) is None: raise Unsupported(f'loop pointer {k} leaves the element grid')
            for oid, offs in wobjs.items():
                for off in offs or ():
                    a, b = ex.obj(h0, oid), ex.obj(s2, oid)
                    if a.mode != 'cells' or b.mode != 'cells' or off not in a.cells: continue
                    e = a.cells[off][1]
                    if isinstance(e, Ptr) and words_shift(ex, h0, e):
                        v = b.cells[off][1] if off in b.cells else None
                        if not isinstance(v, Ptr) or v.obj != e.obj or words_shift(ex, s2, v) is None: raise Unsupported('loop pointer in memory leaves the element grid')
        for s2, _ in ctx.back:
            for oid in s2.written:
                if oid not in st.mem and oid not in ex.globinit: continue
                a, b = ex.obj(h0, oid), ex.obj(s2, oid)
                if a is b: continue
                if b.mode in ('array', 'words'):
                    if a.mode == b.mode and a.arr.eq(b.arr): continue
                    if oid not in wobjs or wobjs[oid] is not None: wobjs[oid] = None; grew = True
                else:
                    ch = {off for off in set(a.cells) | set(b.cells)
                          if not (off in a.cells and off in b.cells and a.cells[off][0] == b.cells[off][0] and val_eq(a.cells[off][1], b.cells[off][1]))}
                    have = wobjs.get(oid, set())
                    if have is None: continue
                    if not ch <= have:
                        wobjs[oid] = have | ch; grew = True
            for g in set(s2.ghost) | set(h0.ghost):
                if g in h0.ghost and g in s2.ghost and ghost_same(h0.ghost[g], s2.ghost[g]): continue
                if g not in h0.ghost:
                    continue        # created inside the loop body (dead at the back edge)
                if g not in wghost: wghost.add(g); grew = True
        if not grew: break
    # ------------------------------------------------------------- Houdini
    nested = ex.ncut > ncut0
    if ex.light:
        # an enclosing loop is only collecting what its body modifies: no invariants needed
        del ex.obligs[mark:]; return leave(ex, st, ctx, [], wobjs, out, out_extra, stop)
    esnap = Snap(st, entry, bv64(0))
    bsnaps = [(s2, Snap(s2, vals, it+1)) for s2, vals in ctx.back]
    cands = list(generic_cands(ex, fn, header, esnap, hsnap, bsnaps, wobjs, wghost))
    if hasattr(spec, 'generic') and not ex.level: cands = [c for c in cands if spec.generic(hsnap, c[0])]
    if spec is not None:
        cands += list(spec.candidates(ex, fn, header, esnap, hsnap, wobjs, wghost))
    efacts = []
    if spec is not None: efacts = list(spec.facts(ex, esnap))
    # entry filter
    live = []
    ev = []
    for name, c in cands:
        try:
            g = c(esnap); h = c(hsnap)
            bs = [c(bs_) for _, bs_ in bsnaps]
        except (CandErr, Unsupported, KeyError):
            continue
        live.append((name, g, h, bs, c))
    # a probe restricts the instance (small sizes): whatever is not inductive there is not inductive, and the queries are cheap
    for probe in list(getattr(spec, 'probes', ())) + [None]:
        px = [probe] if probe is not None else []
        live = prune(ex, live, list(st.pc) + st.facts + efacts + px, lambda c: c[1], None)
        while True:
            if nested:
                # loops inside this one are cut under the candidates of this one: explore again assuming all that are left (greatest fixpoint)
                hs = h0.fork(); hs.pc = list(base_pc) + px + [as_formula(c[2]) for c in live]
                hs.frames[-1].cutloops[-1] = (header, LoopCtx()); ctx = hs.frames[-1].cutloops[-1][1]
                del ex.obligs[mark:]; del ex.loopinfo[nloop0:]
                out_extra = ex.explore(hs)
                bsnaps = [(s2, Snap(s2, vals, it+1)) for s2, vals in ctx.back]
                redo = []
                for c in live:
                    try: redo.append((c[0], c[1], c[2], [c[4](b) for _, b in bsnaps], c[4]))
                    except (CandErr, Unsupported, KeyError): pass
                if len(redo) < len(live): live = redo; continue
                live = redo
            n1 = len(live); stable = {}
            while True:
                n0 = len(live)
                for bi, (s2, bsn) in enumerate(bsnaps):
                    if stable.get(bi) == [id(c) for c in live]: continue
                    bf = list(spec.facts(ex, bsn)) if spec is not None else []
                    live = prune(ex, live, list(s2.pc) + s2.facts + bf + px, lambda c, bi=bi: c[3][bi], lambda c: c[2]); stable[bi] = [id(c) for c in live]
                if len(live) == n0: break
            if not nested or len(live) == n1: break
    inv = [as_formula(c[2]) for c in live]
    # termination measure
    term = False
    if not ctx.back: term = True
    else:
        for m in measures(ex, hsnap, spec):
            try:
                ok = True
                for s2, bsn in bsnaps:
                    a, b = m(hsnap), m(bsn)
                    pc = list(s2.pc) + s2.facts + inv
                    r, _ = ex.sol.prove(ground(pc) if getattr(spec, 'ground', False) else pc, z3.ULT(b, a), 3000)
                    if r != 'proved': ok = False; break
                if ok: term = True; break
            except (CandErr, KeyError): continue
    tob = Oblig('loop terminates (a measure decreases on every back edge)', [], z3.BoolVal(term), 'term', ex.m.demangled.get(fn.name, fn.name))
    if not (spec is not None and getattr(spec, 'noterm', False)): ex.obligs.append(tob)
    for o in ex.obligs[mark:]:
        o.pc = o.pc + inv
    ex.loopinfo.append({'function': ex.m.demangled.get(fn.name, fn.name)[:160], 'header': header, 'candidates': len(cands), 'inductive': len(live),
                        'invariants': [c[0] for c in live][:60], 'backedges': len(ctx.back), 'terminates': term})
    # inductive facts as counted obligations
    for c in live:
        o = Oblig(f'invariant [{c[0]}] holds on entry and is preserved', [], z3.BoolVal(True), 'inv', ex.m.demangled.get(fn.name, fn.name))
        o.status = 'proved'; o.backend = 'z3'
        ex.obligs.append(o)
    return leave(ex, st, ctx, inv, wobjs, out, out_extra, stop)

def leave(ex, st, ctx, inv, wobjs, out, out_extra, stop):
    res = []
    for s2, target in ctx.exits:
        s2.pc = s2.pc + inv
        if getattr(ex.spec, 'forget', False) and not ex.level: s2.facts = list(st.facts)
        s2.frames[-1].cutloops.pop()
        s2.written = s2.written | st.written | set(wobjs)
        if not ex.sol.feasible(s2.pc): continue
        try:
            if target is None: q = ex.unwind(s2, out, stop)
            else: q = ex.goto(s2, target, out, stop)
        except PathEnd:
            continue
        if q is None: res.append(s2)
        else: res.extend(q)
    out.extend(out_extra)
    return res

def ghost_same(a, b):
    if a is b: return True
    return a.same(b)

class CandErr(Exception):
    pass

def selects(fs, seen, acc):
    """ground terms Select(constant array, index) in fs: array id -> {index id: index}"""
    work = list(fs)
    while work:
        t = work.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_quantifier(t) or z3.is_var(t): continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_SELECT:
                a = t.arg(0)
                while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE: a = a.arg(0)
                if z3.is_const(a): acc.setdefault(a.get_id(), {})[t.arg(1).get_id()] = t.arg(1)
            work.extend(t.children())
def ground(fs, extra=(), rounds=2, keep=()):
    """replace one-variable quantified facts by their instances at the indices at which their array is read (a consequence: sound)"""
    base = [f for f in fs if not z3.is_quantifier(f)]; qs = [f for f in fs if z3.is_quantifier(f)]
    seen, acc, done = set(), {}, set(); selects(base, seen, acc); hold = list(base) + list(keep)
    for _ in range(rounds):
        new = []
        for q in qs:
            if q.num_vars() != 1 or not q.is_forall(): continue
            arrs = set(); body = q.body()
            for k in range(q.num_patterns()):
                for c in q.pattern(k).children():
                    if c.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(c.arg(0)) and z3.is_var(c.arg(1)): arrs.add(c.arg(0).get_id())
            ts = list(extra)
            for a in arrs: ts += list(acc.get(a, {}).values())
            for t in ts:
                if (q.get_id(), t.get_id()) in done or len(done) > 600: continue
                done.add((q.get_id(), t.get_id())); new.append(z3.substitute_vars(body, t))
        if not new: break
        base += new; hold += new; selects(new, seen, acc)
    return base
def prune(ex, cands, pc, goal, assume):
    """largest subset whose goals follow from pc (and, if assume is given, from the assumed versions of the subset)"""
    live = list(cands)
    if not live: return live
    j0 = fresh('sk')
    if getattr(ex.spec, 'ground', False): return prune_ground(ex, live, pc, goal, assume, j0)
    while True:
        n0 = len(live)
        # plain candidates first, without the quantified hypotheses
        for _ in range(400):
            plain = [c for c in live if not isinstance(goal(c), Q)]
            if not plain: break
            hyp = [assume(c) for c in live if not isinstance(assume(c), Q)] if assume else []
            goals = [goal(c) for c in plain]
            r = ex.sol.check(pc + hyp + [z3.Not(z3.And(*goals))], 8000)
            if r == z3.unsat: break
            dropped = []
            if r == z3.sat:
                m = ex.sol.model()
                dropped = [c for c, g in zip(plain, goals) if z3.is_false(m.eval(g, model_completion=True))]
            if not dropped:
                for c, g in zip(plain, goals):
                    if ex.sol.check(pc + hyp + [z3.Not(g)], 2000) != z3.unsat: dropped.append(c)
                if not dropped: break
            ids = {id(c) for c in dropped}
            live = [c for c in live if id(c) not in ids]
        qs = [c for c in live if isinstance(goal(c), Q)]
        dropped = set()
        for c in qs:
            hyp = []
            if assume:
                for d in live:
                    h = assume(d)
                    hyp.append(h.inst(j0) if isinstance(h, Q) else h)
            if ex.sol.check(pc + hyp + [z3.Not(goal(c).inst(j0))], 6000) != z3.unsat: dropped.add(id(c))
        live = [c for c in live if id(c) not in dropped]
        if len(live) == n0 or assume is None: return live

def quick(ex, fs):
    """is fs unsatisfiable (if in doubt: no)"""
    if ex.sol.eqs:
        w = weaken(fs)
        if w is not None and ex.sol.check(w, 2000) == z3.unsat: return True
    r = ex.sol.check(fs, 2000)
    if r == z3.unknown and ex.sol.eqs: r = ex.sol.race(10000)
    return r == z3.unsat
def prune_ground(ex, live, pc, goal, assume, j0):
    """as prune, with quantified facts instantiated by hand, so that every query is decided quickly"""
    unf = getattr(ex.spec, 'unfold_at', lambda t: []); mixed = getattr(ex.spec, 'mixed', False)
    while True:
        n0 = len(live)
        hyp = [as_formula(assume(c)) for c in live] if assume else []
        for _ in range(400):
            plain = [c for c in live if not isinstance(goal(c), Q)]
            if not plain: break
            ph = [as_formula(assume(c)) for c in live if mixed or not isinstance(assume(c), Q)] if assume else []
            goals = [goal(c) for c in plain]
            b = ground(pc + ph)
            r = ex.sol.check(b + [z3.Not(z3.And(*goals))], 8000); dropped = []
            if r == z3.unsat: break
            if r == z3.sat:
                m = ex.sol.model(); dropped = [c for c, g in zip(plain, goals) if z3.is_false(m.eval(g, model_completion=True))]
            if not dropped:
                dropped = [c for c, g in zip(plain, goals) if not quick(ex, b + [z3.Not(g)])]
                if not dropped: break
            if DEBUG: print('   drop', r, [c[0] for c in dropped][:12], flush=True)
            ids = {id(c) for c in dropped}; live = [c for c in live if id(c) not in ids]
        dropped = set()
        for c in [c for c in live if isinstance(goal(c), Q)]:
            hyp = [as_formula(assume(d)) for d in live if id(d) not in dropped] if assume else []
            neg = z3.Not(goal(c).inst(j0))
            b = ground(pc + hyp + [neg] + unf(j0), extra=[j0])
            tq = time.time(); r = ex.sol.check(b, 1500)
            if r == z3.unknown: r = ex.sol.race(60000)
            if DEBUG: print('   Q', c[0], r, len(b), round(time.time()-tq, 1), flush=True)
            if r != z3.unsat: dropped.add(id(c))
        live = [c for c in live if id(c) not in dropped]
        if len(live) == n0 or assume is None: return live
import os
DEBUG = os.environ.get('VC_LOOPS')

def quantities(ex, snap, wobjs=(), wghost=()):
    """numeric loop variables: name -> fn(snap) -> BV64"""
    q = {}
    for k, v in snap.phi.items():
        if isinstance(v, Ptr):
            if v.obj is not None: q[k] = lambda s, k=k: s.phi[k].off
        elif isinstance(v, z3.BitVecRef):
            w = v.size()
            if w == 64: q[k] = lambda s, k=k: s.phi[k]
            elif w < 64: q[k] = lambda s, k=k: z3.ZeroExt(64-s.phi[k].size(), s.phi[k])
    for oid in wobjs:
        if wobjs[oid] is None: continue
        o = ex.obj(snap.st, oid)
        for off in wobjs[oid]:
            c = o.cells.get(off)
            if c is None or isinstance(c[1], (Opaque, FnRef)): continue
            if isinstance(c[1], Ptr):
                def g(s, oid=oid, off=off):
                    v = ex.obj(s.st, oid).cells[off][1]
                    if not isinstance(v, Ptr): raise CandErr()
                    return v.off
                q[f'mem{oid}+{off}'] = g
            elif c[1].size() <= 64:
                def g(s, oid=oid, off=off):
                    o = ex.obj(s.st, oid)
                    if o.mode != 'cells' or off not in o.cells: raise CandErr()
                    v = o.cells[off][1]
                    if not isinstance(v, z3.BitVecRef) or v.size() > 64: raise CandErr()
                    return v if v.size() == 64 else z3.ZeroExt(64-v.size(), v)
                q[f'mem{oid}+{off}'] = g
    for g in wghost:
        v = snap.st.ghost.get(g)
        if v is not None:
            for nm, fn in v.quantities(g).items(): q[nm] = fn
    return q

def generic_cands(ex, fn, header, esnap, hsnap, bsnaps, wobjs, wghost):
    qs = quantities(ex, hsnap, wobjs, wghost)
    body = fn.loops()[header]
    for name, q in qs.items():
        try:
            e0 = q(esnap); h = q(hsnap); ds = [simp(q(b)-h) for _, b in bsnaps]
        except (CandErr, KeyError):
            continue
        if ds and all(isconst(d) for d in ds) and len({cval(d) for d in ds}) == 1:
            c = ds[0]
            yield (f'{name} = init + {cval(c) if cval(c) < 2**63 else cval(c)-2**64}*iteration', lambda s, q=q, e0=e0, c=c: q(s) == e0 + c*s.it)
        yield (f'{name} >= init', lambda s, q=q, e0=e0: z3.UGE(q(s), e0))
        yield (f'{name} <= init', lambda s, q=q, e0=e0: z3.ULE(q(s), e0))
        if isinstance(hsnap.phi.get(name), z3.BitVecRef) and hsnap.phi[name].size() <= 32:
            pass
    # bounds against what the loop compares with
    cmpq = []
    env = hsnap.st.frames[-1].env
    seen = set()
    for bn in body:
        for ins in fn.blocks[bn].insts:
            if ins.op == 'icmp':
                for v in ins.a:
                    x = None
                    if v[0] == 'loc' and v[1] in env and v[1] not in hsnap.phi: x = env[v[1]]
                    elif v[0] in ('int',): x = BV(v[2], v[1])
                    if x is None: continue
                    key = str(v)
                    if key in seen: continue
                    seen.add(key)
                    cmpq.append((v, x))
    if ex.spec is not None:
        for nm, t in ex.spec.bounds(ex): cmpq.append((('spec', nm), t))
    for name, q in qs.items():
        hp = hsnap.phi.get(name)
        for v, x in cmpq:
            if isinstance(x, Ptr):
                if isinstance(hp, Ptr) and x.obj == hp.obj:
                    y = x.off
                elif not isinstance(hp, Ptr) and name.startswith('mem'): y = x.off
                else: continue
            elif isinstance(x, z3.BitVecRef) and x.size() <= 64:
                if isinstance(hp, Ptr) and v[0] != 'spec': continue
                if isinstance(hp, z3.BitVecRef) and hp.size() != x.size() and v[0] != 'spec' and x.size() != 64: continue
                y = x if x.size() == 64 else z3.ZeroExt(64-x.size(), x)
            else: continue
            yield (f'{name} <= {v[1] if v[0] != "int" else v[2]}', lambda s, q=q, y=y: z3.ULE(q(s), y))
            yield (f'{name} >= {v[1] if v[0] != "int" else v[2]}', lambda s, q=q, y=y: z3.UGE(q(s), y))
            if v[0] != 'int':
                pass
    # order between pairs of pointer variables into one object
    names = [k for k, v in hsnap.phi.items() if isinstance(v, Ptr)]
    for a in names:
        for b in names:
            if a != b and hsnap.phi[a].obj == hsnap.phi[b].obj:
                yield (f'{a} <= {b}', lambda s, a=a, b=b: z3.ULE(s.phi[a].off, s.phi[b].off))
    ints = [k for k, v in hsnap.phi.items() if isinstance(v, z3.BitVecRef) and v.size() == 64]
    for a in ints:
        for b in ints:
            if a != b:
                yield (f'{a} <= {b}', lambda s, a=a, b=b: z3.ULE(s.phi[a], s.phi[b]))

def measures(ex, hsnap, spec):
    qs = quantities(ex, hsnap)
    bs = []
    if spec is not None: bs = list(spec.bounds(ex))
    env = hsnap.st.frames[-1].env
    if hasattr(spec, 'measures'): yield from spec.measures(ex, hsnap)
    for name, q in qs.items():
        yield q
    ends = [t for _, t in bs]
    for k, v in env.items():
        if isinstance(v, Ptr) and k not in hsnap.phi and v.obj not in (None, 0):
            for name, p in hsnap.phi.items():
                if isinstance(p, Ptr) and p.obj == v.obj:
                    yield (lambda s, name=name, v=v: v.off - s.phi[name].off)
        elif isinstance(v, z3.BitVecRef) and v.size() == 64 and k not in hsnap.phi:
            for name, p in hsnap.phi.items():
                if isinstance(p, z3.BitVecRef) and p.size() == 64:
                    yield (lambda s, name=name, v=v: v - s.phi[name])
    for name, q in qs.items():
        for e in ends:
            yield (lambda s, q=q, e=e: e - q(s))
        yield (lambda s, q=q: bv64(1 << 62) - q(s))
    # trivial measures for pointer vs other pointer
    names = [k for k, v in hsnap.phi.items() if isinstance(v, Ptr)]
    for a in names:
        for b in names:
            if a != b and hsnap.phi[a].obj == hsnap.phi[b].obj:
                yield (lambda s, a=a, b=b: s.phi[b].off - s.phi[a].off)
