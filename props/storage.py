"""Specification of file storages, shared by C17 and C18: a storage is a sequence of files, each with a size and a padding flag."""
import z3, re
from vc import models, wordvec as W, entry as N
from vc.entry import fSize, fPad, fPath, fSym, fV2, PadE, STRIDE
from vc.sym import *
from vc.loops import Q, CandErr, quantities
from vc.ir import Unsupported
from .lib import *
SHA = 'dottorrent::sha1_hash'; HST = 32
VEC = re.compile(r'^std::vector<.*>::[^:<]*(<.*)?$')
def BOUNDARY(d):
    f = N.fname(d)
    return models.std_boundary(d) or bool(VEC.match(f)) or f.startswith('std::filesystem::') or f.startswith('dottorrent::file_entry::')
B64 = z3.BitVecSort(64); ARR = z3.ArraySort(B64, B64)
MAXF = 1 << 50      # files
MAXB = 1 << 62      # bytes
def kps(): return z3.ZeroExt(58, z3.BitVec('log2_piece_size', 6))
def PS(): return bv64(1) << kps()
def pdiv(x): return z3.LShR(x, kps())
def pmod(x): return x & (PS() - 1)
class Seq:
    """the files of a storage and the functions of their prefixes that the properties speak of"""
    def __init__(self, nm, arr=None, n=None, use='S'):
        self.use = use.split()
        self.nm = nm; self.A = arr if arr is not None else z3.Const('files_' + nm, ARR); self.n = n if n is not None else z3.BitVec('count_' + nm, 64)
        f = lambda x, s=B64: z3.Function(x + '_' + nm, B64, s)
        self.S, self.R, self.C, self.AL = f('sum'), f('regular_sum'), f('regular_count'), f('aligned', z3.BoolSort())
        self.V2 = f('all_v2', z3.BoolSort())
    def at(self, k): return z3.Select(self.A, k)
    def unfold(self, k):
        e = self.at(k); S, u = self.S, self.use; r = [z3.ULE(S(k), S(self.n)), z3.ULE(S(k+1), S(self.n)), z3.ULE(fSize(e), S(self.n) - S(k))]
        if 'C' in u: r.append(z3.ULE(self.C(k), k))
        if 'AL' in u: r.append(self.AL(k+1) == z3.And(self.AL(k), z3.Or(fPad(e), pmod(S(k)) == 0))); r.append(z3.Implies(self.AL(self.n), self.AL(k+1)))
        if 'V2' in u: r.append(self.V2(k+1) == z3.And(self.V2(k), z3.Or(fPad(e), fSym(e), fSize(e) == 0, fV2(e)))); r.append(z3.Implies(self.V2(self.n), self.V2(k+1)))
        return [z3.Implies(z3.ULT(k, self.n), z3.And(*r))]
    def sums(self): return [x for x in (('S', 'sum', self.S, lambda e: fSize(e)), ('R', 'regular sum', self.R, lambda e: z3.If(fPad(e), bv64(0), fSize(e))), ('C', 'regular count', self.C, lambda e: z3.If(fPad(e), bv64(0), bv64(1)))) if x[0] in self.use]
    def total(self, F, term, k, d):
        """F(k+d) from F(k)"""
        r = F(k)
        for i in range(d): r = r + term(self.at(simp(k+i)))
        return simp(r)
    def walk(self, k, lo=-1, hi=4):
        """facts about the prefixes that end near k"""
        fs = []
        for d in range(lo, hi): fs += self.unfold(simp(k+d))
        for _, _, F, t in self.sums():
            for d in range(1, hi+1): fs.append(z3.Implies(z3.And(z3.ULT(k, self.n), z3.ULE(bv64(d), self.n - k)), F(simp(k+d)) == self.total(F, t, k, d)))
            fs.append(z3.Implies(z3.And(k != 0, z3.ULE(k, self.n)), F(k) == F(simp(k-1)) + t(self.at(simp(k-1)))))
        return fs
    def base(self): return [self.S(0) == 0, self.R(0) == 0, self.C(0) == 0, self.AL(0), self.V2(0), z3.ULE(self.n, bv64(MAXF)), z3.ULT(self.S(self.n), bv64(MAXB))]
def flag_lemma():
    """a flag of all files is a flag of every prefix (used by unfold)"""
    F = z3.Function('flag', B64, z3.BoolSort()); t = z3.Function('of_file', B64, z3.BoolSort()); k, n = z3.BitVecs('k n', 64); P = lambda k: z3.Implies(F(n), F(k))
    return Lemma('lemma: a flag of all files', lambda: [('all files', P(n), []), ('one file fewer', P(k), [z3.ULT(k, n), z3.ULE(n, bv64(MAXF)), F(k+1) == z3.And(F(k), t(k)), P(k+1)])], 'what holds of every file holds of the files of every prefix')
def ulong(): return 'unsigned long'
MODELS_ = None
class Given:
    def __init__(self, v): self.v = v
    def same(self, o): return self is o
    def havoc(self, ex, st, g): return self
    def quantities(self, g): return {}
def any_(ex, st, a, ins, d):
    """any history: any files, any piece hashes, any values of the other members"""
    p = a[0]; nm = ex.obj(st, p.obj).name; q = Seq(nm); found = []
    for k in [k for k in st.ghost if k[1] == p.obj]:
        v = st.ghost[k]
        if k[0] == 'wvec' and v.opq:
            found.append(k); W.drop(ex, st, v); W.new(ex, st, Ptr(p.obj, bv64(k[2])), q.n, q.A, v.ws, True)
        elif k[0] == 'wvec':
            ln = z3.BitVec(f'len_{nm}_{k[2]}', 64); st.assume(z3.ULE(ln, bv64(MAXF))); W.drop(ex, st, v)
            W.new(ex, st, Ptr(p.obj, bv64(k[2])), ln, z3.Const(f'arr_{nm}_{k[2]}', W.arr(ex, st, v).sort()), v.ws); w = st.ghost[k]; a = W.arr(ex, st, w)
            if a.sort().range().size() == 160: st.ghost[('given', nm)] = Given((ln, a))
        elif k[0] == 'path': st.ghost[k] = N.Val(z3.BitVec(f'path_{nm}', 64))
    if len(found) != 1: raise Unsupported('representation of the storage not recognised')
    o = ex.wobj(st, p.obj); inside = lambda f: any(k[2] <= f < k[2] + (24 if k[0] == 'wvec' else 40) for k in st.ghost if k[1] == p.obj and k[0] in ('wvec', 'path'))
    for f, (n, v) in list(o.cells.items()):
        if isinstance(v, z3.BitVecRef) and not inside(f): o.cells[f] = (n, z3.BitVec(f'cell_{nm}_{f}', v.size()))
    for f in q.base(): st.assume(f)
    return [(st, None)]
def size_(ex, st, a, ins, d): st.assume(z3.UGE(kps(), 14)); st.assume(z3.ULE(kps(), 62)); return [(st, PS())]
def valid_(ex, st, a, ins, d): st.assume(a[0] == Seq('s').S(Seq('s').n)); return [(st, None)]
def assume_(ex, st, a, ins, d): st.assume(retbool(a[0])); return [(st, None)]
MODELS_ = [(re.compile('^vc_assume$'), assume_, None), (re.compile('^vc_any$'), any_, None), (re.compile('^vc_size$'), size_, None), (re.compile('^vc_valid$'), valid_, None)] + N.T \
    + W.models_for((N.ENT, STRIDE, N.EntEl()), (SHA, HST, W.El(HST, 160)), ('unsigned long', 8))
KW = dict(models_=MODELS_, cut_all=True, strategy=('inv', 'inv2'))
def prepare(ex):
    names = {n for n in ex.m.types if re.search(r'^%"(class|struct)\.dottorrent::(file_entry|sha1_hash)"$', n)}
    ex.m.absz = {n: STRIDE if 'file_entry' in n else HST for n in names}
def fsize(ex): return cval(ex.load(State(), ex.global_ptr('vc_fsize'), INT(64)))
def storage(ex, st, nm='s'): return ex.new_obj(st, nm, fsize(ex))
def files(ex, st, o):
    ks = [k for k in st.ghost if k[0] == 'wvec' and k[1] == o and st.ghost[k].opq]
    if len(ks) != 1: raise Unsupported('representation of the storage not recognised')
    v = st.ghost[ks[0]]; return v.len, W.arr(ex, st, v), v.buf
def hashes(ex, st, o):
    ks = [k for k in st.ghost if k[0] == 'wvec' and k[1] == o and not st.ghost[k].opq and W.arr(ex, st, st.ghost[k]).sort().range().size() == 160]
    if len(ks) != 1: raise Unsupported('representation of the storage not recognised')
    v = st.ghost[ks[0]]; return v.len, W.arr(ex, st, v), v.buf
def entry(ex, st, nm='e'):
    o = ex.new_obj(st, nm, STRIDE); id = z3.BitVec('entry_' + nm, 64); st.ghost[('ent', o, 0)] = N.Val(id); return o, id
class Files:
    """loop specification: loop variables that walk over the files denote a position; sums, counts and flags so far are those of the prefix"""
    ground = True; lazy = True; solve_eqs = True; reach = 4; split = z3.BitVec('log2_piece_size', 6)
    def __init__(self, seqs, pred=None, outs=(), lims=()): self.seqs = seqs; self.pred = pred; self.lims = lims; self.outs = outs; self.probes = []
    def bounds(self, ex): return []
    def bind(self, ex, snap, wobjs=(), wghost=()):
        r = []
        for k, v in snap.phi.items():
            if isinstance(v, Ptr) and v.obj not in (None, 0):
                o = ex.obj(snap.st, v.obj)
                if o.mode == 'words' and o.opaque: r.append((f'pos({k})', lambda s, k=k: self.pos(s.phi[k])))
        known = ex.steps.get(tuple(snap.phi)) if not ex.level else None
        for k, v in snap.phi.items() if ex.level or not r else ():
            if isinstance(v, z3.BitVecRef) and v.size() == 64 and (not known or k in known): r.append((k, lambda s, k=k: s.phi[k]))
        if not r: r.append(('iteration', lambda s: s.it))
        if ex.level or not r:
            for q in self.seqs: r += [(f'n-{nm}', lambda s, b=b, q=q: q.n - b(s)) for nm, b in list(r)]
            for nm, q in quantities(ex, snap, wobjs, wghost).items():
                if nm.startswith('mem'): r.append((nm, q))
        return r
    def measures(self, ex, h):
        for nm, b in self.bind(ex, h):
            for l in list(self.lims) + [q.n for q in self.seqs]:
                def m(s, b=b, l=l):
                    try: return l - b(s)
                    except CandErr: raise KeyError(nm)
                yield m
    @staticmethod
    def pos(p):
        x = elem_index(z3.simplify(p.off, mul2concat=True), 9)
        if x is None: raise CandErr()
        return x
    def facts(self, ex, snap):
        fs = []
        for nm, b in self.bind(ex, snap):
            try: k = simp(b(snap))
            except (CandErr, KeyError): continue
            for q in self.seqs: fs += q.walk(k, hi=4 if ex.level else self.reach)
        return fs
    def unfold_at(self, t): return [f for q in self.seqs for f in q.walk(t, hi=1)]
    def candidates(self, ex, fn, header, esnap, hsnap, wobjs, wghost):
        small = bv64(1 << 54)
        for nm, b, c in self.cands(ex, fn, header, esnap, hsnap, wobjs, wghost):
            # a position read off a pointer is its element index (no wrap-around)
            yield (nm, lambda s, b=b, c=c: self.guard(z3.ULE(b(s), small), c(s)))
    @staticmethod
    def guard(g, f): return Q(f.j, z3.And(g, f.body), f.arr) if isinstance(f, Q) else z3.And(g, f)
    def prefix(self, q, F, term, b, s, h):
        t = simp(b(s)); k = simp(b(h)); d = simp(t - k)
        if isconst(d) and 0 < cval(d) <= 16: return z3.If(z3.And(z3.ULT(k, q.n), z3.ULE(d, q.n - k)), q.total(F, term, k, cval(d)), F(t))
        return F(t)
    def cands(self, ex, fn, header, esnap, hsnap, wobjs, wghost):
        j = z3.BitVec('j!inv', 64); qs = quantities(ex, hsnap, wobjs, wghost)
        flags = [(k, lambda s, k=k: s.phi[k] != 0) for k, v in hsnap.phi.items() if isinstance(v, z3.BitVecRef) and v.size() in (1, 8)]
        for oid, offs in wobjs.items():
            for f in offs or ():
                c = ex.obj(hsnap.st, oid).cells.get(f)
                if c is not None and c[0] == 1:
                    def g(s, oid=oid, f=f):
                        c = ex.obj(s.st, oid).cells.get(f)
                        if c is None or not isinstance(c[1], z3.BitVecRef): raise CandErr()
                        return c[1] != 0
                    flags.append((f'mem{oid}+{f}', g))
        for bn, b in self.bind(ex, hsnap, wobjs, wghost):
            for l in self.lims: yield (f'k:={bn} <= {l}', b, lambda s, b=b, l=l: z3.ULE(b(s), l))
            for q in self.seqs:
                yield (f'k:={bn} <= files of {q.nm}', b, lambda s, b=b, q=q: z3.ULE(b(s), q.n))
                for qn, v in qs.items():
                    for _, fn_, F, t in q.sums(): yield (f'k:={bn}: {qn} = {fn_} of {q.nm}', b, lambda s, b=b, v=v, F=F, t=t, q=q: v(s) == self.prefix(q, F, t, b, s, hsnap))
                for n, v in flags if 'AL' in q.use else ():
                    yield (f'k:={bn}: {n} = aligned', b, lambda s, b=b, v=v, q=q: v(s) == q.AL(b(s)))
                if 'AL' in q.use: yield (f'k:={bn}: aligned so far', b, lambda s, b=b, q=q: q.AL(b(s)))
                if 'V2' in q.use: yield (f'k:={bn}: v2 so far', b, lambda s, b=b, q=q: q.V2(b(s)))
                for n, v in flags: yield (f'k:={bn}: {n} only at the start', b, lambda s, b=b, v=v: z3.Or(b(s) == 0, z3.Not(v(s))))
                if self.pred is not None: yield (f'k:={bn}: none before', b, lambda s, b=b, q=q: Q(j, z3.Implies(z3.ULT(j, b(s)), z3.Not(self.pred(q.at(j)))), q.A))
                for g in wghost:
                    if g[0] != 'wvec': continue
                    def ln(s, g=g):
                        v = s.st.ghost.get(g)
                        if v is None: raise CandErr()
                        return v.len
                    yield (f'k:={bn}: length of {g[1:]}', b, lambda s, b=b, ln=ln: ln(s) == b(s))
                    for on, O in self.outs: yield (f'k:={bn}: {g[1:]} holds {on}', b, self.holds(ex, g, O))
            if self.extra_c is not None: yield from self.extra_c(self, ex, bn, b, hsnap, wobjs, wghost)
    extra_c = None
    def holds(self, ex, g, O):
        j = z3.BitVec('j!inv', 64)
        def c(s):
            v = s.st.ghost.get(g)
            if v is None: raise CandErr()
            a = W.arr(ex, s.st, v)
            if a.sort() != ARR: raise CandErr()
            return Q(j, z3.Implies(z3.ULT(j, v.len), z3.Select(a, j) == O(j)), a)
        return c
def consts(t, seen=None, out=None):
    """the constants of a term"""
    seen = set() if seen is None else seen; out = [] if out is None else out
    if t.get_id() in seen: return out
    seen.add(t.get_id())
    if z3.is_app(t) and t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(t)
    for x in t.children(): consts(x, seen, out)
    return out
def settled(ex, st, nm, terms, targets, hyps, goal):
    """terms with the loops' final values replaced by what the invariants say they are (each replacement an obligation of its own), and goal(terms) an obligation over hyps alone;
    where that does not settle it, goal over everything known on the path"""
    done = []; ts = [simp(t) for t in terms]; known = [f for f in st.pc + st.facts if not z3.is_quantifier(f)]
    for v in {c.get_id(): c for t in ts for c in consts(t)}.values():
        if v.sort() != B64 or any(v.eq(x) for x in targets): continue
        for x in targets:
            if ex.sol.check(known + [v != x], 1500) == z3.unsat: done.append((v, x)); break
    if done:
        us = [z3.substitute(t, *done) for t in ts]; g = simp(goal(*us)); k = z3.BitVec('log2_piece_size', 6); ok = all(ex.sol.check([z3.substitute(f, (k, BV(e, 6))) for f in hyps + [z3.Not(g)]], 2000) == z3.unsat for e in range(14, 63))
        if ok:
            ex.oblige(st, 'piece size and sums in range', z3.And(z3.UGE(kps(), 14), z3.ULE(kps(), 62), *hyps))
            for v, x in done: ex.oblige(st, 'value after the loops', v == x)
            fn = ex.obligs[-1].fn; ex.obligs += [Oblig('%s (piece size 2^%d)' % (nm, e), [z3.substitute(h, (k, BV(e, 6))) for h in hyps], z3.substitute(g, (k, BV(e, 6))), 'post', fn) for e in range(14, 63)]
            return
    ex.oblige(st, nm, goal(*terms))
