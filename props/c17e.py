"""File entries: the contracts that props/storage.py (vc/entry.py) uses for them, proved on their bodies.  Entries without checksums: the
map of checksums is abstract and empty (entries with checksums are exercised by the native validation only)."""
import z3, re
from vc import models, wordvec as W, entry as N
from vc.sym import *
from vc.ir import Unsupported
from .lib import *
HARNESS = 'entry.cpp'
def BOUNDARY(d):
    f = N.fname(d)
    return models.std_boundary(d) or bool(re.match(r'^std::(vector<.*>|map<.*>|mutex)::[^:<]*(<.*)?$', f)) or f.startswith('std::filesystem::') or f.startswith('dottorrent::make_checksum') or f.startswith('std::_Rb_tree')
LM = 'std::map: entries without checksums (the map is empty), and what it does with no elements'
T = [t for t in N.T if t[2] == N.LP] + [(re.compile(N.P_), N.other, None)]
def mm(rx):
    def reg(f): T.append((re.compile(r'^([^(]* )?std::map<.*>::' + rx), f, LM)); return f
    return reg
def key(p): return N.gkey('map', p)
def alive(ex, st, p):
    if key(p) not in st.ghost: ex.oblige(st, 'std::map object is alive and initialised', False, 'mem'); raise PathEnd()
def init(st, p): st.ghost[key(p)] = N.Val(bv64(0)); st.written.add(p.obj)
@mm(r'map\(\)$')
def _m0(ex, st, a, ins, d): init(st, a[0]); return [(st, None)]
@mm(r'map\(std::map<.*>&&\)$')
def _m1(ex, st, a, ins, d): alive(ex, st, a[1]); init(st, a[0]); return [(st, None)]
@mm(r'~map\(\)$')
def _m2(ex, st, a, ins, d): alive(ex, st, a[0]); del st.ghost[key(a[0])]; return [(st, None)]
@mm(r'operator=\(std::map<.*>&&\)$')
def _m3(ex, st, a, ins, d): alive(ex, st, a[0]); alive(ex, st, a[1]); return [(st, a[0])]
@mm(r'clear\(\)$')
def _m4(ex, st, a, ins, d): alive(ex, st, a[0]); return [(st, None)]
@mm(r'c?(begin|end)\(\)( const)?$')
def _m5(ex, st, a, ins, d): alive(ex, st, a[0]); return [(st, Ptr(a[0].obj, simp(a[0].off + 8)))]
@mm(r'empty\(\) const$')
def _m6(ex, st, a, ins, d): alive(ex, st, a[0]); return [(st, BV(1, 1))]
T.append((re.compile(r'^std::mutex::mutex\(\)'), lambda ex, st, a, ins, d: [(st, None)], 'std::mutex: construction has no effect on the entry'))
T.append((re.compile(r'^std::(map|_Rb_tree)|^([^(]* )?std::map<'), N.other, None))
MODELS = T + W.models_for(('dottorrent::sha256_hash', 32, W.El(32)))
KW = dict(models_=MODELS)
class G:
    """arguments of an entry: any values that the constructor accepts"""
    def __init__(self, ex, st, nm):
        B = lambda x, n=64: z3.BitVec(f'{nm}_{x}', n); f = lambda x: B(x, 1)
        self.size, self.attr, self.time, self.count, self.root = B('size'), B('attr', 32), B('time'), B('count'), B('root', 256)
        self.ha, self.hl, self.hr, self.hy, self.ht = (f(x) for x in ('has_attr', 'has_link', 'has_root', 'has_layer', 'has_time'))
        self.path, self.link = B('path'), B('link'); st.assume(z3.ULE(self.count, bv64(1 << 50))); st.assume(z3.ULE(self.attr, 15))
        sym = z3.And(self.ha == 1, self.attr & 1 == 1); st.assume(z3.Implies(sym, z3.And(self.hl == 1, self.size == 0)))
        def path(id): o = ex.new_obj(st, nm + '_path', 40, ro=True); st.ghost[('path', o, 0)] = N.Val(id); return P0(o)
        h = ex.new_obj(st, nm + '_hash', 32, ro=True); ex.cell_write(st.mem[h], 0, 32, self.root)
        self.arr = z3.Const(nm + '_hashes', W.sort(32)); y = ex.new_obj(st, nm + '_hashes', simp(self.count*32), mode='words', arr=self.arr, ro=True); st.mem[y].ws = 32
        g = ex.new_obj(st, nm, 96); w = lambda o, n, v: ex.cell_write(st.mem[g], o, n, v); b = lambda x: z3.ZeroExt(7, x)
        w(0, 8, path(self.path)); w(8, 8, self.size); w(16, 1, b(self.ha)); w(20, 4, self.attr); w(24, 1, b(self.hl)); w(32, 8, path(self.link)); w(40, 1, b(self.hr)); w(48, 8, P0(h)); w(56, 1, b(self.hy)); w(64, 8, P0(y)); w(72, 8, self.count); w(80, 1, b(self.ht)); w(88, 8, self.time)
        self.p = P0(g)
    @property
    def v2(self): return z3.Or(self.hr == 1, self.hy == 1)
    def has(self, m): return z3.And(self.ha == 1, self.attr & m == m)
def sees(ex, st, s, g, who='the entry'):
    """what look() stored in s are the arguments g"""
    L = lambda o, n: ex.load(st, Ptr(s.obj, bv64(o)), INT(8*n)); b = lambda o: simp(L(o, 1)) != 0
    def O(nm, f): ex.oblige(st, f'{who}: {nm}', f)
    p = ex.load(st, Ptr(s.obj, bv64(0)), PTR); O('path', N.rd(ex, st, p, 'path') == g.path); O('size', L(8, 8) == g.size)
    O('attributes', z3.And(b(16) == (g.ha == 1), z3.Implies(g.ha == 1, L(20, 4) == g.attr))); O('symlink path', z3.And(b(24) == (g.hl == 1), z3.Implies(g.hl == 1, b(25))))
    O('v2 data', z3.And(b(26) == g.v2, b(27) == z3.Not(g.v2))); O('time', z3.And(b(56) == (g.ht == 1), z3.Implies(g.ht == 1, L(64, 8) == g.time)))
    for o, m, nm in ((72, 1, 'symlink'), (73, 2, 'executable'), (74, 4, 'hidden'), (75, 8, 'padding')): O(f'{nm} flag', b(o) == g.has(m))
    r = ex.load(st, Ptr(s.obj, bv64(32)), PTR); y = ex.load(st, Ptr(s.obj, bv64(40)), PTR); n = simp(L(48, 8)); thrown = simp(L(27, 1))
    if not isconst(thrown): raise Unsupported('outcome')
    if cval(thrown) == 0:
        O('root', ex.load(st, r, INT(256)) == z3.If(g.hr == 1, g.root, BV(0, 256))); O('number of layer hashes', n == z3.If(g.hy == 1, g.count, bv64(0)))
        if y.obj in (None, 0): O('layer hashes', n == 0)
        else:
            o = ex.obj(st, y.obj); i = fresh('p'); O('layer hashes', z3.Implies(z3.ULT(i, n), z3.And(y.off == 0, z3.ULE(n*32, o.size), z3.Select(o.arr, i) == z3.Select(g.arr, i))))
def con(ents, givens, seens, outs=0):
    def s(ex, st):
        fs = lambda x: cval(ex.load(State(), ex.global_ptr(x), INT(64))); c = {}
        if fs('vc_gsize') != 96 or fs('vc_ssize') != 80: raise Unsupported('harness layout')
        es = [P0(ex.new_obj(st, f'e{i}', fs('vc_esize'))) for i in range(ents)]; gs = [G(ex, st, f'g{i}') for i in range(givens)]; ss = [P0(ex.new_obj(st, f's{i}', 80)) for i in range(seens)]
        os = [P0(ex.new_obj(st, 'out', 64))] if outs else []; c.update(e=es, g=gs, s=ss, o=os); return es + [g.p for g in gs] + ss + os, None, c
    return s
def post(srcs, moved=False):
    def p(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind != 'ret': return
        for s, who in zip(c['s'], srcs): sees(ex, o.st, s, c['g'][0], who)
        if moved:
            w = lambda i: ex.load(o.st, Ptr(c['o'][0].obj, bv64(8*i)), INT(64)); g = c['g'][0]
            ex.oblige(o.st, 'the source keeps its size', w(0) == g.size); ex.oblige(o.st, 'the source keeps its padding flag', (w(1) != 0) == g.has(8))
    return p
def eq_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind == 'ret': ex.oblige(o.st, 'equal exactly when the paths are', retbool(o.val) == (c['g'][0].path == c['g'][1].path))
def pad_setup(ex, st):
    n = z3.BitVec('n', 64); e = P0(ex.new_obj(st, 'e', cval(ex.load(State(), ex.global_ptr('vc_esize'), INT(64))))); o = P0(ex.new_obj(st, 'out', 64)); return [e, n, o], None, dict(n=n, o=o)
def pad_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind == 'ret':
        w = lambda i: ex.load(o.st, Ptr(c['o'].obj, bv64(8*i)), INT(64))
        for i, v, nm in ((0, c['n'], 'has that size'), (1, 1, 'is a padding file'), (2, 0, 'has no v2 data'), (3, 0, 'is no symlink')): ex.oblige(o.st, nm, w(i) == v)
def contracts(tier):
    r = []
    def C(n, e, s, p, txt): r.append(Contract('file_entry: ' + n, 'vc_' + e, s, p, txt, harness=HARNESS, **KW))
    C('construction and setters', 'make', con(1, 1, 1), post(['the entry']), 'requires symlinks to have a target and size 0; ensures every observer returns what was given')
    C('copy construction', 'copy', con(2, 1, 2), post(['the copy', 'the original']), 'ensures the copy and the original are as the original was')
    C('move construction', 'move', con(2, 1, 1, 1), post(['the new entry'], True), 'ensures the new entry is as the source was, which keeps size and padding flag')
    C('copy assignment', 'assign', con(2, 2, 2), post(['the target', 'the source']), 'requires a target with all or none of its optional v2 data and time; ensures the target and the source are as the source was')
    C('move assignment', 'massign', con(2, 2, 1, 1), post(['the target'], True), 'requires a target with all or none of its optional v2 data and time; ensures the target is as the source was, which keeps size and padding flag')
    C('assignment to itself', 'self', con(1, 1, 1), post(['the entry']), 'ensures nothing changes')
    C('move assignment to itself', 'mself', con(1, 1, 1), post(['the entry']), 'ensures nothing changes')
    C('operator==', 'eq', con(2, 2, 0), eq_post, 'ensures equality of the paths')
    C('make_padding_file_entry', 'pad', pad_setup, pad_post, 'ensures a padding file of that size')
    return r
