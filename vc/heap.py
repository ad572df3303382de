"""Assumed contracts of the allocation functions, with failure: every allocation is explored both ways.  Opt-in (state ghost ('heapfaults',))."""
from .sym import *
from .sym import PathEnd
from .models import MODELS, G, szof, MAXLEN
import re
LBL = 'aligned_alloc, posix_memalign, malloc, aligned operator new: null or an aligned fresh object of the size asked for'
class Rec:
    def __init__(self, align, family): self.align, self.family = align, family
    def same(self, o): return self is o
    def havoc(self, ex, st, g): return self
    def quantities(self, g): return {}
def failures(st):
    g = st.ghost.get(('allocfail',)); return g.v if g else 0
def mk(ex, st, size, align, family):
    size = simp(size)
    i = ex.new_obj(st, 'heap', cval(size) if isconst(size) and cval(size) < 1 << 20 else size, **({} if isconst(size) and cval(size) < 1 << 20 else dict(mode='array', arr=fresh_arr('heap'))))
    st.ghost[('heap', i)] = Rec(simp(align), family); return Ptr(i, bv64(0))
def failed(st):
    s = st.fork(); s.ghost[('allocfail',)] = G(failures(st)+1); return s
def pow2(a): return z3.And(a != 0, (a & (a-1)) == 0)
def aligned(ex, st, a, ins, d):
    ex.oblige(st, 'aligned_alloc: alignment is a power of two', pow2(a[0]), 'mem')
    s2 = failed(st); return [(st, mk(ex, st, a[1], a[0], 'c')), (s2, Ptr(0, bv64(0)))]
def pmem(ex, st, a, ins, d):
    ex.oblige(st, 'posix_memalign: alignment is a power of two of at least a word', z3.And(pow2(a[1]), z3.UGE(a[1], 8)), 'mem')
    s2 = failed(st); ex.store(st, a[0], PTR, mk(ex, st, a[2], a[1], 'c')); return [(st, BV(0, 32)), (s2, BV(12, 32))]
def mall(ex, st, a, ins, d):
    s2 = failed(st); return [(st, mk(ex, st, a[0], bv64(16), 'c')), (s2, Ptr(0, bv64(0)))]
def opnew(ex, st, a, ins, d):
    s2 = failed(st); return [(st, mk(ex, st, a[0], bv64(16), 'new')), (s2, None, {'type': 'St9bad_alloc'})]
def opnewa(ex, st, a, ins, d):
    s2 = failed(st); return [(st, mk(ex, st, a[0], a[1], 'anew')), (s2, None, {'type': 'St9bad_alloc'})]
def rel(family):
    def f(ex, st, a, ins, d):
        p = a[0]
        if p.obj in (None, 0): return [(st, None)]
        r = st.ghost.get(('heap', p.obj)); o = ex.obj(st, p.obj)
        ok = r is not None and o.alive and r.family == family
        ex.oblige(st, 'storage is released by the matching function, once', z3.And(z3.BoolVal(ok), p.off == 0), 'mem')
        if not ok: raise PathEnd()
        o = o.copy(); o.alive = False; st.mem[p.obj] = o; return [(st, None)]
    return f
HEAP = [(re.compile(x), f, LBL) for x, f in ((r'^aligned_alloc$|^memalign$', aligned), (r'^posix_memalign$', pmem), (r'^malloc$', mall), (r'^operator new(\[\])?\(unsigned long\)$', opnew),
        (r'^operator new(\[\])?\(unsigned long, std::align_val_t\)$', opnewa), (r'^free$', rel('c')), (r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$', rel('new')), (r'^operator delete(\[\])?\(void\*(, unsigned long)?, std::align_val_t\)$', rel('anew')))]
WITH_HEAP = HEAP + MODELS
