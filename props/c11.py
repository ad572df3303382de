from .lib import *
from vc import heap
ID = 'C11'
TITLE = 'Aligned storage is aligned, large enough, or refused with an exception'
HARNESS = 'alloc.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='alloc.cpp', libs=['-Wl,--wrap=aligned_alloc', '-Wl,--wrap=posix_memalign', '-Wl,--wrap=malloc'])
FUNCTIONS = ['aligned_allocator<T, A>::allocate (both), deallocate, max_size, construct, destroy, address, ==, !=, converting constructor; for (byte,16) (byte,64) (char,4096) (unsigned,64) (unsigned long,8) (24 byte struct,32) (7 byte struct,128)']
ASSUMPTIONS = ['the alignment promised is the template argument']
INST = [('b16', 1, 16), ('b64', 1, 64), ('c4096', 1, 4096), ('u32', 4, 64), ('u64', 8, 8), ('s24', 24, 32), ('s7', 7, 128)]
LIM = (1 << 64) - 1
def heap_live(st): return [i for i, o in st.mem.items() if o.alive and o.name == 'heap']
def throws_ok(ex, o, n, sz):
    big = z3.UGT(n, bv64(LIM // sz))
    isa = lambda b: ex.exc_isa(o.exc['type'], b)
    ex.oblige(o.st, 'refused only when the size overflows or memory is exhausted', z3.Or(big, z3.BoolVal(heap.failures(o.st) > 0)))
    ex.oblige(o.st, 'overflow is a length error, exhaustion a bad allocation', z3.And(z3.Implies(big, z3.BoolVal(isa('St12length_error'))), z3.Implies(z3.Not(big), z3.BoolVal(isa('St9bad_alloc')))))
    ex.oblige(o.st, 'nothing is leaked when the request is refused', not heap_live(o.st))
def setup(hint=False):
    def s(ex, st):
        n = z3.BitVec('n', 64); a = [n]
        if hint: a.append(Ptr(0, bv64(0)))
        return a, None, dict(n=n)
    return s
def alloc_post(sz, al):
    def post(ex, o, c):
        n = c['n']
        if o.kind == 'throw': return throws_ok(ex, o, n, sz)
        p = o.val
        ex.oblige(o.st, 'an oversized request is refused', z3.ULE(n, bv64(LIM // sz)))
        if p.obj in (None, 0):
            ex.oblige(o.st, 'null only for a request for nothing', z3.And(n == 0, p.off == 0)); ex.oblige(o.st, 'nothing is leaked', not heap_live(o.st)); return
        r = o.st.ghost.get(('heap', p.obj))
        ex.oblige(o.st, 'a request for nothing gives no storage', n != 0)
        ex.oblige(o.st, 'the result is the start of one fresh allocation', z3.And(z3.BoolVal(r is not None and heap_live(o.st) == [p.obj]), p.off == 0))
        if r is None: return
        size = ex.obj(o.st, p.obj).size; size = bv64(size) if isinstance(size, int) else size
        full = z3.ZeroExt(64, n) * z3.BitVecVal(sz, 128)
        ex.oblige(o.st, 'room for n elements', z3.UGE(z3.ZeroExt(64, size), full))
        ex.oblige(o.st, 'aligned as promised', z3.And(z3.URem(r.align, bv64(al)) == 0, r.align != 0))
    return post
def max_post(sz):
    def post(ex, o, c):
        ex.oblige(o.st, 'exact maximum', z3.And(z3.BoolVal(o.kind == 'ret'), o.val == bv64(LIM // sz)))
    return post
def round_post(sz):
    def post(ex, o, c):
        if o.kind == 'throw': return throws_ok(ex, o, c['n'], sz)
        ex.oblige(o.st, 'everything is released', not heap_live(o.st))
    return post
def true_post(ex, o, c): ex.oblige(o.st, 'true', z3.And(z3.BoolVal(o.kind == 'ret'), retbool(o.val)))
def cons_setup(sz):
    def s(ex, st):
        p = ex.new_obj(st, 'p', sz); v, V = bytes_obj(ex, st, 'V', bv64(sz)); return [P0(p), P0(v)], None, dict(p=p, V=V, sz=sz)
    return s
def cons_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret'); f = out_bytes(ex, o.st, c['p'])
    ex.oblige(o.st, 'the element is a copy', z3.And(*[f(bv64(i)) == z3.Select(c['V'], bv64(i)) for i in range(c['sz'])]))
def cex(k, nm): return lambda ex, m, c: [[k, nm, str(m.eval(c['n'], model_completion=True).as_long())]]
def contracts(tier):
    r = []; U = dict(strategy=('unroll',), models_=heap.WITH_HEAP)
    for nm, sz, al in INST:
        t = f'<{nm}>'
        r += [Contract('allocate' + t, 'vc_alloc_' + nm, setup(), alloc_post(sz, al), 'ensures aligned storage for n, or length_error/bad_alloc', cex=cex('alloc', nm), **U),
              Contract('allocate with hint' + t, 'vc_hint_' + nm, setup(True), alloc_post(sz, al), 'ensures as allocate', cex=cex('alloc', nm), **U),
              Contract('max_size' + t, 'vc_max_' + nm, lambda ex, st: ([], None, {}), max_post(sz), 'ensures (2^64-1)/sizeof(T)', **U),
              Contract('allocate, deallocate' + t, 'vc_round_' + nm, setup(), round_post(sz), 'ensures no storage left', cex=cex('round', nm), **U),
              Contract('rebound allocate, deallocate' + t, 'vc_rebind_' + nm, setup(), round_post(24), 'ensures no storage left', cex=cex('round', nm), **U),
              Contract('comparison' + t, 'vc_eq_' + nm, lambda ex, st: ([], None, {}), true_post, 'all instances are equal', **U),
              Contract('construct, destroy' + t, 'vc_cons_' + nm, cons_setup(sz), cons_post, 'ensures a copy of the value', **U),
              Contract('address' + t, 'vc_addr_' + nm, lambda ex, st, sz=sz: ([P0(ex.new_obj(st, 'p', sz))], None, {}), true_post, 'ensures the address of its argument', **U)]
    return r
