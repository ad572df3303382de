from .lib import *
from vc import heap
from vc.models import G, MODELS
import re
ID = 'C10'
TITLE = 'The object pool never exceeds its capacity and reuses returned objects safely'
HARNESS = 'pool.cpp'
def BOUNDARY(d): return models.std_boundary(d) or d.split('(')[0].startswith('dottorrent::concurrent_queue<')
def KEEP(d): return d.startswith('std::_Sp_counted_base<') and '~' not in d and '::_M_' in d
NATIVE = dict(src='pool.cpp', libs=['-pthread'])
FUNCTIONS = ['object_pool<T, Policy>: constructors, move construction, destructor, get, size', 'object_pool::impl: constructors, get, recycle, destructor', 'object_pool::deleter', 'object_pool_policy::construct, recycle', 'libstdc++ shared_ptr / weak_ptr / enable_shared_from_this (executed, not assumed)']
ASSUMPTIONS = ['requests are made one at a time (get() is documented as not thread-safe); objects are returned from any thread at any time', 'Policy::recycle does not throw; there is memory to put an object back (queue insertion in the deleter)',
    'the queue behaves as its contract C09 says', 'capacity below 2^40', 'object_pool::clear and capacity() cannot be instantiated (they use queue functions that do not exist) and are not covered']
Z = z3.BoolVal
class Led:
    """ledger: idle = handles in the free list (newest last), held = object addresses handed out, made/gone = objects of this pool"""
    def __init__(self): self.idle = (); self.pushed = (); self.live = (); self.rec = (); self.any = False; self.L = None; self.cap = None; self.q = None; self.L0 = None; self.base = 0; self.held = (); self.tried = False; self.npush = bv64(0); self.qdead = False; self.taken = 0
    def copy(self):
        n = Led(); n.__dict__.update(self.__dict__); return n
    def same(self, o): return self is o
    def havoc(self, ex, st, g):
        n = self.copy(); n.npush = fresh('pushes'); return n
    def quantities(self, g):
        return {'objects in the queue': lambda s: s.st.ghost[g].npush}
K = ('ledger',)
def led(st):
    if K not in st.ghost: st.ghost[K] = Led()
    return st.ghost[K]
def upd(st, **kw):
    l = led(st).copy(); l.__dict__.update(kw); st.ghost[K] = l; return l
def addr(p): return (p.obj, cval(simp(p.off)))
def left_cell(ex, st):
    l = led(st); return ex.load(st, Ptr(l.L[0], bv64(l.L[1])), INT(64))
def sp(ex, st, p): return ex.load(st, p, PTR), ex.load(st, Ptr(p.obj, simp(p.off+8)), PTR)
def set_sp(ex, st, p, v): ex.store(st, p, PTR, v[0]); ex.store(st, Ptr(p.obj, simp(p.off+8)), PTR, v[1])
NUL = Ptr(0, bv64(0))
def uses(ex, st, ctrl): return ex.load(st, Ptr(ctrl.obj, simp(ctrl.off+8)), INT(32)), ex.load(st, Ptr(ctrl.obj, simp(ctrl.off+12)), INT(32))
# ---------------------------------------------------------------- observed objects
def made(ex, st, a, ins, d):
    l = led(st); upd(st, live=l.live+(addr(a[0]),)); return [(st, None)]
def gone(ex, st, a, ins, d):
    l = led(st); x = addr(a[0]); ok = x in l.live
    ex.oblige(st, 'an object is destroyed once', ok)
    if not ok: raise PathEnd()
    ex.oblige(st, 'an idle object is not destroyed by its last holder', x not in {addr(v[0]) for v in l.idle} or l.qdead)
    upd(st, live=tuple(y for y in l.live if y != x)); return [(st, None)]
def recycled(ex, st, a, ins, d):
    l = led(st); upd(st, rec=l.rec+(addr(a[0]),)); return [(st, None)]
# ---------------------------------------------------------------- the queue, by its contract (C09)
def q_ctor(ex, st, a, ins, d): upd(st, q=addr(a[0]), cap=a[1]); return [(st, None)]
def isq(ex, st, a):
    if addr(a[0]) != led(st).q: raise Unsupported('a second queue')
    if led(st).qdead: ex.oblige(st, 'the queue is not used after its destruction', False, 'mem'); raise PathEnd()
def q_push(ex, st, a, ins, d):
    isq(ex, st, a); l = led(st); v = sp(ex, st, a[1])
    ok = isinstance(v[0], Ptr) and v[0].obj not in (None, 0) and isconst(v[0].off)
    ex.oblige(st, 'a real object is put into the pool', ok)
    if not ok: raise PathEnd()
    x = addr(v[0])
    ex.oblige(st, 'an object put into the pool is alive', x in l.live); ex.oblige(st, 'an object is put into the pool once', x not in {addr(e[0]) for e in l.idle})
    if l.L is None and not l.any: ex.oblige(st, 'the queue is not filled beyond its capacity', z3.ULT(l.npush, l.cap))
    elif not l.any: ex.oblige(st, 'the queue is not filled beyond its capacity', z3.ULT(bv64(len(l.idle)), l.cap))
    set_sp(ex, st, a[1], (NUL, NUL))
    upd(st, idle=l.idle+(v,), pushed=l.pushed+((x, len(l.rec)),), npush=simp(l.npush+1)); return [(st, None)]
def assign(ex, st, p, v):
    o = sp(ex, st, p)
    if not (isinstance(o[1], Ptr) and o[1].obj == 0): raise Unsupported('queue pop into a non-empty handle')
    set_sp(ex, st, p, v)
def q_try_pop(ex, st, a, ins, d):
    isq(ex, st, a); l = led(st); r = []
    if l.any or not l.idle:
        s2 = st.fork(); upd(s2, tried=True); r.append((s2, BV(0, 1)))
    if l.idle:
        upd(st, idle=l.idle[1:], taken=l.taken+1); assign(ex, st, a[1], l.idle[0]); r.append((st, BV(1, 1)))
    elif l.any: raise Unsupported('more requests than the harness foresees')
    return r
def q_pop(ex, st, a, ins, d):
    isq(ex, st, a); l = led(st)
    ex.oblige(st, 'a request waits only when no idle object was found', l.tried)
    ex.oblige(st, 'a request waits only when no object may be created', left_cell(ex, st) == 0 if l.L else z3.BoolVal(False))
    if not l.idle:
        if l.any: raise Unsupported('more requests than the harness foresees')
        raise PathEnd()           # waits for a return by somebody else
    upd(st, idle=l.idle[1:], taken=l.taken+1); assign(ex, st, a[1], l.idle[0]); return [(st, None)]
def q_size(ex, st, a, ins, d): isq(ex, st, a); return [(st, z3.BitVec('idle objects', 64))]
def q_dtor(ex, st, a, ins, d):
    isq(ex, st, a); l = led(st); mem = st
    live = list(l.live)
    for v in l.idle:
        u, w = uses(ex, st, v[1]); x = addr(v[0])
        ex.oblige(st, 'the pool is the only owner of an idle object when it is destroyed', u == 1)
        if x in live: live.remove(x)
        for b in {v[0].obj, v[1].obj}:
            if b in st.mem:
                o = st.mem[b].copy(); o.alive = False; st.mem[b] = o
    upd(st, live=tuple(live), qdead=True, idle=()); return [(st, None)]
# ---------------------------------------------------------------- observation points of the harness
def find_left(ex, st, pool):
    """the creation budget: the 8 byte cell of the pool's state that the constructor set to the capacity"""
    p = ex.load(st, pool, PTR); o = ex.obj(st, p.obj); l = led(st)
    c = [k for k, (n, v) in o.cells.items() if n == 8 and isinstance(v, z3.BitVecRef) and v.eq(l.cap)]
    if len(c) != 1: raise Unsupported('creation budget not recognised')
    return (p.obj, c[0])
def havoc(ex, st, a, ins, d):
    """the pool is in any state: any budget left, any number of idle objects (two of them known)"""
    L = find_left(ex, st, a[0]); l = led(st); idle = ()
    for p in a[1:]:
        v = sp(ex, st, p); idle += (v,); set_sp(ex, st, p, (NUL, NUL))
    n = z3.BitVec('budget', 64); st.assume(z3.ULE(n, l.cap)); ex.store(st, Ptr(L[0], bv64(L[1])), INT(64), n)
    upd(st, any=True, idle=idle, L=L, L0=n, base=len(l.live), rec=(), pushed=()); return [(st, None)]
def ledger_ok(ex, st, where):
    l = led(st)
    if l.L is None or l.qdead: return
    created = len(l.live) - l.base
    ex.oblige(st, where + ': objects in existence plus objects that may still be created is the capacity', left_cell(ex, st) + bv64(created) == l.L0)
    idle = {addr(v[0]) for v in l.idle}
    for v in l.idle: ex.oblige(st, where + ': the pool is the only owner of an idle object', uses(ex, st, v[1])[0] == 1)
    ex.oblige(st, where + ': every object is either idle or held', set(l.live) == idle | set(l.held))
def got(ex, st, a, ins, d):
    l = led(st)
    v = sp(ex, st, a[0]); x = addr(v[0]) if isinstance(v[0], Ptr) and v[0].obj not in (0, None) else None
    ex.oblige(st, 'a request gives an object', x is not None and x == addr(a[1]))
    if x is None: raise PathEnd()
    ex.oblige(st, 'the object handed out is alive', x in l.live); ex.oblige(st, 'the object handed out is not idle at the same time', x not in {addr(e[0]) for e in l.idle})
    u, w = uses(ex, st, v[1]); ex.oblige(st, 'the handle is the only one', u == 1)
    ex.oblige(st, 'creating is only done when no idle object was found', l.taken > 0 or l.tried)
    upd(st, held=l.held+(x,), rec=(), pushed=(), tried=False, taken=0); ledger_ok(ex, st, 'after a request'); return [(st, None)]
def back(policy):
    def f(ex, st, a, ins, d):
        l = led(st); x = addr(a[0])
        ex.oblige(st, 'a released object goes back to the pool once', [y for y, _ in l.pushed] == [x])
        if policy: ex.oblige(st, 'a returned object is recycled once, before others can see it', l.rec == (x,) and all(k == 1 for _, k in l.pushed))
        upd(st, held=tuple(y for y in l.held if y != x), rec=(), pushed=()); ledger_ok(ex, st, 'after a release'); return [(st, None)]
    return f
def none(ex, st, a, ins, d):
    ex.oblige(st, 'an object released after its pool is gone is destroyed at once', addr(a[0]) not in led(st).live); return [(st, None)]
def failed(ex, st, a, ins, d):
    l = led(st); ex.oblige(st, 'a request fails only when memory is exhausted', heap.failures(st) > 0)
    upd(st, tried=False, taken=0); ledger_ok(ex, st, 'after a failed request')
    return [(st, None)]
QX = r'^dottorrent::concurrent_queue<.*>::'
LBL = 'concurrent_queue: contract of property C09'
def mods(policy=True, fault=False):
    r = [(re.compile(x), f, lb) for x, f, lb in ((r'^vc_obj_made$', made, None), (r'^vc_obj_gone$', gone, None), (r'^vc_recycled$', recycled, None), (r'^vc_havoc$', havoc, None), (r'^vc_got$', got, None), (r'^vc_back$', back(policy), None), (r'^vc_failed$', failed, None), (r'^vc_none$', none, None),
        (QX + r'concurrent_queue\(', q_ctor, LBL), (QX + r'~concurrent_queue\(', q_dtor, LBL), (QX + r'push\(', q_push, LBL), (QX + r'try_pop\(', q_try_pop, LBL), (QX + r'pop\(', q_pop, LBL), (QX + r'size\(', q_size, LBL))]
    return r + (fault_heap() if fault else []) + MODELS
def fault_heap():
    """allocations fail only while a request is served"""
    out = []
    for rx, f, lb in heap.HEAP:
        def g(ex, st, a, ins, d, f=f):
            rs = f(ex, st, a, ins, d); l = led(st)
            return rs if l.any and not l.held and heap.failures(st) == 0 else rs[:1]
        out.append((rx, g, lb))
    return out
def n_setup(*rest):
    def s(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, bv64(1 << 40)))); led(st); return [n] + list(rest), None, dict(n=n)
    return s
def heap_live(st): return [i for i, o in st.mem.items() if o.alive and o.name == 'heap']
def end_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    l = led(o.st)
    ex.oblige(o.st, 'when pool and handles are gone no object is left', not l.live); ex.oblige(o.st, 'all storage is released', not heap_live(o.st))
def ctor_setup(two):
    def s(ex, st):
        n, k = z3.BitVec('n', 64), z3.BitVec('k', 64); st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, bv64(1 << 40)), z3.ULE(k, n)))
        p = ex.new_obj(st, 'pool', 16); led(st)
        m = Machine(k, outlen=lambda j: j, S=lambda j: BV(0, 8)) if two else None
        return [P0(p), n] + ([k] if two else []), m, dict(n=n, k=k if two else bv64(0), p=p)
    return s
def ctor_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    l = led(o.st); p = ex.load(o.st, P0(c['p']), PTR); ob = ex.obj(o.st, p.obj)
    ex.oblige(o.st, 'the free list has the capacity', l.cap == c['n']); ex.oblige(o.st, 'as many idle objects as asked for', l.npush == c['k'])
    ex.oblige(o.st, 'the rest may still be created', z3.Or(*[v == c['n']-c['k'] for n, v in ob.cells.values() if n == 8 and isinstance(v, z3.BitVecRef)] + [z3.BoolVal(False)]))
def size_post(ex, o, c): ex.oblige(o.st, 'the number of idle objects', z3.And(z3.BoolVal(o.kind == 'ret'), o.val == z3.BitVec('idle objects', 64)))
HOW = ['released', 'copied, then both released', 'pool destroyed while held', 'released, then requested again', 'pool moved while held', 'released through an aliasing handle', 'pool destroyed while held, released with an observer left']
def contracts(tier):
    r = [Contract('object_pool(capacity)', 'vc_ctor', ctor_setup(False), ctor_post, 'ensures an empty free list of that capacity, budget = capacity', models_=mods(), strategy=('unroll',)),
         Contract('object_pool(capacity, size)', 'vc_ctor2', ctor_setup(True), ctor_post, 'ensures size idle objects, budget = capacity - size', models_=mods()),
         Contract('size', 'vc_size', n_setup(), size_post, 'ensures the number of idle objects', models_=mods(), strategy=('unroll',)),
         Contract('request under memory exhaustion', 'vc_fault_P', n_setup(), end_post, 'a failed request leaves existing + creatable = capacity and loses no object', models_=mods(True, True), strategy=('unroll',)),
         Contract('request under memory exhaustion<shared_from_this>', 'vc_fault_E', n_setup(), end_post, 'a failed request leaves existing + creatable = capacity and loses no object', models_=mods(True, True), strategy=('unroll',))]
    for nm, pol in (('P', True), ('D', False), ('E', True)):
        for h, t in enumerate(HOW):
            r.append(Contract(f'request from any state, {t} <{nm}>', 'vc_round_' + nm, n_setup(BV(h, 32), BV(1, 1)), end_post, 'existing + creatable = capacity; one holder; recycled and returned once; nothing leaks', models_=mods(pol), strategy=('unroll',)))
    return r
