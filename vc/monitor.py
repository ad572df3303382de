"""Monitor (lock-invariant) reasoning for an object whose state is protected by one mutex.

Assumed contracts of pthread mutexes, std::condition_variable and std::deque<T> (8 byte elements), in the concurrent
separation logic style: acquiring the lock makes the protected state arbitrary (any other threads may have run), any access to
it without the lock is an obligation failure, releasing it (or waiting) publishes the changes made in the critical section.
The proof is therefore for every number of threads and every schedule."""
from .sym import *
from .sym import PathEnd
from .models import MODELS, G
import re
LBL = {'lock': 'pthread_mutex_lock/unlock/trylock: mutual exclusion, no spurious failure', 'cv': 'std::condition_variable: wait releases the lock, blocks until notified (or spuriously), reacquires; notify_one/all as in the standard',
       'dq': 'std::deque<T>: abstract sequence (push_back/emplace_back append or throw bad_alloc without effect, pop_front, front, back, size, empty, clear)'}
MAXLEN = 1 << 40
MON = ('monitor',)
class Mon:
    """ghost state; copied on write"""
    def __init__(self): self.held = None; self.head = self.len = self.E0 = None; self.ops = (); self.log = (); self.notes = (); self.waits = (); self.cells0 = None; self.init = None; self.sec = 0; self.dead = ()
    def copy(self):
        m = Mon(); m.__dict__.update(self.__dict__); return m
    def same(self, o): return self is o
    def havoc(self, ex, st, g): return self
    def quantities(self, g): return {}
class Cfg:
    """what is protected: object q (bytes outside of the mutex and the condition variables); deque at offset dq; capacity field at offset cap"""
    def __init__(self, q, elems, dq, cap): self.q, self.elems, self.dq, self.cap = q, elems, dq, cap
def mon(st): return st.ghost[MON]
def upd(st, **kw):
    m = mon(st).copy()
    for k, v in kw.items(): setattr(m, k, v)
    st.ghost[MON] = m; return m
def cfg(st): return st.ghost[('monitor-cfg',)].v
def install(ex, st, q, elems, dq, cap, exclusive=False):
    st.ghost[('monitor-cfg',)] = G(Cfg(q, elems, dq, cap)); m = Mon(); st.ghost[MON] = m
    m.held = 'exclusive' if exclusive else None
    def qhook(ex, st, p, n, write):
        if not mon(st).held: ex.oblige(st, 'shared state is accessed only with the lock held', False, 'mem'); raise PathEnd()
    def ehook(ex, st, p, n, write):
        m = mon(st)
        if not m.held: ex.oblige(st, 'a queue element is accessed only with the lock held', False, 'mem'); raise PathEnd()
        lo = m.head*8; hi = (m.head+m.len)*8
        ex.oblige(st, 'a reference to a queue element is used only while the element is in the queue', z3.And(z3.UGE(p.off, lo), z3.ULT(p.off, hi)), 'mem')
    ex.obj(st, q).noaccess = qhook
    if elems is not None: ex.obj(st, elems).noaccess = ehook
def acquire(ex, st, m):
    """protected state becomes arbitrary"""
    c = cfg(st)
    o = ex.wobj(st, c.q); o.cells = {}; o.dflt = fresh_arr('prot')
    e = ex.wobj(st, c.elems); e.mode = 'array'; e.arr = fresh_arr('prot'); e.cells = {}
    head, ln = fresh('prot_head'), fresh('prot_len')
    st.assume(z3.ULE(ln, bv64(MAXLEN))); st.assume(z3.And(z3.UGE(head, bv64(MAXLEN)), z3.ULE(head, bv64(2*MAXLEN))))
    cells0 = None
    upd(st, held=m, head=head, len=ln, E0=e.arr, ops=(), init=(head, ln), cells0=o.dflt, sec=mon(st).sec+1)
def capval(ex, st):
    c = cfg(st); o = ex.obj(st, c.q)
    return simp(z3.Concat(*[ex.cell_byte(o, c.cap+i) for i in reversed(range(8))])) if c.cap not in o.cells or o.cells[c.cap][0] != 8 else o.cells[c.cap][1]
def cap0(ex, st):
    a = mon(st).cells0; c = cfg(st).cap
    return simp(z3.Concat(*[z3.Select(a, bv64(c+i)) for i in reversed(range(8))]))
def elem(a, i): return z3.Concat(*[z3.Select(a, i*8+k) for k in reversed(range(8))])
def publish(ex, st, why):
    """end of a critical section: record what it did"""
    m = mon(st); c = cfg(st); e = ex.obj(st, c.elems)
    k = fresh('anyindex')
    both = z3.And(z3.UGE(k, m.init[0]), z3.UGE(k, m.head), z3.ULT(k-m.init[0], m.init[1]), z3.ULT(k-m.head, m.len))
    ex.oblige(st, 'no element that stays in the queue changes', z3.Implies(both, elem(e.arr, k) == elem(m.E0, k)), 'post')
    o = ex.obj(st, c.q); c0, c1 = cap0(ex, st), capval(ex, st)
    rec = dict(ops=m.ops, len0=m.init[1], head0=m.init[0], len=m.len, cap0=c0, cap=c1, E0=m.E0, sec=m.sec, changed=bool(m.ops) or not z3.is_true(simp(c0 == c1)))
    if rec['changed']: upd(st, log=m.log+(rec,))
def is_q(st, p, what, ex):
    c = cfg(st)
    ok = isinstance(p, Ptr) and p.obj == c.q and isconst(p.off) and cval(p.off) == c.dq
    if not ok: raise Unsupported('second deque in the object')
    if not mon(st).held: ex.oblige(st, what + ': the queue is accessed only with the lock held', False, 'mem'); raise PathEnd()
# ---------------------------------------------------------------- locks
def lockid(p):
    if p.obj in (None, 0) or not isconst(p.off): raise Unsupported('lock address')
    return (p.obj, cval(p.off))
def lock(ex, st, a, ins, d):
    m = mon(st)
    ex.oblige(st, 'the lock is not acquired twice', not m.held, 'mem')
    if m.held: raise PathEnd()
    acquire(ex, st, lockid(a[0])); return [(st, BV(0, 32))]
def trylock(ex, st, a, ins, d):
    m = mon(st)
    ex.oblige(st, 'the lock is not acquired twice', not m.held, 'mem')
    if m.held: raise PathEnd()
    s2 = st.fork(); acquire(ex, st, lockid(a[0])); return [(st, BV(0, 32)), (s2, BV(16, 32))]
def unlock(ex, st, a, ins, d):
    m = mon(st)
    ex.oblige(st, 'only a held lock is released', m.held == lockid(a[0]), 'mem')
    if m.held != lockid(a[0]): raise PathEnd()
    publish(ex, st, 'unlock'); upd(st, held=None); forget(ex, st); return [(st, BV(0, 32))]
# ---------------------------------------------------------------- condition variables
PROT = re.compile(r'^prot')
_ment = {}
def mentions(t):
    """does the term mention protected state?"""
    if not isinstance(t, z3.ExprRef): return False
    k = t.get_id()
    r = _ment.get(k)
    if r is not None and r[0].eq(t): return r[1]
    seen = set(); todo = [t]; v = False
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and PROT.match(x.decl().name()): v = True; break
        todo += x.children()
    _ment[k] = (t, v)
    return v
def forget(ex, st): pass
def scrub(v):
    if isinstance(v, tuple): return tuple(scrub(x) for x in v)
    if isinstance(v, Ptr): return Ptr(v.obj, scrub(v.off)) if isinstance(v.off, z3.ExprRef) else v
    if isinstance(v, z3.BitVecRef) and mentions(v): return fresh('stale', v.size())
    return v
def canon(x):
    names = {}
    return re.sub(r'!\d+', lambda mm: names.setdefault(mm.group(0), '!#%d' % len(names)), x)
def val_key(v):
    if isinstance(v, Ptr): return f'P{v.obj}+{v.off}'
    if isinstance(v, tuple): return '(' + ','.join(val_key(x) for x in v) + ')'
    if isinstance(v, z3.ExprRef): return v.sexpr()
    if isinstance(v, Opaque): return 'opaque'
    return repr(v)
def wait(ex, st, a, ins, d):
    m = mon(st); c = cfg(st)
    lk = ex.load(st, a[1], PTR)
    ex.oblige(st, 'a thread waits with the lock held', bool(m.held) and m.held == lockid(lk), 'mem')
    if not m.held: raise PathEnd()
    empty = m.len == 0; full = z3.UGE(m.len, capval(ex, st))
    kind = None
    if ex.sol.prove(st.pc, empty)[0] == 'proved': kind = 'element'
    elif ex.sol.prove(st.pc, full)[0] == 'proved': kind = 'room'
    ex.oblige(st, 'a thread blocks only while the queue is empty or full', kind is not None, 'post')
    if kind is None: raise PathEnd()
    cv = lockid(a[0]); 
    publish(ex, st, 'wait')
    w = (cv, kind)
    upd(st, waits=tuple(sorted(set(mon(st).waits + (w,)))))
    ex.ispec_cache.setdefault('waits', set()).add(w)
    # forget everything that depended on the protected state, then let it be arbitrary
    st.pc = [x for x in st.pc if not mentions(x)]
    for f in st.frames:
        for k in list(f.env): f.env[k] = scrub(f.env[k])
    for i in list(st.mem):
        o = st.mem[i]
        if i in (c.q, c.elems): continue
        if o.mode == 'cells':
            if any(isinstance(v, (z3.ExprRef, Ptr)) and mentions(v.off if isinstance(v, Ptr) else v) for _, v in o.cells.values()):
                o = ex.wobj(st, i); o.cells = {k: (n, scrub(v)) for k, (n, v) in o.cells.items()}
        elif mentions(o.arr): o = ex.wobj(st, i); o.arr = fresh_arr('stale')
    acquire(ex, st, m.held)
    # the state after the wait depends only on what is below: explored once
    f = st.frames
    key = [repr([(x.fn.name, x.block, x.idx, x.prev) for x in f])]
    key += [k + '=' + val_key(v) for x in f for k, v in sorted(x.env.items())]
    for i in sorted(st.mem):
        o = st.mem[i]
        if i in (c.q, c.elems) or not o.alive: continue
        key.append(f'{i}:' + (o.arr.sexpr() if o.mode == 'array' else repr([(k, n, val_key(v)) for k, (n, v) in sorted(o.cells.items())])))
    mm = mon(st)
    key += [x.sexpr() for x in st.pc]
    key.append(repr([(sorted(r['ops'], key=str), r['sec']) for r in mm.log]) + repr(mm.waits) + repr(mm.notes) + repr(len(mm.log)))
    key = canon('\n'.join(key))
    seen = ex.ispec_cache.setdefault('wait-states', set())
    if key in seen: raise PathEnd()
    seen.add(key)
    return [(st, None)]
def notify(n):
    def f(ex, st, a, ins, d):
        cv = lockid(a[0]); m = mon(st)
        if n == 1: ex.ispec_cache.setdefault('one', set()).add(cv)
        upd(st, notes=m.notes + ((cv, n, m.sec, len(m.log)),)); return [(st, None)]
    return f
def cvnop(ex, st, a, ins, d): return [(st, None)]
# ---------------------------------------------------------------- deque
def dq_ctor(ex, st, a, ins, d):
    c = cfg(st)
    if c.dq is None:
        if a[0].obj != c.q: raise Unsupported('queue constructed elsewhere')
        c.dq = cval(a[0].off)
    upd(st, head=bv64(MAXLEN), len=bv64(0), ops=mon(st).ops+(('ctor',),)); return [(st, None)]
def dq_dtor(ex, st, a, ins, d): upd(st, ops=mon(st).ops+(('dtor',),)); return [(st, None)]
def dq_size(ex, st, a, ins, d): is_q(st, a[0], 'size', ex); return [(st, mon(st).len)]
def dq_empty(ex, st, a, ins, d): is_q(st, a[0], 'empty', ex); return [(st, ex.b2bv(mon(st).len == 0))]
def dq_front(ex, st, a, ins, d):
    is_q(st, a[0], 'front', ex); m = mon(st); ex.oblige(st, 'front of a non-empty queue', m.len != 0, 'mem'); return [(st, Ptr(cfg(st).elems, simp(m.head*8)))]
def dq_back(ex, st, a, ins, d):
    is_q(st, a[0], 'back', ex); m = mon(st); ex.oblige(st, 'back of a non-empty queue', m.len != 0, 'mem'); return [(st, Ptr(cfg(st).elems, simp((m.head+m.len-1)*8)))]
def dq_pop(ex, st, a, ins, d):
    is_q(st, a[0], 'pop', ex); m = mon(st); ex.oblige(st, 'pop of a non-empty queue', m.len != 0, 'mem')
    upd(st, head=simp(m.head+1), len=simp(m.len-1), ops=m.ops+(('remove', simp(elem(m.E0, m.head)), m.len),)); return [(st, None)]
def dq_other(ex, st, a, ins, d):
    is_q(st, a[0], 'update', ex); ex.oblige(st, 'the queue is only appended to at the back and removed from at the front', False, 'post'); raise PathEnd()
def dq_push(ex, st, a, ins, d):
    is_q(st, a[0], 'push', ex); m = mon(st)
    s2 = st.fork()
    v = ex.load(st, a[1], INT64)
    cap = capval(ex, st)
    upd(st, len=simp(m.len+1), ops=m.ops+(('append', v, m.len, cap),))
    e = ex.wobj(st, cfg(st).elems)
    off = simp((m.head+m.len)*8)
    for k in range(8): e.arr = z3.Store(e.arr, simp(off+k), simp(z3.Extract(8*k+7, 8*k, v)))
    if '&&' in d or 'emplace' in d and 'const&' not in d: ex.store(st, a[1], INT64, bv64(0))
    r = Ptr(cfg(st).elems, off) if 'emplace' in d else None
    return [(st, r), (s2, None, {'type': 'St9bad_alloc'})]
from .ir import INT
INT64 = INT(64)
def syserr(ex, st, a, ins, d): return [(st, None, {'type': 'St12system_error'})]
DQ = r'(^| )std::deque<.*>::'
MONITOR = [(re.compile(x), f, l and LBL[l]) for x, f, l in (
    (r'^pthread_mutex_lock$', lock, 'lock'), (r'^pthread_mutex_unlock$', unlock, 'lock'), (r'^pthread_mutex_trylock$', trylock, 'lock'),
    (r'^std::condition_variable::wait\(std::unique_lock', wait, 'cv'), (r'^std::condition_variable::notify_all\(', notify(2), 'cv'), (r'^std::condition_variable::notify_one\(', notify(1), 'cv'),
    (r'^std::condition_variable::~?condition_variable\(', cvnop, 'cv'), (r'^std::__throw_system_error', syserr, None),
    (DQ + r'deque\(\)$', dq_ctor, 'dq'), (DQ + r'~deque\(\)$', dq_dtor, 'dq'), (DQ + r'size\(\) const', dq_size, 'dq'), (DQ + r'empty\(\) const', dq_empty, 'dq'), (DQ + r'front\(\)', dq_front, 'dq'), (DQ + r'back\(\)', dq_back, 'dq'),
    (DQ + r'pop_front\(\)$', dq_pop, 'dq'), (DQ + r'(push_back|emplace_back(<.*>)?)\(', dq_push, 'dq'), (DQ + r'(clear|pop_back|push_front|emplace_front|erase|insert|resize|swap|operator=|assign)', dq_other, 'dq'))] + MODELS
def boundary(std):
    def b(d):
        if std(d): return True
        i = d.find('std::deque<'); j = d.find('std::queue<'); k = d.find('std::_Deque')
        i, j, k = [x if x >= 0 else 1 << 30 for x in (i, j, k)]
        return min(i, k) < j
    return b
