from .lib import *
from vc import monitor as M
from vc.sym import Executor, State, Frame
from vc.ir import get_func
ID = 'C09'
TITLE = 'The concurrent queue is a bounded FIFO under every schedule'
HARNESS = 'queue.cpp'
BOUNDARY = M.boundary(models.std_boundary)
NATIVE = dict(src='queue.cpp', libs=['-pthread'], san=False, flags=['-fsanitize=thread', '-g'])
SEARCH = dict(quick=8, thorough=90); SEARCH_FAIL = dict(quick=25, thorough=90)
FUNCTIONS = ['concurrent_queue<T>: constructor, destructor, push(const T&), push(T&&), try_push, pop, try_pop, size, set_capacity']
ASSUMPTIONS = ['T is an 8 byte movable value type (a move leaves a recognisable moved-from value); its copy and move do not throw', 'at most 2^40 elements',
    'std::terminate on a throwing noexcept function is not reached: pthread_mutex_lock is assumed to succeed',
    'fairness: a notified waiter eventually runs (wake-ups are proved sufficient, progress of individual threads is not)']
QS = 8 * MAXN
KW = dict(strategy=('unroll',), models_=M.MONITOR)
_lay = {}
def explore(mod, entry, mk):
    ex = Executor(mod, M.MONITOR, None, None, unroll_limit=70); ex.deadline = time.time()+60
    st = State(); fn = get_func(mod, entry); args = mk(ex, st); f = Frame(fn)
    for (t, pn), a in zip(fn.params, args): f.env[pn] = a
    st.frames = [f]
    return ex, ex.explore(st)
import time
def qsize(ex):
    p = ex.global_ptr('vc_qsize'); return cval(ex.load(State(), p, INT(64)))
def newq(ex, st): return ex.new_obj(st, 'queue', qsize(ex))
def layout(mod):
    """where the deque and the capacity live: read off the constructor"""
    if id(mod) in _lay: return _lay[id(mod)]
    box = {}
    def mk(ex, st):
        q = newq(ex, st); M.install(ex, st, q, None, None, None, exclusive=True); n = z3.BitVec('n', 64); box.update(q=q, n=n); return [P0(q), n]
    ex, outs = explore(mod, 'vc_ctor', mk)
    r = None
    for o in outs:
        if o.kind != 'ret': continue
        c = M.cfg(o.st); ob = ex.obj(o.st, box['q'])
        caps = [k for k, (n, v) in ob.cells.items() if n == 8 and isinstance(v, z3.BitVecRef) and v.eq(box['n'])]
        if len(caps) != 1 or c.dq is None: raise Unsupported('representation of the queue not recognised')
        r = (c.dq, caps[0])
    if r is None: raise Unsupported('constructor does not return')
    _lay[id(mod)] = r; return r
_roles = {}
OPS = [('vc_push', 'v'), ('vc_push_move', 'v'), ('vc_try_push', 'v'), ('vc_pop', 'v'), ('vc_try_pop', 'v'), ('vc_size', ''), ('vc_set_capacity', 'n')]
def prep(ex, st, kind):
    q = newq(ex, st); dq, cap = layout(ex.m)
    e = ex.new_obj(st, 'elements', bv64(1 << 46), mode='array', arr=fresh_arr('prot'))
    M.install(ex, st, q, e, dq, cap)
    a = [P0(q)]; c = dict(q=q)
    if kind == 'v':
        v = ex.new_obj(st, 'item', 8); V = z3.BitVec('item', 64); ex.store(st, P0(v), INT(64), V); st.written.clear(); a.append(P0(v)); c.update(v=v, V=V)
    if kind == 'n': c['n'] = z3.BitVec('n', 64); a.append(c['n'])
    return a, None, c
def roles(mod):
    """which condition variable threads wait on, for what, and which are ever signalled one waiter at a time"""
    if id(mod) in _roles: return _roles[id(mod)]
    waits = set(); one = set()
    for e, k in OPS:
        ex, _ = explore(mod, e, lambda ex, st: prep(ex, st, k)[0])
        waits |= {(cv[1], kd) for cv, kd in ex.ispec_cache.get('waits', ())}; one |= {cv[1] for cv in ex.ispec_cache.get('one', ())}
    _roles[id(mod)] = (waits, one); return waits, one
def setup(kind):
    def s(ex, st):
        r = prep(ex, st, kind); r[2]['roles'] = roles(ex.m); return r
    return s
def umax(a): return a
def wakeups(ex, o, c):
    """every change that can let a blocked thread continue is signalled to it"""
    m = M.mon(o.st); waits, one = c['roles']
    for i, t in enumerate(m.log):
        for cv in sorted({w[0] for w in waits}):
            kinds = {k for w, k in waits if w == cv}
            ns = [n for n in m.notes if n[0][1] == cv and n[2] >= t['sec']]
            if any(n[1] == 2 for n in ns): alls, cnt = True, 0
            else: alls, cnt = False, (len(ns) if len(kinds) == 1 else 0)
            for k in kinds:
                room0 = z3.If(z3.ULT(t['len0'], t['cap0']), t['cap0']-t['len0'], bv64(0)); room1 = z3.If(z3.ULT(t['len'], t['cap']), t['cap']-t['len'], bv64(0))
                a0, a1 = (t['len0'], t['len']) if k == 'element' else (room0, room1)
                if cv in one: cond = z3.Or(z3.BoolVal(alls), z3.ULE(a1, a0), z3.ULE(a1-a0, bv64(cnt)))
                else: cond = z3.Or(z3.BoolVal(alls), z3.Not(z3.And(a0 == 0, a1 != 0)))
                ex.oblige(o.st, f'threads waiting for {"an element" if k == "element" else "room"} are woken when it appears', cond)
def itemval(ex, st, c):
    o = ex.obj(st, c['v']); f = out_bytes(ex, st, c['v'])
    return simp(z3.Concat(*[f(bv64(i)) for i in reversed(range(8))])) if o.mode == 'cells' else None
def common(ex, o, c):
    m = M.mon(o.st)
    ex.oblige(o.st, 'the lock is released on every exit', m.held is None)
    wakeups(ex, o, c)
    for t in m.log:
        ops = t['ops']
        ex.oblige(o.st, 'a critical section makes at most one change', len(ops) + (0 if z3.is_true(simp(t['cap'] == t['cap0'])) else 1) <= 1)
    return [op for t in m.log for op in t['ops']], [t for t in m.log if not z3.is_true(simp(t['cap'] == t['cap0']))], m
def untouched(ex, o, c, ops, caps, what): ex.oblige(o.st, what, not ops and not caps)
def push_post(block, moves):
    def post(ex, o, c):
        ops, caps, m = common(ex, o, c); it = itemval(ex, o.st, c)
        if o.kind == 'throw':
            ex.oblige(o.st, 'only memory exhaustion makes it fail', o.exc['type'] == 'St9bad_alloc'); untouched(ex, o, c, ops, caps, 'a failed insertion changes nothing')
            ex.oblige(o.st, 'a failed insertion keeps the item', it == c['V']); return
        if not block: ex.oblige(o.st, 'try_push does not block', not m.waits)
        ex.oblige(o.st, 'waits for room only', all(k == 'room' for _, k in m.waits))
        if not block and not ops:
            ex.oblige(o.st, 'nothing inserted: reports failure', z3.Not(retbool(o.val))); untouched(ex, o, c, ops, caps, 'nothing inserted: nothing changes')
            ex.oblige(o.st, 'refused only when full', z3.BoolVal(m.sec > 0) if m.init is None else z3.UGE(m.init[1], M.cap0(ex, o.st)))
            ex.oblige(o.st, 'a refused item is not consumed', it == c['V']); return
        ok = len(ops) == 1 and ops[0][0] == 'append' and not caps
        ex.oblige(o.st, 'exactly one element is appended', ok)
        if not ok: return
        ex.oblige(o.st, 'the appended element is the item', ops[0][1] == c['V'])
        ex.oblige(o.st, 'the queue never grows beyond its capacity', z3.ULT(ops[0][2], ops[0][3]))
        if not moves: ex.oblige(o.st, 'the item is not modified', it == c['V'])
        if not block: ex.oblige(o.st, 'inserted: reports success', retbool(o.val))
    return post
def pop_post(block):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind != 'ret': return
        ops, caps, m = common(ex, o, c); it = itemval(ex, o.st, c)
        if not block: ex.oblige(o.st, 'try_pop does not block', not m.waits)
        ex.oblige(o.st, 'waits for an element only', all(k == 'element' for _, k in m.waits))
        if not block and not ops:
            ex.oblige(o.st, 'nothing removed: reports failure', z3.Not(retbool(o.val))); untouched(ex, o, c, ops, caps, 'nothing removed: nothing changes')
            ex.oblige(o.st, 'refused only when empty', z3.BoolVal(False) if m.init is None else m.init[1] == 0)
            ex.oblige(o.st, 'the target is not modified', it == c['V']); return
        ok = len(ops) == 1 and ops[0][0] == 'remove' and not caps
        ex.oblige(o.st, 'exactly one element is removed', ok)
        if not ok: return
        ex.oblige(o.st, 'the caller receives the oldest element', it == ops[0][1])
        if not block: ex.oblige(o.st, 'removed: reports success', retbool(o.val))
    return post
def size_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    ops, caps, m = common(ex, o, c); untouched(ex, o, c, ops, caps, 'nothing changes')
    ex.oblige(o.st, 'the size at one moment', z3.BoolVal(False) if m.init is None else o.val == m.init[1]); ex.oblige(o.st, 'does not block', not m.waits)
def cap_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    ops, caps, m = common(ex, o, c)
    ex.oblige(o.st, 'no element is added or removed', not ops); ex.oblige(o.st, 'does not block', not m.waits)
    ex.oblige(o.st, 'the capacity becomes n', z3.BoolVal(len(caps) > 0) if not caps else caps[-1]['cap'] == c['n'])
def ctor_setup(ex, st):
    q = newq(ex, st); M.install(ex, st, q, None, None, None, exclusive=True); n = z3.BitVec('n', 64); return [P0(q), n], None, dict(q=q, n=n)
def ctor_post(ex, o, c):
    m = M.mon(o.st); ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    ex.oblige(o.st, 'an empty queue of capacity n', z3.And(z3.BoolVal(m.ops == (('ctor',),)), z3.BoolVal(any(n == 8 and isinstance(v, z3.BitVecRef) and v.eq(c['n']) for n, v in ex.obj(o.st, c['q']).cells.values()))))
def dtor_setup(ex, st):
    q = newq(ex, st); dq, cap = layout(ex.m); e = ex.new_obj(st, 'elements', bv64(1 << 46), mode='array', arr=fresh_arr('prot')); M.install(ex, st, q, e, dq, cap, exclusive=True); return [P0(q)], None, {}
def dtor_post(ex, o, c): ex.oblige(o.st, 'the elements are destroyed once', o.kind == 'ret' and M.mon(o.st).ops == (('dtor',),))
def contracts(tier):
    return [Contract('concurrent_queue(n)', 'vc_ctor', ctor_setup, ctor_post, 'ensures empty, capacity n', **KW), Contract('~concurrent_queue', 'vc_dtor', dtor_setup, dtor_post, 'releases the elements', **KW),
        Contract('push(const T&)', 'vc_push', setup('v'), push_post(True, False), 'atomically: requires size < capacity (blocks until then); ensures queue = old + [item]', **KW),
        Contract('push(T&&)', 'vc_push_move', setup('v'), push_post(True, True), 'atomically: requires size < capacity (blocks until then); ensures queue = old + [item]', **KW),
        Contract('try_push', 'vc_try_push', setup('v'), push_post(False, True), 'atomically: true and queue = old + [item] if size < capacity, otherwise false and no change', **KW),
        Contract('pop', 'vc_pop', setup('v'), pop_post(True), 'atomically: requires size > 0 (blocks until then); ensures old = [item] + queue', **KW),
        Contract('try_pop', 'vc_try_pop', setup('v'), pop_post(False), 'atomically: true and old = [item] + queue if size > 0, otherwise false and no change', **KW),
        Contract('size', 'vc_size', setup(''), size_post, 'atomically: the number of elements', **KW),
        Contract('set_capacity', 'vc_set_capacity', setup('n'), cap_post, 'atomically: capacity = n, waiters woken', **KW)]
