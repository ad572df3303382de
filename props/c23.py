from .lib import *
ID = 'C23'
TITLE = 'DHT nodes print as host and port and compare by host, then port'
HARNESS = 'dht.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='dht.cpp')
FUNCTIONS = ['dht_node(string_view, uint16_t), copy, move, assignment', 'operator==, !=, <, <=>', 'operator std::string', 'get<0>, get<1>']
ASSUMPTIONS = ['host text length below 2^56 bytes']
def offs(ex):
    r = []
    for g in ('vc_url_off', 'vc_port_off'):
        p = ex.global_ptr(g); st = State(); st.mem[p.obj] = ex.globinit[p.obj]; r.append(cval(simp(ex.load(st, p, INT(64)))))
    return r
def node(ex, st, nm):
    u, q = offs(ex); i = ex.new_obj(st, nm, 40); n = z3.BitVec(nm + '_n', 64); st.assume(z3.ULE(n, bv64(MAXN))); A = z3.Const(nm + '_url', A8); p = z3.BitVec(nm + '_port', 16)
    new_str(ex, st, Ptr(i, bv64(u)), n, A); ex.store(st, Ptr(i, bv64(q)), INT(16), p); return dict(i=i, n=n, A=A, p=p)
def val(ex, st, i):
    u, q = offs(ex); s = get_str(ex, st, Ptr(i, bv64(u))); return s.len, str_arr(ex, st, s), ex.load(st, Ptr(i, bv64(q)), INT(16))
def holds(ex, o, i, n, A, p, why):
    ln, arr, port = val(ex, o.st, i); j = fresh('j')
    ex.oblige(o.st, why, z3.And(ln == n, port == p, z3.Implies(z3.ULT(j, n), z3.Select(arr, j) == z3.Select(A, j))))
def make_setup(ex, st):
    i = ex.new_obj(st, 'o', 40); n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN))); s, IN = bytes_obj(ex, st, 'IN', n); p = z3.BitVec('p', 16)
    return [P0(i), P0(s), n, p], None, dict(i=i, n=n, A=IN, p=p)
def make_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind == 'ret': holds(ex, o, c['i'], c['n'], c['A'], c['p'], 'holds the host and port given')
def copy_setup(fresh_target):
    def s(ex, st):
        a = node(ex, st, 'a')
        i = ex.new_obj(st, 'o', 40) if fresh_target else node(ex, st, 'o')['i']
        return [P0(i), P0(a['i'])], None, dict(i=i, a=a)
    return s
def copy_post(keeps):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind != 'ret': return
        a = c['a']; holds(ex, o, c['i'], a['n'], a['A'], a['p'], 'the copy holds the host and port')
        if keeps: holds(ex, o, a['i'], a['n'], a['A'], a['p'], 'the original is unchanged')
    return post
# the four relations of two host texts; together they are exhaustive
def pair(rel):
    def s(ex, st):
        a, b = node(ex, st, 'a'), node(ex, st, 'b'); d = z3.BitVec('d', 64); j = z3.BitVec('j!rel', 64)
        def same(k): st.pc.append(z3.ForAll([j], z3.Implies(z3.ULT(j, k), z3.Select(a['A'], j) == z3.Select(b['A'], j)), patterns=[z3.Select(a['A'], j), z3.Select(b['A'], j)]))
        if rel == 'equal': st.assume(a['n'] == b['n']); same(a['n'])
        else:
            x, y = (a, b) if rel in ('less', 'prefix') else (b, a)
            same(d); st.assume(z3.ULT(d, y['n']))
            if rel in ('less', 'greater'): st.assume(z3.ULT(d, x['n'])); st.assume(z3.ULT(z3.Select(x['A'], d), z3.Select(y['A'], d)))
            else: st.assume(d == x['n'])
        return [P0(a['i']), P0(b['i'])], None, dict(a=a, b=b, rel=rel)
    return s
def want(c):
    a, b = c['a']['p'], c['b']['p']
    if c['rel'] == 'equal': return z3.If(z3.ULT(a, b), BV(-1, 32), z3.If(a == b, BV(0, 32), BV(1, 32)))
    return BV(-1 if c['rel'] in ('less', 'prefix') else 1, 32)
def rel_post(f):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': ex.oblige(o.st, 'compares by host, then port', f(o.val, want(c)))
    return post
def str_setup(ex, st):
    a = node(ex, st, 'a'); o = ex.new_obj(st, 'out', 32); return [P0(a['i']), P0(o)], None, dict(a=a, o=o)
def str_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    a = c['a']; s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s); n, p = a['n'], z3.ZeroExt(16, a['p']); j = fresh('j')
    ex.oblige(o.st, 'starts with the host', z3.Implies(z3.ULT(j, n), z3.Select(arr, j) == z3.Select(a['A'], j)))
    ex.oblige(o.st, 'then a colon', z3.Select(arr, n) == 0x3a)
    alt = []
    for k in range(1, 6):
        ds = [z3.Select(arr, n + 1 + i) for i in range(k)]
        v = sum((z3.ZeroExt(24, ds[i] - 0x30) * BV(10**(k-1-i), 32) for i in range(k)), BV(0, 32))
        alt.append(z3.And(s.len == n + 1 + k, v == p, *[isdigit(x) for x in ds], *([ds[0] != 0x30] if k > 1 else [])))
    ex.oblige(o.st, 'then the port in decimal', z3.Or(*alt))
def get_post(which):
    def post(ex, o, c):
        ex.oblige(o.st, 'refers to the member', isinstance(o.val, Ptr) and o.val.obj == c['a']['i'] and z3.is_true(simp(o.val.off == offs(ex)[which])))
    return post
def get_setup(ex, st):
    a = node(ex, st, 'a'); return [P0(a['i'])], None, dict(a=a)
def hx(m, x):
    b = model_bytes(m, x['A'], x['n']); return None if b is None else (b.hex() or '-')
def ev(m, x): return str(m.eval(x, model_completion=True).as_long())
def cex2(ex, m, c):
    u, v = hx(m, c['a']), hx(m, c['b']); return [['cmp', u, ev(m, c['a']['p']), v, ev(m, c['b']['p'])]] if u and v else []
def cex1(ex, m, c):
    a = c.get('a', c); u = hx(m, a); return [['one', u, ev(m, a['p'])]] if u else []
def contracts(tier):
    U = dict(strategy=('unroll',))
    r = [Contract('dht_node(host, port)', 'vc_make', make_setup, make_post, 'ensures host and port as given', cex=cex1, **U),
         Contract('copy', 'vc_copy', copy_setup(True), copy_post(True), 'ensures equal copy, original kept', cex=cex1, **U), Contract('move', 'vc_move', copy_setup(True), copy_post(False), 'ensures the value moves', cex=cex1, **U),
         Contract('copy assignment', 'vc_assign', copy_setup(False), copy_post(True), 'ensures equal copy, original kept', cex=cex1, **U), Contract('move assignment', 'vc_massign', copy_setup(False), copy_post(False), 'ensures the value moves', cex=cex1, **U),
         Contract('operator std::string', 'vc_str', str_setup, str_post, 'ensures host ":" port', cex=cex1, **U)]
    for rel in ('equal', 'less', 'prefix', 'greater', 'extends'):
        r += [Contract(f'== ({rel} hosts)', 'vc_eq', pair(rel), rel_post(lambda v, w: retbool(v) == (w == 0)), 'ensures equality of host and port', cex=cex2, **U),
              Contract(f'!= ({rel} hosts)', 'vc_ne', pair(rel), rel_post(lambda v, w: retbool(v) == (w != 0)), 'ensures the negation', cex=cex2, **U),
              Contract(f'< ({rel} hosts)', 'vc_lt', pair(rel), rel_post(lambda v, w: retbool(v) == (w < 0)), 'ensures host order, then port order', cex=cex2, **U),
              Contract(f'<=> ({rel} hosts)', 'vc_cmp', pair(rel), rel_post(lambda v, w: v == w), 'ensures host order, then port order', cex=cex2, **U)]
    for i, nm in enumerate(('get0', 'get1', 'mget0', 'mget1')): r.append(Contract(nm, 'vc_' + nm, get_setup, get_post(i % 2), 'ensures the member', cex=cex1, **U))
    return r
