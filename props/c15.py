import z3, re
from vc.frame import Contract
from vc import models, wordvec as W
from vc.sym import *
from vc.sym import PathEnd
from vc.loops import Q, CandErr, quantities
from vc.ir import Unsupported
from .lib import *
ID = 'C15'
TITLE = 'A merkle tree stores its leaves and computes every inner node from its children'
HARNESS = 'merkle.cpp'
EL = 'dottorrent::sha256_hash'; WS = 32
_mem = W.is_member(EL)
def BOUNDARY(d): return models.std_boundary(d) or _mem(d)
NATIVE = dict(src='merkle.cpp', extra_src=('src/hasher/backends/openssl.cpp',), libs=('-lcrypto',))
FUNCTIONS = ['merkle_tree<sha256>: constructors, set_leaf_nodes, update(single_buffer_hasher&), root, has_root, set_leaf, get_leaf, get_node, get_layer, get_node_range, node_count, leaf_count, tree_height, copy, move, assignment, destruction (and the index helpers they use)', 'detail::log2_ceil, log2_floor']
ASSUMPTIONS = ['at most 2^57 leaves (the largest tree whose nodes fit the address space)', 'update(): the hasher given behaves as C07 says; its digest is an uninterpreted function of the bytes it was given', 'no other thread uses the tree (locking is checked for balance and self-deadlock only)',
    'update(multi_buffer_hasher&) is compiled with ISA-L only, which is not installed: not covered']
MODELS_ = W.models_for((EL, WS))
HMAX = 57
S256 = z3.BitVecSort(256)
D = z3.Function('digest64', z3.BitVecSort(512), S256)
def Dn(bits, x):
    return D(x) if bits == 512 else z3.Function(f'digest{bits//8}', z3.BitVecSort(bits), S256)(x)
# ---- the hasher handed to update(): records what it is given
class Hst:
    def __init__(self, words=()): self.words = words
    def same(self, o): return len(self.words) == len(o.words) and all(a.eq(b) for a, b in zip(self.words, o.words))
    def havoc(self, ex, st, g): raise Unsupported('the hasher holds different data from one iteration to the next')
    def quantities(self, g): return {}
HK = ('hasher',)
def h_update(ex, st, a, ins, d):
    n = simp(a[2]); h = st.ghost.get(HK, Hst())
    if not isconst(n): raise Unsupported('data of unknown length hashed')
    w = () if cval(n) == 0 else (ex.read_word(st, a[1], cval(n)),)
    st.ghost[HK] = Hst(h.words + w); return [(st, None)]
def h_final(ex, st, a, ins, d):
    n = simp(a[2]); h = st.ghost.get(HK, Hst())
    ex.oblige(st, 'the digest buffer holds a digest', z3.UGE(n, 32), 'mem')
    if not h.words: v = z3.BitVec('digest_of_nothing', 256)
    else: x = simp(z3.Concat(*reversed(h.words))) if len(h.words) > 1 else h.words[0]; v = Dn(x.size(), x)
    st.ghost[HK] = Hst()
    o = ex.check_access(st, a[1], 32, 'digest', True)
    if o.mode == 'cells' and isconst(simp(a[1].off)): ex.cell_write(ex.wobj(st, a[1].obj), cval(simp(a[1].off)), 32, v)
    else: ex.store(st, a[1], INT(256), v)
    return [(st, None)]
MODELS_ = [(re.compile('^vc_h_update$'), h_update, None), (re.compile('^vc_h_final$'), h_final, None)] + MODELS_
KW = dict(models_=MODELS_)
# ---- trees
def tsize(ex): return cval(ex.load(State(), ex.global_ptr('vc_tsize'), INT(64)))
def where(ex, st, o):
    ks = [k for k in st.ghost if k[0] == 'wvec' and k[1] == o]
    if len(ks) != 1: raise Unsupported('representation of the tree not recognised')
    return ks[0]
_lay = {}
def layout(ex):
    """where the node vector and the mutex live: read off the constructor"""
    k = id(ex.m)
    if k not in _lay:
        from vc.ir import get_func
        e2 = Executor(ex.m, MODELS_, None, None); st = State(); fn = get_func(ex.m, 'vc_def'); o = e2.new_obj(st, 'tree', tsize(e2)); f = Frame(fn)
        f.env[fn.params[0][1]] = P0(o); st.frames = [f]; outs = [x for x in e2.explore(st) if x.kind == 'ret']
        if len(outs) != 1: raise Unsupported('default construction')
        s = outs[0].st; _lay[k] = (where(e2, s, o)[2], [g[2] for g in s.ghost if g[0] == 'lock' and g[1] == o])
    return _lay[k]
def tree(ex, st, nm='t', hints=True):
    """a valid tree of any height: 2^(h+1)-1 nodes"""
    vo, lo = layout(ex); o = ex.new_obj(st, nm, tsize(ex)); h = z3.ZeroExt(58, z3.BitVec('h' + nm, 6)); st.assume(z3.ULE(h, bv64(HMAX)))
    N = z3.BitVec('N' + nm, 64); sz = z3.BitVec('sz' + nm, 64); st.assume(N == bv64(1) << h); st.assume(sz == 2*N - 1)
    A = z3.Const('A' + nm, W.sort(WS)); buf = W.new(ex, st, Ptr(o, bv64(vo)), sz, A, WS)
    for l in lo: W.setlk(st, Ptr(o, bv64(l)), 0, 0)
    if hints: ex.ctlz_hints = [(sz, bv64(63) - h)]
    return dict(o=o, h=h, N=N, sz=sz, A=A, buf=buf, vo=vo)
def vec(ex, st, o): return W.get(ex, st, Ptr(o, bv64(layout(ex)[0])))
def unlocked(ex, o): ex.oblige(o.st, 'no lock is left behind', not W.held(o.st))
def returned(ex, o):
    ex.oblige(o.st, 'returns', o.kind == 'ret'); unlocked(ex, o); return o.kind == 'ret'
def unchanged(ex, st, t, nm='the tree is unchanged'):
    v = vec(ex, st, t['o']); a = W.arr(ex, st, v)
    p = fresh('p'); ex.oblige(st, nm, z3.And(v.len == t['sz'], z3.Implies(z3.ULT(p, t['sz']), z3.Select(a, p) == z3.Select(t['A'], p))))
# ---- construction
def mk_setup(reset, val):
    def s(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(1 << 62))); c = dict(n=n)
        if reset: c['t'] = tree(ex, st, hints=False); o = c['t']['o']
        else: o = ex.new_obj(st, 'tree', tsize(ex))
        a = [P0(o), n]; c['o'] = o; c['v'] = BV(0, 256)
        if val: v = ex.new_obj(st, 'v', 32); x = z3.BitVec('v', 256); ex.store(st, P0(v), INT(256), x); a.append(P0(v)); c['v'] = x
        return a, None, c
    return s
def mk_post(ex, o, c):
    n = c['n']; unlocked(ex, o)
    if o.kind == 'throw': ex.oblige(o.st, 'only more leaves than the address space holds are refused', z3.UGT(n, bv64(1 << HMAX))); return
    ex.oblige(o.st, 'more leaves than the address space holds are refused', z3.ULE(n, bv64(1 << HMAX)))
    v = vec(ex, o.st, c['o']); a = W.arr(ex, o.st, v); N = z3.LShR(v.len + 1, bv64(1)); p = fresh('p')
    ex.oblige(o.st, 'the leaf count is a power of two', z3.And(N != 0, N & (N-1) == 0, v.len == 2*N-1))
    ex.oblige(o.st, 'it is the least that holds the leaves (two for none)', z3.If(n == 0, N == 2, z3.And(z3.UGE(N, n), z3.ULT(z3.LShR(N, bv64(1)), n))))
    ex.oblige(o.st, 'every node has the initial value', z3.Implies(z3.ULT(p, v.len), z3.Select(a, p) == c['v']))
# ---- observers
def obs(args=0):
    def s(ex, st):
        t = tree(ex, st); xs = [z3.BitVec(f'x{i}', 64) for i in range(args)]; return [P0(t['o'])] + xs, None, dict(t=t, x=xs)
    return s
def val_post(f, nm):
    def post(ex, o, c):
        if returned(ex, o): ex.oblige(o.st, nm, f(o.val, c['t'])); unchanged(ex, o.st, c['t'])
    return post
def rd_setup(args, req):
    def s(ex, st):
        t = tree(ex, st); xs = [z3.BitVec(f'x{i}', 64) for i in range(args)]; r = ex.new_obj(st, 'r', 32)
        for q in req(t, *xs): st.assume(q)
        return [P0(t['o'])] + xs + [P0(r)], None, dict(t=t, x=xs, r=r)
    return s
def rd_post(ix):
    def post(ex, o, c):
        if not returned(ex, o): return
        ex.oblige(o.st, 'gives the node stored there', ex.read_word(o.st, P0(c['r']), 32) == z3.Select(c['t']['A'], simp(ix(c['t'], *c['x'])))); unchanged(ex, o.st, c['t'])
    return post
def set_setup(ex, st):
    t = tree(ex, st); i = z3.BitVec('x0', 64); st.assume(z3.ULT(i, t['N'])); v = ex.new_obj(st, 'v', 32); x = z3.BitVec('v', 256); ex.store(st, P0(v), INT(256), x)
    return [P0(t['o']), i, P0(v)], None, dict(t=t, x=[i], v=x)
def set_post(ex, o, c):
    if not returned(ex, o): return
    t = c['t']; v = vec(ex, o.st, t['o']); a = W.arr(ex, o.st, v); p = fresh('p'); at = t['N'] - 1 + c['x'][0]
    ex.oblige(o.st, 'the number of nodes stays', v.len == t['sz']); ex.oblige(o.st, 'the leaf is stored', z3.Select(a, at) == c['v'])
    ex.oblige(o.st, 'no other node changes', z3.Implies(z3.And(z3.ULT(p, t['sz']), p != at), z3.Select(a, p) == z3.Select(t['A'], p)))
def span_setup(args, req):
    def s(ex, st):
        t = tree(ex, st); xs = [z3.BitVec(f'x{i}', 64) for i in range(args)]; r = ex.new_obj(st, 'n', 8)
        for q in req(t, *xs): st.assume(q)
        return [P0(t['o'])] + xs + [P0(r)], None, dict(t=t, x=xs, r=r)
    return s
def span_post(first, count):
    def post(ex, o, c):
        if not returned(ex, o): return
        t, x = c['t'], c['x']; n = ex.load(o.st, P0(c['r']), INT(64)); v = vec(ex, o.st, t['o'])
        ex.oblige(o.st, 'as many nodes as asked for', n == count(t, *x))
        ex.oblige(o.st, 'starting at the right node', z3.And(z3.BoolVal(isinstance(o.val, Ptr) and o.val.obj == v.buf), o.val.off == 32*first(t, *x)) if isinstance(o.val, Ptr) else False)
        ex.oblige(o.st, 'inside the tree', z3.And(z3.ULE(n, t['sz']), z3.ULE(first(t, *x), t['sz'] - n))); unchanged(ex, o.st, t)
    return post
# ---- copies
def cp_setup(asg):
    def s(ex, st):
        t = tree(ex, st)
        if asg == 'self': return [P0(t['o']), P0(t['o'])], None, dict(t=t, o=t['o'], asg=asg)
        o = tree(ex, st, 'u', hints=False)['o'] if asg else ex.new_obj(st, 'u', tsize(ex)); return [P0(o), P0(t['o'])], None, dict(t=t, o=o, asg=asg)
    return s
def cp_post(move):
    def post(ex, o, c):
        if not returned(ex, o): return
        t = c['t']; v = vec(ex, o.st, c['o']); a = W.arr(ex, o.st, v); p = fresh('p')
        ex.oblige(o.st, 'all nodes are carried over', z3.And(v.len == t['sz'], z3.Implies(z3.ULT(p, t['sz']), z3.Select(a, p) == z3.Select(t['A'], p))))
        if not move: unchanged(ex, o.st, t, 'the source is unchanged')
        ex.oblige(o.st, 'the copy has its own nodes', c['asg'] == 'self' or vec(ex, o.st, t['o']).buf != v.buf)
    return post
def dt_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret'); ex.oblige(o.st, 'the nodes are released', not [1 for i, x in o.st.mem.items() if x.alive and x.name == 'vecbuf'])
# ---- update
class Tree:
    """specification of update: T(p) is the leaf stored at p, or the digest of T at its two children; candidates say on which ranges the nodes agree with T"""
    ground = True
    def __init__(self, t): self.t = t; self.probes = [t['h'] == 3]; self.T = z3.Array('T', z3.BitVecSort(64), S256)
    def at(self, p): return z3.Select(self.T, p)
    def unfold_at(self, p):
        t = self.t
        return [z3.Implies(z3.ULT(p, t['N'] - 1), self.at(p) == D(z3.Concat(self.at(2*p+2), self.at(2*p+1)))), z3.Implies(z3.And(z3.UGE(p, t['N'] - 1), z3.ULT(p, t['sz'])), self.at(p) == z3.Select(t['A'], p))]
    def bounds(self, ex): return [('h', self.t['h']), ('nodes', self.t['sz']), ('leaves', self.t['N'])]
    def facts(self, ex, snap): return []
    def vars(self, ex, fn, snap):
        r = []
        for k, v in snap.phi.items():
            if isinstance(v, z3.BitVecRef) and v.size() == 64: r.append((k, lambda s, k=k: s.phi[k]))
            elif isinstance(v, Ptr) and v.obj == self.t['buf']: r.append((k, lambda s, k=k: z3.LShR(s.phi[k].off, bv64(5))))
        f = snap.st.frames[-1]
        for h, _ in f.cutloops:
            for ph in fn.blocks[h].phis:
                v = f.env.get(ph.res)
                if ph.res not in snap.phi and isinstance(v, z3.BitVecRef) and v.size() == 64: r.append((ph.res, lambda s, v=v: v))
        if ex.level: r += [('h-' + k, lambda s, v=v: self.t['h'] - v(s)) for k, v in r]
        return r
    def candidates(self, ex, fn, header, esnap, hsnap, wobjs, wghost):
        t = self.t; one = bv64(1); j = z3.BitVec('j!inv', 64); vs = self.vars(ex, fn, hsnap)
        def Rg(nm, lo, hi):
            def c(s):
                a = ex.obj(s.st, t['buf']).arr; return Q(j, z3.Implies(z3.And(z3.ULE(lo(s), j), z3.ULT(j, hi(s))), z3.Select(a, j) == self.at(j)), a)
            return (nm, c)
        end = lambda s: t['sz']; P2 = lambda e: one << e
        yield Rg('leaves as they were', lambda s: t['N'] - 1, end)
        for n, v in vs:
            yield (f'{n} even', lambda s, v=v: z3.Extract(0, 0, v(s)) == 0)
            for d in (-1, 0, 1):
                yield Rg(f'layers from {n}{d:+} are done', lambda s, v=v, d=d: P2(v(s)+d) - 1, end)
                yield Rg(f'nodes from {n}{d:+} are done', lambda s, v=v, d=d: v(s)+d, end)
            yield Rg(f'nodes from {n}/2 are done', lambda s, v=v: z3.LShR(v(s), one), end)
            yield (f'{n} <= leaves', lambda s, v=v: z3.ULE(v(s), t['N']))
            for m, w in vs:
                if m == n or m.startswith('h-'): continue
                yield (f'{m} <= 2^{n}', lambda s, v=v, w=w: z3.ULE(w(s), P2(v(s))))
                yield (f'{m} = 2^{n}', lambda s, v=v, w=w: w(s) == P2(v(s)))
                for d in (0, 1):
                    for sh in (0, 1):
                        lo = lambda s, v=v, d=d: P2(v(s)-d) - 1
                        yield Rg(f'first {m}/{1 << sh} nodes of layer {n}-{d} are done', lo, lambda s, lo=lo, w=w, sh=sh: lo(s) + z3.LShR(w(s), bv64(sh)))
                        yield Rg(f'nodes of layer {n}-{d} from {m}/{1 << sh} are done', lambda s, lo=lo, w=w, sh=sh: lo(s) + z3.LShR(w(s), bv64(sh)), end)
def up_setup(ex, st):
    t = tree(ex, st); sp = Tree(t); j = z3.BitVec('j!lv', 64)
    st.pc.append(z3.ForAll([j], z3.Implies(z3.And(z3.UGE(j, t['N'] - 1), z3.ULT(j, t['sz'])), sp.at(j) == z3.Select(t['A'], j)), patterns=[z3.Select(t['A'], j)]))
    return [P0(t['o'])], sp, dict(t=t, sp=sp)
def up_post(ex, o, c):
    if not returned(ex, o): return
    t, sp = c['t'], c['sp']; v = vec(ex, o.st, t['o']); a = W.arr(ex, o.st, v); p, q = fresh('p'), fresh('q'); S = lambda k: z3.Select(a, k)
    ex.oblige(o.st, 'the number of nodes stays', v.len == t['sz'])
    ex.oblige(o.st, 'the leaves stay', z3.Implies(z3.And(z3.UGE(q, t['N'] - 1), z3.ULT(q, t['sz'])), S(q) == z3.Select(t['A'], q)))
    s = o.st.fork(); s.pc += sp.unfold_at(p); l, r = 2*p+1, 2*p+2
    ex.oblige(s, 'every inner node is the digest of its two children', z3.Implies(z3.ULT(p, t['N'] - 1), S(p) == D(z3.Concat(S(r), S(l)))))
    ex.oblige(o.st, 'the hasher is left without data', not o.st.ghost.get(HK, Hst()).words)
def contracts(tier):
    r = []
    def C(n, e, s, p, txt, **k): r.append(Contract(n, 'vc_' + e, s, p, txt, **{**KW, **k}))
    U = dict(strategy=('unroll',))
    for e, rs, v, n in (('leaves', 0, 0, 'merkle_tree(n)'), ('leavesv', 0, 1, 'merkle_tree(n, value)'), ('reset', 1, 0, 'set_leaf_nodes(n)'), ('resetv', 1, 1, 'set_leaf_nodes(n, value)')):
        C(n, e, mk_setup(rs, v), mk_post, 'ensures 2^ceil(log2 n) leaves (2 for none), every node initialised; throws iff too many', **U)
    C('node_count', 'nodes', obs(), val_post(lambda v, t: v == t['sz'], 'one less than twice the leaves'), 'ensures node count', **U)
    C('leaf_count', 'leafs', obs(), val_post(lambda v, t: v == t['N'], 'the number of leaves'), 'ensures leaf count', **U)
    C('tree_height', 'height', obs(), val_post(lambda v, t: v == t['h'], 'the height'), 'ensures height', **U)
    C('has_root', 'hasroot', obs(), val_post(lambda v, t: retbool(v) == (z3.Select(t['A'], bv64(0)) != 0), 'tells whether the root is set'), 'ensures root is not all zero', **U)
    C('root', 'root', rd_setup(0, lambda t: []), rd_post(lambda t: bv64(0)), 'ensures the root', **U)
    C('get_leaf', 'get', rd_setup(1, lambda t, i: [z3.ULT(i, t['N'])]), rd_post(lambda t, i: t['N'] - 1 + i), 'requires i < leaves; ensures that leaf', **U)
    C('get_node', 'node', rd_setup(2, lambda t, l, i: [z3.ULE(l, t['h']), z3.ULT(i, bv64(1) << l)]), rd_post(lambda t, l, i: (bv64(1) << l) - 1 + i), 'requires layer and index inside; ensures that node', **U)
    C('set_leaf', 'set', set_setup, set_post, 'requires i < leaves; ensures that leaf only is changed', **U)
    lay = lambda t, r: [z3.ULT(r, t['sz'])]
    C('get_layer', 'layer0', span_setup(1, lambda t, d: [z3.ULE(d, t['h'])]), span_post(lambda t, d: (bv64(1) << d) - 1, lambda t, d: bv64(1) << d), 'ensures the 2^depth nodes of the layer', **U)
    def req(t, d, r): lv = z3.BitVec('lv', 64); return [z3.ULE(lv, t['h']), z3.ULE(d, t['h'] - lv), z3.UGE(r, (bv64(1) << lv) - 1), z3.ULT(r, (bv64(2) << lv) - 1)]
    C('get_layer of a subtree', 'layer', span_setup(2, req), span_post(lambda t, d, r: ((r + 1) << d) - 1, lambda t, d, r: bv64(1) << d), 'ensures the 2^depth nodes below the root given', **U)
    C('get_node_range', 'range', span_setup(3, lambda t, l, a, b: [z3.ULE(l, t['h']), z3.ULT(a, bv64(1) << l), z3.ULE(b, bv64(1) << l), z3.ULE(a, b)]), span_post(lambda t, l, a, b: (bv64(1) << l) - 1 + a, lambda t, l, a, b: b - a), 'ensures the nodes first..last of the layer', **U)
    for e, mv, asg, n in (('copy', 0, 0, 'copy construction'), ('move', 1, 0, 'move construction'), ('asg', 0, 1, 'copy assignment'), ('masg', 1, 1, 'move assignment'), ('asg', 0, 'self', 'copy assignment to itself'), ('masg', 1, 'self', 'move assignment to itself')):
        C(n, e, cp_setup(asg), cp_post(mv), 'ensures all nodes are carried over', **U)
    C('destruction', 'dtor', obs(), dt_post, 'ensures the nodes are released', **U)
    C('update', 'update', up_setup, up_post, 'ensures every inner node is the digest of its two children, leaves unchanged', strategy=('inv', 'inv2'), cut_all=True, timeout=600)
    return r
