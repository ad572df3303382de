"""Assumed contracts of std::vector<T> for a trivially copyable T of a power-of-two size (an abstract sequence of words), and of
std::shared_mutex (ownership).  Opt-in: models_for(type name, bytes), is_member."""
import re, z3
from .sym import *
from .sym import PathEnd
from . import models as M
from .models import MODELS
from .ir import Unsupported, INT
class WVec:
    """length (elements) and a private buffer object"""
    __slots__ = ('len', 'buf', 'ws', 'opq')
    def __init__(self, ln, buf, ws, opq=False): self.len, self.buf, self.ws, self.opq = ln, buf, ws, opq
    def same(self, o): return self.buf == o.buf and self.len.eq(o.len)
    def havoc(self, ex, st, g):
        ln = fresh('veclen'); st.assume(z3.ULE(ln, bv64(maxlen(self.ws))))
        o = ex.obj(st, self.buf).copy(); o.size = simp(ln*self.ws); o.arr = fresh_like('vec', o.arr); st.mem[self.buf] = o
        return WVec(ln, self.buf, self.ws, self.opq)
    def quantities(self, g): return {f'len(vec{g[1]}+{g[2]})': lambda s, g=g: s.st.ghost[g].len}
def maxlen(ws): return ((1 << 63)-1)//ws
def sort(ws): return z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8*ws))
def key(p):
    o = simp(p.off)
    if p.obj in (None, 0) or not isconst(o): raise Unsupported('vector at unknown address')
    return ('wvec', p.obj, cval(o))
def new(ex, st, p, ln, arr, ws, opq=False):
    ln = simp(ln); i = ex.new_obj(st, 'vecbuf', simp(ln*ws), mode='words', arr=arr); o = st.mem[i]; o.ws = ws; o.opaque = opq
    st.ghost[key(p)] = WVec(ln, i, ws, opq); return i
def get(ex, st, p):
    v = st.ghost.get(key(p))
    if v is None: ex.oblige(st, 'std::vector object is alive and initialised', False, 'mem'); raise PathEnd()
    return v
def drop(ex, st, v):
    o = ex.obj(st, v.buf).copy(); o.alive = False; st.mem[v.buf] = o
def put(ex, st, p, ln, arr):
    """new contents; references to the old ones are invalid"""
    v = get(ex, st, p); drop(ex, st, v); new(ex, st, p, ln, arr, v.ws, v.opq)
    st.written.add(p.obj)
def arr(ex, st, v): return ex.obj(st, v.buf).arr
class El:
    """elements are plain words"""
    opaque = False
    def __init__(self, ws, width=None): self.ws = ws; self.width = width or 8*ws
    def rd(self, ex, st, p): return ex.read_word(st, p, self.width//8)
    mv = rd
def members(tname, ws, el=None):
    """tname: element type (regex); ws: bytes from one element to the next; el: how elements are read"""
    el = el or El(ws); W = el.width; ZERO = BV(0, W)
    def new(ex, st, p, ln, arr, ws, g=globals()['new']): return g(ex, st, p, ln, arr, ws, el.opaque)
    A = r'(, std::allocator<' + tname + r'>)?'; V = r'std::vector<' + tname + A + r'>'
    LBL = f'std::vector<{tname.replace(chr(92), "")}> behaves as an abstract sequence (length_error above the maximum; no allocation failure)'
    T = []
    def vm(rx):
        def reg(f): T.append((re.compile('^([^(]* )?' + V + '::(' + rx + ')'), f, LBL)); return f
        return reg
    @vm(r'vector\(\)')
    def _def(ex, st, a, ins, d): new(ex, st, a[0], bv64(0), z3.K(z3.BitVecSort(64), ZERO), ws); return [(st, None)]
    def fill(ex, st, a, val, put_):
        n = a[1]; big = simp(z3.UGT(n, bv64(maxlen(ws)))); r = []
        if not z3.is_false(big) and ex.sol.feasible(st.pc + [big]):
            s2 = st.fork(); s2.assume(big); r.append((s2, None, {'type': 'St12length_error'}))
        st.assume(z3.Not(big))
        if ex.sol.feasible(st.pc): put_(ex, st, a[0], n, z3.K(z3.BitVecSort(64), val)); r.append((st, None))
        return r
    @vm(r'vector\(unsigned long, std::allocator')
    def _n(ex, st, a, ins, d): return fill(ex, st, a, ZERO, lambda *x: new(*x, ws))
    @vm(r'vector\(unsigned long, ')
    def _nv(ex, st, a, ins, d): return fill(ex, st, a, el.rd(ex, st, a[2]), lambda *x: new(*x, ws))
    @vm(r'assign\(unsigned long, ')
    def _asn(ex, st, a, ins, d): return fill(ex, st, a, el.rd(ex, st, a[2]), put)
    @vm(r'assign<__gnu_cxx::__normal_iterator<.*>\(__gnu_cxx::__normal_iterator<')
    def _asr(ex, st, a, ins, d):
        f, l = a[1], a[2]
        if el.opaque: raise Unsupported('range of entries')
        if simp(f.off).eq(simp(l.off)) and f.obj == l.obj: put(ex, st, a[0], bv64(0), z3.K(z3.BitVecSort(64), ZERO)); return [(st, None)]
        if f.obj != l.obj or f.obj in (None, 0): raise Unsupported('range over several objects')
        o = ex.obj(st, f.obj); n = simp(z3.LShR(l.off - f.off, ws.bit_length()-1))
        if o.mode != 'words' or o.ws != ws or not z3.is_true(simp(f.off == 0)): raise Unsupported('range not over a sequence of words')
        ex.oblige(st, 'assign: the range is valid', z3.And(z3.ULE(f.off, l.off), z3.ULE(l.off, o.size)), 'mem')
        big = simp(z3.UGT(n, bv64(maxlen(ws)))); r = []
        if not z3.is_false(big) and ex.sol.feasible(st.pc + [big]): s2 = st.fork(); s2.assume(big); r.append((s2, None, {'type': 'St12length_error'}))
        st.assume(z3.Not(big)); put(ex, st, a[0], n, o.arr); return r + [(st, None)]
    @vm(r'resize\(unsigned long(, .*)?\)')
    def _rsz(ex, st, a, ins, d):
        v = get(ex, st, a[0]); val = el.rd(ex, st, a[2]) if len(a) > 2 else ZERO; old = arr(ex, st, v)
        j = z3.BitVec('j!rs', 64); na = z3.Lambda([j], z3.If(z3.ULT(j, v.len), z3.Select(old, j), val))
        r = fill(ex, st, a, val, lambda ex, st, p, n, _: put(ex, st, p, n, na)); return r
    @vm(r'vector\(' + V + r' const&\)')
    def _cp(ex, st, a, ins, d): v = get(ex, st, a[1]); new(ex, st, a[0], v.len, arr(ex, st, v), ws); return [(st, None)]
    @vm(r'vector\(' + V + r'&&\)')
    def _mv(ex, st, a, ins, d):
        v = get(ex, st, a[1]); st.ghost[key(a[0])] = v; new(ex, st, a[1], bv64(0), z3.K(z3.BitVecSort(64), ZERO), ws); return [(st, None)]
    @vm(r'~vector\(\)')
    def _dt(ex, st, a, ins, d): v = get(ex, st, a[0]); drop(ex, st, v); del st.ghost[key(a[0])]; return [(st, None)]
    @vm(r'operator=\(' + V + r' const&\)')
    def _asg(ex, st, a, ins, d):
        v = get(ex, st, a[1])
        if key(a[0]) != key(a[1]): put(ex, st, a[0], v.len, arr(ex, st, v))
        return [(st, a[0])]
    @vm(r'operator=\(' + V + r'&&\)')
    def _masg(ex, st, a, ins, d):
        v = get(ex, st, a[1])
        if key(a[0]) != key(a[1]): drop(ex, st, get(ex, st, a[0])); st.ghost[key(a[0])] = v; new(ex, st, a[1], bv64(0), z3.K(z3.BitVecSort(64), ZERO), ws)
        return [(st, a[0])]
    @vm(r'clear\(\)')
    def _clr(ex, st, a, ins, d): put(ex, st, a[0], bv64(0), arr(ex, st, get(ex, st, a[0]))); return [(st, None)]
    @vm(r'swap\(')
    def _sw(ex, st, a, ins, d): k, l = key(a[0]), key(a[1]); get(ex, st, a[0]); get(ex, st, a[1]); st.ghost[k], st.ghost[l] = st.ghost[l], st.ghost[k]; return [(st, None)]
    @vm(r'(reserve|shrink_to_fit)\(')
    def _res(ex, st, a, ins, d): return [(st, None)]
    @vm(r'size\(\) const')
    def _sz(ex, st, a, ins, d): return [(st, get(ex, st, a[0]).len)]
    @vm(r'max_size\(\) const')
    def _msz(ex, st, a, ins, d): return [(st, bv64(maxlen(ws)))]
    @vm(r'empty\(\) const')
    def _emp(ex, st, a, ins, d): return [(st, simp(z3.If(get(ex, st, a[0]).len == 0, BV(1, 1), BV(0, 1))))]
    @vm(r'(data|c?begin)\(\)')
    def _dat(ex, st, a, ins, d): return [(st, Ptr(get(ex, st, a[0]).buf, bv64(0)))]
    @vm(r'c?end\(\)')
    def _end(ex, st, a, ins, d): v = get(ex, st, a[0]); return [(st, Ptr(v.buf, simp(v.len*ws)))]
    def elem(ex, st, p, i):
        v = get(ex, st, p); ex.oblige(st, 'vector index below the size', z3.ULT(i, v.len), 'mem'); return Ptr(v.buf, simp(i*ws))
    @vm(r'operator\[\]\(unsigned long\)')
    def _ix(ex, st, a, ins, d): return [(st, elem(ex, st, a[0], a[1]))]
    @vm(r'front\(\)')
    def _fr(ex, st, a, ins, d): return [(st, elem(ex, st, a[0], bv64(0)))]
    @vm(r'back\(\)')
    def _bk(ex, st, a, ins, d): return [(st, elem(ex, st, a[0], simp(get(ex, st, a[0]).len-1)))]
    @vm(r'at\(unsigned long\)')
    def _at(ex, st, a, ins, d):
        v = get(ex, st, a[0]); ok = simp(z3.ULT(a[1], v.len)); r = []
        if ex.sol.feasible(st.pc + [z3.Not(ok)]): s2 = st.fork(); s2.assume(z3.Not(ok)); r.append((s2, None, {'type': 'St12out_of_range'}))
        if ex.sol.feasible(st.pc + [ok]): st.assume(ok); r.append((st, Ptr(v.buf, simp(a[1]*ws))))
        return r
    @vm(r'(push_back|emplace_back(<' + tname + r'( const)?&?>)?)\(' + tname + r'( const&|&&|&)?\)')
    def _pb(ex, st, a, ins, d):
        v = get(ex, st, a[0]); A = arr(ex, st, v); mv = d.rstrip(')').endswith('&&')
        big = simp(z3.UGE(v.len, bv64(maxlen(ws)))); r = []
        if not z3.is_false(big) and ex.sol.feasible(st.pc + [big]):
            s2 = st.fork(); s2.assume(big); r.append((s2, None, {'type': 'St12length_error'}))
        st.assume(z3.Not(big))
        x = el.mv(ex, st, a[1]) if mv else el.rd(ex, st, a[1])
        ln = simp(v.len+1); put(ex, st, a[0], ln, z3.Store(A, v.len, x)); v = get(ex, st, a[0])
        r.append((st, Ptr(v.buf, simp((v.len-1)*ws)) if 'emplace' in d else None)); return r
    @vm(r'pop_back\(\)')
    def _pop(ex, st, a, ins, d):
        v = get(ex, st, a[0]); ex.oblige(st, 'pop_back: not empty', v.len != 0, 'mem'); put(ex, st, a[0], v.len-1, arr(ex, st, v)); return [(st, None)]
    @vm(r'erase\(__gnu_cxx::__normal_iterator<[^,]*, ' + V + r'>\)')
    def _er(ex, st, a, ins, d):
        v = get(ex, st, a[0]); p = a[1]
        if p.obj != v.buf: ex.oblige(st, 'erase: the iterator belongs to the vector', False, 'mem'); raise PathEnd()
        ex.oblige(st, 'erase: the iterator refers to an element', z3.ULT(p.off, v.len*ws), 'mem')
        i, res = ex.word_index(st, ex.obj(st, v.buf), p.off)
        if res: raise Unsupported('iterator inside an element')
        A = arr(ex, st, v); N = fresh_like('erased', A); j = z3.BitVec('j!er', 64)
        st.pc.append(z3.ForAll([j], z3.Select(N, j) == z3.If(z3.ULT(j, i), z3.Select(A, j), z3.Select(A, j+1)), patterns=[z3.Select(N, j)]))
        put(ex, st, a[0], v.len-1, N); v = get(ex, st, a[0]); return [(st, Ptr(v.buf, simp(i*ws)))]
    def oth(ex, st, a, ins, d): raise Unsupported('no contract for ' + d[:160])
    T.append((re.compile('^([^(]* )?' + V + '::'), oth, LBL))
    return T
# ------------------------------------------------------------------ std::shared_mutex
LK = 'std::shared_mutex: exclusive and shared ownership (locking succeeds; other threads are not modelled)'
class Lk:
    def __init__(self, x=0, s=0): self.x, self.s = x, s
    def same(self, o): return (self.x, self.s) == (o.x, o.s)
    def havoc(self, ex, st, g): return self
    def quantities(self, g): return {}
def lk(st, p): return st.ghost.get(('lock', p.obj, cval(simp(p.off))), Lk())
def setlk(st, p, x, s): st.ghost[('lock', p.obj, cval(simp(p.off)))] = Lk(x, s)
def held(st): return [k for k, v in st.ghost.items() if k[0] == 'lock' and (v.x or v.s)]
def _lock(ex, st, a, ins, d):
    l = lk(st, a[0]); ex.oblige(st, 'lock: not already held by this thread', not (l.x or l.s), 'mem')
    if l.x or l.s: raise PathEnd()
    setlk(st, a[0], 1, 0); return [(st, BV(1, 1) if 'try' in d else None)]
def _slock(ex, st, a, ins, d):
    l = lk(st, a[0]); ex.oblige(st, 'shared lock: not held exclusively by this thread', not l.x, 'mem')
    if l.x: raise PathEnd()
    setlk(st, a[0], 0, l.s+1); return [(st, BV(1, 1) if 'try' in d else None)]
def _unl(ex, st, a, ins, d):
    l = lk(st, a[0]); ex.oblige(st, 'unlock: held exclusively', l.x == 1, 'mem')
    if l.x != 1: raise PathEnd()
    setlk(st, a[0], 0, 0); return [(st, None)]
def _sunl(ex, st, a, ins, d):
    l = lk(st, a[0]); ex.oblige(st, 'shared unlock: held', l.s >= 1, 'mem')
    if l.s < 1: raise PathEnd()
    setlk(st, a[0], 0, l.s-1); return [(st, None)]
def _ctor(ex, st, a, ins, d): setlk(st, a[0], 0, 0); return [(st, None)]
def _dtor(ex, st, a, ins, d):
    l = lk(st, a[0]); ex.oblige(st, 'a mutex is destroyed unlocked', not (l.x or l.s), 'mem'); return [(st, None)]
LOCKS = [(re.compile('^std::shared_mutex::' + x), f, LK) for x, f in ((r'shared_mutex\(', _ctor), (r'~', _dtor), (r'(try_)?lock\(', _lock), (r'(try_)?lock_shared\(', _slock), (r'unlock\(', _unl), (r'unlock_shared\(', _sunl))]
LOCK_MEMBER = re.compile(r'^([^(]* )?std::(shared_mutex|__shared_mutex_pthread)::')
def models_for(*types): return [m for t in types for m in members(*t)] + LOCKS + MODELS
def is_member(tname):
    rx = re.compile(r'^([^(]* )?std::vector<' + tname + r'(, std::allocator<' + tname + r'>)?>::')
    return lambda d: bool(rx.match(d)) or bool(LOCK_MEMBER.match(d))
