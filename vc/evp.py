"""Assumed contracts of the OpenSSL EVP digest interface.

A context is in one of the states raw (allocated), live(md, s) (s: bytes absorbed), done (finished), bad (after a failure).
Every call that can fail is explored both ways; the ghost ('faults',) counts the failures on the path."""
from .sym import *
from .sym import PathEnd, Obj
from .models import model, G, cat_arr, szof, MAXLEN
LBL = 'OpenSSL EVP digest interface (context absorbs bytes, finishing yields the digest, any call may fail)'
SIZES = {'md2': 16, 'md4': 16, 'md5': 16, 'md5_sha1': 36, 'blake2b512': 64, 'blake2s256': 32, 'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64, 'sha512_224': 28,
         'sha512_256': 32, 'sha3_224': 28, 'sha3_256': 32, 'sha3_384': 48, 'sha3_512': 64, 'shake128': 16, 'shake256': 32, 'mdc2': 16, 'ripemd160': 20, 'whirlpool': 64, 'sm3': 32}
class Ctx:
    def __init__(self, state, md=None, len=None, arr=None): self.state, self.md, self.len, self.arr = state, md, len, arr
    def same(self, o): return self is o
    def havoc(self, ex, st, g): raise Unsupported('digest context changes in a loop')
    def quantities(self, g): return {}
DIG = {m: z3.Function('digest_' + m, A8, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8)) for m in SIZES}
def faults(st):
    g = st.ghost.get(('faults',)); return g.v if g else 0
def fault(st):
    st.ghost[('faults',)] = G(faults(st)+1)
def ctx(ex, st, p, what):
    if p.obj in (None, 0):
        ex.oblige(st, f'{what}: context is not null', False, 'mem'); raise PathEnd()
    c = st.ghost.get(('ctx', p.obj))
    if c is None or not ex.obj(st, p.obj).alive:
        ex.oblige(st, f'{what}: context is valid', False, 'mem'); raise PathEnd()
    return c
def put(st, p, c): st.ghost[('ctx', p.obj)] = c
def md_name(ex, p):
    if p.obj in (None, 0): return None
    for n, i in ex.globobjs.items():
        if i == p.obj and n.startswith('vc.md.'): return n[6:]
    raise Unsupported('unknown EVP_MD')
def md_ptr(ex, n):
    k = 'vc.md.' + n
    if k not in ex.globobjs:
        i = ex.nextobj; ex.nextobj += 1
        ex.globinit[i] = Obj(i, k, 8, ro=True, kind='opaque'); ex.globobjs[k] = i
    return Ptr(ex.globobjs[k], bv64(0))
ONE, ZERO = BV(1, 32), BV(0, 32)
@model(r'^EVP_(%s)$' % '|'.join(SIZES), LBL)
def _md(ex, st, a, ins, d): return [(st, md_ptr(ex, d[4:]))]
@model(r'^EVP_MD_(get_)?size$', LBL)
def _sz(ex, st, a, ins, d):
    n = md_name(ex, a[0])
    if n is None: ex.oblige(st, 'EVP_MD_size: digest not null', False, 'mem'); raise PathEnd()
    return [(st, BV(SIZES[n], 32))]
@model(r'^EVP_MD_CTX_get0_md$|^EVP_MD_CTX_md$', LBL)
def _ctxmd(ex, st, a, ins, d):
    c = ctx(ex, st, a[0], 'get0_md'); return [(st, md_ptr(ex, c.md) if c.md else Ptr(0, bv64(0)))]
@model(r'^EVP_MD_CTX_get1_md$', LBL)
def _x(ex, st, a, ins, d): raise Unsupported('EVP_MD_CTX_get1_md')
@model(r'^EVP_MD_CTX_new$', LBL)
def _new(ex, st, a, ins, d):
    s2 = st.fork(); fault(s2)
    i = ex.new_obj(st, 'EVP_MD_CTX', 64, kind='opaque'); st.ghost[('ctx', i)] = Ctx('raw')
    return [(st, Ptr(i, bv64(0))), (s2, Ptr(0, bv64(0)))]
@model(r'^EVP_MD_CTX_reset$', LBL)
def _rst(ex, st, a, ins, d): ctx(ex, st, a[0], 'reset'); put(st, a[0], Ctx('raw')); return [(st, ONE)]
@model(r'^EVP_MD_CTX_free$', LBL)
def _free(ex, st, a, ins, d):
    if a[0].obj in (None, 0): return [(st, None)]
    ctx(ex, st, a[0], 'free')
    o = ex.obj(st, a[0].obj).copy(); o.alive = False; st.mem[a[0].obj] = o; put(st, a[0], Ctx('freed'))
    return [(st, None)]
@model(r'^EVP_DigestInit(_ex|_ex2)?$', LBL)
def _init(ex, st, a, ins, d):
    c = ctx(ex, st, a[0], 'init'); n = md_name(ex, a[1]) or c.md
    if n is None: ex.oblige(st, 'EVP_DigestInit: a digest is set', False, 'mem'); raise PathEnd()
    s2 = st.fork(); fault(s2); put(s2, a[0], Ctx('bad', n))
    put(st, a[0], Ctx('live', n, bv64(0), fresh_arr('stream')))
    return [(st, ONE), (s2, ZERO)]
@model(r'^EVP_DigestUpdate$', LBL)
def _upd(ex, st, a, ins, d):
    c = ctx(ex, st, a[0], 'update'); n = a[2]; p = a[1]
    ex.oblige(st, 'EVP_DigestUpdate: context is started', c.state == 'live', 'mem')
    if c.state != 'live': raise PathEnd()
    if p.obj in (None, 0):
        ex.oblige(st, 'EVP_DigestUpdate: data readable', n == 0, 'mem'); st.assume(n == 0)
        src, so = fresh_arr('none'), bv64(0)
    else:
        sz = szof(ex, st, p)
        ex.oblige(st, 'EVP_DigestUpdate: data readable', z3.Or(n == 0, z3.And(z3.ULE(n, sz), z3.ULE(p.off, sz-n))), 'mem')
        src, so = ex.arr_view(st, p)
    s2 = st.fork(); fault(s2); put(s2, a[0], Ctx('bad', c.md))
    put(st, a[0], Ctx('live', c.md, simp(c.len + n), cat_arr(ex, st, c.arr, c.len, src, so, n)))
    return [(st, ONE), (s2, ZERO)]
def _final(ex, st, a, ins, d, reset):
    c = ctx(ex, st, a[0], 'final')
    ex.oblige(st, 'EVP_DigestFinal: context is started', c.state == 'live', 'mem')
    if c.state != 'live': raise PathEnd()
    k = SIZES[c.md]
    s2 = st.fork(); fault(s2); put(s2, a[0], Ctx('bad', c.md))
    p = a[1]
    if p.obj in (None, 0): ex.oblige(st, 'EVP_DigestFinal: output not null', False, 'mem'); raise PathEnd()
    sz = szof(ex, st, p)
    ex.oblige(st, f'EVP_DigestFinal: room for the {k} bytes of the digest', z3.And(z3.UGE(sz, bv64(k)), z3.ULE(p.off, sz - k)), 'mem')
    o = ex.wobj(st, p.obj); ex.to_array(st, o)
    arr = o.arr
    for i in range(k): arr = z3.Store(arr, simp(p.off + i), DIG[c.md](c.arr, c.len, bv64(i)))
    o.arr = arr
    if a[2].obj not in (None, 0): ex.store(st, a[2], INT(32), BV(k, 32))
    put(st, a[0], Ctx('raw' if reset else 'done', None if reset else c.md))
    return [(st, ONE), (s2, ZERO)]
@model(r'^EVP_DigestFinal_ex$', LBL)
def _fin(ex, st, a, ins, d): return _final(ex, st, a, ins, d, False)
@model(r'^EVP_DigestFinal$', LBL)
def _fin2(ex, st, a, ins, d): return _final(ex, st, a, ins, d, True)
@model(r'^ERR_(get|peek|peek_last)_error$', 'OpenSSL error queue returns some number')
def _err(ex, st, a, ins, d): return [(st, fresh('err'))]
@model(r'^ERR_clear_error$', 'OpenSSL error queue returns some number')
def _errc(ex, st, a, ins, d): return [(st, None)]
@model(r'^vc_any_history$')
def _hist(ex, st, a, ins, d):
    """ghost step of the harness: every live context has absorbed an arbitrary byte string (the representation invariant of the
    hasher: nothing else in it changes, which each contract proves as its frame condition)"""
    for k, c in list(st.ghost.items()):
        if k[0] == 'ctx' and c.state == 'live':
            ln = fresh('hist'); st.assume(z3.ULE(ln, bv64(MAXLEN)))
            st.ghost[k] = Ctx('live', c.md, ln, fresh_arr('history'))
    o = ex.obj(st, a[0].obj)
    st.ghost[('mark',)] = G({'obj': a[0].obj, 'cells': dict(o.cells), 'ctx': {k: c for k, c in st.ghost.items() if k[0] == 'ctx'}, 'faults': faults(st), 'alive': {i for i, x in st.mem.items() if x.alive and x.name == 'EVP_MD_CTX'}})
    return [(st, None)]
