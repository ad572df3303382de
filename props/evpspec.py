"""Shared by C07 and C08: the digest classes over the assumed EVP contracts (vc/evp.py)."""
from .lib import *
from vc import evp
from vc.evp import DIG, SIZES
HF = 'md4 md5 blake2b_512 blake2s_256 sha1 sha224 sha256 sha384 sha512 sha3_224 sha3_256 sha3_384 sha3_512 shake128 shake256 ripemd160 whirlpool'.split()
MDOF = {n: {'blake2b_512': 'blake2b512', 'blake2s_256': 'blake2s256'}.get(n, n) for n in HF}
MD = 'md2 md4 md5 md5_sha1 blake2b512 blake2s256 sha1 sha224 sha256 sha384 sha512 sha512_224 sha512_256 sha3_224 sha3_256 sha3_384 sha3_512 shake128 shake256 mdc2 ripemd160 whirlpool sm3'.split()
UNAVAIL = ('md2', 'mdc2')     # may be compiled out of the crypto library
def ids(ex, g, names):
    p = ex.global_ptr(g)
    o = ex.globinit[p.obj]
    st = State(); st.mem[p.obj] = o
    return {n: cval(simp(ex.load(st, Ptr(p.obj, bv64(4*i)), INT(32)))) for i, n in enumerate(names)}
def setup(kind, data=False, out=False, hint=None):
    """kind: 'hf' | 'md'"""
    def s(ex, st):
        f = z3.BitVec('f', 32); c = dict(f=f, kind=kind, ids=ids(ex, 'vc_hf_ids', HF) if kind == 'hf' else ids(ex, 'vc_md_ids', MD))
        a = [f]
        if hint != 'make': c['h'] = ex.new_obj(st, 'hasher', 64); a.append(P0(c['h']))
        if data:
            n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN))); i, IN = bytes_obj(ex, st, 'IN', n); a += [P0(i), n]; c.update(n=n, IN=IN)
        if out:
            m = z3.BitVec('m', 64); st.assume(z3.ULE(m, bv64(MAXN))); c['OUT0'] = z3.Const('OUT0', A8)
            o = ex.new_obj(st, 'out', m, mode='array', arr=c['OUT0']); a += [P0(o), m]; c.update(m=m, o=o)
        return a, None, c
    return s
def mdof(c, n): return MDOF[n] if c['kind'] == 'hf' else n
def is_md(c, md): return z3.Or(*[c['f'] == BV(v, 32) for n, v in c['ids'].items() if mdof(c, n) == md])
def named(c): return z3.Or(*[c['f'] == BV(v, 32) for v in c['ids'].values()])
def must(c): return z3.Or(*[c['f'] == BV(v, 32) for n, v in c['ids'].items() if n not in UNAVAIL])
def live(ex, st): return [(k, v) for k, v in st.ghost.items() if k[0] == 'ctx' and ex.obj(st, k[1]).alive]
def mark(o):
    g = o.st.ghost.get(('mark',)); return g.v if g else None
def cells_same(a, b):
    if set(a) != set(b): return False
    for k in a:
        (n, v), (m, w) = a[k], b[k]
        if n != m: return False
        if isinstance(v, Ptr) or isinstance(w, Ptr):
            if not (isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj == w.obj and z3.is_true(simp(v.off == w.off))): return False
        elif v is not w and not (z3.is_expr(v) and z3.is_expr(w) and z3.is_true(simp(v == w))): return False
    return True
def frame(ex, o, m):
    ob = ex.obj(o.st, m['obj'])
    ex.oblige(o.st, 'nothing but the digest context of the hasher changes', ob.mode == 'cells' and cells_same(m['cells'], ob.cells))
    ex.oblige(o.st, 'no context is created or released', {k[1] for k, _ in live(ex, o.st)} == m['alive'])
def one_ctx(ex, o):
    l = live(ex, o.st)
    ex.oblige(o.st, 'exactly one digest context is in use', len(l) == 1)
    return l[0][1] if len(l) == 1 else None
def case(kind):
    def f(ex, m, c):
        v = m.eval(c['f'], model_completion=True).as_signed_long()
        n = m.eval(c['n'], model_completion=True).as_long() if 'n' in c else 3
        mm = m.eval(c['m'], model_completion=True).as_long() if 'm' in c else 64
        fn = [k for k, x in c['ids'].items() if x == v]
        if n > 1 << 20 or mm > 1 << 20: return []
        return [[kind, c['kind'], fn[0] if fn else str(v), str(n), str(mm)]]
    return f
