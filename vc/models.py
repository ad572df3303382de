"""Assumed contracts of library functions (libstdc++, libc, LLVM intrinsics, C++ runtime).

Each handler: h(ex, st, args, ins, demangled) -> list of (state, value[, exception]).  The label names the assumption in the
evidence file."""
import re, z3
from .sym import *
from .sym import PathEnd, INLINE
from .ir import INT, PTR

MODELS = []
def model(rx, label=None):
    def d(f):
        MODELS.append((re.compile(rx), f, label)); return f
    return d

MAXLEN = 1 << 60     # standing assumption: every object is smaller than 2^60 bytes

# ------------------------------------------------------------------ intrinsics
@model(r'^llvm\.(lifetime|experimental\.noalias|dbg|assume|prefetch|invariant|donothing|var\.annotation)')
def _nop(ex, st, a, ins, d): return [(st, None)]
@model(r'^llvm\.expect')
def _expect(ex, st, a, ins, d): return [(st, a[0])]
@model(r'^llvm\.is\.constant')
def _isc(ex, st, a, ins, d): return [(st, BV(0, 1))]
@model(r'^llvm\.(memcpy|memmove)')
def _memcpy(ex, st, a, ins, d):
    copy_mem(ex, st, a[0], a[1], a[2]); return [(st, None)]
@model(r'^llvm\.memset')
def _memset(ex, st, a, ins, d):
    set_mem(ex, st, a[0], a[1], a[2]); return [(st, None)]
@model(r'^memset$', 'libc memset')
def _memset2(ex, st, a, ins, d):
    set_mem(ex, st, a[0], simp(z3.Extract(7, 0, a[1])), a[2]); return [(st, a[0])]
@model(r'^(memcpy|memmove)$', 'libc memcpy/memmove')
def _memcpy2(ex, st, a, ins, d):
    copy_mem(ex, st, a[0], a[1], a[2]); return [(st, a[0])]
@model(r'^llvm\.u(min|max)\.|^llvm\.s(min|max)\.')
def _minmax(ex, st, a, ins, d):
    x, y = a
    n = ins.x['callee'][1]
    c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[n.split('.')[1]]
    return [(st, simp(z3.If(c, x, y)))]
@model(r'^llvm\.abs\.')
def _abs(ex, st, a, ins, d): return [(st, simp(z3.If(a[0] < 0, -a[0], a[0])))]
@model(r'^llvm\.ctlz\.')
def _ctlz(ex, st, a, ins, d):
    x = a[0]; w = x.size()
    r = BV(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, x) == 1, BV(w-1-i, w), r)
    for t, v in getattr(ex, 'ctlz_hints', ()):
        # a shorter name for the value, used when it is provably the same
        if x.eq(t) and ex.sol.check([f for f in st.pc if not z3.is_quantifier(f)] + [r != v]) == z3.unsat: return [(st, v)]
    return [(st, simp(r))]
@model(r'^llvm\.cttz\.')
def _cttz(ex, st, a, ins, d):
    x = a[0]; w = x.size()
    r = BV(w, w)
    for i in range(w-1, -1, -1): r = z3.If(z3.Extract(i, i, x) == 1, BV(i, w), r)
    return [(st, simp(r))]
@model(r'^llvm\.ctpop\.')
def _ctpop(ex, st, a, ins, d):
    x = a[0]; w = x.size(); r = BV(0, w)
    for i in range(w): r = r + z3.ZeroExt(w-1, z3.Extract(i, i, x))
    return [(st, simp(r))]
@model(r'^llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow')
def _ovf(ex, st, a, ins, d):
    k = ins.x['callee'][1].split('.')[1]
    x, y = a
    if k == 'uadd': r, o = x+y, z3.Not(z3.BVAddNoOverflow(x, y, False))
    elif k == 'usub': r, o = x-y, z3.ULT(x, y)
    elif k == 'umul': r, o = x*y, z3.Not(z3.BVMulNoOverflow(x, y, False))
    elif k == 'sadd': r, o = x+y, z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
    elif k == 'ssub': r, o = x-y, z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
    else: r, o = x*y, z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
    return [(st, (simp(r), ex.b2bv(o)))]
@model(r'^llvm\.eh\.typeid\.for')
def _tid(ex, st, a, ins, d):
    v = a[0]
    for n, i in ex.globobjs.items():
        if isinstance(v, Ptr) and i == v.obj: return [(st, BV(ex.typeid(n[4:]), 32))]
    raise Unsupported('typeid')
@model(r'^llvm\.(trap|ubsantrap)')
def _trap(ex, st, a, ins, d):
    ex.oblige(st, 'trap not reached', False, 'mem'); raise PathEnd()
@model(r'^llvm\.fsh[lr]\.')
def _fsh(ex, st, a, ins, d):
    w = a[0].size(); c = z3.URem(a[2], BV(w, w)) if w & (w-1) else (a[2] & BV(w-1, w))
    big = z3.Concat(a[0], a[1]); cc = z3.ZeroExt(w, c)
    if 'fshl' in d: return [(st, simp(z3.Extract(2*w-1, w, big << cc)))]
    return [(st, simp(z3.Extract(w-1, 0, z3.LShR(big, cc))))]
@model(r'^llvm\.(bswap)\.')
def _bswap(ex, st, a, ins, d):
    x = a[0]; n = x.size()//8
    return [(st, simp(z3.Concat(*[z3.Extract(8*i+7, 8*i, x) for i in range(n)])))]
@model(r'^llvm\.(fabs|floor|ceil|round|fmuladd|pow|log2|trunc|sqrt)')
def _fp(ex, st, a, ins, d): return [(st, Opaque('fp'))]

def copy_mem(ex, st, dp, sp, n):
    n = simp(n)
    if not isconst(n) and dp.obj not in (None, 0):
        do = ex.obj(st, dp.obj)
        if do.mode == 'cells' and isinstance(do.size, int) and do.size <= 4096:
            k = unique_value(ex, st, n)
            if k is not None: n = bv64(k)
    if isconst(n):
        k = cval(n)
        if k == 0: return
        ex.check_access(st, dp, k, 'copy destination', True)
        ex.check_access(st, sp, k, 'copy source')
        so, do = ex.obj(st, sp.obj), ex.obj(st, dp.obj)
        if so.mode == 'words' or do.mode == 'words':
            w = ex.read_word(st, sp, k)
            if do.mode == 'cells' and isconst(dp.off): ex.cell_write(ex.wobj(st, dp.obj), cval(dp.off), k, w)
            else: ex.store(st, dp, INT(8*k), w)
            return
        if so.mode == 'cells' and do.mode == 'cells' and isconst(sp.off) and isconst(dp.off):
            s0, d0 = cval(sp.off), cval(dp.off)
            src = []
            i = 0
            while i < k:
                c = so.cells.get(s0+i)
                if c is not None and i+c[0] <= k:
                    src.append((i, c[0], c[1])); i += c[0]
                else:
                    b = ex.cell_byte(so, s0+i)
                    if b is None: raise Unsupported('partial pointer copy')
                    src.append((i, 1, b)); i += 1
            o = ex.wobj(st, dp.obj)
            for i, cn, v in src: ex.cell_write(o, d0+i, cn, v)
            copy_ghost(ex, st, sp.obj, s0, dp.obj, d0, k)
            return
        if k <= 128:
            bs = ex.read_bytes(st, sp, k)
            for i, b in enumerate(bs): ex.store(st, Ptr(dp.obj, simp(dp.off+i)), INT(8), b)
            return
        n = bv64(k)
    else:
        if not ex.sol.feasible(st.pc + [n != 0]): return
        # the access is only performed for n > 0
        def acc(p, what, w):
            o = ex.obj(st, p.obj) if p.obj not in (None, 0) else None
            if o is None:
                ex.oblige(st, f'{what}: pointer valid', n == 0, 'mem'); return
            sz = o.size if not isinstance(o.size, int) else bv64(o.size)
            ex.oblige(st, f'{what}: within bounds of {o.name}', z3.Or(n == 0, z3.And(z3.ULE(n, sz), z3.ULE(p.off, sz-n))), 'mem')
            if w and o.ro: ex.oblige(st, 'write to constant', n == 0, 'mem')
        acc(dp, 'copy destination', True); acc(sp, 'copy source', False)
        if dp.obj in (None, 0) or sp.obj in (None, 0): return
    sa, so = ex.arr_view(st, sp)
    o = ex.wobj(st, dp.obj); ex.to_array(st, o)
    na = fresh_arr('cpy')
    j = z3.BitVec('j!cpy', 64)
    st.pc.append(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.ULT(j - dp.off, n), z3.Select(sa, j - dp.off + so), z3.Select(o.arr, j)), patterns=[z3.Select(na, j)]))
    o.arr = na

def copy_ghost(ex, st, so, s0, do, d0, k):
    pass

def set_mem(ex, st, dp, b, n):
    n = simp(n)
    if isconst(n):
        k = cval(n)
        if k == 0: return
        ex.check_access(st, dp, k, 'fill destination', True)
        o = ex.wobj(st, dp.obj)
        if o.mode == 'cells' and isconst(dp.off) and k <= 4096:
            d0 = cval(dp.off)
            i = 0
            while i < k:
                if isconst(b) and cval(b) == 0 and (d0+i) % 8 == 0 and i+8 <= k:
                    ex.cell_write(o, d0+i, 8, BV(0, 64)); i += 8
                else:
                    ex.cell_write(o, d0+i, 1, b); i += 1
            return
        n = bv64(k)
    else:
        ex.oblige(st, 'fill destination in bounds', z3.Or(n == 0, z3.And(z3.ULE(n, szof(ex, st, dp)), z3.ULE(dp.off, szof(ex, st, dp)-n))), 'mem')
    o = ex.wobj(st, dp.obj); ex.to_array(st, o)
    na = fresh_arr('set')
    j = z3.BitVec('j!set', 64)
    st.pc.append(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.ULT(j - dp.off, n), b, z3.Select(o.arr, j)), patterns=[z3.Select(na, j)]))
    o.arr = na
def szof(ex, st, p):
    o = ex.obj(st, p.obj)
    return bv64(o.size) if isinstance(o.size, int) else o.size

def unique_value(ex, st, t):
    """the concrete value of t on this path, or None"""
    t = simp(t)
    if isconst(t): return cval(t)
    pc = [x for x in st.pc if not z3.is_quantifier(x)]       # a value forced by the quantifier-free facts (they suffice in practice)
    if ex.sol.check(pc, 3000) != z3.sat: return None
    v = ex.sol.model().eval(t, model_completion=True)
    if ex.sol.check(pc + [t != v], 3000) == z3.unsat: return cval(v)
    return None

# ------------------------------------------------------------------ libc
@model(r'^(memcmp|bcmp)$', 'libc memcmp')
def _memcmp(ex, st, a, ins, d):
    return mem_compare(ex, st, a[0], a[1], a[2], 32)
def mem_compare(ex, st, p, q, n, w=32):
    k = unique_value(ex, st, n)
    if k is not None and k <= 128:
        if k == 0: return [(st, BV(0, w))]
        ex.check_access(st, p, k, 'memcmp'); ex.check_access(st, q, k, 'memcmp')
        x = ex.read_bytes(st, p, k); y = ex.read_bytes(st, q, k)
        X, Y = (z3.Concat(*x), z3.Concat(*y)) if k > 1 else (x[0], y[0])  # big-endian numbers: lexicographic order of unsigned bytes
        return [(st, simp(z3.If(X == Y, BV(0, w), z3.If(z3.ULT(X, Y), BV(-1, w), BV(1, w)))))]
    # symbolic length: characterise by first difference
    def acc(pp, what):
        if pp.obj in (None, 0):
            ex.oblige(st, f'{what}: pointer valid', n == 0, 'mem'); return
        sz = szof(ex, st, pp)
        ex.oblige(st, f'{what}: within bounds of {ex.obj(st, pp.obj).name}', z3.Or(n == 0, z3.And(z3.ULE(n, sz), z3.ULE(pp.off, sz-n))), 'mem')
    acc(p, 'memcmp'); acc(q, 'memcmp')
    if p.obj in (None, 0) or q.obj in (None, 0): return [(st, BV(0, w))]
    (xa, xo), (ya, yo) = ex.arr_view(st, p), ex.arr_view(st, q)
    r = fresh('memcmp', w); dd = fresh('diff'); j = z3.BitVec('j!cmp', 64)
    # j ranges over absolute positions of the first operand so that it is a matchable pattern
    eqall = z3.ForAll([j], z3.Implies(z3.ULT(j - xo, n), z3.Select(xa, j) == z3.Select(ya, j - xo + yo)), patterns=[z3.Select(xa, j)])
    eqall2 = z3.ForAll([j], z3.Implies(z3.ULT(j - yo, n), z3.Select(ya, j) == z3.Select(xa, j - yo + xo)), patterns=[z3.Select(ya, j)])
    s1, s2 = st, st.fork()
    s1.pc += [r == 0, eqall, eqall2]
    xd, yd = z3.Select(xa, dd+xo), z3.Select(ya, dd+yo)
    s2.pc += [r != 0, z3.ULT(dd, n), xd != yd, z3.ULT(xd, yd) == (r < 0),
              z3.ForAll([j], z3.Implies(z3.ULT(j - xo, dd), z3.Select(xa, j) == z3.Select(ya, j - xo + yo)), patterns=[z3.Select(xa, j)])]
    return [(s1, r), (s2, r)]

def const_cstr(ex, st, p):
    """concrete length of the NUL-terminated constant at p"""
    o = ex.obj(st, p.obj)
    if not isconst(p.off): raise Unsupported('strlen of symbolic pointer')
    if not o.ro: raise Unsupported('strlen of non-constant')
    if o.mode == 'cells':
        i = cval(p.off)
        while True:
            b = ex.cell_byte(o, i)
            b = simp(b)
            if not isconst(b): raise Unsupported('strlen of symbolic')
            if cval(b) == 0: return i-cval(p.off)
            i += 1
    i = cval(p.off)
    while True:
        b = simp(z3.Select(o.arr, bv64(i)))
        if not isconst(b): raise Unsupported('strlen of symbolic')
        if cval(b) == 0: return i-cval(p.off)
        i += 1
@model(r'^strlen$', 'libc strlen')
def _strlen(ex, st, a, ins, d): return [(st, bv64(const_cstr(ex, st, a[0])))]

@model(r'^(operator new\(unsigned long\)|operator new\[\]\(unsigned long\)|malloc)$', 'operator new returns a fresh object (no std::bad_alloc)')
def _new(ex, st, a, ins, d):
    n = simp(a[0])
    i = ex.new_obj(st, 'heap', cval(n) if isconst(n) else n, **({} if isconst(n) else dict(mode='array', arr=fresh_arr('heap'))))
    st.assume(z3.ULE(n, bv64(MAXLEN)))
    return [(st, Ptr(i, bv64(0)))]
@model(r'^(operator delete(\[\])?\(void\*.*|free)$', None)
def _del(ex, st, a, ins, d):
    p = a[0]
    if p.obj in (None, 0): return [(st, None)]
    o = ex.obj(st, p.obj).copy(); 
    if not o.alive:
        ex.oblige(st, 'no double free', False, 'mem'); raise PathEnd()
    o.alive = False; st.mem[p.obj] = o
    return [(st, None)]

# ------------------------------------------------------------------ C++ runtime
@model(r'^__cxa_allocate_exception$')
def _ca(ex, st, a, ins, d):
    i = ex.new_obj(st, 'exception', 64)
    return [(st, Ptr(i, bv64(0)))]
@model(r'^__cxa_free_exception$')
def _cf(ex, st, a, ins, d): return [(st, None)]
@model(r'^__cxa_throw$')
def _ct(ex, st, a, ins, d):
    t = '?'
    for n, i in ex.globobjs.items():
        if i == a[1].obj: t = n[4:]
    return [(st, None, {'type': t, 'obj': a[0]})]
@model(r'^__cxa_begin_catch$')
def _cb(ex, st, a, ins, d):
    st.ghost[('caught',)] = G((st.exc,)); st.exc = None
    return [(st, a[0])]
@model(r'^__cxa_end_catch$')
def _ce(ex, st, a, ins, d): return [(st, None)]
@model(r'^__cxa_rethrow$')
def _cr(ex, st, a, ins, d):
    g = st.ghost.get(('caught',)); return [(st, None, g.v[0])]
@model(r'^(__clang_call_terminate|std::terminate\(\)|abort|std::__glibcxx_assert_fail.*)$')
def _term(ex, st, a, ins, d):
    ex.oblige(st, 'std::terminate is not reached', False, 'mem'); raise PathEnd()
@model(r'^__assert_fail$')
def _assert(ex, st, a, ins, d):
    ex.oblige(st, 'assert() does not fail', False, 'mem'); raise PathEnd()
@model(r'^std::__throw_(\w+)\(')
def _thr(ex, st, a, ins, d):
    k = re.match(r'^std::__throw_(\w+?)(_fmt)?\(', d).group(1)
    t = {'length_error': 'St12length_error', 'out_of_range': 'St12out_of_range', 'logic_error': 'St11logic_error', 'bad_alloc': 'St9bad_alloc',
         'bad_array_new_length': 'St20bad_array_new_length', 'invalid_argument': 'St16invalid_argument', 'system_error': 'St12system_error', 'out_of_range_fmt': 'St12out_of_range',
         'bad_optional_access': 'St19bad_optional_access', 'bad_function_call': 'St17bad_function_call', 'bad_weak_ptr': 'St12bad_weak_ptr'}.get(k, k)
    return [(st, None, {'type': t})]
@model(r'^__cxa_(atexit|guard_acquire|guard_release|guard_abort)$')
def _atexit(ex, st, a, ins, d): return [(st, BV(1, 32) if ins.ty.k == 'int' else None)]
@model(r'^std::(invalid_argument|runtime_error|logic_error|length_error|out_of_range|system_error|bad_alloc|exception|domain_error|range_error)::(~)?\w+\(', 'std exception constructors/destructors do not throw')
def _excctor(ex, st, a, ins, d): return [(st, None)]
@model(r'^std::allocator<.*>::(~)?allocator\(')
def _alloc(ex, st, a, ins, d): return [(st, None)]

class G:
    """opaque ghost cell"""
    def __init__(self, v): self.v = v
    def same(self, o): return self.v == o.v
    def havoc(self, ex, st, g): return self
    def quantities(self, g): return {}

# ------------------------------------------------------------------ std::string
class Str:
    """abstract std::string: length and a private buffer object"""
    __slots__ = ('len', 'buf')
    def __init__(self, ln, buf): self.len, self.buf = ln, buf
    def same(self, o): return self.buf == o.buf and self.len.eq(o.len)
    def havoc(self, ex, st, g):
        ln = fresh('strlen')
        st.assume(z3.ULE(ln, bv64(MAXLEN)))
        o = ex.obj(st, self.buf).copy()
        o.size = ln; o.mode = 'array'; o.arr = fresh_arr('strbuf'); o.cells = {}
        st.mem[self.buf] = o
        return Str(ln, self.buf)
    def quantities(self, g):
        return {f'len(str{g[1]}+{g[2]})': lambda s, g=g: s.st.ghost[g].len}

def skey(ex, p):
    if p.obj in (None, 0): raise Unsupported('string at unknown address')
    o = simp(p.off)
    if not isconst(o): raise Unsupported('string at symbolic offset')
    return ('str', p.obj, cval(o))
def new_str(ex, st, p, ln, arr):
    ln = simp(ln)
    i = ex.new_obj(st, 'strbuf', ln, mode='array', arr=arr)
    st.ghost[skey(ex, p)] = Str(ln, i)
def get_str(ex, st, p):
    s = st.ghost.get(skey(ex, p))
    if s is None:
        ex.oblige(st, 'std::string object is alive and initialised', False, 'mem'); raise PathEnd()
    return s
def str_arr(ex, st, s):
    return ex.obj(st, s.buf).arr
def set_str(ex, st, p, ln, arr):
    """update in place (same buffer object)"""
    s = get_str(ex, st, p)
    ln = simp(ln)
    o = ex.wobj(st, s.buf); o.size = ln; o.arr = arr; o.mode = 'array'
    st.ghost[skey(ex, p)] = Str(ln, s.buf)

def cat_arr(ex, st, a, la, b, ob, lb):
    """array holding a[0..la) ++ b[ob..ob+lb)"""
    k = simp(lb)
    if isconst(k) and cval(k) <= 64:
        r = a
        for i in range(cval(k)): r = z3.Store(r, simp(la+i), simp(z3.Select(b, simp(ob+i))))
        return r
    na = fresh_arr('cat'); j = z3.BitVec('j!cat', 64)
    st.pc.append(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.ULT(j, la), z3.Select(a, j), z3.Select(b, j - la + ob)), patterns=[z3.Select(na, j)]))
    return na
def sub_arr(ex, st, b, ob, lb):
    k = simp(lb)
    if isconst(k) and cval(k) <= 64:
        r = fresh_arr('sub')
        for i in range(cval(k)): r = z3.Store(r, bv64(i), simp(z3.Select(b, simp(ob+i))))
        return r
    if isconst(simp(ob)) and cval(simp(ob)) == 0: return b
    na = fresh_arr('sub'); j = z3.BitVec('j!sub', 64)
    st.pc.append(z3.ForAll([j], z3.Select(na, j) == z3.Select(b, j + ob), patterns=[z3.Select(na, j)]))
    return na

S = r'^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'
STR = 'std::string behaves as an abstract byte sequence (no allocation failure)'
def smodel(rx): return model(S + rx, STR)
SR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
SV = r'std::basic_string_view<char, std::char_traits<char>>'

def chk_src(ex, st, p, n, what):
    n = simp(n)
    if isconst(n) and cval(n) == 0: return False
    if p.obj in (None, 0):
        ex.oblige(st, f'{what}: source pointer valid', n == 0, 'mem'); return False
    sz = szof(ex, st, p)
    ex.oblige(st, f'{what}: within bounds of {ex.obj(st, p.obj).name}', z3.Or(n == 0, z3.And(z3.ULE(n, sz), z3.ULE(p.off, sz-n))), 'mem')
    return True
def load_sv(ex, st, p):
    n = ex.load(st, p, INT(64)); q = ex.load(st, Ptr(p.obj, simp(p.off+8)), PTR)
    return q, n
def src_arr(ex, st, p, n, what):
    if not chk_src(ex, st, p, n, what): return fresh_arr('empty'), bv64(0)
    return ex.arr_view(st, p)

@smodel(r'basic_string\(\)')
def _s_def(ex, st, a, ins, d): new_str(ex, st, a[0], bv64(0), fresh_arr('s')); return [(st, None)]
@smodel(r'basic_string\(std::allocator<char> const&\)')
def _s_def2(ex, st, a, ins, d): new_str(ex, st, a[0], bv64(0), fresh_arr('s')); return [(st, None)]
@smodel(r'basic_string(<.*>)?\(unsigned long, char, std::allocator<char> const&\)')
def _s_fill(ex, st, a, ins, d):
    st.assume(z3.ULE(a[1], bv64(MAXLEN)))
    new_str(ex, st, a[0], a[1], z3.K(z3.BitVecSort(64), a[2])); return [(st, None)]
@smodel(r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)')
def _s_cstr(ex, st, a, ins, d):
    n = bv64(const_cstr(ex, st, a[1])); arr, o = ex.arr_view(st, a[1])
    new_str(ex, st, a[0], n, sub_arr(ex, st, arr, o, n)); return [(st, None)]
@smodel(r'basic_string(<.*>)?\(char const\*, unsigned long, std::allocator<char> const&\)')
def _s_ptrn(ex, st, a, ins, d):
    arr, o = src_arr(ex, st, a[1], a[2], 'string ctor'); new_str(ex, st, a[0], a[2], sub_arr(ex, st, arr, o, a[2])); return [(st, None)]
@smodel(r'basic_string<(char const\*|char\*|.*__normal_iterator<(std::byte|char).*), void>\(.*, .*, std::allocator<char> const&\)')
def _s_range(ex, st, a, ins, d):
    n = simp(a[2].off - a[1].off) if a[1].obj == a[2].obj else None
    if n is None: raise Unsupported('string range ctor')
    arr, o = src_arr(ex, st, a[1], n, 'string range ctor'); new_str(ex, st, a[0], n, sub_arr(ex, st, arr, o, n)); return [(st, None)]
@smodel(r'basic_string<' + SV + r', void>\(' + SV + r' const&, std::allocator<char> const&\)')
def _s_sv(ex, st, a, ins, d):
    q, n = load_sv(ex, st, a[1])
    arr, o = src_arr(ex, st, q, n, 'string(string_view)'); new_str(ex, st, a[0], n, sub_arr(ex, st, arr, o, n)); return [(st, None)]
@smodel(r'basic_string\(' + SR + r' const&\)')
def _s_copy(ex, st, a, ins, d):
    s = get_str(ex, st, a[1]); new_str(ex, st, a[0], s.len, str_arr(ex, st, s)); return [(st, None)]
@smodel(r'basic_string\(' + SR + r'&&\)')
def _s_move(ex, st, a, ins, d):
    s = get_str(ex, st, a[1]); st.ghost[skey(ex, a[0])] = s
    new_str(ex, st, a[1], bv64(0), fresh_arr('moved')); return [(st, None)]
@smodel(r'~basic_string\(\)')
def _s_dtor(ex, st, a, ins, d):
    s = get_str(ex, st, a[0])
    o = ex.obj(st, s.buf).copy(); o.alive = False; st.mem[s.buf] = o
    del st.ghost[skey(ex, a[0])]
    return [(st, None)]
@smodel(r'operator=\(' + SR + r' const&\)|' + S[1:] + r'assign\(' + SR + r' const&\)')
def _s_asg(ex, st, a, ins, d):
    s = get_str(ex, st, a[1]); set_str(ex, st, a[0], s.len, str_arr(ex, st, s)); return [(st, a[0])]
@smodel(r'operator=\(' + SR + r'&&\)')
def _s_masg(ex, st, a, ins, d):
    if skey(ex, a[0]) == skey(ex, a[1]): return [(st, a[0])]
    s = get_str(ex, st, a[1]); get_str(ex, st, a[0]); st.ghost[skey(ex, a[0])] = s
    new_str(ex, st, a[1], bv64(0), fresh_arr('moved')); return [(st, a[0])]
@smodel(r'(operator=|assign)\(char const\*\)')
def _s_asgc(ex, st, a, ins, d):
    n = bv64(const_cstr(ex, st, a[1])); arr, o = ex.arr_view(st, a[1])
    set_str(ex, st, a[0], n, sub_arr(ex, st, arr, o, n)); return [(st, a[0])]
@smodel(r'push_back\(char\)|' + S[1:] + r'operator\+=\(char\)')
def _s_push(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); st.assume(z3.ULT(s.len, bv64(MAXLEN)))
    set_str(ex, st, a[0], s.len+1, z3.Store(str_arr(ex, st, s), s.len, a[1])); return [(st, a[0])]
def do_append(ex, st, sp, p, n):
    s = get_str(ex, st, sp)
    arr, o = src_arr(ex, st, p, n, 'string append')
    st.assume(z3.ULE(n, bv64(MAXLEN))); st.assume(z3.ULE(s.len+n, bv64(MAXLEN)))
    set_str(ex, st, sp, s.len+n, cat_arr(ex, st, str_arr(ex, st, s), s.len, arr, o, n))
    return [(st, sp)]
@smodel(r'(append|operator\+=)\(char const\*\)')
def _s_appc(ex, st, a, ins, d): return do_append(ex, st, a[0], a[1], bv64(const_cstr(ex, st, a[1])))
@smodel(r'append\(char const\*, unsigned long\)')
def _s_appn(ex, st, a, ins, d): return do_append(ex, st, a[0], a[1], a[2])
@smodel(r'append\(unsigned long, char\)')
def _s_appnc(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); st.assume(z3.ULE(a[1], bv64(MAXLEN))); st.assume(z3.ULE(s.len+a[1], bv64(MAXLEN)))
    set_str(ex, st, a[0], s.len+a[1], cat_arr(ex, st, str_arr(ex, st, s), s.len, z3.K(z3.BitVecSort(64), a[2]), bv64(0), a[1])); return [(st, a[0])]
@smodel(r'(append|operator\+=)\(' + SR + r' const&\)')
def _s_apps(ex, st, a, ins, d):
    s = get_str(ex, st, a[1]); return do_append(ex, st, a[0], Ptr(s.buf, bv64(0)), s.len)
@smodel(r'(append|operator\+=)<' + SV + r'>\(' + SV + r' const&\)|.*(append|operator\+=)<' + SV + r'>')
def _s_appsv(ex, st, a, ins, d):
    q, n = load_sv(ex, st, a[1]); return do_append(ex, st, a[0], q, n)
@smodel(r'append<(char const\*|char\*|.*__normal_iterator<.*), void>\(')
def _s_apprange(ex, st, a, ins, d):
    if a[1].obj != a[2].obj: raise Unsupported('append range')
    return do_append(ex, st, a[0], a[1], simp(a[2].off-a[1].off))
@smodel(r'insert<.*>\(')
def _s_ins(ex, st, a, ins, d): raise Unsupported('string insert')
@smodel(r'(size|length)\(\) const')
def _s_size(ex, st, a, ins, d): return [(st, get_str(ex, st, a[0]).len)]
@smodel(r'capacity\(\) const')
def _s_cap(ex, st, a, ins, d):
    c = fresh('cap'); st.assume(z3.UGE(c, get_str(ex, st, a[0]).len)); return [(st, c)]
@smodel(r'max_size\(\) const')
def _s_max(ex, st, a, ins, d): return [(st, bv64((1 << 63)-1))]
@smodel(r'empty\(\) const')
def _s_empty(ex, st, a, ins, d): return [(st, ex.b2bv(get_str(ex, st, a[0]).len == 0))]
@smodel(r'(data|c_str|begin|cbegin|_M_data)\(\)')
def _s_data(ex, st, a, ins, d): return [(st, Ptr(get_str(ex, st, a[0]).buf, bv64(0)))]
@smodel(r'c?end\(\)')
def _s_end(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); return [(st, Ptr(s.buf, s.len))]
@smodel(r'operator\[\]\(unsigned long\)')
def _s_idx(ex, st, a, ins, d): return [(st, Ptr(get_str(ex, st, a[0]).buf, a[1]))]
@smodel(r'at\(unsigned long\)')
def _s_at(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); c = z3.ULT(a[1], s.len)
    s1, s2 = st, st.fork()
    s1.assume(c); s2.assume(z3.Not(c))
    r = []
    if ex.sol.feasible(s1.pc): r.append((s1, Ptr(s.buf, a[1])))
    if ex.sol.feasible(s2.pc): r.append((s2, None, {'type': 'St12out_of_range'}))
    return r
@smodel(r'back\(\)')
def _s_back(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); return [(st, Ptr(s.buf, simp(s.len-1)))]
@smodel(r'front\(\)')
def _s_front(ex, st, a, ins, d): return [(st, Ptr(get_str(ex, st, a[0]).buf, bv64(0)))]
@smodel(r'reserve\(|' + S[1:] + r'shrink_to_fit\(')
def _s_res(ex, st, a, ins, d): get_str(ex, st, a[0]); return [(st, None)]
@smodel(r'clear\(\)')
def _s_clear(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); set_str(ex, st, a[0], bv64(0), str_arr(ex, st, s)); return [(st, None)]
@smodel(r'pop_back\(\)')
def _s_pop(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); ex.oblige(st, 'pop_back on non-empty string', s.len != 0, 'mem')
    set_str(ex, st, a[0], s.len-1, str_arr(ex, st, s)); return [(st, None)]
@smodel(r'resize\(unsigned long(, char)?\)')
def _s_resize(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); c = a[2] if len(a) > 2 else BV(0, 8)
    st.assume(z3.ULE(a[1], bv64(MAXLEN)))
    na = fresh_arr('rsz'); j = z3.BitVec('j!rsz', 64); old = str_arr(ex, st, s)
    st.pc.append(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.ULT(j, s.len), z3.Select(old, j), c), patterns=[z3.Select(na, j)]))
    set_str(ex, st, a[0], a[1], na); return [(st, None)]
@smodel(r'operator std::basic_string_view')
def _s_tosv(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); return [(st, (s.len, Ptr(s.buf, bv64(0))))]
@smodel(r'_M_(local_data|is_local|dispose|construct|mutate|create|set_length|assign|append|replace)')
def _s_priv(ex, st, a, ins, d): raise Unsupported('std::string internals')
@model(r'^bool std::operator==<char, std::char_traits<char>, std::allocator<char>>\(' + SR + r' const&, ' + SR + r' const&\)', STR)
def _s_eq(ex, st, a, ins, d):
    s, t = get_str(ex, st, a[0]), get_str(ex, st, a[1])
    return seq_eq(ex, st, Ptr(s.buf, bv64(0)), s.len, Ptr(t.buf, bv64(0)), t.len)
def seq_eq(ex, st, p, n, q, m):
    r = []
    s1, s2 = st, st.fork()
    s2.assume(n != m); s1.assume(n == m)
    if ex.sol.feasible(s2.pc): r.append((s2, BV(0, 1)))
    if ex.sol.feasible(s1.pc):
        for x in mem_compare(ex, s1, p, q, n, 32): r.append((x[0], ex.b2bv(x[1] == 0)))
    return r

def is_string_member(d):
    return bool(re.match(SR + '(::| std::operator\\+)', d)) or ' std::operator==<char, std::char_traits<char>, std::allocator<char>>(std::__cxx11::basic_string' in d

# ------------------------------------------------------------------ error codes
@model(r'^std::_V2::(generic|system)_category\(\)$|^std::iostream_category\(\)$', 'std error categories are process-wide constants')
def _cat(ex, st, a, ins, d):
    k = 'vc.category.' + d
    if k not in ex.globobjs:
        i = ex.nextobj; ex.nextobj += 1
        o = Obj(i, d, 8, ro=True, kind='opaque'); ex.globinit[i] = o; ex.globobjs[k] = i
    return [(st, Ptr(ex.globobjs[k], bv64(0)))]

BOUND_RX = re.compile(r'^std::(system_error|invalid_argument|runtime_error|logic_error|length_error|out_of_range|domain_error|range_error)::')
def std_boundary(d):
    """library bodies that are not verified: replaced by the assumed contracts above"""
    return is_string_member(d) or bool(BOUND_RX.match(d)) or is_fmt(d) or d.startswith(('std::__cxx11::to_string(', 'std::to_string('))

# ------------------------------------------------------------------ std::string comparison and concatenation
def seq_compare(ex, st, p, n, q, m):
    """three-way lexicographic comparison of byte ranges; -> [(state, bv32)]"""
    r = []
    k = z3.If(z3.ULT(n, m), n, m)
    for x in mem_compare(ex, st, p, q, simp(k), 32):
        s, v = x[0], x[1]
        r.append((s, simp(z3.If(v != 0, v, z3.If(z3.ULT(n, m), BV(-1, 32), z3.If(z3.UGT(n, m), BV(1, 32), BV(0, 32)))))))
    return r
@smodel(r'compare\(' + SR + r' const&\) const')
def _s_cmp(ex, st, a, ins, d):
    s, t = get_str(ex, st, a[0]), get_str(ex, st, a[1])
    return seq_compare(ex, st, Ptr(s.buf, bv64(0)), s.len, Ptr(t.buf, bv64(0)), t.len)
@smodel(r'compare\(char const\*\) const')
def _s_cmpc(ex, st, a, ins, d):
    s = get_str(ex, st, a[0]); return seq_compare(ex, st, Ptr(s.buf, bv64(0)), s.len, a[1], bv64(const_cstr(ex, st, a[1])))
@model(r'^' + SR + r' std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(', STR)
def _s_plus(ex, st, a, ins, d):
    ts = re.match(r'.*>\((.*)\)$', d[d.index('operator+<'):]).group(1)
    ts = re.sub(SR, 'STR', ts).split(', ')
    ln, arr = bv64(0), fresh_arr('s')
    for t, v in zip(ts, a[1:]):
        if t.startswith('STR'):
            s = get_str(ex, st, v); b, o, n = str_arr(ex, st, s), bv64(0), s.len
        elif t == 'char const*':
            n = bv64(const_cstr(ex, st, v)); b, o = ex.arr_view(st, v)
        elif t == 'char': n, b, o = bv64(1), z3.K(z3.BitVecSort(64), v), bv64(0)
        else: raise Unsupported('operator+ ' + t)
        st.assume(z3.ULE(n, bv64(MAXLEN))); st.assume(z3.ULE(ln+n, bv64(MAXLEN)))
        arr = cat_arr(ex, st, arr, ln, b, o, n); ln = simp(ln+n)
    for t, v in zip(ts, a[1:]):
        if t == 'STR&&': new_str(ex, st, v, bv64(0), fresh_arr('moved'))
    new_str(ex, st, a[0], ln, arr); return [(st, None)]

# ------------------------------------------------------------------ fmt
FW = {'unsigned short': (16, 0), 'short': (16, 1), 'unsigned int': (32, 0), 'int': (32, 1), 'unsigned long': (64, 0), 'long': (64, 1), 'unsigned long long': (64, 0), 'long long': (64, 1), 'unsigned char': (8, 0)}
def decimal(ex, s, x, w, sg, ln, arr):
    """append the decimal digits of x to the text arr of length ln; -> [(state, length, text)]"""
    ns = []; W = max(w, 32)
    x = (z3.SignExt if sg else z3.ZeroExt)(W-w, x) if W > w else x
    for neg in ((False, True) if sg else (False,)):
        s1 = s.fork()
        if sg: s1.assume(x < 0 if neg else x >= 0)
        if neg and not ex.sol.feasible(s1.pc): continue
        y = simp(-x) if neg else x
        a1, l1 = arr, ln
        if neg: a1, l1 = z3.Store(a1, l1, BV(0x2d, 8)), simp(l1+1)
        mx = len(str((1 << w)-1))
        for k in range(1, mx+1):
            s2 = s1.fork()
            if k > 1: s2.assume(z3.UGE(y, BV(10**(k-1), W)))
            if k < mx and 10**k < 1 << W: s2.assume(z3.ULT(y, BV(10**k, W)))
            if not ex.sol.feasible(s2.pc): continue
            a2 = a1
            for j in range(k):
                dg = z3.URem(z3.UDiv(y, BV(10**(k-1-j), W)), BV(10, W))
                a2 = z3.Store(a2, simp(l1+j), simp(z3.Extract(7, 0, dg) + 0x30))
            ns.append((s2, simp(l1+k), a2))
    return ns
@model(r'^std::__cxx11::to_string\(|^std::to_string\(|^'+SR+r' std::to_string\(', 'std::to_string renders the decimal digits of an integer')
def _to_string(ex, st, a, ins, d):
    t = d[d.rindex('(')+1:-1]
    if t not in FW: raise Unsupported('to_string of '+t)
    w, sg = FW[t]; r = []
    for s, ln, arr in decimal(ex, st, a[1], w, sg, bv64(0), fresh_arr('dec')): new_str(ex, s, a[0], ln, arr); r.append((s, None))
    return r
@model(r' fmt::v\d+::format<', 'fmt::format renders "{}" as the text of a string or the decimal digits of an integer')
def _fmtx(ex, st, a, ins, d):
    try:
        k = d.index('::format<')+9; dep = 1; i = k; parts = []; cur = k
        while dep:
            ch = d[i]
            if ch in '<(': dep += 1
            elif ch in '>)': dep -= 1
            elif ch == ',' and dep == 1: parts.append(d[cur:i].strip()); cur = i+1
            i += 1
        parts.append(d[cur:i-1].strip())
        if any(isinstance(x, z3.BitVecRef) for x in a[3:]) or len(a) != 3+len(parts): raise Unsupported('fmt args')
        n = cval(simp(a[2])); f = bytes(cval(simp(b)) for b in ex.read_bytes(st, a[1], n)).decode('latin1')
    except (Unsupported, AttributeError, ValueError, IndexError): return _fmt(ex, st, a, ins, d)
    pieces = re.split(r'(\{[^{}]*\})', f)
    if '{{' in f or '}}' in f: return _fmt(ex, st, a, ins, d)
    states = [(st, bv64(0), fresh_arr('fmt'))]; ai = 0
    def lit(ss, t):
        r = []
        for s, ln, arr in ss:
            for c in t: arr = z3.Store(arr, ln, BV(ord(c), 8)); ln = simp(ln+1)
            r.append((s, ln, arr))
        return r
    def cat(ss, get):
        r = []
        for s, ln, arr in ss:
            b, o, n = get(s); s.assume(z3.ULE(n, bv64(MAXLEN))); s.assume(z3.ULE(ln+n, bv64(MAXLEN)))
            r.append((s, simp(ln+n), cat_arr(ex, s, arr, ln, b, o, n)))
        return r
    for pc in pieces:
        if not (pc.startswith('{') and pc.endswith('}')): states = lit(states, pc); continue
        m_ = re.match(r'^\{(\d*)(?::[ds]?)?\}$', pc)
        i = int(m_.group(1)) if m_ and m_.group(1) else ai
        ai += 1
        if i >= len(parts): return _fmt(ex, st, a, ins, d)
        t = re.sub(r'( const)?&&?$', '', parts[i]).replace('const ', '').strip(); v = a[3+i]
        if m_ and re.fullmatch(SR, t): states = cat(states, lambda s: (str_arr(ex, s, get_str(ex, s, v)), bv64(0), get_str(ex, s, v).len))
        elif m_ and re.fullmatch(SV, t):
            def gsv(s):
                q, n = load_sv(ex, s, v); b, o = src_arr(ex, s, q, n, 'fmt'); return b, o, n
            states = cat(states, gsv)
        elif m_ and t == 'char': states = cat(states, lambda s: (z3.K(z3.BitVecSort(64), ex.load(s, v, INT(8))), bv64(0), bv64(1)))
        elif m_ and re.fullmatch(r'char (const )?(\(&\) ?)?\[\d+\]', t) or m_ and re.fullmatch(r'char const ?\*', t):
            q = v if '[' in t else ex.load(st, v, PTR)
            try: kk = const_cstr(ex, st, q)
            except Unsupported: return _fmt(ex, st, a, ins, d)
            def gcs(s):
                b, o = ex.arr_view(s, q); return b, o, bv64(kk)
            states = cat(states, gcs)
        elif m_ and t in FW:
            w, sg = FW[t]; ns = []
            for s, ln, arr in states: ns += decimal(ex, s, ex.load(s, v, INT(w)), w, sg, ln, arr)
            states = ns
        else:
            def unk(s):
                n = fresh('fmtlen'); return fresh_arr('fmtarg'), bv64(0), n
            states = cat(states, unk)
    r = []
    for s, ln, arr in states: new_str(ex, s, a[0], ln, arr); r.append((s, None))
    return r
@model(r'^fmt::v\d+::vformat\b|^fmt::v\d+::format\b|fmt::v\d+::format<', 'fmt::format returns some string and does not throw')
def _fmt(ex, st, a, ins, d):
    ln = fresh('fmtlen'); st.assume(z3.ULE(ln, bv64(MAXLEN)))
    new_str(ex, st, a[0], ln, fresh_arr('fmt')); return [(st, None)]
def is_fmt(d): return bool(re.match(r'^(\S+ )?(std::\S+<.*> )?fmt::v\d+::', d)) or ' fmt::v' in d.split('(')[0]

# ------------------------------------------------------------------ hashing of byte ranges
@model(r'^std::_Hash_bytes\(', 'std::_Hash_bytes is a function of the bytes, their number and the seed')
def _hash_bytes(ex, st, a, ins, d):
    k = unique_value(ex, st, a[1])
    if k is None: raise Unsupported('hash of a range of symbolic length')
    if k: ex.check_access(st, a[0], k, 'hash bytes')
    bs = ex.read_bytes(st, a[0], k) if k else []
    if not bs: return [(st, z3.Function('Hash_bytes_0', z3.BitVecSort(64), z3.BitVecSort(64))(a[2]))]
    c = z3.Concat(*bs) if k > 1 else bs[0]
    return [(st, z3.Function(f'Hash_bytes_{k}', z3.BitVecSort(8*k), z3.BitVecSort(64), z3.BitVecSort(64))(c, a[2]))]
