from .lib import *
from .c12 import TYPES, bv
from .evpspec import ids, HF
from vc import bytevec
import re
ID = 'C14'
TITLE = 'Checksums keep algorithm and bytes, and compare only within an algorithm'
HARNESS = 'checksum.cpp'
def BOUNDARY(d): return models.std_boundary(d) or bytevec.is_member(d)
def KEEP(d): return UNHEX.match(d) is not None
UNHEX = re.compile(r'.*\bdottorrent::from_hexadecimal_string<std::back_insert_iterator<std::vector<std::byte')
NATIVE = dict(src='checksum.cpp')
FUNCTIONS = ['make_checksum (all seven overloads)', 'make_checksum_from_hex (both)', 'generic_checksum, basic_checksum<T> for the 17 hash types: construction, algorithm, name, size, value', 'checksum::==, <=>, hex_string', 'from_hexadecimal_string into a back_insert_iterator<vector<byte>>']
ASSUMPTIONS = ['input length below 2^56 bytes', 'comparison and printed form of fixed-size checksums verified for sha1 and for sha256 against sha3_256 (one template)']
def text(ex, st, nm): n = z3.BitVec('n' + nm, 64); st.assume(z3.ULE(n, bv64(MAXN))); i, A = bytes_obj(ex, st, nm, n); return [P0(i), n], n, A
def at(A, k): return z3.Select(A, bv64(k) if isinstance(k, int) else k)
def hexok(A, m, half): j = z3.BitVec('j!hx', 64); return z3.ForAll([j], z3.Implies(z3.ULT(j, half), z3.And(ishex(at(A, 2*j)), ishex(at(A, 2*j+1)))), patterns=[z3.Select(A, 2*j)])
class V:
    """the value handed over: length, bytes, well-formedness"""
    def __init__(self, kind, A, m):
        self.kind, self.A, self.m = kind, A, m
        self.len = m if kind == 'raw' else z3.LShR(m, bv64(1))
        self.at = (lambda k: at(A, k)) if kind == 'raw' else (lambda k: unhex(at(A, 2*k), at(A, 2*k+1)))
def cname(n): return lambda A, ln: z3.And(ln == len(n), *[at(A, i) == ord(ch) for i, ch in enumerate(n)])
def obs(ex, st, o):
    L = lambda off, ty: ex.load(st, Ptr(o, bv64(off)), ty)
    return dict(alg=L(0, INT(32)), name=L(8, PTR), nlen=L(16, INT(64)), size=L(24, INT(64)), val=L(32, PTR), vlen=L(40, INT(64)), mval=L(48, PTR), mlen=L(56, INT(64)))
def look(ex, st, p, k): arr, off = ex.arr_view(st, p); return z3.Select(arr, off + k)
def fixed(ex, st, c, name, N, val, zero):
    b = obs(ex, st, c['o'])
    ex.oblige(st, f'algorithm {name}', b['alg'] == c['ids'][name]); ex.oblige(st, f'size {N}', z3.And(b['size'] == N, b['vlen'] == N, b['mlen'] == N))
    ex.oblige(st, 'name of the algorithm', z3.And(b['nlen'] == len(name), *[ex.load(st, Ptr(b['name'].obj, simp(b['name'].off+i)), INT(8)) == ord(ch) for i, ch in enumerate(name)]))
    bs = [ex.load(st, Ptr(b['val'].obj, simp(b['val'].off+i)), INT(8)) for i in range(N)]
    ex.oblige(st, 'holds exactly the bytes', z3.And(*[x == (BV(0, 8) if zero else val.at(bv64(i))) for i, x in enumerate(bs)]))
    ex.oblige(st, 'one value', z3.And(z3.BoolVal(b['val'].obj == b['mval'].obj), b['val'].off == b['mval'].off))
def generic(ex, st, c, val, zero):
    b = obs(ex, st, c['o']); j, i = fresh('j'), fresh('i'); n = c['n']; ln = bv64(0) if zero else val.len
    ex.oblige(st, 'no known algorithm', z3.And(*[b['alg'] != v for v in c['ids'].values()])); ex.oblige(st, 'name as given', z3.And(b['nlen'] == n, z3.Implies(z3.ULT(j, n), look(ex, st, b['name'], j) == at(c['KEY'], j))))
    ex.oblige(st, 'size as given', z3.And(b['size'] == ln, b['vlen'] == ln, b['mlen'] == ln))
    if not zero: ex.oblige(st, 'bytes as given', z3.Implies(z3.ULT(i, ln), look(ex, st, b['val'], i) == val.at(i)))
    ex.oblige(st, 'one value', z3.And(z3.BoolVal(b['val'].obj == b['mval'].obj), b['val'].off == b['mval'].off))
def setup(by, kind):
    def s(ex, st):
        c = dict(ids=ids(ex, 'vc_ids', HF)); a = []
        if by == 'key': t, n, K = text(ex, st, 'KEY'); a += t; c.update(n=n, KEY=K)
        else: f = z3.BitVec('f', 32); a.append(f); c['f'] = f
        mach = None
        if kind != 'zero':
            t, m, A = text(ex, st, 'VAL'); a += t; c.update(m=m, VAL=A, val=V('raw' if kind == 'raw' else 'hex', A, m))
            half = z3.LShR(m, bv64(1))
            if kind == 'hex': st.assume(z3.Extract(0, 0, m) == 0); st.pc.append(hexok(A, m, half))
            if kind == 'badhex':
                j0 = z3.BitVec('j0', 64); st.assume(z3.Or(z3.Extract(0, 0, m) == 1, z3.And(z3.ULT(j0, half), z3.Not(z3.And(ishex(at(A, 2*j0)), ishex(at(A, 2*j0+1)))))))
        c['o'] = ex.new_obj(st, 'obs', 64); a.append(P0(c['o'])); c['kind'] = kind; c['by'] = by; return a, mach, c
    return s
def isname(c, n): return cname(n)(c['KEY'], c['n']) if c['by'] == 'key' else c['f'] == c['ids'][n]
def post(ex, o, c):
    kind = c['kind']; zero = kind == 'zero'
    if kind == 'badhex': ex.oblige(o.st, 'malformed text is refused', o.kind == 'throw'); return
    known = z3.BoolVal(False)
    for n, N in TYPES.items():
        s = o.st.fork(); s.assume(isname(c, n)); known = z3.Or(known, isname(c, n))
        if not ex.sol.feasible(s.pc): continue
        if o.kind == 'throw': ex.oblige(s, f'{n}: only a wrong size is refused', z3.BoolVal(False) if zero else c['val'].len != N); continue
        if not zero: ex.oblige(s, f'{n}: a wrong size is refused', c['val'].len == N)
        fixed(ex, s, c, n, N, c.get('val'), zero)
    s = o.st.fork(); s.assume(z3.Not(known))
    if not ex.sol.feasible(s.pc): return
    if c['by'] == 'fn': ex.oblige(s, 'an unknown identifier is refused', o.kind == 'throw'); return
    ex.oblige(s, 'an unknown name is accepted', o.kind == 'ret')
    if o.kind == 'ret': generic(ex, s, c, c.get('val'), zero)
def gen_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind == 'ret': generic(ex, o.st, c, c['val'], False)
def genc_setup(ex, st):
    a, m, c = setup('key', 'raw')(ex, st); A = c['VAL']; return a, Machine(c['m'], a[2].obj, inp=lambda k: at(A, k), outlen=lambda k: k, S=lambda j: at(A, j)), c
# ---- the decoder used by make_checksum_from_hex: proved here, assumed by its callers
def unhex_setup(good):
    def s(ex, st):
        t, m, A = text(ex, st, 'VAL'); half = z3.LShR(m, bv64(1)); o = ex.new_obj(st, 'vec', 24); c = dict(m=m, VAL=A, o=o, val=V('hex', A, m))
        ok = lambda k: z3.And(ishex(at(A, 2*k)), ishex(at(A, 2*k+1)))
        if good: st.assume(z3.Extract(0, 0, m) == 0); mach = Machine(half, t[0].obj, stride=2, outlen=lambda k: k, S=c['val'].at, unfold=lambda k: [z3.Implies(z3.ULT(k, half), ok(k))])
        else:
            j0 = z3.BitVec('j0', 64); odd = z3.Extract(0, 0, m) == 1; st.assume(z3.Or(odd, z3.And(z3.ULT(j0, half), z3.Not(ok(j0)))))
            def extra(self, ex, nm, b, hs, wo, wg): yield (f'k:={nm} not beyond the malformed pair', lambda s, b=b: z3.Or(odd, z3.ULE(b(s), j0)))
            mach = Machine(half, t[0].obj, stride=2, outlen=lambda k: k, S=c['val'].at, extra=extra)
        return t + [P0(o)], mach, c
    return s
def unhex_post(good):
    def post(ex, o, c):
        if not good:
            ex.oblige(o.st, 'malformed text is refused with an exception', o.kind == 'throw'); return
        ex.oblige(o.st, 'well-formed text is accepted', o.kind == 'ret')
        if o.kind != 'ret': return
        s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s); j = fresh('j')
        ex.oblige(o.st, 'one byte per pair', s.len == c['val'].len); ex.oblige(o.st, 'the value of each pair', z3.Implies(z3.ULT(j, s.len), z3.Select(arr, j) == c['val'].at(j)))
    return post
def unhex_contract(mod):
    def f(ex, st, a, ins):
        v, p, m = a[0], a[-2], a[-1]
        if isinstance(p, z3.BitVecRef): p, m = m, p
        arr, off = models.src_arr(ex, st, p, m, 'from_hexadecimal_string'); s = get_str(ex, st, v)
        if not z3.is_true(simp(s.len == 0)): raise Unsupported('decoding into a non-empty vector')
        half = z3.LShR(m, bv64(1)); A = sub = models.sub_arr(ex, st, arr, off, m)
        good, bad = st, st.fork(); j0 = fresh('bad'); out = []
        okj = lambda k: z3.And(ishex(at(A, 2*k)), ishex(at(A, 2*k+1)))
        bad.assume(z3.Or(z3.Extract(0, 0, m) == 1, z3.And(z3.ULT(j0, half), z3.Not(okj(j0)))))
        good.assume(z3.Extract(0, 0, m) == 0); good.pc.append(hexok(A, m, half))
        na = fresh_arr('dec'); j = z3.BitVec('j!dec', 64); good.pc.append(z3.ForAll([j], z3.Implies(z3.ULT(j, half), z3.And(okj(j), z3.Select(na, j) == unhex(at(A, 2*j), at(A, 2*j+1)))), patterns=[z3.Select(na, j)]))
        models.set_str(ex, good, v, half, na); out.append((good, a[0] if ins.ty.k == 'ptr' else None))
        if ex.sol.feasible(bad.pc): out.append((bad, None, {'type': 'St9exception'}))
        return out
    return {n: f for n in mod.funcs if UNHEX.match(mod.demangled.get(n, ''))}
# ---- comparison
def rel(st, a, b, how, tag):
    """assume a relation of two byte strings (n, A): equal / less / prefix / greater / extends"""
    j = z3.BitVec('j!rel' + tag, 64); d = z3.BitVec('d!' + tag, 64); (n, A), (m, B) = a, b
    def same(k): st.pc.append(z3.ForAll([j], z3.Implies(z3.ULT(j, k), at(A, j) == at(B, j)), patterns=[z3.Select(A, j), z3.Select(B, j)]))
    if how == 'equal': st.assume(n == m); same(n); return
    (x, X), (y, Y) = ((n, A), (m, B)) if how in ('less', 'prefix') else ((m, B), (n, A))
    same(d); st.assume(z3.ULT(d, y))
    if how in ('less', 'greater'): st.assume(z3.ULT(d, x)); st.assume(z3.ULT(at(X, d), at(Y, d)))
    else: st.assume(d == x)
RELS = ('equal', 'less', 'prefix', 'greater', 'extends')
def cmp_setup(kr, vr):
    def s(ex, st):
        a, n, K = text(ex, st, 'KEY'); b, m, A = text(ex, st, 'VAL'); e, n2, K2 = text(ex, st, 'KEY2'); f, m2, A2 = text(ex, st, 'VAL2')
        rel(st, (n, K), (n2, K2), kr, 'k'); rel(st, (m, A), (m2, A2), vr, 'v') if vr else None
        def extra(self, ex, nm, b, hs, wo, wg): yield (f'k:={nm} not beyond the first difference', lambda s, b=b: z3.ULE(b(s), z3.BitVec('d!v', 64)))
        return a + b + e + f, Machine(m, None, extra=extra) if vr else None, dict(n=n, KEY=K, m=m, VAL=A, n2=n2, KEY2=K2, m2=m2, VAL2=A2)
    return s
def cmp_post(want):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': ex.oblige(o.st, 'compares within one name only', retbool(o.val) == want if isinstance(want, bool) else o.val == BV(want, 32))
    return post
def fix_setup(N):
    def s(ex, st):
        r = []; c = {}
        for k in 'ab':
            i, A = bytes_obj(ex, st, k, bv64(N)); r.append(P0(i)); c[k] = [at(A, j) for j in range(N)]
        return r, None, c
    return s
def fix_post(f):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': ex.oblige(o.st, 'compares the bytes', f(o.val, z3.Concat(*c['a']), z3.Concat(*c['b'])))
    return post
def hexs_setup(ex, st): i, A = bytes_obj(ex, st, 'a', bv64(20)); o = ex.new_obj(st, 'o', 32); return [P0(i), P0(o)], None, dict(a=[at(A, j) for j in range(20)], o=o)
def hexs_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s)
    ex.oblige(o.st, 'the hexadecimal form', z3.And(s.len == 40, *[z3.And(z3.Select(arr, bv64(2*k)) == hexdig(z3.LShR(b, 4)), z3.Select(arr, bv64(2*k+1)) == hexdig(b & 15)) for k, b in enumerate(c['a'])]))
def hexg_setup(ex, st):
    from .c01 import S_enc
    a, n, K = text(ex, st, 'KEY'); b, m, A = text(ex, st, 'VAL'); o = ex.new_obj(st, 'o', 32); S = S_enc(A)
    mach = Machine(m, None, inp=lambda k: at(A, k), outlen=lambda k: 2*k, S=S)
    return a + b + [P0(o)], mach, dict(n=n, KEY=K, m=m, VAL=A, o=o, S=S)
def hexg_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s); j = fresh('j')
    ex.oblige(o.st, 'two digits per byte', s.len == 2*c['m']); ex.oblige(o.st, 'the lower-case digits', z3.Implies(z3.ULT(j, s.len), z3.Select(arr, j) == c['S'](j)))
def cex(kind):
    def f(ex, m, c):
        g = lambda k, n: (lambda b: None if b is None else b.hex() or '-')(model_bytes(m, c[k], c[n])) if k in c else '-'
        if 'a' in c: return [['fix', bv(m, c['a']), bv(m, c.get('b', c['a']))]]
        if 'KEY2' in c: r = [g('KEY', 'n'), g('VAL', 'm'), g('KEY2', 'n2'), g('VAL2', 'm2')]; return [['cmp'] + r] if all(r) else []
        if 'f' in c: r = [str(m.eval(c['f'], model_completion=True).as_long()), g('VAL', 'm')]; return [['fn'] + r] if all(r) else []
        r = [g('KEY', 'n'), g('VAL', 'm')]; return [['key'] + r] if all(r) else []
    return f
def contracts(tier):
    r = []; M = dict(models_=bytevec.WITH_BYTEVEC); U = dict(strategy=('unroll',), **M); uc = dict(contracts=unhex_contract)
    def C(n, e, s, p, txt, **k): r.append(Contract(n, 'vc_' + e, s, p, txt, cex=cex(e), **k))
    for by, t in (('key', 'name'), ('fn', 'identifier')):
        C(f'make_checksum({t}, span)', by, setup(by, 'raw'), post, 'ensures algorithm and bytes; throws iff the size is wrong', **U); C(f'make_checksum({t}, string_view)', by + 's', setup(by, 'raw'), post, 'ensures algorithm and bytes; throws iff the size is wrong', **U)
        C(f'make_checksum({t})', by + '0', setup(by, 'zero'), post, 'ensures algorithm and zero bytes', **U)
        C(f'make_checksum_from_hex({t}, digits)', by + 'h', setup(by, 'hex'), post, 'requires digits; ensures algorithm and decoded bytes; throws iff the size is wrong', **uc, **U); C(f'make_checksum_from_hex({t}, malformed)', by + 'h', setup(by, 'badhex'), post, 'ensures throws', **uc, **U)
    C('decoding into a vector, well-formed', 'unhex', unhex_setup(True), unhex_post(True), 'ensures the decoded bytes', **M); C('decoding into a vector, malformed', 'unhex', unhex_setup(False), unhex_post(False), 'ensures throws', **M)
    C('generic_checksum(name, bytes)', 'gen', setup('key', 'raw'), gen_post, 'ensures name and bytes as given', **U); C('generic_checksum(name, chars)', 'genc', genc_setup, gen_post, 'ensures name and bytes as given', **M)
    for v in RELS:
        C(f'== same name, {v} bytes', 'eqk', cmp_setup('equal', v), cmp_post(v == 'equal'), 'ensures equality of name and bytes', **M); C(f'<=> same name, {v} bytes', 'cmpk', cmp_setup('equal', v), cmp_post({'equal': 0, 'less': -1, 'prefix': -1, 'greater': 1, 'extends': 1}[v]), 'ensures lexicographic order', **M)
        if v != 'equal': C(f'== {v} names', 'eqk', cmp_setup(v, None), cmp_post(False), 'ensures different names differ', **U); C(f'<=> {v} names', 'cmpk', cmp_setup(v, None), cmp_post(2), 'ensures different names are unordered', **U)
    C('== sha1', 'eqs', fix_setup(20), fix_post(lambda v, x, y: retbool(v) == (x == y)), 'ensures equality of bytes', **U); C('<=> sha1', 'cmps', fix_setup(20), fix_post(lambda v, x, y: v == z3.If(x == y, BV(0, 32), z3.If(z3.ULT(x, y), BV(-1, 32), BV(1, 32)))), 'ensures order of bytes', **U)
    C('== sha256, sha3_256', 'eqx', fix_setup(32), fix_post(lambda v, x, y: z3.Not(retbool(v))), 'ensures different', **U); C('<=> sha256, sha3_256', 'cmpx', fix_setup(32), fix_post(lambda v, x, y: v == 2), 'ensures unordered', **U)
    C('hex_string sha1', 'hexs', hexs_setup, hexs_post, 'ensures the hexadecimal form', **U); C('hex_string generic', 'hexg', hexg_setup, hexg_post, 'ensures the hexadecimal form', **M)
    return r
