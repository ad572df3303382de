from .lib import *
from .c12 import value, is_inv, bv
ID = 'C13'
TITLE = 'An info-hash keeps its identity: version, bytes, equality, order and hash agree'
HARNESS = 'infohash.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='infohash.cpp')
FUNCTIONS = ['info_hash: the five constructors, both from_hex, copy, assignment, version, get_binary, get_hex, v1, v2, truncated_v2, ==, <=> and the derived relations', 'std::hash<info_hash>']
ASSUMPTIONS = ['input length below 2^56 bytes', 'get_binary, get_hex, v1, v2, truncated_v2 are asked only for a version the info-hash was made from (their documented precondition)', 'from_hex(version, text) is not asked for the hybrid version (its Expects clause)']
def outs(ex, st): return [ex.new_obj(st, 'o1', 20), ex.new_obj(st, 'o2', 32), ex.new_obj(st, 't', 20), ex.new_obj(st, 'k', 16)]
def vals(ex, st, n):
    r = [];
    for i in range(n): r.append((value(ex, st, f'a{i}', 20), value(ex, st, f'b{i}', 32)))
    return r, [P0(x[0]) for p in r for x in p]
def seen(ex, o, O, ver, V1, V2):
    """the observed info-hash has version ver and exactly these bytes"""
    ex.oblige(o.st, 'reports its version', o.val == ver)
    f1, f2, ft = (out_bytes(ex, o.st, O[k]) for k in range(3)); k = lambda i: ex.load(o.st, Ptr(O[3], bv64(4*i)), INT(32))
    if ver & 1:
        ex.oblige(o.st, 'gives back the version 1 hash', z3.And(k(0) == 20, k(2) == 1)); ex.oblige(o.st, 'version 1 bytes', z3.And(*[f1(bv64(i)) == b for i, b in enumerate(V1)]))
    if ver & 2:
        ex.oblige(o.st, 'gives back the version 2 hash', z3.And(k(1) == 32, k(3) == 1)); ex.oblige(o.st, 'version 2 bytes', z3.And(*[f2(bv64(i)) == b for i, b in enumerate(V2)]))
        ex.oblige(o.st, 'truncated form: the first 20 bytes', z3.And(*[ft(bv64(i)) == b for i, b in enumerate(V2[:20])]))
def mk_setup(n):
    def s(ex, st):
        v, args = vals(ex, st, n); O = outs(ex, st); return args + [P0(x) for x in O], None, dict(v=v, O=O)
    return s
def mk_post(K):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': seen(ex, o, c['O'], K, c['v'][0][0][1], c['v'][0][1][1])
    return post
def hex_setup(ex, st): v, args = vals(ex, st, 1); o = ex.new_obj(st, 'o', 32); return args + [P0(o)], None, dict(v=v, o=o)
def hex_post(w):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind != 'ret': return
        B = c['v'][0][w-1][1]; s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s)
        ex.oblige(o.st, 'two digits per byte', s.len == 2*len(B))
        ex.oblige(o.st, 'the lower-case digits of every byte', z3.And(*[z3.And(z3.Select(arr, bv64(2*k)) == hexdig(z3.LShR(b, 4)), z3.Select(arr, bv64(2*k+1)) == hexdig(b & 15)) for k, b in enumerate(B)]))
    return post
def rel_setup(n, eq=None):
    def s(ex, st):
        v, args = vals(ex, st, n)
        if eq: st.assume(same(v, eq))
        return args, None, dict(v=v)
    return s
def same(v, K):
    c = []
    for w in (0, 1):
        if K & (w+1): c += [x == y for x, y in zip(v[0][w][1], v[1][w][1])]
    return z3.And(*c)
def rel_post(f, K, L):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': ex.oblige(o.st, 'agrees with version and bytes', f(o.val, same(c['v'], K) if K == L else z3.BoolVal(False)))
    return post
def true_post(what):
    def post(ex, o, c): ex.oblige(o.st, what, z3.And(z3.BoolVal(o.kind == 'ret'), retbool(o.val) if o.kind == 'ret' else z3.BoolVal(False)))
    return post
def inp(ex, st, nm): n = z3.BitVec('n' + nm, 64); st.assume(z3.ULE(n, bv64(MAXN))); i, A = bytes_obj(ex, st, 'IN' + nm, n); return [P0(i), n], n, A
def data_setup(ex, st): v = z3.BitVec('v', 32); a, n, A = inp(ex, st, ''); O = outs(ex, st); return [v] + a + [P0(x) for x in O], None, dict(ver=v, n=n, IN=A, O=O)
def data_post(ex, o, c):
    n, v, A = c['n'], c['ver'], c['IN']; ok = z3.Or(z3.And(v == 1, n == 20), z3.And(v == 2, n == 32))
    if o.kind == 'throw': ex.oblige(o.st, 'the right length is accepted', z3.Not(ok)); ex.oblige(o.st, 'refused as an invalid argument', is_inv(ex, o)); return
    ex.oblige(o.st, 'a wrong length or version is refused', ok)
    bs = [z3.Select(A, bv64(k)) for k in range(32)]
    for w in (1, 2):
        s = o.st.fork(); s.assume(v == w)
        if ex.sol.feasible(s.pc):
            class O: pass
            q = O(); q.st, q.val, q.kind = s, o.val, 'ret'; seen(ex, q, c['O'], w, bs[:20], bs)
def two_setup(ex, st): a, n, A = inp(ex, st, ''); b, m, B = inp(ex, st, '2'); O = outs(ex, st); return a + b + [P0(x) for x in O], None, dict(n=n, m=m, IN=A, IN2=B, O=O)
def one_setup(ex, st): a, n, A = inp(ex, st, ''); O = outs(ex, st); return a + [P0(x) for x in O], None, dict(n=n, IN=A, O=O)
def at(A, k): return z3.Select(A, bv64(k))
def hexes(A, n, N): return z3.And(n == 2*N, *[ishex(at(A, k)) for k in range(2*N)]), [unhex(at(A, 2*k), at(A, 2*k+1)) for k in range(N)]
def bins(A, n, N): return n == N, [at(A, k) for k in range(N)]
def pair_post(f):
    def post(ex, o, c):
        w1, v1 = f(c['IN'], c['n'], 20); w2, v2 = f(c['IN2'], c['m'], 32)
        if o.kind == 'throw': ex.oblige(o.st, 'well-formed input is accepted', z3.Not(z3.And(w1, w2))); ex.oblige(o.st, 'refused as an invalid argument', is_inv(ex, o)); return
        ex.oblige(o.st, 'malformed input is refused', z3.And(w1, w2)); seen(ex, o, c['O'], 3, v1, v2)
    return post
def single_post(w):
    def post(ex, o, c):
        wf, v = hexes(c['IN'], c['n'], 20 if w == 1 else 32)
        if o.kind == 'throw': ex.oblige(o.st, 'well-formed input is accepted', z3.Not(wf)); ex.oblige(o.st, 'refused as an invalid argument', is_inv(ex, o)); return
        ex.oblige(o.st, 'malformed input is refused', wf); seen(ex, o, c['O'], w, v, v)
    return post
def cex(kind):
    def f(ex, m, c):
        if 'v' in c and isinstance(c['v'], list): return [[kind] + [bv(m, w[1]) for p in c['v'] for w in p]]
        a = model_bytes(m, c['IN'], c['n']); b = model_bytes(m, c['IN2'], c['m']) if 'IN2' in c else b''
        if a is None or b is None: return []
        return [[kind, str(m.eval(c['ver'], model_completion=True).as_signed_long()) if 'ver' in c else '0', a.hex() or '-', b.hex() or '-']]
    return f
def contracts(tier):
    r = []; U = dict(strategy=('unroll',)); nm = {1: 'v1', 2: 'v2', 3: 'hybrid'}
    def C(n, e, s, p, txt, k='val'): r.append(Contract(n, 'vc_' + e, s, p, txt, cex=cex(k), **U))
    for K in (1, 2, 3):
        t = f' ({nm[K]})'
        C('construct' + t, f'mk_{K}', mk_setup(1), mk_post(K), 'ensures version and bytes as given'); C('copy' + t, f'cp_{K}', mk_setup(1), mk_post(K), 'ensures version and bytes of the original')
        for e, w in (('as', 'hybrid'), ('at', 'v1'), ('au', 'v2')): C(f'assign{t} to {w}', f'{e}_{K}', mk_setup(2), mk_post(K), 'ensures version and bytes of the source')
        C('hash code' + t, f'hc_{K}', rel_setup(2, K), true_post('equal values have equal hash codes'), 'requires equal, ensures equal hash codes')
        for w in (1, 2):
            if K & w: C(f'get_hex(v{w})' + t, f'hex{w}_{K}', hex_setup, hex_post(w), 'ensures the lower-case hexadecimal form')
        for L in (1, 2, 3):
            t = f' ({nm[K]}, {nm[L]})'
            C('==' + t, f'eq_{K}{L}', rel_setup(2), rel_post(lambda v, s: retbool(v) == s, K, L), 'ensures equality of version and bytes'); C('!=' + t, f'ne_{K}{L}', rel_setup(2), rel_post(lambda v, s: retbool(v) != s, K, L), 'ensures the negation')
            C('<=>' + t, f'cmp_{K}{L}', rel_setup(2), rel_post(lambda v, s: (v == 0) == s, K, L), 'ensures consistency with equality'); C('<=> antisymmetric' + t, f'anti_{K}{L}', rel_setup(2), true_post('cmp(x,y) = -cmp(y,x)'), 'ensures antisymmetry')
            C('relations' + t, f'rel_{K}{L}', rel_setup(2), true_post('<, >, <=, >= agree with <=>'), 'ensures agreement with <=>')
            for M in (1, 2, 3): C(f'<=> transitive ({nm[K]}, {nm[L]}, {nm[M]})', f'tr_{K}{L}{M}', rel_setup(3), true_post('x < y and y < z imply x < z'), 'ensures transitivity')
    C('info_hash(version, bytes)', 'data', data_setup, data_post, 'ensures version and bytes; throws iff the length is not that of the version', 'data')
    C('info_hash(bytes, bytes)', 'data2', two_setup, pair_post(bins), 'ensures hybrid of these bytes; throws iff a length is wrong', 'data2')
    C('from_hex(v1, text)', 'fh1', one_setup, single_post(1), 'ensures the digits\' value; throws iff malformed', 'fh1'); C('from_hex(v2, text)', 'fh2', one_setup, single_post(2), 'ensures the digits\' value; throws iff malformed', 'fh2')
    C('from_hex(text, text)', 'fh3', two_setup, pair_post(hexes), 'ensures the digits\' values; throws iff malformed', 'fh3')
    return r
