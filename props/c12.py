from .lib import *
ID = 'C12'
TITLE = 'Hash values are fixed-size, compare as byte strings and print and parse exactly'
HARNESS = 'hashval.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='hashval.cpp')
FUNCTIONS = ['basic_hash<N>: all constructors, copy, assignment, ==, !=, <, >, <=, >=, <=>, hex_string, string_view and span conversion, begin/end, data, value, size', 'make_hash_from_hex<T>', 'std::hash<T>, std::hash<basic_hash<N>>', 'the 17 hash types: size and algorithm constants']
ASSUMPTIONS = ['input length below 2^56 bytes']
TYPES = dict(md4=16, md5=16, blake2b_512=64, blake2s_256=32, sha1=20, sha224=28, sha256=32, sha384=48, sha512=64, sha3_224=28, sha3_256=32, sha3_384=48, sha3_512=64, shake128=16, shake256=32, ripemd160=20, whirlpool=64)
REPS = ('md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')
def value(ex, st, nm, N):
    i = ex.new_obj(st, nm, N); bs = [z3.BitVec(f'{nm}_{k}', 8) for k in range(N)]
    for k, b in enumerate(bs): ex.store(st, Ptr(i, bv64(k)), INT(8), b)
    return i, bs
def is_inv(ex, o): return ex.exc_isa(o.exc['type'], 'St16invalid_argument')
def def_setup(N):
    def s(ex, st): o = ex.new_obj(st, 'o', N); return [P0(o)], None, dict(o=o)
    return s
def def_post(N):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': f = out_bytes(ex, o.st, c['o']); ex.oblige(o.st, 'all bytes zero', z3.And(*[f(bv64(k)) == 0 for k in range(N)]))
    return post
def from_setup(N):
    def s(ex, st):
        o = ex.new_obj(st, 'o', N); n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN))); i, IN = bytes_obj(ex, st, 'IN', n)
        return [P0(o), P0(i), n], None, dict(o=o, n=n, IN=IN)
    return s
def from_post(N):
    def post(ex, o, c):
        if o.kind == 'throw':
            ex.oblige(o.st, f'{N} bytes are accepted', c['n'] != N); ex.oblige(o.st, 'refused as an invalid argument', is_inv(ex, o)); return
        ex.oblige(o.st, f'only {N} bytes are accepted', c['n'] == N); f = out_bytes(ex, o.st, c['o'])
        ex.oblige(o.st, 'holds exactly the bytes given', z3.And(*[f(bv64(k)) == z3.Select(c['IN'], bv64(k)) for k in range(N)]))
    return post
def parse_post(N):
    def post(ex, o, c):
        IN = c['IN']; at = lambda k: z3.Select(IN, bv64(k)); wf = z3.And(c['n'] == 2*N, *[ishex(at(k)) for k in range(2*N)])
        if o.kind == 'throw':
            ex.oblige(o.st, f'{2*N} hexadecimal digits are accepted', z3.Not(wf)); ex.oblige(o.st, 'refused as an invalid argument', is_inv(ex, o)); return
        ex.oblige(o.st, f'only {2*N} hexadecimal digits are accepted', wf); f = out_bytes(ex, o.st, c['o'])
        ex.oblige(o.st, 'holds the value of the digits', z3.And(*[f(bv64(k)) == unhex(at(2*k), at(2*k+1)) for k in range(N)]))
    return post
def copy_setup(N, asg=False):
    def s(ex, st):
        a, A = value(ex, st, 'a', N); o = value(ex, st, 'o', N)[0] if asg else ex.new_obj(st, 'o', N)
        return [P0(o), P0(a)], None, dict(o=o, a=a, A=A)
    return s
def same(ex, o, i, A, why): f = out_bytes(ex, o.st, i); ex.oblige(o.st, why, z3.And(*[f(bv64(k)) == b for k, b in enumerate(A)]))
def copy_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind == 'ret': same(ex, o, c['o'], c['A'], 'the copy holds the bytes'); same(ex, o, c['a'], c['A'], 'the original is unchanged')
def hexs_setup(N):
    def s(ex, st): a, A = value(ex, st, 'a', N); o = ex.new_obj(st, 'o', 32); return [P0(a), P0(o)], None, dict(a=a, A=A, o=o)
    return s
def hexs_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s); A = c['A']
    ex.oblige(o.st, 'two digits per byte', s.len == 2*len(A))
    ex.oblige(o.st, 'the lower-case digits of every byte', z3.And(*[z3.And(z3.Select(arr, bv64(2*k)) == hexdig(z3.LShR(b, 4)), z3.Select(arr, bv64(2*k+1)) == hexdig(b & 15)) for k, b in enumerate(A)]))
    same(ex, o, c['a'], A, 'the value is unchanged')
def pair_setup(N, eq=False):
    def s(ex, st):
        a, A = value(ex, st, 'a', N); b, B = value(ex, st, 'b', N)
        if eq: st.assume(z3.And(*[x == y for x, y in zip(A, B)]))
        return [P0(a), P0(b)], None, dict(a=a, A=A, b=b, B=B)
    return s
def order(c):
    # the bytes as one big-endian number: the same order as lexicographic order of byte strings of one length
    return z3.Concat(*c['A']), z3.Concat(*c['B'])
def rel_post(f):
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': x, y = order(c); ex.oblige(o.st, 'agrees with the order of the byte strings', f(o.val, x, y))
    return post
def view_setup(N):
    def s(ex, st): a, A = value(ex, st, 'a', N); n = ex.new_obj(st, 'n', 8); return [P0(a), P0(n)], None, dict(a=a, A=A, n=n)
    return s
def view_post(N):
    def post(ex, o, c):
        ok = o.kind == 'ret' and isinstance(o.val, Ptr) and o.val.obj == c['a']
        ex.oblige(o.st, 'refers to the stored bytes', z3.And(z3.BoolVal(ok), (o.val.off == 0) if ok else z3.BoolVal(False)))
        ex.oblige(o.st, f'covers {N} bytes', ex.load(o.st, P0(c['n']), INT(64)) == N); same(ex, o, c['a'], c['A'], 'the value is unchanged')
    return post
def one_post(v):
    def post(ex, o, c): ex.oblige(o.st, 'value', z3.And(z3.BoolVal(o.kind == 'ret'), (o.val == v) if v != 'true' else retbool(o.val)))
    return post
def none(ex, st): return [], None, {}
def bv(m, bs): return bytes(m.eval(b, model_completion=True).as_long() for b in bs).hex()
def cex(kind, t):
    def f(ex, m, c):
        if 'IN' in c:
            b = model_bytes(m, c['IN'], c['n']); return [[kind, t, b.hex() or '-']] if b is not None else []
        if 'B' in c: return [['cmp', t, bv(m, c['A']), bv(m, c['B'])]]
        if 'A' in c: return [['one', t, bv(m, c['A'])]]
        return [['def', t]]
    return f
def contracts(tier):
    r = []; U = dict(strategy=('unroll',))
    for t, N in TYPES.items():
        T = t + '_hash'; g = f'<{t}>'
        def C(nm, e, s, p, txt, kind='one'): r.append(Contract(nm + g, f'vc_{e}_{T}', s, p, txt, cex=cex(kind, t), **U))
        C('size', 'bytes', none, one_post(N), f'ensures {N}'); C('algorithm', 'alg', none, one_post('true'), 'ensures the algorithm named')
        C('default', 'def', def_setup(N), def_post(N), 'ensures all bytes zero')
        C('from text', 'sv', from_setup(N), from_post(N), f'ensures the bytes given, throws iff length is not {N}', 'from')
        C('print', 'hexs', hexs_setup(N), hexs_post, 'ensures the lower-case hexadecimal form')
        C('hash code', 'hash', pair_setup(N, True), one_post('true'), 'requires equal bytes, ensures equal hash codes')
        C('==', 'eq', pair_setup(N), rel_post(lambda v, x, y: retbool(v) == (x == y)), 'ensures equality of all bytes')
        C('<=>', 'cmp', pair_setup(N), rel_post(lambda v, x, y: v == z3.If(z3.ULT(x, y), BV(-1, 32), z3.If(x == y, BV(0, 32), BV(1, 32)))), 'ensures lexicographic order of unsigned bytes')
        if t not in REPS and tier == 'quick': continue
        if tier != 'quick' or t in ('md5', 'sha1', 'sha256'): C('parse', 'parse', from_setup(N), parse_post(N), f'ensures the digits\' value, throws iff not {2*N} hexadecimal digits', 'parse')
        for e in ('spb', 'spm', 'spc'): C('from span ' + e, e, from_setup(N), from_post(N), f'ensures the bytes given, throws iff length is not {N}', 'from')
        C('from array', 'arr', copy_setup(N), copy_post, 'ensures the bytes given'); C('copy', 'copy', copy_setup(N), copy_post, 'ensures an equal copy'); C('assign', 'asg', copy_setup(N, True), copy_post, 'ensures an equal copy')
        C('!=', 'ne', pair_setup(N), rel_post(lambda v, x, y: retbool(v) == (x != y)), 'ensures the negation'); C('<', 'lt', pair_setup(N), rel_post(lambda v, x, y: retbool(v) == z3.ULT(x, y)), 'ensures the order')
        C('>', 'gt', pair_setup(N), rel_post(lambda v, x, y: retbool(v) == z3.UGT(x, y)), 'ensures the order'); C('<=', 'le', pair_setup(N), rel_post(lambda v, x, y: retbool(v) == z3.ULE(x, y)), 'ensures the order'); C('>=', 'ge', pair_setup(N), rel_post(lambda v, x, y: retbool(v) == z3.UGE(x, y)), 'ensures the order')
        for e in ('tosv', 'tosp', 'range', 'mrange', 'value', 'data', 'mdata'): C('view ' + e, e, view_setup(N), view_post(N), f'ensures the {N} stored bytes')
        C('hash code of the base', 'bhash', pair_setup(N, True), one_post('true'), 'requires equal bytes, ensures equal hash codes')
    return r
