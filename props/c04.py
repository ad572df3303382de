from .lib import *
ID = 'C04'
TITLE = 'Hash algorithm names and identifiers correspond one to one'
HARNESS = 'hashfn.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='hashfn.cpp')
FUNCTIONS = ['dottorrent::to_string(hash_function)', 'dottorrent::is_hash_function_name', 'dottorrent::make_hash_function', 'dottorrent::supported_hash_functions']
ASSUMPTIONS = ['name length below 2^56 bytes']
# identifier -> name; the specification of the naming (none and md2 have no name)
NAMES = {2: 'md4', 3: 'md5', 4: 'blake2b_512', 5: 'blake2s_256', 6: 'sha1', 7: 'sha224', 8: 'sha256', 9: 'sha384', 10: 'sha512', 11: 'sha3_224', 12: 'sha3_256', 13: 'sha3_384',
         14: 'sha3_512', 15: 'shake128', 16: 'shake256', 17: 'ripemd160', 18: 'whirlpool'}
def is_(IN, n, s): return z3.And(n == len(s), *[z3.Select(IN, bv64(i)) == ord(c) for i, c in enumerate(s)])
def name_setup(ex, st):
    f = z3.BitVec('f', 32); p = ex.new_obj(st, 'p', 8); n = ex.new_obj(st, 'n', 8)
    return [f, P0(p), P0(n)], None, dict(f=f, p=p, n=n)
def name_post(ex, o, c):
    f = c['f']; sup = z3.Or(*[f == i for i in NAMES])
    if o.kind == 'throw':
        ex.oblige(o.st, 'only identifiers without a name are refused', z3.Not(sup))
        ex.oblige(o.st, 'refusal is std::invalid_argument', ex.exc_isa(o.exc['type'], 'St16invalid_argument'))
        return
    ex.oblige(o.st, 'identifiers without a name are refused', sup)
    q = ex.obj(o.st, c['p']).cells[0][1]; n = ex.obj(o.st, c['n']).cells[0][1]
    n = simp(n)
    if not isconst(n): raise Unsupported('name length is not determined on a path')
    bs = [ex.load(o.st, Ptr(q.obj, simp(q.off + i)), INT(8)) for i in range(cval(n))]
    ex.oblige(o.st, 'the name is the specified one', z3.Or(*[z3.And(f == i, *[b == ord(x) for b, x in zip(bs, s)]) for i, s in NAMES.items() if len(s) == len(bs)]))
def str_setup(out):
    def setup(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN)))
        i, IN = bytes_obj(ex, st, 'IN', n)
        a = [P0(i), n]; c = dict(n=n, IN=IN)
        if out: c['o'] = ex.new_obj(st, 'f', 4); a.append(P0(c['o']))
        return a, None, c
    return setup
def isname_post(ex, o, c):
    ex.oblige(o.st, 'does not throw', o.kind == 'ret')
    if o.kind == 'ret': ex.oblige(o.st, 'true exactly for the names', retbool(o.val) == z3.Or(*[is_(c['IN'], c['n'], s) for s in NAMES.values()]))
def make_post(ex, o, c):
    ex.oblige(o.st, 'does not throw', o.kind == 'ret')
    if o.kind != 'ret': return
    ok = simp(retbool(o.val)); any_ = z3.Or(*[is_(c['IN'], c['n'], s) for s in NAMES.values()])
    ex.oblige(o.st, 'a result exactly for the names', ok == any_)
    if not z3.is_false(ok):
        v = ex.load(o.st, P0(c['o']), INT(32))
        ex.oblige(o.st, 'the result is the identifier of that name', z3.Implies(ok, z3.And(*[z3.Implies(is_(c['IN'], c['n'], s), v == i) for i, s in NAMES.items()])))
def round_setup(ex, st):
    f = z3.BitVec('f', 32); st.assume(z3.Or(*[f == i for i in NAMES])); return [f], None, dict(f=f)
def round_post(ex, o, c):
    ex.oblige(o.st, 'does not throw', o.kind == 'ret')
    if o.kind == 'ret': ex.oblige(o.st, 'name of identifier leads back to the identifier', retbool(o.val))
def cexs(ex, m, c):
    if 'IN' in c:
        b = model_bytes(m, c['IN'], c['n']); return [['name', b.hex() or '-']] if b is not None else []
    return [['id', str(m.eval(c['f'], model_completion=True).as_signed_long())]]
def lemmas():
    return [('the 17 names are pairwise distinct', z3.BoolVal(len(set(NAMES.values())) == 17 == len(NAMES)), [])]
def contracts(tier):
    return [Lemma('names distinct', lemmas),
        Contract('to_string(hash_function)', 'vc_hf_name', name_setup, name_post, 'ensures name(f) or throws invalid_argument when f has no name', cex=cexs, strategy=('unroll',)),
        Contract('is_hash_function_name', 'vc_hf_is_name', str_setup(False), isname_post, 'ensures result <=> text is one of the names', cex=cexs, strategy=('unroll',)),
        Contract('make_hash_function', 'vc_hf_make', str_setup(True), make_post, 'ensures identifier of the name, empty for every other text', cex=cexs, strategy=('unroll',)),
        Contract('make_hash_function after to_string', 'vc_hf_round', round_setup, round_post, 'ensures identity on named identifiers', cex=cexs, strategy=('unroll',))]
