from .lib import *
ID = 'C05'
TITLE = 'Flag sets combine as sets; file attribute text converts back and forth exactly'
HARNESS = 'flags.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='flags.cpp')
FUNCTIONS = ['dottorrent::operator| & ^ ~ |= &= ^= (bitmask enums; underlying 8, 16 signed, 32, 64 bits)', 'to_string(file_attributes)', 'make_file_attributes', 'protocol enumerators']
ASSUMPTIONS = ['attribute text length below 2^56 bytes', 'fmt::format returns some string and does not throw']
LET = [('l', 1), ('x', 2), ('h', 4), ('p', 8)]
def ops():
    F = {'or': lambda a, b: a | b, 'and': lambda a, b: a & b, 'xor': lambda a, b: a ^ b}
    for w in (8, 16, 32, 64):
        for k, f in F.items():
            def setup(ex, st, w=w):
                a, b = z3.BitVecs('a b', w); return [a, b], None, dict(a=a, b=b, w=w)
            def post(ex, o, c, f=f):
                ex.oblige(o.st, 'returns', o.kind == 'ret')
                if o.kind == 'ret': ex.oblige(o.st, 'bitwise result', o.val == f(c['a'], c['b']))
            yield Contract(f'operator {k} ({w} bit)', f'vc_{k}_{w}', setup, post, 'ensures the bitwise combination', cex=cexop(k))
            def setup2(ex, st, w=w):
                a, b = z3.BitVecs('a b', w); i = ex.new_obj(st, 'a', w//8); ex.store(st, P0(i), INT(w), a)
                return [P0(i), b], None, dict(a=a, b=b, i=i, w=w)
            def post2(ex, o, c, f=f, w=w):
                ex.oblige(o.st, 'returns', o.kind == 'ret')
                if o.kind == 'ret':
                    ex.oblige(o.st, 'stored result', ex.load(o.st, P0(c['i']), INT(w)) == f(c['a'], c['b']))
                    ex.oblige(o.st, 'returns its left operand', isinstance(o.val, Ptr) and o.val.obj == c['i'] and z3.is_true(simp(o.val.off == 0)))
            yield Contract(f'operator {k}= ({w} bit)', f'vc_a{k}_{w}', setup2, post2, 'ensures lhs is the bitwise combination', cex=cexop(k))
        def setup3(ex, st, w=w):
            a = z3.BitVec('a', w); return [a], None, dict(a=a, b=a, w=w)
        def post3(ex, o, c):
            ex.oblige(o.st, 'returns', o.kind == 'ret')
            if o.kind == 'ret': ex.oblige(o.st, 'complement', o.val == ~c['a'])
        yield Contract(f'operator not ({w} bit)', f'vc_not_{w}', setup3, post3, 'ensures complement', cex=cexop('not'))
def cexop(k):
    return lambda ex, m, c: [['op', str(c['w']), str(m.eval(c['a'], model_completion=True).as_long()), str(m.eval(c['b'], model_completion=True).as_long())]]
def str_setup(ex, st):
    v = z3.BitVec('v', 32); st.assume(z3.And(v >= 0, v < 16)); o = ex.new_obj(st, 'out', 32)
    return [v, P0(o)], None, dict(v=v, o=o)
def str_post(ex, o, c):
    ex.oblige(o.st, 'does not throw', o.kind == 'ret')
    if o.kind != 'ret': return
    s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s); v = c['v']
    ex.oblige(o.st, 'one letter per attribute', s.len == sum((z3.ZeroExt(63, z3.Extract(i, i, v)) for i in range(4)), bv64(0)))
    for l, b in LET:
        ex.oblige(o.st, f'letter {l} is present exactly for its attribute', (v & b != 0) == z3.Or(*[z3.And(z3.UGT(s.len, i), z3.Select(arr, bv64(i)) == ord(l)) for i in range(4)]))
def bit(c):
    r = BV(0, 32)
    for l, b in LET: r = z3.If(c == ord(l), BV(b, 32), r)
    return r
def known(c): return z3.Or(*[c == ord(l) for l, _ in LET])
def make_setup(good):
    def setup(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN)))
        i, IN = bytes_obj(ex, st, 'IN', n)
        A = z3.Function('attrs', z3.BitVecSort(64), z3.BitVecSort(32)); st.assume(A(bv64(0)) == 0)
        j0 = z3.BitVec('j0', 64)
        unfold = lambda k: [z3.Implies(z3.ULT(k, n), A(k+1) == (A(k) | bit(z3.Select(IN, k))))]
        if good:
            u0 = unfold; unfold = lambda k: u0(k) + [z3.Implies(z3.ULT(k, n), known(z3.Select(IN, k)))]
        else: st.assume(z3.And(z3.ULT(j0, n), z3.Not(known(z3.Select(IN, j0)))))
        def extra(self, ex, nm, b, hs, wo, wg):
            if not good: yield (f'k:={nm} not beyond the unknown letter', lambda s, b=b: z3.ULE(b(s), j0))
            for vn, var in self.small_vars(ex, hs, wo):
                def eq(s, b=b, var=var):
                    x = var(s)
                    if x.size() != 32: raise CandErr()
                    return x == A(b(s))
                yield (f'k:={nm}: {vn} = attributes of the first k letters', eq)
        return [P0(i), n], Machine(n, i, inp=lambda k: z3.Select(IN, k), unfold=unfold, base=[A(bv64(0)) == 0], extra=extra), dict(n=n, IN=IN, A=A)
    return setup
def make_post(good):
    def post(ex, o, c):
        if good:
            ex.oblige(o.st, 'known letters are accepted', o.kind == 'ret')
            if o.kind == 'ret': ex.oblige(o.st, 'union of the attributes of the letters', o.val == c['A'](c['n']))
        else:
            ex.oblige(o.st, 'an unknown letter is refused', o.kind == 'throw')
            if o.kind == 'throw': ex.oblige(o.st, 'refusal is std::invalid_argument', ex.exc_isa(o.exc['type'], 'St16invalid_argument'))
    return post
def cexm(ex, m, c):
    b = model_bytes(m, c['IN'], c['n']); return [['make', b.hex() or '-']] if b is not None else []
def cexv(ex, m, c): return [['attr', str(m.eval(c['v'], model_completion=True).as_long())]]
def rt_setup(ex, st):
    v = z3.BitVec('v', 32); st.assume(z3.And(v >= 0, v < 16)); return [v], None, dict(v=v)
def rt_post(ex, o, c):
    ex.oblige(o.st, 'does not throw', o.kind == 'ret')
    if o.kind == 'ret': ex.oblige(o.st, 'attributes survive the round trip', o.val == c['v'])
def hy_post(ex, o, c):
    ex.oblige(o.st, 'hybrid is exactly v1 and v2', z3.And(z3.BoolVal(o.kind == 'ret'), o.val == 1))
def contracts(tier):
    return list(ops()) + [
        Contract('to_string(file_attributes)', 'vc_attr_str', str_setup, str_post, 'ensures exactly one letter per attribute', cex=cexv),
        Contract('make_file_attributes known', 'vc_attr_make', make_setup(True), make_post(True), 'ensures union over the letters', cex=cexm),
        Contract('make_file_attributes unknown', 'vc_attr_make', make_setup(False), make_post(False), 'ensures throws invalid_argument', cex=cexm),
        Contract('attribute round trip', 'vc_attr_round', rt_setup, rt_post, 'ensures make(to_string(v)) = v', cex=cexv, strategy=('unroll',)),
        Contract('protocol flags', 'vc_hybrid', lambda ex, st: ([], None, {}), hy_post, 'hybrid = v1 | v2, disjoint')]
