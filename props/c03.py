from .pct import *
ID = 'C03'
TITLE = 'Percent-decoding accepts exactly the well-formed texts and decodes them exactly'
HARNESS = 'percent.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='percent.cpp')
FUNCTIONS = ['dottorrent::detail::percent_decode (both overloads)', 'hex_to_byte', 'is_alphanumerical']
ASSUMPTIONS = ['input length below 2^56 bytes', 'the iterator overload is instantiated with raw pointers and with back_insert_iterator<std::string>']
def setup_(mode, kind='it'):
    def setup(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN)))
        i, IN = bytes_obj(ex, st, 'IN', n)
        q, O, T, unfold, base = dec_spec(IN, n)
        for b in base: st.assume(b)
        st.assume(z3.ULE(O(n), n))
        e = z3.BitVec('e', 64); extra = None; base = list(base)
        if mode == 'good': st.assume(q(n) == 0); size = O(n)
        elif mode == 'bad': st.assume(q(n) != 0); size = O(n)
        elif mode == 'trunc': st.assume(z3.Or(q(n) == 1, q(n) == 2)); size = O(n)
        elif mode == 'nonhex':
            size = O(n)
            c1, c2 = z3.Select(IN, e+1), z3.Select(IN, e+2)
            st.assume(z3.And(z3.ULT(e, n), z3.ULT(e+2, n), z3.ULT(e, e+2), q(e) == 0, z3.Select(IN, e) == 0x25, z3.Not(z3.And(ishex(c1), ishex(c2)))))
            w = unfold(e) + unfold(simp(e+1)) + unfold(simp(e+2)); base += w
            for x in w: st.assume(x)
            def extra(self, ex, nm, b, hs, wo, wg):
                yield (f'k:={nm} not beyond the malformed escape', lambda s, b=b: z3.ULE(b(s), e+2))
        def extra2(self, ex, nm, b, hs, wo, wg):
            if extra is not None: yield from extra(self, ex, nm, b, hs, wo, wg)
            # pending characters that cannot be digits
            for vn, var in self.small_vars(ex, hs, wo):
                def nh(s, b=b, var=var):
                    x = var(s)
                    if x.size() != 8: raise CandErr()
                    return z3.Implies(q(b(s)) == 3, z3.Not(ishex(x)))
                yield (f'k:={nm}: state=3 -> {vn} is no digit', nh)
        def inp(k): return z3.Select(IN, k)
        if kind == 'str': o = ex.new_obj(st, 'out', 32)
        else: o = ex.new_obj(st, 'out', size, mode='array', arr=z3.Const('OUT0', A8))
        m = Machine(n, i, inp=inp, outlen=O, S=lambda j: z3.Select(T, j), unfold=unfold, base=base, qs=[('state', q, (0, 1, 2, 3))], extra=extra2)
        return [P0(i), n, P0(o)], m, dict(n=n, O=O, T=T, o=o, IN=IN)
    return setup
from vc.loops import CandErr
def post_(mode, kind='it'):
    def post(ex, o, c):
        ex.oblige(o.st, 'decoding returns normally', o.kind == 'ret')
        if o.kind != 'ret': return
        if mode == 'good':
            j = fresh('j')
            if kind == 'str':
                s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s); f = lambda j: z3.Select(arr, j); ln = s.len
                ex.oblige(o.st, 'decoded length', ln == c['O'](c['n']))
            else:
                f = out_bytes(ex, o.st, c['o']); ln = c['O'](c['n'])
                ex.oblige(o.st, 'well-formed text is accepted', o.val == 0)
            ex.oblige(o.st, 'decoded characters', z3.Implies(z3.ULT(j, ln), f(j) == z3.Select(c['T'], j)))
        elif mode == 'bad': ex.oblige(o.st, 'malformed text is refused', o.val != 0)
        elif mode == 'trunc': ex.oblige(o.st, 'a text that ends inside an escape is reported as incomplete', o.val == 2)
        else: ex.oblige(o.st, 'an escape with a non-digit is reported as such', o.val == 1)
    return post
def cex(kind):
    def f(ex, m, c):
        b = model_bytes(m, c['IN'], c['n'])
        return [[kind, b.hex() or '-']] if b is not None else []
    return f
def lemmas():
    n, k = z3.BitVecs('n k', 64); IN = z3.Const('IN', A8)
    q, O, T, unf, base = dec_spec(IN, n)
    st = dec_step(IN, q, O, T, k)
    return [('state 3 is absorbing: step', q(k+1) == 3, st + [q(k) == 3]),
            ('O(k) <= k: step', z3.ULE(O(k+1), k+1), st + [z3.ULT(k, bv64(MAXN)), z3.ULE(O(k), k)]),
            ('O monotone: step', z3.ULE(O(k), O(k+1)), st + [z3.ULT(k, bv64(MAXN)), z3.ULE(O(k), k)])]
def contracts(tier):
    return [Lemma('decoder automaton lemmas', lemmas, 'error state absorbing; output length bounded and monotone'),
        Contract('percent_decode well-formed', 'vc_pct_dec_it', setup_('good'), post_('good'), 'requires state(n)=normal; ensures success, out = dec(in), nothing else written', cex=cex('dec')),
        Contract('percent_decode malformed', 'vc_pct_dec_it', setup_('bad'), post_('bad'), 'requires state(n)!=normal; ensures failure status; output stays within dec(in) space', cex=cex('dec')),
        Contract('percent_decode truncated', 'vc_pct_dec_it', setup_('trunc'), post_('trunc'), 'requires text ends inside an otherwise valid escape; ensures incomplete status', cex=cex('dec')),
        Contract('percent_decode non-hex', 'vc_pct_dec_it', setup_('nonhex'), post_('nonhex'), 'requires first malformed escape is complete; ensures non-hex status', cex=cex('dec')),
        Contract('percent_decode(view)', 'vc_pct_dec', setup_('good', 'str'), post_('good', 'str'), 'requires well-formed; ensures result = dec(in)', cex=cex('decs'))]
