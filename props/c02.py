from .pct import *
ID = 'C02'
TITLE = 'Percent-encoding yields only URL-safe text from which the input is recoverable'
HARNESS = 'percent.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='percent.cpp')
FUNCTIONS = ['dottorrent::detail::percent_encode (both overloads)', 'percent_encode_char', 'is_unreserved', 'is_numeric', 'is_alpha', 'is_alphanumerical', 'is_reserved_character', 'byte_to_hex_uppercase']
ASSUMPTIONS = ['input length below 2^56 bytes', 'the iterator overload is instantiated with raw pointers and with back_insert_iterator<std::string>']
def enc_setup(kind):
    def setup(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN)))
        i, IN = bytes_obj(ex, st, 'IN', n)
        L, S, unfold = enc_spec(IN, n)
        st.assume(L(bv64(0)) == 0); st.assume(z3.ULE(L(n), 3*n))
        if kind == 'str': o = ex.new_obj(st, 'out', 32)
        else: o = ex.new_obj(st, 'out', L(n), mode='array', arr=z3.Const('OUT0', A8))
        mach = Machine(n, i, inp=lambda k: z3.Select(IN, k), outlen=L, S=lambda j: z3.Select(S, j), unfold=unfold, base=[L(bv64(0)) == 0])
        return [P0(i), n, P0(o)], mach, dict(n=n, S=S, L=L, o=o, IN=IN)
    return setup
def enc_post(kind):
    def post(ex, o, c):
        ex.oblige(o.st, 'encoding returns normally', o.kind == 'ret')
        if o.kind != 'ret': return
        j = fresh('j')
        if kind == 'str':
            s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s); f = lambda j: z3.Select(arr, j); ln = s.len
            ex.oblige(o.st, 'length is the sum of the lengths of the encoded characters', ln == c['L'](c['n']))
        else: f = out_bytes(ex, o.st, c['o']); ln = c['L'](c['n'])
        ex.oblige(o.st, 'every output character is that of the encoding', z3.Implies(z3.ULT(j, ln), f(j) == z3.Select(c['S'], j)))
    return post
def cex(kind):
    def f(ex, m, c):
        b = model_bytes(m, c['IN'], c['n'])
        return [[kind, b.hex() or '-']] if b is not None else []
    return f
def char_setup(ex, st):
    c = z3.BitVec('c', 8); o = ex.new_obj(st, 'out', z3.If(isunreserved(c), bv64(1), bv64(3)), mode='array', arr=z3.Const('OUT0', A8))
    return [c, P0(o)], None, dict(c=c, o=o)
def char_post(ex, o, c):
    ex.oblige(o.st, 'returns', o.kind == 'ret')
    if o.kind != 'ret': return
    f = out_bytes(ex, o.st, c['o']); x = c['c']; u = isunreserved(x)
    ex.oblige(o.st, 'count and characters', z3.And(o.val == z3.If(u, bv64(1), bv64(3)), z3.If(u, f(bv64(0)) == x, z3.And(f(bv64(0)) == 0x25, f(bv64(1)) == hexdig(z3.LShR(x, 4), True), f(bv64(2)) == hexdig(x & 15, True)))))
def pred(name, fn, text):
    def setup(ex, st):
        c = z3.BitVec('c', 8); return [c], None, dict(c=c)
    def post(ex, o, c):
        ex.oblige(o.st, 'returns', o.kind == 'ret')
        if o.kind == 'ret': ex.oblige(o.st, 'exactly the RFC 3986 class', retbool(o.val) == fn(c['c']))
    return Contract(text, name, setup, post, 'ensures result <=> character class', cex=lambda ex, m, c: [['class', '%02x' % m.eval(c['c'], model_completion=True).as_long()]])
def lemmas():
    n, k = z3.BitVecs('n k', 64); IN = z3.Const('IN', A8)
    L, S, unf = enc_spec(IN, n)
    c = z3.Select(IN, k); u = isunreserved(c); step = z3.If(u, bv64(1), bv64(3))
    r = [('length function: L(k) <= 3k is inductive', z3.ULE(L(k)+step, 3*(k+1)), [z3.ULE(n, MAXN), z3.ULT(k, n), z3.ULE(L(k), 3*k)]),
         ('length function: L(k+1) <= L(n) follows downwards', z3.ULE(L(k), L(n)), [z3.ULE(n, MAXN), z3.ULT(k, n), z3.ULE(L(k), 3*k), L(k+1) == L(k)+step, z3.ULE(L(k+1), L(n))])]
    x = z3.BitVec('x', 8)
    r.append(('every emitted character is unreserved or a %-escape of two upper-case digits',
              z3.And(z3.Implies(isunreserved(x), x != 0x25), ishex(hexdig(z3.LShR(x, 4), True)), ishex(hexdig(x & 15, True)), isunreserved(hexdig(x & 15, True)), isunreserved(hexdig(z3.LShR(x, 4), True))), []))
    # decoding the encoding gives back the input: induction step over k
    q, O, T, dunf, base = dec_spec(S, L(n), '2')
    hyp = [z3.ULE(n, MAXN), z3.ULT(k, n), q(L(k)) == 0, O(L(k)) == k] + unf(k)
    for i in range(3): hyp += dec_step(S, q, O, T, simp(L(k)+i))
    r.append(('decode(encode(s)) = s: induction step', z3.And(q(L(k+1)) == 0, O(L(k+1)) == k+1, z3.Select(T, k) == c), hyp))
    return r
def contracts(tier):
    return [Lemma('encoding lemmas', lemmas, 'L monotone and bounded; output alphabet; decoder specification inverts encoder specification'),
        Contract('percent_encode(first, last, out)', 'vc_pct_enc_it', enc_setup('it'), enc_post('it'), 'ensures out[0..L(n)) = enc(in); writes nothing beyond', cex=cex('encit')),
        Contract('percent_encode(view)', 'vc_pct_enc', enc_setup('str'), enc_post('str'), 'ensures result = enc(in)', cex=cex('enc')),
        Contract('percent_encode_char', 'vc_pct_char', char_setup, char_post, 'ensures enc of one character, writes exactly the returned count'),
        pred('vc_is_unreserved', isunreserved, 'is_unreserved'), pred('vc_is_numeric', isdigit, 'is_numeric'), pred('vc_is_alpha', isalpha, 'is_alpha'), pred('vc_is_alnum', isalnum, 'is_alphanumerical'),
        pred('vc_is_reserved', lambda c: z3.Or(*[c == ord(x) for x in "!#$&'()*+,/:;=?@[]"]), 'is_reserved_character')]
