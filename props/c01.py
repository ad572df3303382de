from .lib import *
ID = 'C01'
TITLE = 'Hexadecimal text and bytes convert back and forth exactly, bad text is refused'
HARNESS = 'hex.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='hex.cpp')
FUNCTIONS = ['dottorrent::to_hexadecimal_string (both overloads)', 'dottorrent::from_hexadecimal_string (both overloads; fixed size instantiated at 1,2,16,20,28,32,48,64)',
             'dottorrent::detail::hex_to_byte (both)', 'dottorrent::detail::hex_to_int', 'dottorrent::detail::byte_to_hex', 'dottorrent::detail::byte_to_hex_uppercase', 'generate_hex_to_int_table (evaluated by the compiler)']
ASSUMPTIONS = ['input length below 2^56 bytes', 'output iterators are instantiated with raw pointers']

def S_enc(IN):
    def S(j):
        b = z3.Select(IN, z3.LShR(j, bv64(1)))
        return hexdig(z3.If(z3.Extract(0, 0, j) == 0, z3.LShR(b, 4), b & 15))
    return S
def enc_setup(kind):
    def setup(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN)))
        i, IN = bytes_obj(ex, st, 'IN', n)
        S = S_enc(IN)
        if kind == 'str': o = ex.new_obj(st, 'out', 32)
        else: o = ex.new_obj(st, 'out', simp(2*n), mode='array', arr=z3.Const('OUT0', A8))
        mach = Machine(n, i, inp=lambda k: z3.Select(IN, k), outlen=lambda k: 2*k, S=S)
        return [P0(i), n, P0(o)], mach, dict(n=n, S=S, o=o, IN=IN)
    return setup
def enc_post(kind):
    def post(ex, o, c):
        ex.oblige(o.st, 'encoding returns normally', o.kind == 'ret')
        if o.kind != 'ret': return
        j = fresh('j')
        if kind == 'str':
            s = get_str(ex, o.st, P0(c['o'])); arr = str_arr(ex, o.st, s)
            ex.oblige(o.st, 'two digits per byte', s.len == 2*c['n'])
            ex.oblige(o.st, 'every digit is the lower-case hexadecimal digit of its nibble', z3.Implies(z3.ULT(j, s.len), z3.Select(arr, j) == c['S'](j)))
        else:
            f = out_bytes(ex, o.st, c['o'])
            ex.oblige(o.st, 'returned iterator is past the last digit', z3.And(o.val.off == 2*c['n']) if o.val.obj == c['o'] else z3.And(c['n'] == 0, False))
            ex.oblige(o.st, 'every digit is the lower-case hexadecimal digit of its nibble', z3.Implies(z3.ULT(j, 2*c['n']), f(j) == c['S'](j)))
    return post
def cex_bytes(kind):
    def f(ex, m, c):
        b = model_bytes(m, c['IN'], c['n'])
        return [[kind, b.hex() or '-']] if b is not None else []
    return f
# ---- decoding
def valid(IN, k): return z3.And(ishex(z3.Select(IN, 2*k)), ishex(z3.Select(IN, 2*k+1)))
def S_dec(IN): return lambda j: unhex(z3.Select(IN, 2*j), z3.Select(IN, 2*j+1))
def dec_it_setup(good):
    def setup(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN)))
        i, IN = bytes_obj(ex, st, 'IN', n)
        o = ex.new_obj(st, 'out', simp(z3.LShR(n, bv64(1))), mode='array', arr=z3.Const('OUT0', A8))
        half = z3.LShR(n, bv64(1))
        S = S_dec(IN)
        j0 = z3.BitVec('j0', 64)
        if good:
            st.assume(z3.Extract(0, 0, n) == 0)
            m = Machine(half, i, stride=2, outlen=lambda k: k, S=S, unfold=lambda k: [z3.Implies(z3.ULT(k, half), valid(IN, k))])
        else:
            odd = z3.Extract(0, 0, n) == 1
            st.assume(z3.Or(odd, z3.And(z3.ULT(j0, half), z3.Not(valid(IN, j0)))))
            def extra(self, ex, nm, b, hs, wo, wg):
                yield (f'k:={nm} not beyond the malformed pair', lambda s, b=b: z3.Or(z3.Extract(0, 0, n) == 1, z3.ULE(b(s), j0)))
            m = Machine(half, i, stride=2, outlen=lambda k: k, S=S, extra=extra)
        return [P0(i), n, P0(o)], m, dict(n=n, half=half, S=S, o=o, IN=IN)
    return setup
def dec_it_post(good):
    def post(ex, o, c):
        if good:
            ex.oblige(o.st, 'well-formed text is accepted', o.kind == 'ret')
            if o.kind != 'ret': return
            j = fresh('j'); f = out_bytes(ex, o.st, c['o'])
            ex.oblige(o.st, 'every output byte is the value of its digit pair', z3.Implies(z3.ULT(j, c['half']), f(j) == c['S'](j)))
        else:
            ex.oblige(o.st, 'malformed text is refused with an exception', o.kind == 'throw')
    return post
def dec_n_setup(N):
    def setup(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN)))
        i, IN = bytes_obj(ex, st, 'IN', n)
        o = ex.new_obj(st, 'out', N)
        return [P0(i), n, P0(o)], None, dict(n=n, o=o, IN=IN)
    return setup
def dec_n_post(N):
    def post(ex, o, c):
        ex.oblige(o.st, 'does not throw', o.kind == 'ret')
        if o.kind != 'ret': return
        IN = c['IN']
        wf = z3.And(c['n'] == 2*N, *[z3.And(ishex(z3.Select(IN, bv64(2*k))), ishex(z3.Select(IN, bv64(2*k+1)))) for k in range(N)])
        ok = simp(retbool(o.val))
        if z3.is_true(ok): ex.oblige(o.st, f'only exactly {2*N} hexadecimal digits are accepted', wf)
        elif z3.is_false(ok): ex.oblige(o.st, f'every text of {2*N} hexadecimal digits is accepted', z3.Not(wf))
        else: ex.oblige(o.st, f'accepted iff exactly {2*N} hexadecimal digits', ok == wf)
        if not z3.is_false(ok):
            f = out_bytes(ex, o.st, c['o'])
            ex.oblige(o.st, 'every output byte is the value of its digit pair', z3.Implies(ok, z3.And(*[f(bv64(k)) == unhex(z3.Select(IN, bv64(2*k)), z3.Select(IN, bv64(2*k+1))) for k in range(N)])))
    return post
def pair_setup(sv):
    def setup(ex, st):
        o = ex.new_obj(st, 'out', 1)
        if sv:
            n = z3.BitVec('n', 64); st.assume(z3.And(z3.UGE(n, 2), z3.ULE(n, bv64(MAXN))))
            i, IN = bytes_obj(ex, st, 'IN', n)
            return [P0(i), n, P0(o)], None, dict(a=z3.Select(IN, bv64(0)), b=z3.Select(IN, bv64(1)), o=o)
        a, b = z3.BitVec('a', 8), z3.BitVec('b', 8)
        return [a, b, P0(o)], None, dict(a=a, b=b, o=o)
    return setup
def pair_post(ex, o, c):
    ex.oblige(o.st, 'does not throw', o.kind == 'ret')
    if o.kind != 'ret': return
    ok = retbool(o.val); wf = z3.And(ishex(c['a']), ishex(c['b']))
    ex.oblige(o.st, 'true iff both characters are hexadecimal digits', ok == wf)
    ex.oblige(o.st, 'value of the pair', z3.Implies(ok, out_bytes(ex, o.st, c['o'])(bv64(0)) == unhex(c['a'], c['b'])))
def b2h_setup(ex, st):
    o = ex.new_obj(st, 'out', 2); b = z3.BitVec('b', 8)
    return [b, P0(o)], None, dict(b=b, o=o)
def b2h_post(up):
    def post(ex, o, c):
        ex.oblige(o.st, 'does not throw', o.kind == 'ret')
        if o.kind != 'ret': return
        f = out_bytes(ex, o.st, c['o'])
        ex.oblige(o.st, 'high then low digit', z3.And(f(bv64(0)) == hexdig(z3.LShR(c['b'], 4), up), f(bv64(1)) == hexdig(c['b'] & 15, up)))
    return post
def lemmas():
    b = z3.BitVec('b', 8); a, c = z3.BitVec('a', 8), z3.BitVec('c', 8)
    r = []
    for up in (False, True):
        h, l = hexdig(z3.LShR(b, 4), up), hexdig(b & 15, up)
        r.append((f'decode(encode(b)) = b (upper={up})', z3.And(ishex(h), ishex(l), unhex(h, l) == b), []))
    v = unhex(a, c)
    lower = lambda x: z3.If(isupper(x), x + 0x20, x)
    r.append(('encode(decode(text)) = lower-case text', z3.And(hexdig(z3.LShR(v, 4)) == lower(a), hexdig(v & 15) == lower(c)), [ishex(a), ishex(c)]))
    return r
def contracts(tier):
    cs = [
        Lemma('round trip', lemmas, 'spec functions enc and dec are inverse on every byte'),
        Contract('to_hexadecimal_string(span)', 'vc_to_hex', enc_setup('str'), enc_post('str'), 'ensures result = enc(data), |result| = 2|data|', cex=cex_bytes('enc')),
        Contract('to_hexadecimal_string(out, span)', 'vc_to_hex_it', enc_setup('it'), enc_post('it'), 'ensures out[0..2n) = enc(data) and returns out+2n; frame: nothing else written', cex=cex_bytes('encit')),
        Contract('from_hexadecimal_string(out, text) well-formed', 'vc_from_hex_it', dec_it_setup(True), dec_it_post(True), 'requires even length and all digits; ensures out = dec(text)', cex=cex_bytes('decit')),
        Contract('from_hexadecimal_string(out, text) malformed', 'vc_from_hex_it', dec_it_setup(False), dec_it_post(False), 'requires odd length or some non-digit; ensures throws; never reads outside the text', cex=cex_bytes('decit')),
        Contract('hex_to_byte(a,b)', 'vc_hex_to_byte', pair_setup(False), pair_post, 'ensures result <=> both hex digits, out = value'),
        Contract('hex_to_byte(view)', 'vc_hex_to_byte_sv', pair_setup(True), pair_post, 'requires |view| >= 2'),
        Contract('byte_to_hex', 'vc_byte_to_hex', b2h_setup, b2h_post(False), 'ensures out = lower-case digits'),
        Contract('byte_to_hex_uppercase', 'vc_byte_to_hex_up', b2h_setup, b2h_post(True), 'ensures out = upper-case digits'),
    ]
    for N in (1, 2, 20, 32) if tier == 'quick' else (1, 2, 16, 20, 28, 32, 48, 64):
        cs.append(Contract(f'from_hexadecimal_string<{N}>', f'vc_from_hex_{N}', dec_n_setup(N), dec_n_post(N), f'ensures result is set <=> |text| = {2*N} and all digits; value = dec(text)', cex=cex_bytes(f'dec{N}'), strategy=('unroll',)))
    return cs
