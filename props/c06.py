from .lib import *
ID = 'C06'
TITLE = 'Size units and the rounding helpers compute the exact mathematical value'
HARNESS = 'arith.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='arith.cpp')
FUNCTIONS = ['dottorrent::literals::operator""_KiB _KB _MiB _MB _GiB _GB _TiB _TB _bits', 'dottorrent::detail::div_ceil', 'log2_floor', 'log2_ceil']
UNITS = {'KiB': 1 << 10, 'KB': 1000, 'MiB': 1 << 20, 'MB': 10**6, 'GiB': 1 << 30, 'GB': 10**9, 'TiB': 1 << 40, 'TB': 10**12}
def unit(u, k):
    def setup(ex, st):
        v = z3.BitVec('v', 64); st.assume(z3.ULE(v, bv64((2**64-1)//k))); return [v], None, dict(v=v)
    def post(ex, o, c):
        ex.oblige(o.st, 'does not throw', o.kind == 'ret')
        if o.kind == 'ret': ex.oblige(o.st, f'value times {k}', o.val == c['v']*bv64(k))
    return Contract('_' + u, 'vc_lit_' + u, setup, post, f'requires no overflow; ensures value * {k}', cex=lambda ex, m, c: [['lit', u, str(m.eval(c['v'], model_completion=True).as_long())]])
def one(name, pre, post_, text):
    def setup(ex, st):
        x = z3.BitVec('x', 64); st.assume(pre(x)); return [x], None, dict(x=x)
    def post(ex, o, c):
        ex.oblige(o.st, 'does not throw', o.kind == 'ret')
        if o.kind == 'ret': ex.oblige(o.st, text, post_(c['x'], o.val))
    return Contract(name, 'vc_' + name, setup, post, text, cex=lambda ex, m, c: [[name, str(m.eval(c['x'], model_completion=True).as_long())]])
def two_setup(w):
    def setup(ex, st):
        x, y = z3.BitVecs('x y', 64); st.assume(y != 0); return [x, y], None, dict(x=x, y=y)
    return setup
def two_post(ex, o, c):
    ex.oblige(o.st, 'does not throw', o.kind == 'ret')
    if o.kind != 'ret': return
    x, y, r = c['x'], c['y'], o.val
    # characterise by quotient and remainder, so that the solver need not multiply
    q, m = z3.UDiv(x, y), z3.URem(x, y)
    ex.oblige(o.st, 'the least integer not below the quotient', r == z3.If(m == 0, q, q+1))
def contracts(tier):
    f2 = lambda x, r: z3.And(z3.ULT(r, 64), z3.ULE(bv64(1) << r, x), z3.Or(r == 63, z3.UGT(bv64(1) << (r+1), x)))
    c2 = lambda x, r: z3.And(z3.ULT(r, 64), z3.UGE(bv64(1) << r, x), z3.Or(r == 0, z3.ULT(bv64(1) << (r-1), x)))
    return [unit(u, k) for u, k in UNITS.items()] + [
        one('lit_bits', lambda x: z3.BoolVal(True), lambda x, r: r == z3.UDiv(x, bv64(8)), 'bits to bytes: value / 8'),
        Contract('div_ceil', 'vc_div_ceil', two_setup(64), two_post, 'requires y != 0; ensures ceiling of x/y for all x, y', cex=lambda ex, m, c: [['div', str(m.eval(c['x'], model_completion=True).as_long()), str(m.eval(c['y'], model_completion=True).as_long())]]),
        one('log2_floor', lambda x: x != 0, f2, '2^r <= x < 2^(r+1)'),
        one('log2_ceil', lambda x: z3.And(x != 0, z3.ULE(x, bv64(1 << 63))), c2, '2^(r-1) < x <= 2^r, for 1 <= x <= 2^63')]
