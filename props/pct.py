"""Specification of percent-encoding (RFC 3986 section 2.1): shared by C02 and C03."""
from .lib import *
U64 = z3.BitVecSort(64)
def enc_spec(IN, n, tag=''):
    L = z3.Function('enc_len' + tag, U64, U64); S = z3.Const('ENC' + tag, A8)
    def unfold(k):
        c = z3.Select(IN, k)
        u = isunreserved(c)
        return [z3.Implies(z3.ULT(k, n), z3.And(L(k+1) == L(k) + z3.If(u, bv64(1), bv64(3)), z3.ULE(L(k), 3*k),
                  z3.If(u, z3.Select(S, L(k)) == c, z3.And(z3.Select(S, L(k)) == 0x25, z3.Select(S, L(k)+1) == hexdig(z3.LShR(c, 4), True), z3.Select(S, L(k)+2) == hexdig(c & 15, True))),
                  # L is increasing and bounded by its final value (lemma 'length function')
                  z3.ULE(L(k) + z3.If(u, bv64(1), bv64(3)), L(n)), z3.ULE(L(n), 3*n)))]
    return L, S, unfold
def dec_step(IN, q, O, T, k):
    c = z3.Select(IN, k); h = ishex(c); s = q(k)
    pct = c == 0x25
    q1 = z3.If(s == 0, z3.If(pct, BV(1, 2), BV(0, 2)), z3.If(s == 1, z3.If(h, BV(2, 2), BV(3, 2)), z3.If(s == 2, z3.If(h, BV(0, 2), BV(3, 2)), BV(3, 2))))
    emit = z3.Or(z3.And(s == 0, z3.Not(pct)), z3.And(s == 2, h))
    ch = z3.If(s == 0, c, unhex(z3.Select(IN, k-1), c))
    return [q(k+1) == q1, O(k+1) == O(k) + z3.If(emit, bv64(1), bv64(0)), z3.Implies(emit, z3.Select(T, O(k)) == ch)]
def dec_spec(IN, n, tag=''):
    q = z3.Function('dec_state' + tag, U64, z3.BitVecSort(2)); O = z3.Function('dec_len' + tag, U64, U64); T = z3.Const('DEC' + tag, A8)
    def unfold(k):
        return [z3.Implies(z3.ULT(k, n), z3.And(*dec_step(IN, q, O, T, k), z3.ULE(O(k+1), O(n)), z3.ULE(O(n), n))),
                z3.Implies(z3.And(z3.ULE(k, n), q(k) == 3), q(n) == 3)]
    return q, O, T, unfold, [q(bv64(0)) == 0, O(bv64(0)) == 0]
