import z3, re
from .storage import *
from . import c17
from .c17 import obs, ret, listed, unchanged, out, word, looked
ID = 'C18'
TITLE = 'Alignment padding puts every file on a piece boundary and changes nothing else'
HARNESS = 'storage.cpp'
EARLY = True
NATIVE = c17.NATIVE
FUNCTIONS = ['is_piece_aligned, optimize_alignment (with the file_storage functions they use)']
ASSUMPTIONS = c17.ASSUMPTIONS + ['optimize_alignment: the padded files together have less than 2^62 bytes']
rem = lambda e: pmod(fSize(e))
class Padded:
    """what padding the files of q must give: O(0) ... O(m-1)"""
    def __init__(self, q):
        self.q = q; f = lambda x: z3.Function(x, B64, B64); self.L, self.T = f('outputs_before'), f('padding_before')
        self.m = self.L(q.n - 1) + 1; self.v = Seq('padded', n=z3.BitVec('count_padded', 64)); self.O = self.v.A
    def need(self, i): return z3.And(z3.ULT(i + 1, self.q.n), rem(self.q.at(i)) != 0)
    def gap(self, i): return PS() - rem(self.q.at(i))
    def step(self, i):
        """file i and, if it does not end on a boundary and is not the last, padding up to the next one"""
        L, T, q = self.L, self.T, self.q; nd = self.need(i); p = PadE(self.gap(i)); O = lambda j: z3.Select(self.O, j)
        return z3.And(O(L(i)) == q.at(i), L(i+1) == L(i) + z3.If(nd, bv64(2), bv64(1)), T(i+1) == T(i) + z3.If(nd, self.gap(i), bv64(0)),
            z3.Implies(nd, z3.And(O(L(i)+1) == p, fSize(p) == self.gap(i), fPad(p))), z3.ULE(L(i), 2*i))
    def base(self): return [self.L(0) == 0, self.T(0) == 0, self.v.n == self.m, z3.ULT(self.v.S(self.v.n), bv64(MAXB)), self.v.S(0) == 0]
    def at(self, i): return [z3.Implies(z3.ULT(i, self.q.n), self.step(i))]
    def sums(self, i): return self.v.S(self.L(i)) == self.q.S(i) + self.T(i)      # lemma: sums
    def total(self): return self.v.S(self.m) == self.q.S(self.q.n) + self.T(self.q.n - 1)      # lemma: sums
class Align(Files):
    mixed = True; forget = True; reach = 1
    def __init__(self, o, q, P): Files.__init__(self, [q, P.v], lims=[q.n - 1]); self.o, self.q, self.P = o, q, P; self.extra_c = Align.more
    def generic(self, h, nm):
        """of the general candidates: strides, and order for loop variables that are pointers"""
        w = nm.split(' ')[0]; return ' = init + ' in nm or (isinstance(h.phi.get(w), Ptr) and not nm.endswith('<= init'))
    def facts(self, ex, snap):
        fs = Files.facts(self, ex, snap)
        for nm, b in self.bind(ex, snap):
            try: k = simp(b(snap))
            except (CandErr, KeyError): continue
            fs += self.P.at(simp(k-1)) + self.P.at(k) + self.P.at(simp(k+1))
        return fs
    def more(self, ex, bn, b, h, wobjs, wghost):
        j = z3.BitVec('j!inv', 64); P, q = self.P, self.q
        yield (f'k:={bn}: at most 2k outputs', b, lambda s: z3.ULE(P.L(b(s)), 2*b(s)))
        for oid in wobjs:
            o = ex.obj(h.st, oid)
            if o.mode == 'words' and o.opaque:
                yield (f'k:={bn}: files from k on untouched', b, lambda s, oid=oid: Q(j, z3.Implies(z3.And(z3.UGE(j, b(s)), z3.ULT(j, q.n)), z3.Select(ex.obj(s.st, oid).arr, j) == q.at(j)), ex.obj(s.st, oid).arr))
        for g in wghost:
            if g[0] != 'wvec' or not h.st.ghost[g].opq: continue
            def w(s, g=g):
                x = s.st.ghost.get(g)
                if x is None: raise CandErr()
                return x
            yield (f'k:={bn}: length of {g[1:]} = outputs', b, lambda s, w=w: w(s).len == P.L(b(s)))
            yield (f'k:={bn}: {g[1:]} holds the outputs', b, lambda s, w=w: Q(j, z3.Implies(z3.ULT(j, w(s).len), z3.Select(W.arr(ex, s.st, w(s)), j) == P.v.at(j)), W.arr(ex, s.st, w(s))))
        for qn, x in quantities(ex, h, wobjs, wghost).items():
            yield (f'k:={bn}: {qn} = padding so far', b, lambda s, x=x: x(s) == P.T(b(s)))
            yield (f'k:={bn}: {qn} = number of outputs', b, lambda s, x=x: x(s) == P.L(b(s)))
def align_setup(ex, st):
    prepare(ex); o = storage(ex, st); q = Seq('s'); r = out(ex, st); P = Padded(q); c = dict(o=o, q=q, out=r, P=P)
    st.assume(q.n != 0)
    for f in P.base(): st.assume(f)
    l = simp(q.n - 1); st.facts += P.at(l) + P.at(bv64(0)) + q.walk(l, hi=1) + [P.sums(l), P.total()] + P.v.walk(P.L(l), hi=1)
    return [P0(o), P0(r)], Align(o, q, P), c
def align_post(ex, o, c):
    if not ret(ex, o): return
    P = c['P']; listed(ex, o.st, c['o'], P.v.n, P.v.at, 'the files, each but the last padded to a boundary')
    looked(ex, o.st, c, P.v.S(P.v.n)); ex.oblige(o.st, 'the total grows by the padding', word(ex, o.st, c['out'], 0) == c['q'].S(c['q'].n) + P.T(c['q'].n - 1))
def empty_setup(ex, st):
    a, s, c = obs(o=True)(ex, st); st.assume(c['q'].n == 0); return a, s, c
def empty_post(ex, o, c):
    if ret(ex, o): unchanged(ex, o.st, c, 'no files'); looked(ex, o.st, c, bv64(0), False)
def lemmas():
    q = Seq('s'); P = Padded(q); i = z3.BitVec('i', 64); L, T, S = P.L, P.T, P.v.S; zero = bv64(0)
    hy = [z3.ULE(q.n, bv64(MAXF)), z3.ULE(kps(), 62), z3.UGE(kps(), 14), z3.ULT(i + 1, q.n)]
    l = q.n - 1; stp = lambda k: S(k+1) == S(k) + fSize(P.v.at(k)); srcs = q.S(i+1) == q.S(i) + fSize(q.at(i))
    st = [P.step(i), stp(L(i)), stp(L(i)+1), srcs]
    return [Lemma('lemma: sums', lambda: [('no files', P.sums(zero), [L(zero) == 0, T(zero) == 0, S(zero) == 0, q.S(zero) == 0]), ('one more file', P.sums(i+1), hy + st + [P.sums(i)]), ('all', P.total(), [q.n != 0, z3.ULE(q.n, bv64(MAXF)), P.sums(l), P.step(l), stp(L(l)), q.S(q.n) == q.S(l) + fSize(q.at(l))])], 'sum of the outputs before file i = sum of the files before i + padding'),
        Lemma('lemma: every file starts on a boundary', lambda: [('the first', pmod(S(L(zero))) == 0, [L(zero) == 0, S(zero) == 0]), ('the next', pmod(S(L(i+1))) == 0, hy + st + [pmod(S(L(i))) == 0])], 'offset of file i is a multiple of the piece size'),
        Lemma('lemma: padding files', lambda: [('smaller than a piece and not empty', z3.And(z3.ULT(P.gap(i), PS()), P.gap(i) != 0), hy + [P.need(i)]), ('none after the last file', z3.Not(P.need(q.n - 1)), [q.n != 0])], 'what is added between two files'),
        Lemma('lemma: aligned', lambda: aligned_lemma(), 'the flag of a prefix: every regular file of it starts on a boundary')]
def aligned_lemma():
    q = Seq('l', use='S AL'); j, k = z3.BitVecs('j k', 64); ok = lambda j: z3.Or(fPad(q.at(j)), pmod(q.S(j)) == 0); def_ = q.AL(k+1) == z3.And(q.AL(k), ok(k))
    P = lambda k, j: z3.Implies(z3.And(q.AL(k), z3.ULT(j, k)), ok(j)); w = z3.Function('witness', B64, B64)
    R = lambda k: z3.Implies(z3.Not(q.AL(k)), z3.And(z3.ULT(w(k), k), z3.Not(ok(w(k))))); small = [z3.ULT(k, bv64(MAXF))]
    return [('no files', P(bv64(0), j), []), ('one more file', P(k+1, j), small + [def_, P(k, j)]), ('not aligned: no files', R(bv64(0)), [q.AL(bv64(0))]),
        ('not aligned: one more file', R(k+1), small + [def_, R(k), w(k+1) == z3.If(q.AL(k), k, w(k))])]
def contracts(tier):
    r = []
    def C(n, e, s, p, txt, **k): r.append(Contract(n, 'vc_' + e, s, p, txt, **{**KW, **k}))
    C('is_piece_aligned', 'aligned', obs(use='S AL'), c17.val_post('every regular file starts on a boundary', lambda v, q: retbool(v) == q.AL(q.n)), 'ensures whether every regular file starts on a boundary')
    C('optimize_alignment', 'align', align_setup, align_post, 'requires a file; ensures the files in order, each but the last followed by padding up to a boundary', timeout=300)
    C('optimize_alignment without files', 'align', empty_setup, empty_post, 'ensures nothing happens')
    return r + lemmas() + [flag_lemma()]
