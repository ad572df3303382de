import z3, re
from .storage import *
from . import c17e
ID = 'C17'
TITLE = 'File storage totals, piece counts and piece ranges agree with the files listed'
HARNESS = 'storage.cpp'
BOUNDARY = {'storage.cpp': BOUNDARY, 'entry.cpp': c17e.BOUNDARY}
EARLY = True
NATIVE = dict(src='storage.cpp', extra_src=('src/file_storage.cpp', 'src/file_entry.cpp', 'src/hasher/backends/openssl.cpp'), libs=('-lcrypto',))
FUNCTIONS = ['file_storage: default construction, copy construction and assignment (incl. to itself), add_file (3), add_files, remove_file, clear, total_file_size, total_regular_file_size, file_count, size, regular_file_count, piece_size, set_piece_size, piece_count, allocate_pieces, pieces, set_piece_hash, get_piece_hash, get_pieces_offsets, get_pieces_span, operator[], at, front, back, begin, set_file_mode, file_mode, protocol, index_valid, has_root_directory',
    'file_entry: construction, setters, observers, copies, moves, ==; make_padding_file_entry (entries without checksums)',
    'exclusive_file_size_scan, inclusive_file_size_scan_v1, inclusive_file_size_scan_v2']
ASSUMPTIONS = ['the contracts of file_entry used by the file_storage contracts are proved on its bodies for entries without checksums; copies and moves of entries with checksums, and make_file_entry, are covered by the native validation only',
    'std::filesystem::path is an abstract name', 'at most 2^50 files of together less than 2^62 bytes', 'one thread at a time; nobody assigns to an element through the references handed out',
    'a storage holding any files is reached by some history: the contracts start from arbitrary files and arbitrary other members, with the reported total equal to the sum (the invariant every contract re-establishes)']
def out(ex, st, nm='out'): return ex.new_obj(st, nm, 64)
def word(ex, st, o, i): return ex.load(st, Ptr(o, bv64(8*i)), INT(64))
def obs(args=0, req=None, use='S', o=False, **kw):
    """any storage, any arguments that meet the precondition"""
    def s(ex, st):
        prepare(ex); c = dict(o=storage(ex, st)); xs = [z3.BitVec(f'x{i}', 64) for i in range(args)]; q = Seq('s', use=use)
        for r in (req(q, *xs) if req else []): st.assume(r)
        for x in xs:
            for f in q.walk(x, hi=1): st.facts.append(f)
        a = [P0(c['o'])] + xs
        if o: c['out'] = out(ex, st); a.append(P0(c['out']))
        c.update(q=q, x=xs); return a, Files([q], lims=xs, **kw), c
    return s
def ret(ex, o):
    ex.oblige(o.st, 'returns', o.kind == 'ret'); return o.kind == 'ret'
def listed(ex, st, o, n, f, nm='the files are unchanged'):
    """the files of o are f(0) ... f(n-1)"""
    m, a, _ = files(ex, st, o); p = fresh('p')
    ex.oblige(st, nm, z3.And(m == n, z3.Implies(z3.ULT(p, n), z3.Select(a, p) == f(p))))
def unchanged(ex, st, c, nm='the files are unchanged'): listed(ex, st, c['o'], c['q'].n, c['q'].at, nm)
def val_post(nm, f):
    def post(ex, o, c):
        if ret(ex, o): ex.oblige(o.st, nm, f(o.val, c['q'], *c['x'])); unchanged(ex, o.st, c)
    return post
def looked(ex, st, c, total, change=True, o='out', want=PS):
    w = lambda i: word(ex, st, c[o], i)
    ex.oblige(st, 'the total is the sum of the sizes', w(0) == total); ex.oblige(st, 'the piece size is unchanged', w(1) == want())
    if change: ex.oblige(st, 'the directory index is no longer valid', w(3) == 0)
def def_setup(ex, st): prepare(ex); o = storage(ex, st); r = out(ex, st); return [P0(o), P0(r)], Files([]), dict(o=o, out=r)
def def_post(ex, o, c):
    if not ret(ex, o): return
    w = lambda i: word(ex, o.st, c['out'], i)
    for i, nm in enumerate(('the total is 0', 'no piece size is set', 'the mode is empty', 'no index', 'no pieces', 'no root directory')): ex.oblige(o.st, nm, w(i) == 0)
    ex.oblige(o.st, 'no files', files(ex, o.st, c['o'])[0] == 0); ex.oblige(o.st, 'no piece hashes', hashes(ex, o.st, c['o'])[0] == 0)
# ---- adding
def add_setup(own=False):
    def s(ex, st):
        prepare(ex); o = storage(ex, st); r = out(ex, st); q = Seq('s')
        if own: i = z3.BitVec('x0', 64); st.assume(z3.ULT(i, q.n)); e = q.at(i); a = i
        else: eo, e = entry(ex, st); a = P0(eo)
        st.assume(z3.ULT(fSize(e), bv64(MAXB)))
        return [P0(o), a, P0(r)], Files([q]), dict(o=o, q=q, out=r, e=e)
    return s
def appended(ex, st, c, e):
    q = c['q']; listed(ex, st, c['o'], q.n+1, lambda p: z3.If(p == q.n, e, q.at(p)), 'the entry is appended'); looked(ex, st, c, q.S(q.n) + fSize(e))
def add_post(ex, o, c):
    if ret(ex, o): appended(ex, o.st, c, c['e'])
def addp_setup(ex, st):
    prepare(ex); o = storage(ex, st); r = out(ex, st); q = Seq('s'); p = ex.new_obj(st, 'path', 40, ro=True); st.ghost[('path', p, 0)] = N.Val(z3.BitVec('path_p', 64))
    return [P0(o), P0(p), z3.BitVec('opt', 32), P0(r)], Files([q]), dict(o=o, q=q, out=r)
def addp_post(ex, o, c):
    if not ret(ex, o): return
    t = simp(word(ex, o.st, c['out'], 4))
    if not isconst(t): raise Unsupported('outcome')
    if cval(t): unchanged(ex, o.st, c, 'a file that cannot be read is not added'); looked(ex, o.st, c, c['q'].S(c['q'].n), False)
    else:
        appended(ex, o.st, c, z3.BitVec('made_entry', 64))
def adds_setup(ex, st):
    prepare(ex); o = storage(ex, st); r = out(ex, st); q = Seq('s'); v = Seq('v'); vo = ex.new_obj(st, 'entries', 24)
    W.new(ex, st, P0(vo), v.n, v.A, STRIDE, True)
    for f in v.base(): st.assume(f)
    f = Files([v, q]); f.extra_c = appending(o, q, v); return [P0(o), P0(vo), P0(r)], f, dict(o=o, q=q, v=v, out=r)
def appending(o, q, v):
    """the first k entries of v were appended to the files of q"""
    j = z3.BitVec('j!inv', 64)
    def extra(self, ex, bn, b, h, wobjs, wghost):
        for g in wghost:
            if g[0] != 'wvec': continue
            def ln(s, g=g):
                w = s.st.ghost.get(g)
                if w is None or not w.opq: raise CandErr()
                return w
            yield (f'k:={bn}: length of {g[1:]} = files + k', b, lambda s, ln=ln: ln(s).len == q.n + b(s))
            def seq(s, ln=ln):
                w = ln(s); a = W.arr(ex, s.st, w)
                return Q(j, z3.Implies(z3.ULT(j, w.len), z3.Select(a, j) == z3.If(z3.ULT(j, q.n), q.at(j), v.at(j - q.n))), a)
            yield (f'k:={bn}: {g[1:]} holds files and k entries', b, seq)
        for qn, x in quantities(ex, h, wobjs, wghost).items():
            yield (f'k:={bn}: {qn} = total + sum', b, lambda s, x=x: x(s) == q.S(q.n) + self.prefix(v, v.S, fSize, b, s, h))
    return extra
def adds_post(ex, o, c):
    if not ret(ex, o): return
    q, v = c['q'], c['v']; listed(ex, o.st, c['o'], q.n + v.n, lambda p: z3.If(z3.ULT(p, q.n), q.at(p), v.at(p - q.n)), 'the entries are appended')
    looked(ex, o.st, c, q.S(q.n) + v.S(v.n), False)
    ex.oblige(o.st, 'the directory index is no longer valid', z3.Or(v.n == 0, word(ex, o.st, c['out'], 3) == 0))
# ---- removing
def rem_setup(own=False):
    def s(ex, st):
        prepare(ex); o = storage(ex, st); r = out(ex, st); q = Seq('s'); K = z3.BitVec('first_match', 64); j = z3.BitVec('j!k', 64)
        if own: i = z3.BitVec('x0', 64); st.assume(z3.ULT(i, q.n)); e = q.at(i); a = i
        else: eo, e = entry(ex, st); a = P0(eo)
        same = lambda x: fPath(x) == fPath(e)
        st.assume(z3.ULE(K, q.n)); st.assume(z3.Implies(z3.ULT(K, q.n), same(q.at(K))))
        st.pc.append(z3.ForAll([j], z3.Implies(z3.ULT(j, K), z3.Not(same(q.at(j)))), patterns=[q.at(j)]))
        for f in q.walk(K, hi=1): st.facts.append(f)
        return [P0(o), a, P0(r)], Files([q], pred=same), dict(o=o, q=q, out=r, e=e, K=K)
    return s
def rem_post(ex, o, c):
    if not ret(ex, o): return
    q, K = c['q'], c['K']; n, a, _ = files(ex, o.st, c['o']); p = fresh('p')
    ex.oblige(o.st, 'one file goes if its path is listed, none otherwise', n == z3.If(K == q.n, q.n, q.n - 1))
    ex.oblige(o.st, 'it is the first with that path; the others stay in order', z3.Implies(z3.ULT(p, n), z3.Select(a, p) == z3.If(z3.ULT(p, K), q.at(p), q.at(p+1))))
    looked(ex, o.st, c, q.S(q.n) - z3.If(K == q.n, bv64(0), fSize(q.at(K))), False)
    ex.oblige(o.st, 'the directory index is no longer valid if a file went', z3.Or(K == q.n, word(ex, o.st, c['out'], 3) == 0))
def clear_post(ex, o, c):
    if ret(ex, o): listed(ex, o.st, c['o'], bv64(0), c['q'].at, 'no files are left'); looked(ex, o.st, c, bv64(0))
# ---- pieces
def psize_setup(ok):
    def s(ex, st):
        prepare(ex); o = storage(ex, st); x = z3.BitVec('x0', 64); valid = z3.And(z3.UGE(x, 1 << 14), x & (x-1) == 0)
        if ok: st.assume(x == PS()); st.assume(z3.UGE(kps(), 14))
        return [P0(o), x], Files([]), dict(o=o, x=[x])
    return s
def psize_post(ex, o, c):
    if ret(ex, o): ex.oblige(o.st, 'the piece size is the one set', o.val == c['x'][0])
def pieces0_setup(ex, st):
    prepare(ex); o = storage(ex, st); eo, e = entry(ex, st); return [P0(o), P0(eo)], Files([]), dict(o=o)
def zero_post(ex, o, c):
    if ret(ex, o): ex.oblige(o.st, 'no pieces before a piece size is set', o.val == 0)
def first(q, i): return pdiv(q.S(i))
def last(q, i): return z3.If(fSize(q.at(i)) == 0, first(q, i), pdiv(q.S(i) + fSize(q.at(i)) + PS() - 1))
def count(q): return pdiv(q.S(q.n) + PS() - 1)
def seen(q, i): return [z3.ULT(i, q.n), z3.ULT(q.S(q.n), bv64(MAXB)), z3.ULE(q.S(i), q.S(q.n)), z3.ULE(fSize(q.at(i)), q.S(q.n) - q.S(i))], [i, q.S(i), q.S(q.n), q.n, q.S(i+1)]
def range_post(ex, o, c):
    if not ret(ex, o): return
    q, i = c['q'], c['x'][0]; hy, at = seen(q, i)
    settled(ex, o.st, 'first piece: the one with its first byte', [word(ex, o.st, c['out'], 0)], at, hy, lambda t: t == first(q, i))
    settled(ex, o.st, 'last piece: after the one with its last byte', [word(ex, o.st, c['out'], 1)], at, hy, lambda t: t == last(q, i)); unchanged(ex, o.st, c)
def span_post(ex, o, c):
    if not ret(ex, o): return
    q, i = c['q'], c['x'][0]; n, _, buf = hashes(ex, o.st, c['o']); sz = word(ex, o.st, c['out'], 0)
    hy, at = seen(q, i)
    settled(ex, o.st, 'as many hashes as the file has pieces', [sz], at, hy, lambda t: t == last(q, i) - first(q, i))
    ex.oblige(o.st, 'they are the hashes of its pieces', o.val.obj == buf); settled(ex, o.st, 'from the first piece', [o.val.off], at, hy, lambda t: t == first(q, i)*HST)
    o.st.facts.append(z3.ULE(last(q, i), count(q)))      # lemma: pieces of a file
    ex.oblige(o.st, 'all inside the piece hashes', z3.ULE(last(q, i), n)); unchanged(ex, o.st, c)
def pieces_lemma():
    q = Seq('l'); i, b, k = z3.BitVecs('i b k', 64); hy = [z3.ULT(i, q.n), z3.ULT(q.S(q.n), bv64(MAXB)), z3.ULE(q.S(i), q.S(q.n)), z3.ULE(fSize(q.at(i)), q.S(q.n) - q.S(i)), z3.ULE(kps(), 62), z3.UGE(kps(), 14)]
    # byte b of the torrent belongs to file i, and to piece b / piece size
    inside = [z3.UGE(b, q.S(i)), z3.ULT(b, q.S(i) + fSize(q.at(i)))]
    def each(nm, f, hy):
        # one obligation per piece size
        k = z3.BitVec('log2_piece_size', 6); return [(f'{nm} (piece size 2^{e})', z3.substitute(f, (k, BV(e, 6))), [z3.substitute(h, (k, BV(e, 6))) for h in hy]) for e in range(14, 63)]
    return Lemma('lemma: pieces of a file', lambda: [o for t in [('the pieces of a file are pieces of the torrent', z3.ULE(last(q, i), count(q)), hy), ('no more pieces than that', z3.ULE(count(q), bv64(1 << 49)), hy), ('the range is not backwards', z3.ULE(first(q, i), last(q, i)), hy),
        ('each byte of the file is in a piece of the range', z3.And(z3.ULE(first(q, i), pdiv(b)), z3.ULT(pdiv(b), last(q, i))), hy + inside),
        ('the first piece holds its first byte', first(q, i) == pdiv(q.S(i)), hy + [fSize(q.at(i)) != 0]), ('the last piece holds its last byte', last(q, i) - 1 == pdiv(q.S(i) + fSize(q.at(i)) - 1), hy + [fSize(q.at(i)) != 0])] for o in each(*t)],
        'the range computed is the set of pieces that hold bytes of the file')
def alloc_post(ex, o, c):
    if not ret(ex, o): return
    q = c['q']; n, a, _ = hashes(ex, o.st, c['o']); p = fresh('p')
    ex.oblige(o.st, 'one hash per piece', n == count(q)); ex.oblige(o.st, 'all zero', z3.Implies(z3.ULT(p, n), z3.Select(a, p) == 0))
    ex.oblige(o.st, 'reported', z3.And(word(ex, o.st, c['out'], 0) == n, word(ex, o.st, c['out'], 1) == n)); unchanged(ex, o.st, c)
def sethash_setup(ex, st):
    prepare(ex); o = storage(ex, st); q = Seq('s'); i = z3.BitVec('x0', 64); h = z3.BitVec('hash', 160); ho = ex.new_obj(st, 'h', 20, ro=True); ex.cell_write(st.mem[ho], 0, 20, h)
    st.assume(z3.ULT(i, count(q))); return [P0(o), i, P0(ho)], Files([q]), dict(o=o, q=q, x=[i], h=h)
def given(st):
    """vc_any's values for the piece hashes"""
    return st.ghost[('given', 's')]
def sethash_post(ex, o, c):
    if not ret(ex, o): return
    n0, a0 = given(o.st).v; n, a, _ = hashes(ex, o.st, c['o']); p = fresh('p')
    ex.oblige(o.st, 'that piece has the hash, the others keep theirs', z3.And(n == n0, z3.Implies(z3.ULT(p, n), z3.Select(a, p) == z3.If(p == c['x'][0], c['h'], z3.Select(a0, p))))); unchanged(ex, o.st, c)
def gethash_post(ex, o, c):
    if not ret(ex, o): return
    n, a, b = hashes(ex, o.st, c['o']); n0, a0 = given(o.st).v; p = fresh('p')
    ex.oblige(o.st, 'the hash of that piece', o.val.obj == b); ex.oblige(o.st, 'at its index', o.val.off == c['x'][0]*HST)
    ex.oblige(o.st, 'the hashes are unchanged', z3.And(n == n0, z3.Implies(z3.ULT(p, n), z3.Select(a, p) == z3.Select(a0, p)))); unchanged(ex, o.st, c)
def hashes_post(ex, o, c):
    if not ret(ex, o): return
    n, a, b = hashes(ex, o.st, c['o']); n0, a0 = given(o.st).v; p = fresh('p')
    ex.oblige(o.st, 'all hashes', word(ex, o.st, c['out'], 0) == n0); ex.oblige(o.st, 'from the first', z3.Or(n0 == 0, z3.And(o.val.obj == b, o.val.off == 0)))
    ex.oblige(o.st, 'the hashes are unchanged', z3.And(n == n0, z3.Implies(z3.ULT(p, n), z3.Select(a, p) == z3.Select(a0, p)))); unchanged(ex, o.st, c)
# ---- running sums
def scan_setup(f, use):
    def s(ex, st):
        prepare(ex); o = storage(ex, st); q = Seq('s', use=use); v = ex.new_obj(st, 'result', 24); O = f(q)
        return [P0(o), P0(v)], Files([q], outs=[('the running sums', O)]), dict(o=o, q=q, v=v, O=O)
    return s
def scan_post(ex, o, c):
    if not ret(ex, o): return
    v = W.get(ex, o.st, P0(c['v'])); p = fresh('p'); ex.oblige(o.st, 'one sum per file', v.len == c['q'].n)
    ex.oblige(o.st, 'each is the running sum', z3.Implies(z3.ULT(p, v.len), z3.Select(W.arr(ex, o.st, v), p) == c['O'](p))); unchanged(ex, o.st, c)
# ---- elements
def elem_post(at):
    def post(ex, o, c):
        if not ret(ex, o): return
        _, _, b = files(ex, o.st, c['o']); ex.oblige(o.st, 'a file of the storage', o.val.obj == b); ex.oblige(o.st, 'the one asked for', o.val.off == at(c)*STRIDE); unchanged(ex, o.st, c)
    return post
def at_post(ex, o, c):
    i = c['x'][0]; n = c['q'].n
    if o.kind == 'throw': ex.oblige(o.st, 'throws std::out_of_range for an index that is not below the number of files', z3.And(o.exc['type'] == 'St12out_of_range', z3.UGE(i, n)))
    else: ex.oblige(o.st, 'the index is below the number of files', z3.ULT(i, n)); elem_post(lambda c: i)(ex, o, c)
def mode_setup(ex, st):
    prepare(ex); o = storage(ex, st); m = z3.BitVec('mode', 32); st.assume(z3.ULE(m, 2)); return [P0(o), m], Files([Seq('s')]), dict(o=o, q=Seq('s'), m=m)
def mode_post(ex, o, c):
    if ret(ex, o): n = c['q'].n; ex.oblige(o.st, 'empty, the mode set, or multi', o.val == z3.If(n == 0, bv64(0), z3.If(n == 1, z3.ZeroExt(32, c['m']), bv64(2)))); unchanged(ex, o.st, c)
def proto_post(ex, o, c):
    if not ret(ex, o): return
    q = c['q']; v1 = hashes(ex, o.st, c['o'])[0] != 0; v2 = q.V2(q.n); V = lambda x: BV(x, 32)
    ex.oblige(o.st, 'v1 with piece hashes, v2 if every regular file has v2 data, both, or v1 for no data', o.val == z3.If(z3.And(v1, v2), V(3), z3.If(v1, V(1), z3.If(v2, V(2), z3.If(q.S(q.n) == 0, V(1), V(0)))))); unchanged(ex, o.st, c)
# ---- copies
def copy_setup(two):
    def s(ex, st):
        prepare(ex); o = storage(ex, st); q = Seq('s'); r = [out(ex, st, f'o{i}') for i in range(2)]; c = dict(o=o, q=q, a=r[0], b=r[1]); a = [P0(o)]
        if two: c['t'] = storage(ex, st, 't'); a.append(P0(c['t']))
        return a + [P0(x) for x in r], Files([q]), c
    return s
def copy_post(ex, o, c):
    if not ret(ex, o): return
    st = o.st; t = c.get('t', c['o']); q = c['q']; n0, a0 = given(st).v; p = fresh('p'); wa = lambda i: word(ex, st, c['a'], i); wb = lambda i: word(ex, st, c['b'], i)
    unchanged(ex, st, c, 'the files of the original are unchanged'); listed(ex, st, t, q.n, q.at, 'the copy has the same files')
    n, a, b = hashes(ex, st, t); ex.oblige(st, 'the copy has the same piece hashes', z3.And(n == n0, z3.Implies(z3.ULT(p, n), z3.Select(a, p) == z3.Select(a0, p))))
    for i, nm in enumerate(('total', 'piece size', 'file mode')): ex.oblige(st, f'the copy has the same {nm}', wa(i) == wb(i))
    if 't' in c:
        ex.oblige(st, 'the copy has the same root directory', wb(4) == 1); ex.oblige(st, 'the copy has files of its own', files(ex, st, t)[2] != files(ex, st, c['o'])[2])
        ex.oblige(st, 'the copy does not claim an index it has not', wb(3) == 0)
def removal_lemma():
    """files without the K-th: the sum of the sizes is less by exactly its size"""
    q = Seq('l'); K, k = z3.BitVecs('K k', 64); T = z3.Function('sum_without', B64, B64); b = lambda j: z3.If(z3.ULT(j, K), q.at(j), q.at(j+1))
    P = lambda j: T(j) == z3.If(z3.ULE(j, K), q.S(j), q.S(j+1) - fSize(q.at(K))); hy = [z3.ULT(K, q.n), z3.ULE(q.n, bv64(MAXF))]
    S = lambda j: q.S(j+1) == q.S(j) + fSize(q.at(j))
    return Lemma('lemma: removing one file', lambda: [('no files', P(bv64(0)), hy + [T(bv64(0)) == 0, q.S(bv64(0)) == 0]),
        ('one more file', P(k+1), hy + [z3.ULT(k, q.n - 1), P(k), T(k+1) == T(k) + fSize(b(k)), S(k), S(k+1)]),
        ('all files', T(q.n-1) == q.S(q.n) - fSize(q.at(K)), hy + [P(q.n-1), S(q.n-1)])], 'sum of the sizes without file K = sum - size of K')
def contracts(tier):
    r = []
    def C(n, e, s, p, txt, **k): r.append(Contract(n, 'vc_' + e, s, p, txt, **{**KW, **k}))
    inr = lambda q, i: [z3.ULT(i, q.n)]
    C('default construction', 'def', def_setup, def_post, 'ensures no files, total 0, no piece size, no index, no pieces')
    C('add_file(const&)', 'add', add_setup(), add_post, 'ensures the entry is appended and its size added to the total')
    C('add_file(&&)', 'addm', add_setup(), add_post, 'ensures the entry is appended and its size added to the total')
    C('add_file of an entry of the storage', 'add_own', add_setup(True), add_post, 'requires i < files; ensures the entry is appended again')
    C('add_file(path)', 'addp', addp_setup, addp_post, 'ensures the entry made from the path is appended, or the storage is as before if that fails')
    C('add_files', 'adds', adds_setup, adds_post, 'ensures the entries are appended in order and their sizes added')
    C('remove_file', 'remove', rem_setup(), rem_post, 'ensures the first file with that path is gone and its size subtracted; nothing changes without one', timeout=300)
    C('remove_file of an entry of the storage', 'remove_own', rem_setup(True), rem_post, 'requires i < files', timeout=300)
    r.append(removal_lemma()); r.append(flag_lemma())
    C('clear', 'clear', obs(o=True), clear_post, 'ensures no files and total 0')
    C('total_regular_file_size', 'regular', obs(use='R'), val_post('sum of the sizes of the regular files', lambda v, q: v == q.R(q.n)), 'ensures the sum of the regular sizes')
    C('regular_file_count', 'regcount', obs(use='C'), val_post('number of regular files', lambda v, q: v == q.C(q.n)), 'ensures the number of regular files')
    for nm, e in (('file_count', 'count'), ('size', 'size_')): C(nm, e, obs(), val_post('number of files', lambda v, q: v == q.n), 'ensures the number of files')
    C('set_piece_size', 'psize', psize_setup(True), psize_post, 'requires a power of two of at least 16 KiB; ensures piece_size() is it')
    C('piece_count without piece size', 'pieces0', pieces0_setup, zero_post, 'ensures 0')
    C('piece_count', 'pieces', obs(), val_post('rounded-up quotient', lambda v, q: v == count(q)), 'ensures ceil(total / piece size)')
    C('get_pieces_offsets', 'range', obs(1, inr, o=True), range_post, 'requires i < files; ensures the range of pieces that hold bytes of the file')
    C('get_pieces_span', 'span', obs(1, inr, o=True), span_post, 'requires i < files; ensures the hashes of exactly those pieces')
    r.append(pieces_lemma())
    C('allocate_pieces', 'alloc', obs(o=True), alloc_post, 'ensures piece_count() zero hashes')
    C('set_piece_hash', 'sethash', sethash_setup, sethash_post, 'requires i < pieces; ensures that hash is set and no other')
    C('get_piece_hash', 'gethash', obs(1, lambda q, i: [z3.ULT(i, count(q))]), gethash_post, 'requires i < pieces; ensures the hash at i')
    C('pieces', 'hashes', obs(o=True), hashes_post, 'ensures all hashes')
    C('exclusive_file_size_scan', 'excl', scan_setup(lambda q: lambda j: q.S(j), 'S'), scan_post, 'ensures out[j] = sum of the sizes before j')
    C('inclusive_file_size_scan_v1', 'incl1', scan_setup(lambda q: lambda j: q.S(j+1), 'S'), scan_post, 'ensures out[j] = sum of the sizes up to j')
    C('inclusive_file_size_scan_v2', 'incl2', scan_setup(lambda q: lambda j: q.R(j+1), 'R'), scan_post, 'ensures out[j] = sum of the regular sizes up to j')
    for e in ('ix', 'cix'): C('operator[]' + (' const' if e == 'cix' else ''), e, obs(1, inr), elem_post(lambda c: c['x'][0]), 'requires i < files; ensures file i')
    for e in ('at', 'mat'): C('at' + (' const' if e == 'at' else ''), e, obs(1), at_post, 'ensures file i, or std::out_of_range')
    for e in ('front', 'cfront', 'begin'): C({'front': 'front', 'cfront': 'front const', 'begin': 'begin'}[e], e, obs(0, lambda q: [q.n != 0]), elem_post(lambda c: bv64(0)), 'requires a file; ensures the first')
    for e in ('back', 'cback'): C('back' + (' const' if e == 'cback' else ''), e, obs(0, lambda q: [q.n != 0]), elem_post(lambda c: c['q'].n - 1), 'requires a file; ensures the last')
    C('file_mode', 'mode', mode_setup, mode_post, 'ensures empty without files, multi with several, else the mode set')
    C('protocol', 'proto', obs(use='S V2'), proto_post, 'ensures the versions whose hashes are present')
    C('copy construction', 'copy', copy_setup(True), copy_post, 'ensures files, hashes, total, piece size, mode and root of the original')
    C('copy assignment', 'assign', copy_setup(True), copy_post, 'ensures files, hashes, total, piece size, mode and root of the original')
    C('assignment to itself', 'self', copy_setup(False), copy_post, 'ensures nothing changes')
    return r + c17e.contracts(tier)
