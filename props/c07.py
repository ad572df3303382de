from .evpspec import *
ID = 'C07'
TITLE = 'A hasher returns the digest of exactly the bytes given since the last digest'
HARNESS = 'hasher.cpp'
BOUNDARY = models.std_boundary
NATIVE = dict(src='hasher.cpp', libs=['-lcrypto'])
FUNCTIONS = ['openssl_hasher::openssl_hasher, update (both), finalize_to', 'get_openssl_algorithm', 'openssl::message_digest (constructor, update, finalize_to, reset)', 'get_evp_message_digest',
             'single_buffer_hasher::update(string_view)', 'make_hasher', 'make_hash<F> for all 17 algorithms']
ASSUMPTIONS = ['the digest functions of the crypto library compute the algorithm they are named after', 'chunk lengths below 2^56 bytes, history below 2^60 bytes']
def new_post(ex, o, c):
    if o.kind == 'throw':
        if evp.faults(o.st) == 0: ex.oblige(o.st, 'only identifiers that are not advertised are refused', z3.Not(must(c)))
        return
    ex.oblige(o.st, 'identifiers that are not advertised are refused', named(c))
    x = one_ctx(ex, o)
    if x:
        ex.oblige(o.st, 'a new hasher is started on the empty message', x.state == 'live' and z3.is_true(simp(x.len == 0)))
        ex.oblige(o.st, 'the algorithm is the one asked for', is_md(c, x.md))
def normal(ex, o, m):
    if o.kind == 'throw' and evp.faults(o.st) == m['faults']: ex.oblige(o.st, 'returns normally unless the crypto library fails', False)
    return o.kind == 'ret'
def stream_is(ex, o, x, old, c):
    j = fresh('j')
    ex.oblige(o.st, 'the message grew by exactly the data', z3.And(x.len == old.len + c['n'],
        z3.Implies(z3.ULT(j, old.len), z3.Select(x.arr, j) == z3.Select(old.arr, j)), z3.Implies(z3.And(z3.UGE(j, old.len), z3.ULT(j, x.len)), z3.Select(x.arr, j) == z3.Select(c['IN'], j - old.len))))
def upd_post(ex, o, c):
    m = mark(o)
    if m is None: return
    if not normal(ex, o, m): return
    frame(ex, o, m); x = one_ctx(ex, o)
    if not x: return
    old = list(m['ctx'].values())[0]
    ex.oblige(o.st, 'the hasher is still started, same algorithm', x.state == 'live' and x.md == old.md)
    if x.state == 'live': stream_is(ex, o, x, old, c)
def fin_post(restart):
    def post(ex, o, c):
        m = mark(o)
        if m is None: return
        old = list(m['ctx'].values())[0]; k = SIZES[old.md]
        if o.kind == 'throw':
            if evp.faults(o.st) == m['faults']: ex.oblige(o.st, 'only a short output buffer is refused', z3.ULT(c['m'], k))
            return
        ex.oblige(o.st, 'a short output buffer is refused', z3.UGE(c['m'], k))
        frame(ex, o, m); x = one_ctx(ex, o)
        f = out_bytes(ex, o.st, c['o'])
        ex.oblige(o.st, 'the output is the digest of the message', z3.And(*[f(bv64(i)) == DIG[old.md](old.arr, old.len, bv64(i)) for i in range(k)]))
        if x and restart: ex.oblige(o.st, 'the hasher is as new', x.state == 'live' and x.md == old.md and z3.is_true(simp(x.len == 0)))
    return post
def reset_post(ex, o, c):
    m = mark(o)
    if m is None or not normal(ex, o, m): return
    frame(ex, o, m); x = one_ctx(ex, o); old = list(m['ctx'].values())[0]
    if x: ex.oblige(o.st, 'the digest is as new', x.state == 'live' and x.md == old.md and z3.is_true(simp(x.len == 0)))
def make_post(ex, o, c):
    m = mark(o)
    if m is None:
        if o.kind == 'throw' and evp.faults(o.st) == 0: ex.oblige(o.st, 'only identifiers that are not advertised are refused', z3.Not(must(c)))
        return
    old = list(m['ctx'].values())[0]; k = SIZES[old.md]
    ex.oblige(o.st, 'the algorithm is the one asked for', is_md(c, old.md))
    if o.kind == 'throw':
        if evp.faults(o.st) == m['faults']: ex.oblige(o.st, 'only a short output buffer is refused', z3.ULT(c['m'], k))
        return
    f = out_bytes(ex, o.st, c['o']); g = simp(f(bv64(0)))
    # the digest term names the stream it was computed from
    t = [x for x in subterms(g) if x.decl().name() == 'digest_' + old.md]
    ex.oblige(o.st, 'the output is a digest by that algorithm', bool(t))
    if not t: return
    arr, ln = t[0].arg(0), t[0].arg(1)
    ex.oblige(o.st, 'the output is the digest of one message', z3.And(*[f(bv64(i)) == DIG[old.md](arr, ln, bv64(i)) for i in range(k)]))
    class X: pass
    x = X(); x.len, x.arr = ln, arr
    stream_is(ex, o, x, old, c)
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen: return
    seen.add(t.get_id()); yield t
    for a in t.children(): yield from subterms(a, seen)
def mk_setup(name):
    def s(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN))); i, IN = bytes_obj(ex, st, 'IN', n)
        o = ex.new_obj(st, 'out', SIZES[MDOF[name]])
        return [P0(i), n, P0(o)], None, dict(n=n, IN=IN, o=o, md=MDOF[name], name=name)
    return s
def mk_post(ex, o, c):
    if o.kind == 'throw':
        ex.oblige(o.st, 'returns normally unless the crypto library fails', evp.faults(o.st) > 0); return
    f = out_bytes(ex, o.st, c['o']); md = c['md']; k = SIZES[md]
    t = [x for x in subterms(simp(f(bv64(0)))) if x.decl().name() == 'digest_' + md]
    ex.oblige(o.st, 'the result is a digest by that algorithm', bool(t))
    if not t: return
    arr, ln = t[0].arg(0), t[0].arg(1); j = fresh('j')
    ex.oblige(o.st, 'the result is the digest of the data', z3.And(*[f(bv64(i)) == DIG[md](arr, ln, bv64(i)) for i in range(k)], ln == c['n'], z3.Implies(z3.ULT(j, ln), z3.Select(arr, j) == z3.Select(c['IN'], j))))
def contracts(tier):
    U = dict(strategy=('unroll',))
    return [
        Contract('openssl_hasher constructor', 'vc_new', setup('hf'), new_post, 'ensures started on the empty message with the algorithm of f; throws iff f is not advertised or the library fails', cex=case('new'), **U),
        Contract('message_digest constructor', 'vc_md_new', setup('md'), new_post, 'ensures started on the empty message with that algorithm', cex=case('new'), **U),
        Contract('openssl_hasher::update(span)', 'vc_update', setup('hf', data=True), upd_post, 'ensures message = old message ++ data; frame', cex=case('upd'), **U),
        Contract('openssl_hasher::update(string_view)', 'vc_update_sv', setup('hf', data=True), upd_post, 'ensures message = old message ++ data; frame', cex=case('upd'), **U),
        Contract('openssl_hasher::finalize_to', 'vc_finalize', setup('hf', out=True), fin_post(True), 'ensures out = digest(message), message = empty', cex=case('fin'), **U),
        Contract('message_digest::update', 'vc_md_update', setup('md', data=True), upd_post, 'ensures message = old message ++ data; frame', cex=case('upd'), **U),
        Contract('message_digest::finalize_to', 'vc_md_finalize', setup('md', out=True), fin_post(False), 'ensures out = digest(message)', cex=case('fin'), **U),
        Contract('message_digest::reset', 'vc_md_reset', setup('md'), reset_post, 'ensures message = empty', cex=case('fin'), **U),
        Contract('make_hasher, update, finalize_to', 'vc_make', setup('hf', data=True, out=True, hint='make'), make_post, 'ensures out = digest(history ++ data) through the polymorphic interface', cex=case('upd'), **U),
    ] + [Contract(f'make_hash<{n}>', f'vc_hash_{n}', mk_setup(n), mk_post, 'ensures result = digest(data)', cex=lambda ex, m, c: [['hash', 'hf', c['name'], str(min(m.eval(c['n'], model_completion=True).as_long(), 4096)), '64']], **U) for n in HF]
