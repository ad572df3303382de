from .evpspec import *
ID = 'C08'
TITLE = 'A failing crypto library is reported, never turned into a wrong digest or a leak'
HARNESS = 'hasher.cpp'
BOUNDARY = models.std_boundary
WR = ['EVP_MD_CTX_new', 'EVP_MD_CTX_free', 'EVP_DigestInit_ex', 'EVP_DigestInit', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex', 'EVP_DigestFinal']
NATIVE = dict(src='hasherfault.cpp', libs=['-lcrypto'] + ['-Wl,--wrap=' + w for w in WR])
FUNCTIONS = ['openssl::message_digest (constructor, destructor, update, finalize_to, reset)', 'openssl_hasher (constructor, destructor, update, finalize_to)', 'make_hasher', 'make_hash<F>']
ASSUMPTIONS = ['chunk and buffer lengths below 2^56 bytes', 'operator new does not fail']
def surfaced(ex, o):
    ex.oblige(o.st, 'a failure of the crypto library ends in an exception', not (o.kind == 'ret' and evp.faults(o.st) > 0))
    if o.kind == 'throw':
        t = o.exc['type']
        ex.oblige(o.st, 'the exception is a standard error', any(ex.exc_isa(t, b) for b in ('St12system_error', 'St16invalid_argument', 'St9bad_alloc', 'St12length_error')))
def heap_gone(ex, o):
    ex.oblige(o.st, 'every context is released', not live(ex, o.st))
    ex.oblige(o.st, 'no storage is leaked', not [1 for i, x in o.st.mem.items() if x.alive and x.name == 'heap'])
def new_post(ex, o, c):
    surfaced(ex, o)
    if o.kind == 'throw': heap_gone(ex, o)
    else:
        ex.oblige(o.st, 'unknown identifiers are refused', named(c)); one_ctx(ex, o)
def run_post(ex, o, c):
    m = mark(o)
    if m is None: return
    surfaced(ex, o)
    ex.oblige(o.st, 'no context is created or released', {k[1] for k, _ in live(ex, o.st)} == m['alive'])
def fin_post(ex, o, c):
    m = mark(o)
    if m is None: return
    run_post(ex, o, c)
    old = list(m['ctx'].values())[0]; k = SIZES[old.md]
    ex.oblige(o.st, 'an output buffer shorter than the digest is refused', z3.Or(z3.BoolVal(o.kind == 'throw'), z3.UGE(c['m'], k)))
    j = fresh('j'); f = out_bytes(ex, o.st, c['o'])
    ex.oblige(o.st, 'a refused buffer is left as it was', z3.Implies(z3.And(z3.ULT(c['m'], k), z3.ULT(j, c['m'])), f(j) == z3.Select(c['OUT0'], j)))
def destroy_post(ex, o, c):
    if mark(o) is None: return
    ex.oblige(o.st, 'destruction does not throw', o.kind == 'ret'); heap_gone(ex, o)
def make_post(ex, o, c):
    surfaced(ex, o); heap_gone(ex, o)
def mk_setup(name):
    def s(ex, st):
        n = z3.BitVec('n', 64); st.assume(z3.ULE(n, bv64(MAXN))); i, IN = bytes_obj(ex, st, 'IN', n)
        o = ex.new_obj(st, 'out', SIZES[MDOF[name]])
        return [P0(i), n, P0(o)], None, dict(n=n, IN=IN, o=o, md=MDOF[name], name=name)
    return s
def contracts(tier):
    U = dict(strategy=('unroll',)); r = []
    for kind, p, nm in (('hf', 'vc_', 'openssl_hasher'), ('md', 'vc_md_', 'message_digest')):
        r += [Contract(f'{nm} constructor', p + 'new', setup(kind), new_post, 'ensures failure => throws and nothing is left allocated', cex=case('new'), **U),
              Contract(f'{nm} update', p + 'update', setup(kind, data=True), run_post, 'ensures failure => throws', cex=case('upd'), **U),
              Contract(f'{nm} finalize_to', p + 'finalize', setup(kind, out=True), fin_post, 'ensures failure => throws; short buffer => throws, buffer unchanged', cex=case('fin'), **U),
              Contract(f'{nm} destructor', p + 'destroy', setup(kind), destroy_post, 'ensures the context is released exactly once', cex=case('new'), **U)]
    r += [Contract('message_digest reset', 'vc_md_reset', setup('md'), run_post, 'ensures failure => throws', cex=case('fin'), **U),
          Contract('make_hasher history', 'vc_make', setup('hf', data=True, out=True, hint='make'), make_post, 'ensures failure => throws; nothing leaked on any path', cex=case('upd'), **U)]
    r += [Contract(f'make_hash<{n}>', f'vc_hash_{n}', mk_setup(n), make_post, 'ensures failure => throws; nothing leaked on any path', cex=None, **U) for n in HF]
    return r
