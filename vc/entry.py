"""File entries and paths as abstract values: dottorrent::file_entry is used through the contracts of its functions (an entry has a size, a
padding flag, a path ...), std::filesystem::path through assumed contracts (an abstract name).  Opt-in: MODELS_, EntEl."""
import re, z3
from .sym import *
from .sym import PathEnd
from .ir import Unsupported
from . import wordvec as W
B64 = z3.BitVecSort(64)
fSize = z3.Function('size_of', B64, B64); fPad = z3.Function('is_padding', B64, z3.BoolSort()); fSym = z3.Function('is_symlink', B64, z3.BoolSort()); fV2 = z3.Function('has_v2', B64, z3.BoolSort())
fPath = z3.Function('path_of', B64, B64); fMoved = z3.Function('moved_from', B64, B64); PadE = z3.Function('padding_entry', B64, B64)
EMPTY = bv64(0)      # the empty path
STRIDE = 512
ENT = 'dottorrent::file_entry'
class Val:
    """an abstract value living at an address"""
    def __init__(self, id): self.id = id
    def same(self, o): return self.id.eq(o.id)
    def havoc(self, ex, st, g): return Val(fresh('entry'))
    def quantities(self, g): return {}
def gkey(kind, p):
    o = simp(p.off)
    if p.obj in (None, 0) or not isconst(o): raise Unsupported(f'{kind} at unknown address')
    return (kind, p.obj, cval(o))
def rd(ex, st, p, kind='ent'):
    if p.obj not in (None, 0):
        o = ex.obj(st, p.obj)
        if not o.alive: ex.oblige(st, f'access: object {o.name} is alive', False, 'mem'); raise PathEnd()
        if o.mode == 'words':
            if kind != 'ent' or not o.opaque: raise Unsupported(f'{kind} inside {o.name}')
            ex.oblige(st, 'file entry accessed is inside the sequence', z3.ULT(p.off, o.size), 'mem'); i, r = ex.word_index(st, o, p.off)
            if r: raise Unsupported(f'address inside an entry: {r} {p.off}')
            return z3.Select(o.arr, i)
    else: ex.oblige(st, f'{kind}: pointer refers to a live object', False, 'mem'); raise PathEnd()
    v = st.ghost.get(gkey(kind, p))
    if v is None: ex.oblige(st, f'{kind} accessed is alive and initialised', False, 'mem'); raise PathEnd()
    return v.id
def wr(ex, st, p, id, kind='ent'):
    o = ex.obj(st, p.obj)
    if not o.alive or o.ro: ex.oblige(st, f'write: object {o.name} is alive and writable', False, 'mem'); raise PathEnd()
    if o.mode == 'words':
        if kind != 'ent' or not o.opaque: raise Unsupported(f'{kind} inside {o.name}')
        ex.oblige(st, 'file entry written is inside the sequence', z3.ULT(p.off, o.size), 'mem'); i, r = ex.word_index(st, o, p.off)
        if r: raise Unsupported(f'address inside an entry: {r} {p.off}')
        o = ex.wobj(st, p.obj); o.arr = z3.Store(o.arr, i, id); return
    st.ghost[gkey(kind, p)] = Val(id); st.written.add(p.obj)
def end(ex, st, p, kind):
    rd(ex, st, p, kind); o = ex.obj(st, p.obj)
    if o.mode != 'words': del st.ghost[gkey(kind, p)]
def moved(st, id):
    m = fMoved(id); st.assume(fSize(m) == fSize(id)); st.assume(fPad(m) == fPad(id)); return m
def take(ex, st, p):
    id = rd(ex, st, p); wr(ex, st, p, moved(st, id)); return id
class EntEl:
    opaque = True; width = 64; ws = STRIDE
    def rd(self, ex, st, p): return rd(ex, st, p)
    def mv(self, ex, st, p): return take(ex, st, p)
T = []
LE = 'file_entry: its functions behave as their contracts say (size, padding flag and path of an entry are values it keeps; a moved-from entry keeps size and flag)'
LP = 'std::filesystem::path: an abstract name; copying keeps it, == compares it, operations on the file system give some path or fail'
def model(rx, lbl=LE):
    def reg(f): T.append((re.compile(rx), f, lbl)); return f
    return reg
def flag(b): return simp(z3.If(b, BV(1, 1), BV(0, 1)))
E_ = r'^dottorrent::file_entry::'
@model(E_ + r'file_size\(\) const$')
def _size(ex, st, a, ins, d): return [(st, fSize(rd(ex, st, a[0])))]
_size.pure = True
@model(E_ + r'is_padding_file\(\) const$')
def _pad(ex, st, a, ins, d): return [(st, flag(fPad(rd(ex, st, a[0]))))]
_pad.pure = True
@model(E_ + r'is_symlink\(\) const$')
def _sym(ex, st, a, ins, d): return [(st, flag(fSym(rd(ex, st, a[0]))))]
_sym.pure = True
@model(E_ + r'has_v2_data\(\) const$')
def _v2(ex, st, a, ins, d): return [(st, flag(fV2(rd(ex, st, a[0]))))]
_v2.pure = True
@model(E_ + r'operator==\(')
def _eq(ex, st, a, ins, d): return [(st, flag(fPath(rd(ex, st, a[0])) == fPath(rd(ex, st, a[1]))))]
_eq.pure = True
@model(E_ + r'path(\[abi:cxx11\])?\(\) const$')
def _path(ex, st, a, ins, d):
    o = ex.new_obj(st, 'path', 40, ro=True); st.ghost[('path', o, 0)] = Val(fPath(rd(ex, st, a[0]))); return [(st, Ptr(o, bv64(0)))]
@model(E_ + r'file_entry\(dottorrent::file_entry const&\)')
def _cp(ex, st, a, ins, d): wr(ex, st, a[0], rd(ex, st, a[1])); return [(st, None)]
@model(E_ + r'file_entry\(dottorrent::file_entry&&\)')
def _mv(ex, st, a, ins, d): wr(ex, st, a[0], take(ex, st, a[1])); return [(st, None)]
@model(E_ + r'operator=\(dottorrent::file_entry const&\)')
def _asg(ex, st, a, ins, d): rd(ex, st, a[0]); wr(ex, st, a[0], rd(ex, st, a[1])); return [(st, a[0])]
@model(E_ + r'operator=\(dottorrent::file_entry&&\)')
def _masg(ex, st, a, ins, d):
    rd(ex, st, a[0])
    if not (a[0].obj == a[1].obj and a[0].off.eq(a[1].off)): wr(ex, st, a[0], take(ex, st, a[1]))
    return [(st, a[0])]
@model(E_ + r'~file_entry\(\)')
def _dt(ex, st, a, ins, d): end(ex, st, a[0], 'ent'); return [(st, None)]
@model(r'^dottorrent::make_padding_file_entry\(unsigned long\)$')
def _mkpad(ex, st, a, ins, d):
    e = PadE(a[1]); st.assume(fSize(e) == a[1]); st.assume(fPad(e)); wr(ex, st, a[0], e); return [(st, None)]
@model(r'^dottorrent::make_file_entry\(')
def _mk(ex, st, a, ins, d):
    rd(ex, st, a[1], 'path'); rd(ex, st, a[2], 'path'); r = []
    for t in ('St16invalid_argument', 'NSt10filesystem7__cxx1116filesystem_errorE'): s2 = st.fork(); r.append((s2, None, {'type': t}))
    e = z3.BitVec('made_entry', 64); wr(ex, st, a[0], e); return r + [(st, None)]
def other(ex, st, a, ins, d): raise Unsupported('no contract for ' + d[:160])
P_ = r'^([^(]* )?std::filesystem::(__cxx11::)?'
PA = r'std::filesystem::__cxx11::path'
@model(P_ + r'path::path\(\)$', LP)
def _p0(ex, st, a, ins, d): wr(ex, st, a[0], EMPTY, 'path'); return [(st, None)]
@model(P_ + r'path::path\(' + PA + r' const&\)$', LP)
def _pc(ex, st, a, ins, d): wr(ex, st, a[0], rd(ex, st, a[1], 'path'), 'path'); return [(st, None)]
@model(P_ + r'path::path\(' + PA + r'&&\)$', LP)
def _pm(ex, st, a, ins, d): wr(ex, st, a[0], rd(ex, st, a[1], 'path'), 'path'); wr(ex, st, a[1], fresh('moved_path'), 'path'); return [(st, None)]
@model(P_ + r'path::operator=\(' + PA + r' const&\)$', LP)
def _pa(ex, st, a, ins, d): rd(ex, st, a[0], 'path'); wr(ex, st, a[0], rd(ex, st, a[1], 'path'), 'path'); return [(st, a[0])]
@model(P_ + r'path::operator=\(' + PA + r'&&\)$', LP)
def _pma(ex, st, a, ins, d): rd(ex, st, a[0], 'path'); wr(ex, st, a[0], rd(ex, st, a[1], 'path'), 'path'); wr(ex, st, a[1], fresh('moved_path'), 'path'); return [(st, a[0])]
@model(P_ + r'path::~path\(\)$', LP)
def _pd(ex, st, a, ins, d): end(ex, st, a[0], 'path'); return [(st, None)]
@model(P_ + r'path::empty\(\) const$', LP)
def _pe(ex, st, a, ins, d): return [(st, flag(rd(ex, st, a[0], 'path') == EMPTY))]
@model(P_ + r'operator==\(' + PA + ' const&, ' + PA + r' const&\)', LP)
def _peq(ex, st, a, ins, d): return [(st, flag(rd(ex, st, a[0], 'path') == rd(ex, st, a[1], 'path')))]
@model(P_ + r'path::path\(std::__cxx11::basic_string<.*>&&, std::filesystem::__cxx11::path::format\)$', LP)
def _ps(ex, st, a, ins, d): wr(ex, st, a[0], fresh('path_of_text'), 'path'); return [(st, None)]
T += [(re.compile(E_), other, None), (re.compile(P_), other, None)]
def fname(d):
    """qualified name of the function a demangled symbol denotes, without return type and parameters"""
    d = re.sub(r'operator(<=>|<<=?|>>=?|->\*?|<=|>=|<(?=[(< ])|>(?=[(< ]))', 'operatorX', d); dep = 0
    for i, c in enumerate(d):
        if c == '<': dep += 1
        elif c == '>' and d[i-1] != '-': dep -= 1
        elif c == '(' and dep == 0 and not d[i:].startswith('(anonymous namespace)') and not d[:i].endswith('operator'): d = d[:i]; break
    dep = 0; cut = 0
    for i, c in enumerate(d):
        if c == '<': dep += 1
        elif c == '>' and d[i-1] != '-': dep -= 1
        elif c == ' ' and dep == 0 and not d[:i].endswith('operator'): cut = i+1
    return d[cut:]
