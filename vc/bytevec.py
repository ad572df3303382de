"""Assumed contracts of std::vector<std::byte> (an abstract byte sequence, like std::string).  Opt-in: WITH_BYTEVEC, is_member."""
import re, z3
from .sym import *
from . import models as M
from .models import MODELS, MAXLEN, new_str, get_str, set_str, str_arr, src_arr, sub_arr, cat_arr, do_append
from .ir import Unsupported, INT
INT8 = INT(8)
V = r'std::vector<(std::byte|unsigned char|char), std::allocator<(std::byte|unsigned char|char)>>'
LBL = 'std::vector<std::byte> behaves as an abstract byte sequence (no allocation failure)'
TAB = []
def vm(rx, fn=None):
    def reg(f):
        TAB.append((re.compile('^([^(]* )?' + V + '::(' + rx + ')'), f, LBL)); return f
    return reg(fn) if fn else reg
def byte(ex, st, p): return ex.load(st, p, INT8)
vm(r'vector\(\)|' + V + r'::vector\(std::allocator<[^<>]*> const&\)', M._s_def)
@vm(r'vector\(unsigned long, std::allocator<[^<>]*> const&\)')
def _n(ex, st, a, ins, d): st.assume(z3.ULE(a[1], bv64(MAXLEN))); new_str(ex, st, a[0], a[1], z3.K(z3.BitVecSort(64), BV(0, 8))); return [(st, None)]
@vm(r'vector\(unsigned long, [^,]* const&, std::allocator<[^<>]*> const&\)')
def _nv(ex, st, a, ins, d): st.assume(z3.ULE(a[1], bv64(MAXLEN))); new_str(ex, st, a[0], a[1], z3.K(z3.BitVecSort(64), byte(ex, st, a[2]))); return [(st, None)]
vm(r'vector<.*, void>\(.*, .*, std::allocator<[^<>]*> const&\)', M._s_range)
vm(r'vector\(' + V + r' const&\)', M._s_copy)
vm(r'vector\(' + V + r'&&\)', M._s_move)
vm(r'~vector\(\)', M._s_dtor)
vm(r'operator=\(' + V + r' const&\)', M._s_asg)
vm(r'operator=\(' + V + r'&&\)', M._s_masg)
@vm(r'push_back\(')
def _push(ex, st, a, ins, d): return M._s_push(ex, st, [a[0], byte(ex, st, a[1])], ins, d)
@vm(r'emplace_back<')
def _empl(ex, st, a, ins, d):
    if len(a) != 2 or not isinstance(a[1], Ptr): raise Unsupported('emplace_back')
    M._s_push(ex, st, [a[0], byte(ex, st, a[1])], ins, d); s = get_str(ex, st, a[0]); return [(st, Ptr(s.buf, simp(s.len-1)))]
@vm(r'(void )?insert<.*>\(')
def _insr(ex, st, a, ins, d):
    s = get_str(ex, st, a[0])
    if len(a) != 4 or a[1].obj != s.buf or not z3.is_true(simp(a[1].off == s.len)) or a[2].obj != a[3].obj: raise Unsupported('vector insert')
    at = s.len; do_append(ex, st, a[0], a[2], simp(a[3].off - a[2].off)); return [(st, Ptr(s.buf, at))]
vm(r'size\(\) const', M._s_size); vm(r'capacity\(\) const', M._s_cap); vm(r'max_size\(\) const', M._s_max); vm(r'empty\(\) const', M._s_empty)
vm(r'(data|c?begin)\(\)', M._s_data); vm(r'c?end\(\)', M._s_end); vm(r'operator\[\]\(unsigned long\)', M._s_idx); vm(r'at\(unsigned long\)', M._s_at)
vm(r'back\(\)', M._s_back); vm(r'front\(\)', M._s_front); vm(r'(reserve\(|shrink_to_fit\()', M._s_res); vm(r'clear\(\)', M._s_clear); vm(r'pop_back\(\)', M._s_pop)
@vm(r'resize\(unsigned long\)')
def _rsz(ex, st, a, ins, d): return M._s_resize(ex, st, a, ins, d)
@vm(r'resize\(unsigned long, ')
def _rsz2(ex, st, a, ins, d): return M._s_resize(ex, st, [a[0], a[1], byte(ex, st, a[2])], ins, d)
@vm(r'')
def _other(ex, st, a, ins, d): raise Unsupported('no contract for ' + d[:160])
WITH_BYTEVEC = TAB + MODELS
MEMBER = re.compile(r'^([^(]* )?' + V + r'::')
def is_member(d): return bool(MEMBER.match(d))
