"""Specification functions shared by the properties (mathematical definitions, written from the property text)."""
import z3
from vc.sym import *
from vc.sym import PathEnd
from vc import models, spec, loops, evp
from vc.spec import Machine, run_contract
from vc.frame import Contract
from vc.models import get_str, str_arr, new_str
from vc.ir import INT, PTR, Unsupported
from vc.loops import CandErr

def isdigit(c): return z3.And(z3.UGE(c, 0x30), z3.ULE(c, 0x39))
def isupper(c): return z3.And(z3.UGE(c, 0x41), z3.ULE(c, 0x5a))
def islower(c): return z3.And(z3.UGE(c, 0x61), z3.ULE(c, 0x7a))
def isalpha(c): return z3.Or(isupper(c), islower(c))
def isalnum(c): return z3.Or(isdigit(c), isalpha(c))
def ishex(c): return z3.Or(isdigit(c), z3.And(z3.UGE(c, 0x41), z3.ULE(c, 0x46)), z3.And(z3.UGE(c, 0x61), z3.ULE(c, 0x66)))
def isunreserved(c): return z3.Or(isalnum(c), c == 0x2d, c == 0x2e, c == 0x5f, c == 0x7e)
def hexval(c):
    return z3.If(isdigit(c), c - 0x30, z3.If(z3.And(z3.UGE(c, 0x61), z3.ULE(c, 0x66)), c - 0x61 + 10, c - 0x41 + 10))
def hexdig(x, upper=False):
    """x: BV8 < 16"""
    return z3.If(z3.ULT(x, 10), x + 0x30, x - 10 + (0x41 if upper else 0x61))
def unhex(a, b): return (hexval(a) << 4) | hexval(b)

def bytes_obj(ex, st, name, n, ro=True, arr=None):
    a = arr if arr is not None else z3.Const(name, A8)
    i = ex.new_obj(st, name, n, mode='array', arr=a, ro=ro)
    return i, a
def P0(i): return Ptr(i, bv64(0))
def retbool(v):
    return v == 1 if v.size() == 1 else v != 0
def out_bytes(ex, st, oid):
    o = ex.obj(st, oid)
    if o.mode == 'array': return lambda j: z3.Select(o.arr, j)
    return lambda j: ex.cell_byte(o, cval(simp(j)))
def model_bytes(m, arr, n, cap=4096):
    nn = m.eval(n, model_completion=True).as_long() if not isinstance(n, int) else n
    if nn > cap: return None
    return bytes(m.eval(z3.Select(arr, bv64(i)), model_completion=True).as_long() for i in range(nn))
class Lemma(Contract):
    """a lemma over the specification functions (no code): obligations given as (name, formula, hypotheses)"""
    def __init__(self, name, obls, text=''):
        Contract.__init__(self, name, None, None, None, text)
        self.obls = obls
MAXN = 1 << 56
