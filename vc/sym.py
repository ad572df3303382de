"""Symbolic execution / VC generation over the extracted IR.

Paths are enumerated; loops are either unrolled (when their trip count is fixed by the code or by the
precondition, complete because every path ends) or cut by inductive invariants (see loops.py).  Calls to functions under
contract are replaced by their contract; calls to library functions by assumed contracts (models.py); every
other call is executed inline."""
import z3, time, re, os, sys
sys.setrecursionlimit(20000)
from .ir import Unsupported, Ty, PTR, INT, get_func, get_global, Module
z3.set_param('smt.random_seed', 1)

BV = z3.BitVecVal
def bv64(x): return z3.BitVecVal(x, 64)
A8 = z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))

_fresh = [0]
def fresh(name, w=64):
    _fresh[0] += 1
    return z3.BitVec(f'{name}!{_fresh[0]}', w)
def fresh_arr(name='mem'):
    _fresh[0] += 1
    return z3.Const(f'{name}!{_fresh[0]}', A8)
def fresh_like(name, arr):
    _fresh[0] += 1
    return z3.Const(f'{name}!{_fresh[0]}', arr.sort())
def fresh_bool(name='b'):
    _fresh[0] += 1
    return z3.Bool(f'{name}!{_fresh[0]}')

def simp(t):
    return z3.simplify(t)

def isconst(t):
    return z3.is_bv_value(t)

def cval(t):
    return t.as_long()

def pow2_of(b):
    """k when b is the term 1 << k (the shift amount is known to be in range: the term is not zero), else None"""
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_BSHL and isconst(b.arg(0)) and cval(b.arg(0)) == 1: return b.arg(1)
    return None

def elem_index(o, k):
    """a term x with o = x << k (as a 64-bit number), read off the structure of o; None if it does not show"""
    if isconst(o):
        v = cval(o)
        return None if v & ((1 << k)-1) else bv64((v - (1 << 64) if v >> 63 else v) >> k)
    if not z3.is_app(o): return None
    n = o.decl().kind()
    if n == z3.Z3_OP_CONCAT and o.num_args() == 2 and o.arg(1).size() >= k and isconst(o.arg(1)) and cval(o.arg(1)) % (1 << k) == 0:
        w = o.arg(1).size(); h = o.arg(0)
        if w == k and z3.is_app(h) and h.decl().kind() == z3.Z3_OP_EXTRACT and h.params() == [63-k, 0]: return h.arg(0)
        if w == k and z3.is_app(h) and h.decl().kind() == z3.Z3_OP_BADD:
            ts = [c.arg(0) if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_EXTRACT and c.params() == [63-k, 0] else (z3.SignExt(k, c) if isconst(c) else None) for c in h.children()]
            if all(t is not None for t in ts): return simp(sum(ts[1:], ts[0]))
        return simp(z3.ZeroExt(w, h) << (w-k)) if w > k else simp(z3.ZeroExt(k, h))
    if n == z3.Z3_OP_BADD:
        ts = [elem_index(c, k) for c in o.children()]
        return None if any(t is None for t in ts) else simp(sum(ts[1:], ts[0]))
    if n == z3.Z3_OP_BMUL and o.num_args() == 2 and isconst(o.arg(0)) and cval(o.arg(0)) % (1 << k) == 0:
        v = cval(o.arg(0)); v = (v - (1 << 64) if v >> 63 else v) >> k; return simp(bv64(v)*o.arg(1))
    if n == z3.Z3_OP_ITE:
        a, b = elem_index(o.arg(1), k), elem_index(o.arg(2), k)
        return None if a is None or b is None else simp(z3.If(o.arg(0), a, b))
    return None

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj, self.off = obj, off
    def __repr__(self): return f'Ptr({self.obj},{self.off})'
NULL = 0   # object id of the null "object"

class Opaque:
    """floating point or other value we do not interpret"""
    __slots__ = ('tag',)
    def __init__(self, tag): self.tag = tag

class FnRef:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name

class Obj:
    """a memory object. mode 'cells': {offset: (nbytes, value)}; mode 'array': z3 array of bytes"""
    __slots__ = ('id', 'name', 'size', 'mode', 'cells', 'arr', 'ro', 'alive', 'base', 'dflt', 'kind', 'noaccess', 'ws', 'opaque')
    def __init__(self, id, name, size, mode='cells', cells=None, arr=None, ro=False, kind='mem', dflt=None):
        self.id, self.name, self.size, self.mode = id, name, size, mode
        self.cells = cells if cells is not None else {}
        self.arr = arr; self.ro = ro; self.alive = True; self.kind = kind
        self.dflt = dflt            # array backing uninitialised/unknown bytes in cells mode
        self.ws = None              # mode 'words': bytes from one element to the next (default: the element width)
        self.opaque = False         # elements are only accessible through contracts
        self.noaccess = None        # predicate/label: direct access is an obligation failure unless guarded
    def stride(self): return self.ws or self.arr.sort().range().size()//8
    def copy(self):
        o = Obj(self.id, self.name, self.size, self.mode, dict(self.cells), self.arr, self.ro, self.kind, self.dflt)
        o.alive = self.alive; o.noaccess = self.noaccess; o.ws = self.ws; o.opaque = self.opaque
        return o

class Frame:
    __slots__ = ('fn', 'env', 'block', 'prev', 'idx', 'unroll', 'retinst', 'allocas', 'cutloops')
    def __init__(self, fn):
        self.fn = fn; self.env = {}; self.block = fn.entry; self.prev = None; self.idx = 0
        self.unroll = {}; self.retinst = None; self.allocas = []; self.cutloops = []
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.block, f.prev, f.idx, f.retinst = self.fn, self.block, self.prev, self.idx, self.retinst
        f.env = dict(self.env); f.unroll = dict(self.unroll); f.allocas = list(self.allocas); f.cutloops = list(self.cutloops)
        return f

class State:
    __slots__ = ('frames', 'mem', 'pc', 'ghost', 'written', 'trace', 'exc', 'facts')
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.ghost = {}; self.written = set(); self.trace = []; self.exc = None
        self.facts = []         # facts of the specification: used for obligations and invariants, not to prune paths
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem); s.pc = list(self.pc); s.ghost = dict(self.ghost); s.written = set(self.written)
        s.trace = list(self.trace); s.exc = self.exc; s.facts = list(self.facts)
        return s
    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c): return
        self.pc.append(c)
    def obj(self, id): return self.mem[id]
    def wobj(self, id):
        o = self.mem[id].copy(); self.mem[id] = o; self.written.add(id); return o

class Outcome:
    def __init__(self, kind, st, val=None, exc=None):
        self.kind, self.st, self.val, self.exc = kind, st, val, exc

class NeedInvariant(Exception):
    def __init__(self, fn, header):
        self.key = (fn, header)

class PathLimit(Exception):
    pass

class Oblig:
    __slots__ = ('name', 'pc', 'cond', 'status', 'time', 'detail', 'backend', 'fn', 'kind')
    def __init__(self, name, pc, cond, kind='post', fn=''):
        self.name, self.pc, self.cond = name, list(pc), cond
        self.status = None; self.time = 0; self.detail = ''; self.backend = ''; self.fn = fn; self.kind = kind

def weaken(fs):
    """shifts and masks by amounts that are not constants, replaced by uninterpreted functions (what is valid then is valid)"""
    memo = {}; hit = [False]
    def go(t):
        k = t.get_id()
        if k in memo: return memo[k][1]
        if z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]; op = t.decl().kind()
            if op in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and not z3.is_bv_value(ch[1]): r = z3.Function(f'uf{op}_{t.size()}', t.sort(), t.sort(), t.sort())(*ch); hit[0] = True
            else: r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
        else: r = t
        memo[k] = (t, r); return r
    out = [f if z3.is_quantifier(f) else go(f) for f in fs]
    return out if hit[0] else None
class Solver:
    """wraps z3 with a cvc5 fallback; counts time"""
    def __init__(self, timeout_ms=8000):
        self.timeout = timeout_ms
        self.time = 0.0; self.queries = 0; self.eqs = False
        self.bq = {'z3': 0, 'cvc5': 0}
    def check(self, fs, timeout=None):
        t = time.time()
        s = z3.Solver() if not self.eqs else z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'smt').solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        r = s.check()
        self.time += time.time()-t; self.queries += 1
        self.last = s
        return r
    def race(self, timeout):
        """the last query again, as SMT-LIB text, by z3's bit-vector tactic, the newer z3 and cvc5 at once: the first answer counts"""
        import subprocess, tempfile
        t = time.time(); txt = '(set-logic ALL)\n' + self.last.to_smt2(); ps = []; ans = 'unknown'
        with tempfile.TemporaryDirectory() as d:
            a, b = d + '/a.smt2', d + '/b.smt2'
            open(a, 'w').write(txt); open(b, 'w').write(txt.replace('(check-sat)', '(check-sat-using qfaufbv)'))
            for nm, c in (('z3', ['z3', '-T:%d' % (timeout//1000), b]), ('z3-new', ['z3-new', '-T:%d' % (timeout//1000), a]), ('cvc5', ['cvc5', '--tlimit=%d' % timeout, a])):
                try: ps.append((nm, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError: pass
            end = t + timeout/1000 + 2
            try:
                while ps and ans == 'unknown' and time.time() < end:
                    for nm, p in list(ps):
                        if p.poll() is None: continue
                        out = p.stdout.read().strip().split('\n')[0]; ps.remove((nm, p))
                        if out in ('sat', 'unsat'): ans = out; self.bq['cvc5' if nm == 'cvc5' else 'z3'] += 1; break
                    time.sleep(0.02)
            finally:
                for _, p in ps: p.kill(); p.wait()
        self.time += time.time()-t
        return z3.unsat if ans == 'unsat' else z3.sat if ans == 'sat' else z3.unknown
    def feasible(self, fs):
        # quantified facts only help pruning; drop unknown
        q = [f for f in fs if not z3.is_quantifier(f)]
        if len(q) == len(fs): return self.check(fs, 3000) != z3.unsat
        if self.check(q, 3000) == z3.unsat: return False
        return self.check(fs, 500) != z3.unsat
    def model(self):
        return self.last.model()
    def prove(self, pc, goal, timeout=None):
        """'proved' | 'refuted' | 'unknown'"""
        g = z3.Not(goal)
        r = self.check(list(pc) + [g], timeout)
        if r == z3.unsat:
            self.bq['z3'] += 1
            return 'proved', 'z3'
        if r == z3.sat:
            return 'refuted', 'z3'
        # fallback: cvc5 on the SMT-LIB text
        t = time.time()
        try:
            import subprocess, tempfile
            txt = '(set-logic ALL)\n' + self.last.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout or self.timeout), f.name], capture_output=True, text=True, timeout=60)
                out = p.stdout.strip()
            finally:
                os.unlink(f.name)
        except Exception as e:
            out = 'err'
        self.time += time.time()-t
        if out.startswith('unsat'):
            self.bq['cvc5'] += 1
            return 'proved', 'cvc5'
        return 'unknown', 'z3+cvc5'

# exception class hierarchy (typeinfo mangled suffix -> base chain) for catch matching
EXC_BASE = {
 'St16invalid_argument': 'St11logic_error', 'St12length_error': 'St11logic_error', 'St12out_of_range': 'St11logic_error', 'St12domain_error': 'St11logic_error',
 'St11logic_error': 'St9exception', 'St13runtime_error': 'St9exception', 'St12system_error': 'St13runtime_error', 'St11range_error': 'St13runtime_error',
 'St14overflow_error': 'St13runtime_error',
 'St9bad_alloc': 'St9exception', 'St20bad_array_new_length': 'St9bad_alloc', 'St19bad_optional_access': 'St9exception', 'St18bad_variant_access': 'St9exception',
}

class Executor:
    def __init__(self, mod, models, contracts=None, spec=None, unroll_limit=70, max_paths=20000, checks=('mem', 'nsw')):
        self.m = mod
        self.models = models          # list of (regex, handler)
        self.contracts = contracts or {}
        self.spec = spec              # loop spec provider
        self.sol = Solver()
        self.inv_loops = set()
        self.unroll_limit = unroll_limit
        self.max_paths = max_paths
        self.obligs = []
        self.nextobj = 1
        self.globobjs = {}            # global name -> obj id (shared across states, allocated lazily)
        self.globinit = {}            # id -> Obj initial
        self.fnobjs = {}
        self.assumed = {}             # assumed library contracts that were used
        self.used_contracts = set()
        self.inlined = set()
        self.unrolled = set()
        self.loopinfo = []
        self.paths = 0
        self.ctxstack = []            # active loop contexts
        self.ispec_cache = {}
        self.exc_hier = dict(EXC_BASE)
        self.learn_hier()
        self.deadline = None
        self.checks = checks
        self.modelcache = {}
        self.tables = {}
        self.ncut = 0; self.steps = {}; self.light = 0; self.cut_all = False; self.merge = False; self.regions = {}
        self.used_globals_init = False

    # ----------------------------------------------------------- exceptions hierarchy from IR typeinfo
    def learn_hier(self):
        if self.m is None: return
        for g, v in self.m.globals.items():
            if g.startswith('_ZTI') and isinstance(v, str):
                mm = re.findall(r'@(_ZTI[A-Za-z0-9_]+)', v)
                if mm:
                    self.exc_hier[g[4:]] = mm[0][4:]
    def exc_isa(self, t, base):
        while t is not None:
            if t == base: return True
            t = self.exc_hier.get(t)
        return False

    # ----------------------------------------------------------- objects
    def new_obj(self, st, name, size, **kw):
        i = self.nextobj; self.nextobj += 1
        o = Obj(i, name, size, **kw)
        st.mem[i] = o
        if isinstance(size, int) and o.mode == 'cells' and o.dflt is None:
            o.dflt = fresh_arr(f'uninit_{name}')
        return i
    def obj(self, st, id):
        o = st.mem.get(id)
        if o is None:
            o = self.globinit.get(id)
            if o is None: raise Unsupported(f'no object {id}')
        return o
    def wobj(self, st, id):
        o = self.obj(st, id).copy(); st.mem[id] = o; st.written.add(id); return o
    def global_ptr(self, name):
        if name in self.globobjs: return Ptr(self.globobjs[name], bv64(0))
        if name in self.m.funcs or name in self.m.decls:
            if name not in self.fnobjs:
                i = self.nextobj; self.nextobj += 1
                self.fnobjs[name] = i
                o = Obj(i, '@' + name, 1, ro=True, kind='fn'); self.globinit[i] = o
            return Ptr(self.fnobjs[name], bv64(0))
        g = get_global(self.m, name)
        if g is None: raise Unsupported('global ' + name)
        if g[0] == 'alias':
            return self.const_value(PTR, g[1])
        _, t, init, isc = g
        i = self.nextobj; self.nextobj += 1
        self.globobjs[name] = i
        try: sz = self.m.size(t)
        except Unsupported: sz = 8
        o = Obj(i, '@' + name, sz, ro=isc, kind='global')
        o.dflt = fresh_arr('ginit')
        self.globinit[i] = o
        if init is not None:
            self.init_const(o, 0, t, init)
        # constant byte tables: array mode
        if isc and o.cells and all(n == 1 and not isinstance(v, (Ptr, FnRef, Opaque)) for n, v in o.cells.values()) and len(o.cells) > 1:
            pass
        return Ptr(i, bv64(0))
    def init_const(self, o, off, t, v):
        t = self.m.resolve(t)
        if v[0] == 'zero' or v[0] == 'null':
            self.zero_fill(o, off, t); return
        if v[0] == 'undef': return
        if t.k == 'arr':
            es = self.m.size(t.b)
            if v[0] == 'cstr':
                for i, c in enumerate(v[1]): o.cells[off+i] = (1, BV(c, 8))
            else:
                for i, (et, ev) in enumerate(v[1]): self.init_const(o, off+i*es, et, ev)
        elif t.k == 'struct':
            offs, _ = self.m.layout(t)
            for i, (et, ev) in enumerate(v[1]): self.init_const(o, off+offs[i], et, ev)
        else:
            o.cells[off] = (self.m.size(t), self.const_value(t, v))
    def zero_fill(self, o, off, t):
        t = self.m.resolve(t)
        if t.k == 'arr':
            for i in range(t.a): self.zero_fill(o, off+i*self.m.size(t.b), t.b)
        elif t.k == 'struct':
            offs, _ = self.m.layout(t)
            for i, e in enumerate(t.a): self.zero_fill(o, off+offs[i], e)
        elif t.k == 'ptr': o.cells[off] = (8, Ptr(NULL, bv64(0)))
        elif t.k == 'int': o.cells[off] = (self.m.size(t), BV(0, 8*self.m.size(t)))
        else: o.cells[off] = (self.m.size(t), BV(0, 8*self.m.size(t)))

    # ----------------------------------------------------------- values
    def const_value(self, t, v):
        k = v[0]
        if k == 'int': return BV(v[2], v[1])
        if k == 'null': return Ptr(NULL, bv64(0))
        if k == 'glob': return self.global_ptr(v[1])
        if k == 'fp': return Opaque(v[1])
        if k == 'undef': return self.undef(t)
        if k == 'zero':
            t = self.m.resolve(t)
            if t.k == 'int': return BV(0, t.a)
            if t.k == 'ptr': return Ptr(NULL, bv64(0))
            if t.k == 'struct': return tuple(self.const_value(e, v) for e in t.a)
            if t.k == 'arr': return tuple(self.const_value(t.b, v) for _ in range(t.a))
            if t.k == 'fp': return Opaque('0')
        if k == 'gep':
            ops = [(tt, self.const_value(tt, vv)) for tt, vv in v[2]]
            return self.gep(v[1], ops)
        if k == 'agg': return tuple(self.const_value(tt, vv) for tt, vv in v[1])
        if k == 'ccast':
            x = self.const_value(v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == 'cbin':
            a = self.const_value(v[2], v[3]); b = self.const_value(v[2], v[4])
            if v[1] == 'icmp': return self.icmp(v[5], a, b)
            return simp(self.binop(v[1], self.toint(a), self.toint(b)))
        raise Unsupported('const ' + str(v)[:80])
    def undef(self, t):
        t = self.m.resolve(t)
        if t.k == 'int': return fresh('undef', t.a)
        if t.k == 'ptr': return Ptr(None, fresh('undefptr'))
        if t.k == 'struct': return tuple(self.undef(e) for e in t.a)
        if t.k == 'arr': return tuple(self.undef(t.b) for _ in range(t.a))
        if t.k == 'fp': return Opaque('undef')
        raise Unsupported('undef ' + str(t))
    def val(self, st, t, v):
        if v[0] == 'loc':
            try: return st.frames[-1].env[v[1]]
            except KeyError: raise Unsupported('undefined local ' + v[1])
        return self.const_value(t, v)
    def toint(self, v):
        if isinstance(v, Ptr):
            if v.obj == NULL or v.obj is None: return v.off
            return z3.BitVec(f'addr!{v.obj}', 64) + v.off
        return v
    def gep(self, bt, ops):
        p = ops[0][1]
        if not isinstance(p, Ptr): raise Unsupported('gep base')
        off = p.off
        t = bt
        for n, (it, iv) in enumerate(ops[1:]):
            if isinstance(iv, Ptr): raise Unsupported('gep index')
            ix = iv if iv.size() == 64 else z3.SignExt(64-iv.size(), iv)
            if n == 0:
                off = off + ix*self.m.size(t)
            else:
                t = self.m.resolve(t)
                if t.k == 'struct':
                    off = off + self.m.layout(t)[0][cval(simp(ix))]; t = t.a[cval(simp(ix))]
                elif t.k in ('arr', 'vec'):
                    off = off + ix*self.m.size(t.b); t = t.b
                else: raise Unsupported('gep into ' + t.k)
        return Ptr(p.obj, simp(off))
    def binop(self, op, a, b):
        if op == 'add': return a+b
        if op == 'sub': return a-b
        if op == 'mul': return a*b
        if op in ('udiv', 'urem') and not isconst(b):
            k = pow2_of(b)      # division by 1 << k
            if k is not None: return z3.LShR(a, k) if op == 'udiv' else a & (b-1)
        if op == 'udiv': return z3.UDiv(a, b)
        if op == 'sdiv': return a/b
        if op == 'urem': return z3.URem(a, b)
        if op == 'srem': return z3.SRem(a, b)
        if op == 'shl': return a << b
        if op == 'lshr': return z3.LShR(a, b)
        if op == 'ashr': return a >> b
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        raise Unsupported(op)
    def cast(self, op, ft, x, tt):
        tt = self.m.resolve(tt)
        if isinstance(x, Opaque) or tt.k == 'fp':
            if tt.k == 'int': return fresh('fp2int', tt.a)
            return Opaque(op)
        if op == 'ptrtoint':
            v = self.toint(x)
            if tt.a < 64: v = z3.Extract(tt.a-1, 0, v)
            return simp(v)
        if op == 'inttoptr':
            if isinstance(x, Ptr): return x
            return self.int2ptr(x)
        if op == 'bitcast': return x
        if isinstance(x, Ptr): raise Unsupported('cast of pointer')
        w = tt.a
        if op == 'trunc': return simp(z3.Extract(w-1, 0, x))
        if op == 'zext': return simp(z3.ZeroExt(w-x.size(), x))
        if op == 'sext': return simp(z3.SignExt(w-x.size(), x))
        raise Unsupported('cast ' + op)
    def int2ptr(self, x):
        x = simp(x)
        if isconst(x) : return Ptr(NULL, x)
        # addr!k + off
        if z3.is_const(x) and str(x).startswith('addr!'): return Ptr(int(str(x)[5:]), bv64(0))
        if z3.is_app(x) and x.decl().name() == 'bvadd':
            ch = x.children()
            ad = [c for c in ch if z3.is_const(c) and not isconst(c) and str(c).startswith('addr!')]
            if len(ad) == 1:
                rest = [c for c in ch if not c.eq(ad[0])]
                off = bv64(0)
                for c in rest: off = off + c
                return Ptr(int(str(ad[0])[5:]), simp(off))
        return Ptr(None, x)
    def icmp(self, pred, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                a, b = a.off, b.off
            else:
                if pred in ('eq', 'ne') and a.obj is not None and b.obj is not None:
                    # pointers to different live objects are different (one-past-end coincidences excluded; see DESIGN)
                    return BV(1 if pred == 'ne' else 0, 1)
                a, b = self.toint(a), self.toint(b)
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.toint(a), self.toint(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return fresh('opaque', 1)
        c = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b), 'ugt': lambda: z3.UGT(a, b),
             'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b, 'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()
        return simp(z3.If(c, BV(1, 1), BV(0, 1)))
    @staticmethod
    def b2bv(c): return simp(z3.If(c, BV(1, 1), BV(0, 1)))
    @staticmethod
    def bv2b(v): return simp(v == BV(1, 1))

    # ----------------------------------------------------------- obligations
    def oblige(self, st, name, cond, kind='post', fn=None):
        c = simp(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if fn is None: fn = self.m.demangled.get(st.frames[0].fn.name, st.frames[0].fn.name) if st.frames else ''
        o = Oblig(name, st.pc + st.facts, c, kind, fn)
        self.obligs.append(o)
        # later code on this path may rely on it (it is reported if it fails)
        if kind != 'post': st.assume(c)

    # ----------------------------------------------------------- memory
    def check_access(self, st, p, n, what, write=False):
        if p.obj is None or p.obj == NULL:
            self.oblige(st, f'{what}: pointer refers to a live object', False, 'mem'); raise PathEnd()
        o = self.obj(st, p.obj)
        if not o.alive:
            self.oblige(st, f'{what}: object {o.name} is alive', False, 'mem'); raise PathEnd()
        if o.noaccess is not None:
            r = o.noaccess(self, st, p, n, write)
        if write and o.ro:
            self.oblige(st, f'{what}: write to constant {o.name}', False, 'mem'); raise PathEnd()
        size = o.size if not isinstance(o.size, int) else bv64(o.size)
        if isinstance(n, int):
            if isconst(p.off) and isconst(size):
                if cval(p.off)+n <= cval(size): return o
                self.oblige(st, f'{what}: within bounds of {o.name}', False, 'mem'); raise PathEnd()
            n = bv64(n)
        ok = z3.And(z3.ULE(n, size), z3.ULE(p.off, size - n))
        self.oblige(st, f'{what}: within bounds of {o.name}', ok, 'mem')
        return o
    def to_array(self, st, o):
        """convert a cells object to array mode (in place, o is a private copy)"""
        if o.mode == 'array': return
        a = o.dflt if o.dflt is not None else fresh_arr('uninit')
        for off, (n, v) in sorted(o.cells.items()):
            if isinstance(v, (Ptr, Opaque, FnRef)): raise Unsupported(f'byte view of pointer field in {o.name}')
            if v.size() < 8*n: v = z3.ZeroExt(8*n-v.size(), v)
            for i in range(n):
                a = z3.Store(a, bv64(off+i), simp(z3.Extract(8*i+7, 8*i, v)))
        o.mode = 'array'; o.arr = a; o.cells = {}
    def ssize(self, t):
        """bytes touched by a load/store of t (i24 touches 3 bytes although it occupies 4)"""
        return (t.a+7)//8 if t.k == 'int' else self.m.size(t)
    def load(self, st, p, t, what='load'):
        t = self.m.resolve(t)
        n = self.ssize(t)
        o = self.check_access(st, p, n, what)
        if o.mode == 'words':
            if t.k != 'int' or o.opaque: raise Unsupported(f'load of {t.k} from {o.name}')
            ix, res = self.word_index(st, o, p.off); ws = o.arr.sort().range().size()//8
            if res+n > ws: raise Unsupported('load across elements')
            v = simp(z3.Extract(8*(res+n)-1, 8*res, z3.Select(o.arr, ix)))
            return v if v.size() == t.a else simp(z3.Extract(t.a-1, 0, v))
        if t.k in ('struct', 'arr'):
            if t.k == 'struct':
                offs = self.m.layout(t)[0]; return tuple(self.load(st, Ptr(p.obj, simp(p.off+f)), e) for f, e in zip(offs, t.a))
            return tuple(self.load(st, Ptr(p.obj, simp(p.off+i*self.m.size(t.b))), t.b) for i in range(t.a))
        off = p.off
        if o.ro and not isconst(off) and t.k == 'int':
            r = self.const_table(o, off, n)
            if r is not None:
                return simp(z3.Extract(t.a-1, 0, r)) if r.size() != t.a else r
        if o.mode == 'cells' and not isconst(off):
            if all(not isinstance(v, (Ptr, Opaque, FnRef)) for _, v in o.cells.values()):
                o = o.copy(); self.to_array(st, o)
                if o.ro:
                    self.globinit[o.id] = o if o.id in self.globinit else o
                    if o.id in st.mem: st.mem[o.id] = o
                else: st.mem[o.id] = o
            else:
                raise NeedConcrete(p)
        if o.mode == 'cells':
            off = cval(off)
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if t.k == 'int' and not isinstance(v, (Ptr, Opaque, FnRef)):
                    if v.size() != t.a: v = simp(z3.Extract(t.a-1, 0, v)) if v.size() > t.a else simp(z3.ZeroExt(t.a-v.size(), v))
                    return v
                if t.k == 'ptr':
                    if isinstance(v, (Ptr, FnRef)): return v
                    if isinstance(v, Opaque): raise Unsupported('load ptr from opaque')
                    return self.int2ptr(v)
                if t.k == 'int' and isinstance(v, Ptr):
                    return simp(z3.Extract(t.a-1, 0, self.toint(v)))
                return v
            # compose bytes
            bs = [self.cell_byte(o, off+i) for i in range(n)]
            if any(b is None for b in bs): raise Unsupported(f'partial load of pointer field in {o.name}')
        else:
            if t.k == 'ptr':
                raise Unsupported(f'pointer load from byte array {o.name}')
            bs = [z3.Select(o.arr, off+i) for i in range(n)]
        v = bs[0] if n == 1 else z3.Concat(*reversed(bs))
        v = simp(v)
        if t.k == 'ptr':
            return self.int2ptr(v)
        if t.k == 'fp': return Opaque('load')
        if t.k == 'int' and v.size() != t.a: v = simp(z3.Extract(t.a-1, 0, v))
        return v
    def const_table(self, o, off, n):
        """value of a constant table of n-byte integers at a symbolic (in-bounds, element-aligned) offset, as a compact term"""
        key = (o.id, n)
        runs = self.tables.get(key)
        if runs is None:
            runs = False
            tab = getattr(o, 'cells', None)
            if tab and isinstance(o.size, int) and o.size % n == 0 and all(i in tab and tab[i][0] == n and z3.is_bv_value(tab[i][1]) for i in range(0, o.size, n)) and o.size <= 65536:
                vals = [cval(tab[i][1]) for i in range(0, o.size, n)]
                M = 1 << (8*n)
                runs = []
                i = 0
                while i < len(vals):
                    # longest run of the form v0 + d*(k-i), d in {0, 1, -1}
                    best = (i, 0)
                    for d in (0, 1, -1):
                        j = i
                        while j+1 < len(vals) and vals[j+1] == (vals[i] + d*(j+1-i)) % M: j += 1
                        if j > best[0]: best = (j, d)
                    runs.append((i, best[0], vals[i], best[1])); i = best[0]+1
            self.tables[key] = runs
        if runs is False: return None
        if n > 1:
            if not z3.is_true(simp(z3.URem(off, bv64(n)) == 0)): return None
            ix = simp(z3.UDiv(off, bv64(n))) if n & (n-1) else simp(z3.LShR(off, bv64(n.bit_length()-1)))
        else: ix = off
        w = 8*n
        def term(lo, hi):
            if lo == hi:
                a, b, v, d = runs[lo]
                if d == 0: return BV(v, w)
                x = z3.Extract(w-1, 0, ix) if w < 64 else ix
                return (x + BV(v-a, w)) if d == 1 else (BV(v+a, w) - x)
            mid = (lo+hi+1)//2
            return z3.If(z3.ULT(ix, bv64(runs[mid][0])), term(lo, mid-1), term(mid, hi))
        return simp(term(0, len(runs)-1))
    def cell_byte(self, o, off):
        for co, (cn, cv) in o.cells.items():
            if co <= off < co+cn:
                if isinstance(cv, (Ptr, Opaque, FnRef)):
                    if isinstance(cv, Ptr):
                        v = self.toint(cv); i = off-co
                        return z3.Extract(8*i+7, 8*i, v)
                    return None
                v = cv
                if v.size() < 8*cn: v = z3.ZeroExt(8*cn-v.size(), v)
                i = off-co
                return simp(z3.Extract(8*i+7, 8*i, v))
        if o.dflt is None: o.dflt = fresh_arr('uninit')
        return z3.Select(o.dflt, bv64(off))
    def store(self, st, p, t, v, what='store'):
        t = self.m.resolve(t)
        if t.k in ('struct', 'arr'):
            offs = self.m.layout(t)[0] if t.k == 'struct' else [i*self.m.size(t.b) for i in range(t.a)]
            ts = t.a if t.k == 'struct' else [t.b]*t.a
            for f, e, x in zip(offs, ts, v): self.store(st, Ptr(p.obj, simp(p.off+f)), e, x)
            return
        n = self.ssize(t)
        self.check_access(st, p, n, what, True)
        o = self.wobj(st, p.obj)
        off = p.off
        if o.mode == 'words':
            if isinstance(v, (Ptr, Opaque, FnRef)) or o.opaque: raise Unsupported(f'store into {o.name}')
            if v.size() < 8*n: v = z3.ZeroExt(8*n-v.size(), v)
            ix, res = self.word_index(st, o, p.off); W = o.arr.sort().range().size(); old = z3.Select(o.arr, ix)
            if 8*(res+n) > W: raise Unsupported('store across elements')
            ps = ([z3.Extract(W-1, 8*(res+n), old)] if 8*(res+n) < W else []) + [v] + ([z3.Extract(8*res-1, 0, old)] if res else [])
            o.arr = z3.Store(o.arr, ix, simp(z3.Concat(*ps)) if len(ps) > 1 else v); return
        if o.mode == 'cells' and not isconst(off):
            if isinstance(v, (Ptr, Opaque, FnRef)) or any(isinstance(x, (Ptr, Opaque, FnRef)) for _, x in o.cells.values()):
                raise NeedConcrete(p)
            self.to_array(st, o)
        if o.mode == 'cells':
            self.cell_write(o, cval(off), n, v)
        else:
            if isinstance(v, Opaque): v = fresh('opq', 8*n)
            if isinstance(v, (Ptr, FnRef)): v = self.toint(v)
            if v.size() < 8*n: v = z3.ZeroExt(8*n-v.size(), v)
            a = o.arr
            for i in range(n):
                a = z3.Store(a, simp(off+i), simp(z3.Extract(8*i+7, 8*i, v)))
            o.arr = a
    def word_index(self, st, o, off):
        """(element index, byte within the element) of an offset into an object of fixed-size elements"""
        ws = o.stride(); k = ws.bit_length()-1
        if ws != 1 << k: raise Unsupported('element size')
        off = simp(off)
        if isconst(off): return bv64(cval(off)//ws), cval(off) % ws
        o2 = z3.simplify(off, mul2concat=True); low = simp(z3.Extract(k-1, 0, o2))
        if not isconst(low) and elem_index(o2, k) is not None: low = BV(0, k)
        if not isconst(low):
            v = self.unique(st, low)
            if v is None: raise Unsupported('offset within an element is not determined')
            low = BV(v, k)
        # the index as the program computed it, when it cannot have been cut off by the multiplication
        x = elem_index(o2, k)
        if x is not None:
            if self.sol.check(st.pc + [z3.Not(z3.ULT(x, bv64(1 << (63-k))))], 2000) == z3.unsat: return x, cval(low)
        return simp(z3.ZeroExt(k, z3.Extract(63, k, off))), cval(low)
    def unique(self, st, t):
        s = [f for f in st.pc if not z3.is_quantifier(f)]
        if self.sol.check(s) != z3.sat: return None
        v = self.sol.model().eval(t, model_completion=True)
        return v.as_long() if self.sol.check(s + [t != v]) == z3.unsat else None
    def read_word(self, st, p, n):
        """n bytes at p as one little-endian number"""
        o = self.check_access(st, p, n, 'read')
        if o.mode == 'cells' and isconst(p.off):
            c = o.cells.get(cval(p.off))
            if c is not None and c[0] == n and isinstance(c[1], z3.BitVecRef): return c[1]
        if o.mode == 'words':
            ws = o.arr.sort().range().size()//8
            if n % ws == 0 and n > ws and o.ws is None: return simp(z3.Concat(*[self.load(st, Ptr(p.obj, simp(p.off+i)), INT(8*ws)) for i in reversed(range(0, n, ws))]))
            return self.load(st, p, INT(8*n))
        bs = self.read_bytes(st, p, n); return simp(z3.Concat(*reversed(bs))) if n > 1 else bs[0]
    def cell_write(self, o, off, n, v):
        # split overlapping cells into bytes
        for co in list(o.cells):
            cn, cv = o.cells[co]
            if co < off+n and off < co+cn and not (co == off and cn == n):
                bs = [(co+i, self.cell_byte(o, co+i)) for i in range(cn)]
                del o.cells[co]
                for bo, b in bs:
                    if not (off <= bo < off+n):
                        if b is None: b = fresh('partial', 8)
                        o.cells[bo] = (1, b)
        o.cells[off] = (n, v)
    def read_bytes(self, st, p, n):
        """list of n byte terms (n int)"""
        return [self.load(st, Ptr(p.obj, simp(p.off+i)), INT(8)) for i in range(n)]
    def arr_view(self, st, p):
        """z3 array such that byte i of memory at p is arr[i + off]; returns (arr, off)"""
        o = self.obj(st, p.obj)
        if o.mode == 'words': raise Unsupported(f'byte view of {o.name}')
        if o.mode == 'cells':
            o = o.copy(); self.to_array(st, o)
            if o.id in self.globinit and o.id not in st.mem: self.globinit[o.id] = o
            else: st.mem[o.id] = o
        return o.arr, p.off

    # ----------------------------------------------------------- main loop
    def explore(self, st, stop=None):
        """run until every path has ended; returns outcomes. stop(st) -> label or None is consulted on block transitions"""
        work = [st]; out = []
        while work:
            if self.deadline and time.time() > self.deadline: raise PathLimit('time budget')
            s = work.pop()
            try:
                r = self.step_path(s, out, stop)
            except PathEnd:
                continue
            if r: work.extend(r)
            self.paths += len(r) if r else 0
            if self.paths > self.max_paths: raise PathLimit('more than %d paths' % self.max_paths)
        return out

    def step_path(self, st, out, stop):
        """advance st until it ends or forks; returns list of successor states"""
        while True:
            f = st.frames[-1]
            b = f.fn.blocks[f.block]
            ins = b.insts[f.idx]
            op = ins.op
            try:
                r = self.exec_inst(st, f, ins, out, stop)
            except NeedConcrete as e:
                return self.concretize(st, e.p)
            if r is None: continue
            return r

    def concretize(self, st, p):
        """fork on the possible concrete offsets of p"""
        outs = []
        excl = []
        for _ in range(600):
            fs = st.pc + excl
            if self.sol.check(fs) != z3.sat: 
                if self.sol.last.reason_unknown() and self.sol.check(fs) == z3.unknown: raise Unsupported('cannot enumerate offsets')
                break
            v = self.sol.model().eval(p.off, model_completion=True)
            s2 = st.fork()
            s2.assume(p.off == v)
            # substitute in env so that it becomes concrete
            f = s2.frames[-1]
            for k, x in list(f.env.items()):
                if isinstance(x, Ptr) and x.obj == p.obj and not isconst(x.off):
                    d = simp(x.off - p.off + v)
                    f.env[k] = Ptr(x.obj, d)
            outs.append(s2); excl.append(p.off != v)
        else:
            raise Unsupported('too many possible offsets')
        return outs

    def goto(self, st, target, out, stop):
        """transfer control to block target in the top frame; returns None to continue, or list"""
        f = st.frames[-1]
        fn = f.fn
        prev = f.block
        blk = fn.blocks[target]
        loops = fn.loops()
        # leaving cut loops?
        if f.cutloops and target not in loops[f.cutloops[-1][0]]:
            f.cutloops[-1][1].exits.append((st, target)); return []
        # unroll counters for loops we leave
        if target in loops:
            body = loops[target]
            back = prev in body
            key = (fn.name, target)
            if self.cut_all or key in self.inv_loops:
                vals = self.phi_vals(st, f, blk, prev)
                if back and f.cutloops and f.cutloops[-1][0] == target:
                    ctx = f.cutloops[-1][1]
                    ctx.backedge(st, vals)
                    return []
                from .loops import cut_loop
                return cut_loop(self, st, fn, target, vals, out, stop)
            c = f.unroll.get(target, 0)+1 if back else 1
            f.unroll[target] = c
            if back: self.unrolled.add(key)
            if c > self.unroll_limit:
                raise NeedInvariant(fn.name, target)
        vals = self.phi_vals(st, f, blk, prev)
        f.prev = prev; f.block = target; f.idx = 0
        for k, v in vals: f.env[k] = v
        return None
    def phi_vals(self, st, f, blk, prev):
        r = []
        for ph in blk.phis:
            for v, b in ph.a:
                if b == prev:
                    r.append((ph.res, self.val(st, ph.ty, v))); break
            else:
                raise Unsupported('phi without edge')
        return r

    def branch(self, st, cond_targets, out, stop):
        """cond_targets: list of (z3 bool, target)"""
        if self.merge and self.merge_region(st, cond_targets): return None
        feas = []
        for c, tgt in cond_targets:
            c = simp(c)
            if z3.is_false(c): continue
            feas.append((c, tgt))
        if len(feas) > 1:
            feas = [(c, t) for c, t in feas if self.sol.feasible(st.pc + [c])]
        if not feas:
            raise PathEnd()
        if len(feas) == 1:
            c, t = feas[0]
            st.assume(c)
            return self.goto(st, t, out, stop)
        f = st.frames[-1]
        # explore the branch that stays in the innermost loop first (pop from end)
        loops = f.fn.loops()
        inner = None
        for h, body in loops.items():
            if f.block in body and (inner is None or len(body) < len(inner)): inner = body
        if inner is not None:
            feas.sort(key=lambda ct: ct[1] in inner)
        res = []
        for c, t in feas:
            s2 = st.fork()
            s2.assume(c)
            try:
                r = self.goto(s2, t, out, stop)
            except PathEnd:
                continue
            if r is None: res.append(s2)
            else: res.extend(r)
        return res

    MERGE_OPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'cast', 'icmp', 'load', 'gep', 'select', 'extractvalue', 'insertvalue', 'freeze', 'br', 'switch'}
    def succ_conds(self, st, ins):
        if ins.op == 'br':
            if not ins.a: return [(z3.BoolVal(True), ins.x['succ'][0])]
            c = self.bv2b(self.val(st, INT(1), ins.a[0])); a, b = ins.x['succ']; return [(c, a), (z3.Not(c), b)]
        v = self.val(st, ins.ty, ins.a[0]); r = []; es = []
        for cv, tgt in ins.x['cases']:
            e = v == BV(cv[2], cv[1]); r.append((e, tgt)); es.append(e)
        r.append((z3.Not(z3.Or(*es)) if es else z3.BoolVal(True), ins.x['default'])); return r
    def merge_region(self, st, cts):
        """a branch whose arms meet again after side-effect-free code: both arms are evaluated and joined with if-then-else"""
        f = st.frames[-1]; fn = f.fn; start = f.block
        key = (fn.name, start)
        if key not in self.regions: self.regions[key] = self.find_region(fn, start)
        reg = self.regions[key]
        if reg is None: return False
        order, join = reg
        mark = len(self.obligs); sf = st.fork(); g = sf.frames[-1]; pc0 = list(st.pc)
        reach = {}; edges = {}     # block -> [(pred, cond)]
        def out_edge(b, rc, conds):
            for c, t in conds:
                edges.setdefault(t, []).append((b, simp(z3.And(rc, c))))
        def join_phis(b):
            vals = []
            for ph in fn.blocks[b].phis:
                v = None
                for pred, c in reversed(edges.get(b, [])):
                    if z3.is_false(c): continue
                    for x, pb in ph.a:
                        if pb == pred: e = self.val(sf, ph.ty, x); break
                    else: raise Unsupported('phi without edge')
                    if v is None: v = e; continue
                    if isinstance(v, z3.BitVecRef) and isinstance(e, z3.BitVecRef): v = simp(z3.If(c, e, v))
                    elif isinstance(v, Ptr) and isinstance(e, Ptr) and v.obj == e.obj and v.obj is not None: v = v if v.off.eq(e.off) else Ptr(v.obj, simp(z3.If(c, e.off, v.off)))
                    elif v is e: pass
                    else: raise Unsupported('cannot join')
                if v is None: raise Unsupported('dead join')
                vals.append((ph.res, v))
            for k, v in vals: g.env[k] = v
        try:
            out_edge(start, z3.BoolVal(True), cts)
            for b in order:
                rc = simp(z3.Or(*[c for _, c in edges.get(b, [])]))
                if z3.is_false(rc): continue
                reach[b] = rc; sf.pc = pc0 + ([] if z3.is_true(rc) else [rc])
                join_phis(b); g.block = b
                blk = fn.blocks[b]
                for i, ins in enumerate(blk.insts):
                    if ins.op in ('br', 'switch'): out_edge(b, rc, self.succ_conds(sf, ins)); break
                    g.idx = i
                    if self.exec_inst(sf, g, ins, None, None) is not None: raise Unsupported('fork in region')
            join_phis(join)
        except (Unsupported, NeedConcrete, PathEnd, KeyError):
            del self.obligs[mark:]; return False
        f.env = g.env; f.prev = start; f.block = join; f.idx = 0
        return True
    def pure_call(self, ins):
        c = ins.x['callee']
        if c[0] != 'glob': return False
        h = self.handler_for(c[1]); return h is not None and getattr(h[0], 'pure', False) and c[1] not in self.contracts
    def find_region(self, fn, start):
        lp = fn.loops(); inl = lambda b: frozenset(h for h, body in lp.items() if b in body); home = inl(start)
        succs = lambda b: (lambda t: list(t.x['succ']) if t.op == 'br' else [x[1] for x in t.x['cases']] + [t.x['default']] if t.op == 'switch' else [])(fn.blocks[b].insts[-1])
        def pure(b):
            return b not in lp and b in fn.blocks and inl(b) == home and len(fn.blocks[b].insts) < 60 and all(i.op in self.MERGE_OPS or i.op == 'call' and self.pure_call(i) for i in fn.blocks[b].insts)
        # grow the region until a single block outside it is left
        region = []; front = list(dict.fromkeys(succs(start)))
        preds = {}
        for b in fn.blocks:
            for t in succs(b): preds.setdefault(t, set()).add(b)
            if fn.blocks[b].insts[-1].op == 'invoke':
                for t in fn.blocks[b].insts[-1].x.get('succ', ()): preds.setdefault(t, set()).add('?')
        while True:
            if len(front) == 1:
                j = front[0]
                if j in lp or inl(j) != home or j == start: return None
                if not region: return None
                if not preds[j] <= set(region) | {start}:
                    # the join has other predecessors: still the only way out of the region
                    pass
                return (region, j)
            # a block all of whose predecessors are in the region can be evaluated
            nxt = [b for b in front if b != start and preds[b] <= set(region) | {start} and pure(b)]
            if not nxt or len(region) > 40: return None
            b = nxt[0]; region.append(b); front.remove(b)
            for t in succs(b):
                if t == start or t in region: return None
                if t not in front: front.append(t)
    def exec_inst(self, st, f, ins, out, stop):
        op = ins.op
        env = f.env
        if op == 'br':
            if not ins.a: return self.goto(st, ins.x['succ'][0], out, stop)
            c = self.bv2b(self.val(st, INT(1), ins.a[0]))
            a, b = ins.x['succ']
            return self.branch(st, [(c, a), (z3.Not(c), b)], out, stop)
        if op == 'switch':
            v = self.val(st, ins.ty, ins.a[0])
            by = {}
            nots = []
            for cv, tgt in ins.x['cases']:
                e = v == BV(cv[2], cv[1])
                by.setdefault(tgt, []).append(e); nots.append(e)
            ct = [(z3.Or(*es), t) for t, es in by.items() if t != ins.x['default']]
            de = by.get(ins.x['default'], [])
            dc = z3.Not(z3.Or(*[x for t, es in by.items() if t != ins.x['default'] for x in es])) if ct else z3.BoolVal(True)
            ct.append((dc, ins.x['default']))
            return self.branch(st, ct, out, stop)
        if op == 'ret':
            v = self.val(st, ins.ty, ins.a[0]) if ins.a else None
            return self.do_return(st, v, out, stop)
        if op == 'unreachable':
            self.oblige(st, 'unreachable code is not reached', False, 'mem'); raise PathEnd()
        if op in ('call', 'invoke'):
            return self.do_call(st, f, ins, out, stop)
        if op == 'resume':
            return self.unwind(st, out, stop)
        f.idx += 1
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.val(st, ins.ty, ins.a[0]); b = self.val(st, ins.ty, ins.a[1])
            if isinstance(a, Opaque) or isinstance(b, Opaque): raise Unsupported('int op on opaque')
            if not isinstance(a, z3.BitVecRef): raise Unsupported('vector op')
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                z = simp(b != 0)
                if not z3.is_true(z): self.oblige(st, 'division by zero', z, 'mem')
            if op in ('shl', 'lshr', 'ashr'):
                z = simp(z3.ULT(b, BV(b.size(), b.size())))
                if not z3.is_true(z): self.oblige(st, 'shift amount in range', z, 'mem')
            if 'nsw' in ins.x['fl'] and 'nsw' in self.checks:
                ok = None
                if op == 'add': ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
                elif op == 'sub': ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
                elif op == 'mul': ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
                if ok is not None:
                    ok = simp(ok)
                    if not z3.is_true(ok): self.oblige(st, 'signed overflow', ok, 'mem')
            if op == 'sdiv' and 'exact' in ins.x['fl'] and isconst(b):
                # a pointer difference: elements of an abstracted type are as far apart as the size given to it says
                d = cval(b); d = {self.m.realsize(Ty('named', t)): z for t, z in self.m.absz.items()}.get(d, d); k = d.bit_length()-1
                if d == 1 << k: env[ins.res] = simp(a >> k); return None
                b = BV(d, b.size())
            env[ins.res] = simp(self.binop(op, a, b)); return None
        if op == 'cast':
            x = self.val(st, ins.x['frm'], ins.a[0])
            env[ins.res] = self.cast(ins.x['sub'], ins.x['frm'], x, ins.ty); return None
        if op == 'icmp':
            a = self.val(st, ins.ty, ins.a[0]); b = self.val(st, ins.ty, ins.a[1])
            env[ins.res] = self.icmp(ins.x['pred'], a, b); return None
        if op == 'fcmp':
            env[ins.res] = fresh('fcmp', 1); return None
        if op == 'fbin':
            env[ins.res] = Opaque('fp'); return None
        if op == 'load':
            try:
                env[ins.res] = self.load(st, self.asptr(st, self.val(st, PTR, ins.a[0])), ins.ty)
            except NeedConcrete:
                f.idx -= 1; raise
            return None
        if op == 'store':
            v = self.val(st, ins.ty, ins.a[0]); p = self.asptr(st, self.val(st, PTR, ins.a[1]))
            try: self.store(st, p, ins.ty, v)
            except NeedConcrete:
                f.idx -= 1; raise
            return None
        if op == 'gep':
            ops = [(t, self.val(st, t, v)) for t, v in ins.a]
            env[ins.res] = self.gep(ins.ty, ops); return None
        if op == 'alloca':
            n = 1
            if ins.a[0]: 
                nv = simp(self.val(st, *ins.a[0])); n = cval(nv)
            i = self.new_obj(st, ins.res, self.m.size(ins.ty)*n)
            f.allocas.append(i)
            env[ins.res] = Ptr(i, bv64(0)); return None
        if op == 'select':
            c = self.bv2b(self.val(st, INT(1), ins.a[0]))
            a = self.val(st, ins.ty, ins.a[1]); b = self.val(st, ins.ty, ins.a[2])
            if z3.is_true(c): env[ins.res] = a; return None
            if z3.is_false(c): env[ins.res] = b; return None
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                env[ins.res] = simp(z3.If(c, a, b)); return None
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                env[ins.res] = Ptr(a.obj, simp(z3.If(c, a.off, b.off))); return None
            if isinstance(a, Opaque) and isinstance(b, Opaque): env[ins.res] = Opaque('sel'); return None
            res = []
            for cc, v in ((c, a), (z3.Not(c), b)):
                if self.sol.feasible(st.pc + [cc]):
                    s2 = st.fork(); s2.assume(cc); s2.frames[-1].env[ins.res] = v; res.append(s2)
            return res
        if op == 'extractvalue':
            v = self.val(st, ins.ty, ins.a[0])
            for i in ins.x['ix']: v = v[i]
            env[ins.res] = v; return None
        if op == 'insertvalue':
            v = self.val(st, ins.ty, ins.a[0]); e = self.val(st, ins.x['ety'], ins.a[1])
            def ins_(v, ix):
                if not ix: return e
                l = list(v); l[ix[0]] = ins_(l[ix[0]], ix[1:]); return tuple(l)
            env[ins.res] = ins_(v, ins.x['ix']); return None
        if op == 'freeze':
            env[ins.res] = self.val(st, ins.ty, ins.a[0]); return None
        if op == 'landingpad':
            env[ins.res] = self.landing(st, ins); return None
        if op == 'atomicrmw':
            p = self.asptr(st, self.val(st, PTR, ins.a[0])); v = self.val(st, ins.ty, ins.a[1])
            old = self.load(st, p, ins.ty, 'atomicrmw')
            s = ins.x['sub']
            new = v if s == 'xchg' else self.binop(s, old, v)
            self.store(st, p, ins.ty, simp(new) if s != 'xchg' else new, 'atomicrmw')
            env[ins.res] = old; return None
        if op == 'cmpxchg':
            p = self.asptr(st, self.val(st, PTR, ins.a[0])); c = self.val(st, ins.ty, ins.a[1]); n = self.val(st, ins.ty, ins.a[2])
            old = self.load(st, p, ins.ty, 'cmpxchg')
            eq = self.bv2b(self.icmp('eq', old, c)); res = []
            for cond, ok in ((eq, 1), (z3.Not(eq), 0)):
                cond = simp(cond)
                if z3.is_false(cond) or not z3.is_true(cond) and not self.sol.feasible(st.pc + [cond]): continue
                s2 = st.fork(); s2.assume(cond)
                if ok: self.store(s2, p, ins.ty, n, 'cmpxchg')
                s2.frames[-1].env[ins.res] = (old, BV(ok, 1)); res.append(s2)
            return res
        if op == 'asm':
            if ins.res: env[ins.res] = self.undef(ins.ty)
            return None
        raise Unsupported('op ' + op)

    def asptr(self, st, v):
        if isinstance(v, Ptr):
            if v.obj is None:
                return self.resolve_ptr(st, v)
            return v
        raise Unsupported('not a pointer')
    def resolve_ptr(self, st, p):
        q = self.int2ptr(p.off)
        return q

    # ----------------------------------------------------------- calls
    def do_return(self, st, v, out, stop):
        f = st.frames.pop()
        for a in f.allocas:
            if a in st.mem:
                o = st.mem[a].copy(); o.alive = False; st.mem[a] = o
        if not st.frames:
            out.append(Outcome('ret', st, v)); return []
        ins = f.retinst
        g = st.frames[-1]
        if ins.res is not None: g.env[ins.res] = v
        if ins.op == 'invoke': return self.goto(st, ins.x['succ'][0], out, stop)
        g.idx += 1
        return None
    def unwind(self, st, out, stop):
        """exception st.exc propagates out of the current frame"""
        while True:
            if st.frames[-1].cutloops:
                st.frames[-1].cutloops[-1][1].exits.append((st, None)); return []
            f = st.frames.pop()
            for a in f.allocas:
                if a in st.mem:
                    o = st.mem[a].copy(); o.alive = False; st.mem[a] = o
            if not st.frames:
                out.append(Outcome('throw', st, None, st.exc)); return []
            if f.retinst.op == 'invoke':
                return self.goto(st, f.retinst.x['succ'][1], out, stop)
    def raise_exc(self, st, exc, ins, out, stop):
        st.exc = exc
        if ins.op == 'invoke':
            return self.goto(st, ins.x['succ'][1], out, stop)
        return self.unwind(st, out, stop)
    def landing(self, st, ins):
        t = st.exc['type'] if st.exc else '?'
        sel = 0
        for c in ins.x['clauses']:
            if c[0] == 'catch':
                v = c[1]
                if v[0] == 'null': sel = self.typeid('*'); break
                if v[0] == 'glob' and self.exc_isa(t, v[1][4:]): sel = self.typeid(v[1][4:]); break
            elif c[0] == 'filter':
                raise Unsupported('exception filter')
        eo = st.exc.get('obj') if st.exc else None
        return (eo if eo is not None else Ptr(NULL, bv64(1)), BV(sel, 32))
    def typeid(self, n):
        d = self.ispec_cache.setdefault('typeid', {})
        return d.setdefault(n, len(d)+1)

    def handler_for(self, name):
        if name in self.modelcache: return self.modelcache[name]
        d = self.m.demangled.get(name, name)
        h = None
        for rx, fn, label in self.models:
            if rx.search(d) or rx.search(name):
                h = (fn, label); break
        self.modelcache[name] = h
        return h

    def do_call(self, st, f, ins, out, stop):
        cal = ins.x['callee']
        if cal[0] == 'glob': name = cal[1]
        else:
            v = self.val(st, PTR, cal)
            name = None
            if isinstance(v, Ptr):
                for n, i in self.fnobjs.items():
                    if i == v.obj: name = n
                if name is None:
                    # thunks / aliases resolved through global_ptr already
                    if v.obj == NULL or v.obj is None:
                        self.oblige(st, 'indirect call target valid', False, 'mem'); raise PathEnd()
            if name is None: raise Unsupported('indirect call')
        g = self.m.globals.get(name)
        if name not in self.m.funcs and name not in self.m.decls and g is not None:
            p = self.global_ptr(name)
            for n, i in self.fnobjs.items():
                if i == p.obj: name = n
        d = self.m.demangled.get(name, name)
        args = [self.val(st, t, v) if v is not None else None for t, v in ins.a]
        # contract?
        c = self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(d)
            rs = c(self, st, args, ins)
            return self.finish_call(st, rs, ins, out, stop)
        h = self.handler_for(name)
        if h is not None:
            fn, label = h
            if label: self.assumed[label] = self.assumed.get(label, 0)+1
            rs = fn(self, st, args, ins, d)
            if rs is not INLINE:
                return self.finish_call(st, rs, ins, out, stop)
        fn = get_func(self.m, name)
        if fn is None:
            raise Unsupported('call to a function without body or contract: ' + d[:160])
        if len(st.frames) > 60: raise Unsupported('call depth')
        self.inlined.add(d)
        nf = Frame(fn)
        for (t, pn), a in zip(fn.params, args): nf.env[pn] = a
        nf.retinst = ins
        st.frames.append(nf)
        return None
    def finish_call(self, st0, rs, ins, out, stop):
        """rs: list of (state, value) or (state, None, exc)"""
        res = []
        multi = len(rs) > 1
        for r in rs:
            s, v = r[0], r[1]
            exc = r[2] if len(r) > 2 else None
            try:
                if exc is not None:
                    q = self.raise_exc(s, exc, ins, out, stop)
                else:
                    g = s.frames[-1]
                    if ins.res is not None: g.env[ins.res] = v
                    if ins.op == 'invoke': q = self.goto(s, ins.x['succ'][0], out, stop)
                    else: g.idx += 1; q = None
            except PathEnd:
                continue
            if q is None: res.append(s)
            else: res.extend(q)
        if not multi and len(res) == 1 and res[0] is st0: return None
        return res

class PathEnd(Exception):
    pass
class NeedConcrete(Exception):
    def __init__(self, p): self.p = p
INLINE = object()
