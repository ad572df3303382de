"""Parser for the textual LLVM-18 IR that clang emits for the code under /repo.

Only what clang actually produces for the functions under contract is accepted;
anything else raises Unsupported, which the checker reports as an undischarged
extraction obligation (never as success)."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
    (?P<ws>[ \t]+)
  | (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<hexfp>0x[KLMH]?[0-9A-Fa-f]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
  | (?P<word>[a-zA-Z_][a-zA-Z_0-9.]*)
  | (?P<punc>\.\.\.|[()\[\]{}<>,=*:])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise Unsupported('token: ' + s[i:i+60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz')
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
    def __repr__(self):
        return f'{self.k}:{self.a}:{self.b}' if self.b is not None else f'{self.k}:{self.a}'
    def __eq__(self, o):
        return isinstance(o, Ty) and (self.k, self.a, self.b) == (o.k, o.a, o.b)
    def __hash__(self):
        return hash((self.k, str(self.a), str(self.b)))

VOID = Ty('void')
PTR = Ty('ptr')
def INT(w): return Ty('int', w)
LABEL = Ty('label')
META = Ty('metadata')

PARAM_ATTRS = {'noundef','nonnull','signext','zeroext','inreg','byval','sret','noalias','nocapture','readonly',
 'readnone','writeonly','returned','immarg','nest','swiftself','inalloca','noreturn','nofree','dead_on_unwind',
 'writable','allocalign','allocptr','captures','initializes','noext'}
FASTMATH = {'fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'}

class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else ('eof', '')
    def next(self):
        r = self.peek(); self.i += 1; return r
    def at(self, v):
        return self.peek()[1] == v
    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('punc', 'word'):
            self.i += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise Unsupported(f'expected {v} got {self.peek()} in {" ".join(x[1] for x in self.t)[:200]}')
    # -- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void': t = VOID
            elif v == 'ptr':
                t = PTR
                if self.at('addrspace'):
                    raise Unsupported('addrspace')
            elif re.fullmatch(r'i[0-9]+', v): t = INT(int(v[1:]))
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'): t = Ty('fp', v)
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v == 'opaque': t = Ty('opaque')
            elif v == 'token': t = Ty('token')
            else: raise Unsupported('type ' + v)
        elif k == 'loc':
            t = Ty('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', n, e)
        elif v == '{':
            t = Ty('struct', tuple(self.typelist('}')), False)
        elif v == '<':
            if self.at('{'):
                self.next()
                t = Ty('struct', tuple(self.typelist('}')), True); self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', n, e)
        else:
            raise Unsupported(f'type tok {k} {v}')
        # function type suffix: T (args)
        if self.at('(') :
            # function type, used in calls to varargs: skip
            save = self.i
            try:
                self.next()
                while not self.accept(')'):
                    if self.accept('...'): pass
                    else: self.type()
                    self.accept(',')
                t = Ty('fn', t)
            except Unsupported:
                self.i = save
        return t
    def typelist(self, close):
        r = []
        while not self.accept(close):
            r.append(self.type()); self.accept(',')
        return r
    def skip_param_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                if self.at('('):
                    self.skip_parens()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'elementtype', 'range', 'memory', 'nofpclass'):
                self.next()
                if self.at('('): self.skip_parens()
                else: self.next()
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.at('='): self.next(); self.next()
            else:
                return
    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()
            if v[0] == 'eof': raise Unsupported('parens')
            if v[1] == '(' : d += 1
            elif v[1] == ')': d -= 1
    # -- values
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('loc', v)
        if k == 'glob': return ('glob', unq(v))
        if k == 'num':
            if ty.k == 'int': return ('int', ty.a, int(v) & ((1 << ty.a)-1))
            return ('fp', v)
        if k == 'hexfp': return ('fp', v)
        if k == 'str':
            return ('cstr', decode_cstr(v))
        if k == 'word':
            if v == 'true': return ('int', 1, 1)
            if v == 'false': return ('int', 1, 0)
            if v == 'null': return ('null',)
            if v == 'none': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'zeroinitializer': return ('zero',)
            if v in ('getelementptr',):
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    self.next()
                    if self.at('('):
                        # inrange(..) or the operand list
                        if self.t[self.i-1][1] == 'inrange': self.skip_parens()
                self.expect('(')
                bt = self.type(); self.expect(',')
                ops = []
                while not self.accept(')'):
                    if self.peek()[1] == 'inrange': self.next()
                    t = self.type(); ops.append((t, self.value(t))); self.accept(',')
                return ('gep', bt, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'icmp'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'): self.next()
                pred = None
                if v == 'icmp': pred = self.next()[1]
                self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
                return ('cbin', v, t, a, b, pred)
            if v == 'asm': raise Unsupported('asm')
            raise Unsupported('value ' + v)
        if v == '{' or v == '[':
            close = '}' if v == '{' else ']'
            el = []
            while not self.accept(close):
                t = self.type(); el.append((t, self.value(t))); self.accept(',')
            return ('agg', el)
        if v == '<':
            if self.at('{'):
                self.next(); el = []
                while not self.accept('}'):
                    t = self.type(); el.append((t, self.value(t))); self.accept(',')
                self.expect('>')
                return ('agg', el)
            el = []
            while not self.accept('>'):
                t = self.type(); el.append((t, self.value(t))); self.accept(',')
            return ('vecc', el)
        raise Unsupported(f'value tok {k} {v}')
    def tv(self):
        t = self.type(); self.skip_param_attrs(); return (t, self.value(t))

def unq(n):
    return n[1:].strip('"') if n[0] in '@%' else n

def decode_cstr(v):
    s = v[2:-1] if v.startswith('c') else v[1:-1]
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin1'); i += 1
    return bytes(out)

class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'x')
    def __init__(self, op, res=None, ty=None, a=None, **x):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x
    def __repr__(self):
        return f'{self.res}={self.op} {self.ty} {self.a} {self.x}'

class Block:
    __slots__ = ('name', 'insts', 'succ', 'phis')
    def __init__(self, name):
        self.name = name; self.insts = []; self.succ = []; self.phis = []

class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}; self.order = []
        self.entry = None
        self._loops = None
    def loops(self):
        if self._loops is None:
            self._loops = natural_loops(self)
        return self._loops

class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.demangled = {}
        self.text = ''
    # -- layout (x86-64)
    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.a]
        return t
    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            w = (t.a+7)//8
            p = 1
            while p < w: p *= 2
            return min(p, 16)
        if t.k == 'ptr': return 8
        if t.k == 'fp': return {'float':4,'double':8,'x86_fp80':16,'half':2,'fp128':16}[t.a]
        if t.k == 'arr': return self.align(t.b)
        if t.k == 'vec': return self.size(t)
        if t.k == 'struct':
            if t.b: return 1
            return max([self.align(e) for e in t.a] or [1])
        raise Unsupported(f'align {t}')
    absz = {}       # sizes given to types that are used through contracts only (their layout plays no role)
    def realsize(self, t):
        a, self.absz = self.absz, {}
        try: return self.size(t)
        finally: self.absz = a
    def size(self, t):
        while t.k == 'named':
            if t.a in self.absz: return self.absz[t.a]
            t = self.types[t.a]
        if t.k == 'int':
            w = (t.a+7)//8
            a = self.align(t)
            return (w + a-1)//a*a
        if t.k == 'ptr': return 8
        if t.k == 'fp': return {'float':4,'double':8,'x86_fp80':16,'half':2,'fp128':16}[t.a]
        if t.k == 'arr': return t.a*self.size(t.b)
        if t.k == 'vec': return t.a*self.size(t.b)
        if t.k == 'struct':
            return self.layout(t)[1]
        raise Unsupported(f'size {t}')
    def layout(self, t):
        off = 0; offs = []
        for e in t.a:
            if not t.b:
                al = self.align(e); off = (off+al-1)//al*al
            offs.append(off); off += self.size(e)
        if not t.b:
            al = max([self.align(e) for e in t.a] or [1]); off = (off+al-1)//al*al
        return offs, off

def natural_loops(fn):
    # dominators (simple iterative)
    order = []
    seen = set()
    st = [(fn.entry, iter(fn.blocks[fn.entry].succ))]
    seen.add(fn.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(fn.blocks[s].succ))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in fn.blocks[b].succ: preds[s].append(b)
    dom = {fn.entry: fn.entry}
    ch = True
    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]: a = dom[a]
            while idx[b] > idx[a]: b = dom[b]
        return a
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in preds[b] if p in dom]
            n = ps[0]
            for p in ps[1:]: n = inter(p, n)
            if dom.get(b) != n: dom[b] = n; ch = True
    def dominates(a, b):
        while True:
            if a == b: return True
            if b == fn.entry: return False
            b = dom[b]
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succ:
            if dominates(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st += preds[x]
            elif idx[s] <= idx[b]:
                raise Unsupported('irreducible control flow in ' + fn.name)
    return loops

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'}
FBIN = {'fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast'}

LINKAGE = {'private','internal','available_externally','linkonce','weak','common','appending','extern_weak','linkonce_odr',
 'weak_odr','external','dso_local','dso_preemptable','hidden','protected','default','unnamed_addr','local_unnamed_addr','thread_local',
 'fastcc','ccc','coldcc','noundef','nonnull','zeroext','signext','noalias'}

def parse_header(line):
    """name of function in a define/declare line"""
    m = re.search(r'@(?:"([^"]+)"|([-a-zA-Z$._0-9]+))\(', line)
    return m.group(1) or m.group(2)

def parse_func_sig(p):
    # after 'define'/'declare'
    while True:
        k, v = p.peek()
        if k == 'word' and v in LINKAGE: 
            p.next()
        elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
            p.skip_param_attrs()
        else: break
    p.skip_param_attrs()
    ret = p.type()
    name = unq(p.next()[1])
    p.expect('(')
    params = []
    n = 0
    sret = None
    while not p.accept(')'):
        if p.accept('...'): continue
        t = p.type()
        start = p.i
        p.skip_param_attrs()
        if any(x[1] == 'sret' for x in p.t[start:p.i]): sret = len(params)
        if any(x[1] == 'byval' for x in p.t[start:p.i]): raise Unsupported('byval parameter')
        if p.peek()[0] == 'loc': nm = p.next()[1]
        else: nm = '%' + str(n)
        n += 1
        params.append((t, nm)); p.accept(',')
    return name, ret, params, sret

def parse_module(text):
    m = Module(); m.text = text
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            m.types[nm.strip()] = Parser(tokenize(rest), m).type()
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('declare'):
            try:
                p = Parser(tokenize(ln), m); p.next()
                name, ret, params, sret = parse_func_sig(p)
                m.decls[name] = (ret, params, sret)
            except Unsupported:
                m.decls[parse_header(ln)] = None
        elif ln.startswith('define'):
            body = []
            j = i+1
            while lines[j] != '}':
                body.append(lines[j]); j += 1
            m.funcs[parse_header(ln)] = (ln, body)
            i = j
        i += 1
    return m

def get_func(m, name):
    f = m.funcs.get(name)
    if f is None: return None
    if isinstance(f, Func): return f
    fn = parse_func(m, *f)
    m.funcs[name] = fn
    return fn

def parse_global(m, ln):
    g = re.match(r'@(?:"([^"]+)"|([-a-zA-Z$._0-9]+)) = (.*)$', ln)
    name = g.group(1) or g.group(2)
    rest = g.group(3)
    m.globals[name] = rest   # lazily parsed

def get_global(m, name):
    g = m.globals.get(name)
    if g is None: return None
    if isinstance(g, tuple): return g
    p = Parser(tokenize(g), m)
    isconst = False; ext = False; alias = False
    while True:
        k, v = p.next()
        if v in ('constant',): isconst = True; break
        if v == 'global': break
        if v == 'alias': alias = True; break
        if v == 'external': ext = True
        if v in ('thread_local', 'addrspace', 'externally_initialized') : 
            pass
        if k == 'eof': raise Unsupported('global ' + g[:80])
    t = p.type()
    if alias:
        p.expect(',')
        t2 = p.type(); v = p.value(t2)
        r = ('alias', v)
    elif p.peek()[0] == 'eof' or p.at(',') or ext:
        r = ('global', t, None, isconst)
    else:
        r = ('global', t, p.value(t), isconst)
    m.globals[name] = r
    return r

def parse_func(m, head, body):
    p = Parser(tokenize(head[:head.rindex('{')]), m); p.next()
    name, ret, params, sret = parse_func_sig(p)
    fn = Func(name, ret, params)
    fn.sret = sret
    fn.line = head
    cur = None
    # join multi-line switch / landingpad / invoke
    joined = []
    k = 0
    while k < len(body):
        l = body[k]
        s = l.strip()
        if re.match(r'switch ', s) and '[' in s and not s.split(';')[0].rstrip().endswith(']'):
            while not body[k].strip().startswith(']'):
                k += 1; l = l + ' ' + body[k].strip()
        elif re.search(r'(^|= )invoke ', s) and ' unwind label' not in s:
            k += 1; l = l + ' ' + body[k].strip()
        elif re.search(r'= landingpad ', s):
            while k+1 < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[k+1]):
                k += 1; l = l + ' ' + body[k].strip()
        joined.append(l); k += 1
    first = True
    for l in joined:
        if not l.strip() or l.strip().startswith(';'): continue
        mm = re.match(r'^(?:"([^"]+)"|([-a-zA-Z$._0-9]+)):', l)
        if mm:
            nm = '%' + (mm.group(1) and '"' + mm.group(1) + '"' or mm.group(2))
            cur = Block(nm); fn.blocks[nm] = cur; fn.order.append(nm)
            if first: fn.entry = nm; first = False
            continue
        if cur is None:
            nm = '%' + str(sum(1 for t, n in params if re.fullmatch(r'%[0-9]+', n)))
            cur = Block(nm); fn.blocks[nm] = cur; fn.order.append(nm); fn.entry = nm; first = False
        ins = parse_inst(m, l.strip())
        if ins is None: continue
        if ins.op == 'phi': cur.phis.append(ins)
        else: cur.insts.append(ins)
        if ins.op in ('br', 'switch', 'invoke'): cur.succ = ins.x['succ']
    return fn

def parse_inst(m, s):
    # drop trailing metadata
    s = re.sub(r', ![a-zA-Z][-a-zA-Z$._0-9]* ![0-9]+', '', s)
    s = re.sub(r', !srcloc ![0-9]+', '', s)
    toks = tokenize(s)
    p = Parser(toks, m)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BIN:
        fl = []
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'): fl.append(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Inst(op, res, t, [a, b], fl=fl)
    if op in FBIN:
        while p.peek()[1] in FASTMATH: p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Inst('fbin', res, t, [a, b], sub=op)
    if op == 'fneg':
        while p.peek()[1] in FASTMATH: p.next()
        t = p.type(); a = p.value(t)
        return Inst('fbin', res, t, [a, a], sub=op)
    if op in CAST:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'): p.next()
        t, v = p.tv(); p.expect('to'); t2 = p.type()
        return Inst('cast', res, t2, [v], sub=op, frm=t)
    if op == 'icmp' or op == 'fcmp':
        while p.peek()[1] in FASTMATH: p.next()
        pred = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return Inst(op, res, t, [a, b], pred=pred)
    if op == 'alloca':
        p.accept('inalloca'); t = p.type()
        n = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                nt = p.type(); n = (nt, p.value(nt))
        return Inst('alloca', res, t, [n])
    if op == 'load':
        at = p.accept('atomic'); p.accept('volatile')
        t = p.type(); p.expect(','); pt, pv = p.tv()
        return Inst('load', res, t, [pv], atomic=at)
    if op == 'store':
        at = p.accept('atomic'); p.accept('volatile')
        t = p.type(); v = p.value(t); p.expect(','); pt, pv = p.tv()
        return Inst('store', None, t, [v, pv], atomic=at)
    if op == 'getelementptr':
        ib = False
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next(); ib = True
        bt = p.type(); p.expect(',')
        ops = []
        while True:
            t = p.type(); ops.append((t, p.value(t)))
            if not p.accept(','): break
        return Inst('gep', res, bt, ops, inb=ib)
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next(); d = p.next()[1]
            return Inst('br', None, None, [], succ=[d])
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
        return Inst('br', None, None, [c], succ=[a, b])
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type(); cv = p.value(ct); p.expect(','); p.expect('label'); cases.append((cv, p.next()[1]))
        return Inst('switch', None, t, [v], succ=[d] + [c[1] for c in cases], cases=cases, default=d)
    if op == 'ret':
        t = p.type()
        if t.k == 'void': return Inst('ret', None, t, [])
        return Inst('ret', None, t, [p.value(t)])
    if op == 'phi':
        while p.peek()[1] in FASTMATH: p.next()
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next()[1]; p.expect(']'); inc.append((v, b))
            if not p.accept(','): break
        return Inst('phi', res, t, inc)
    if op == 'select':
        while p.peek()[1] in FASTMATH: p.next()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        return Inst('select', res, t, [c, a, b])
    if op == 'extractvalue':
        t, v = p.tv(); ix = []
        while p.accept(','): ix.append(int(p.next()[1]))
        return Inst('extractvalue', res, t, [v], ix=ix)
    if op == 'insertvalue':
        t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); ix = []
        while p.accept(','): ix.append(int(p.next()[1]))
        return Inst('insertvalue', res, t, [v, v2], ix=ix, ety=t2)
    if op == 'freeze':
        t, v = p.tv(); return Inst('freeze', res, t, [v])
    if op == 'unreachable': return Inst('unreachable', None, None, [])
    if op == 'resume':
        t, v = p.tv(); return Inst('resume', None, t, [v])
    if op == 'landingpad':
        t = p.type(); cl = []
        while True:
            if p.accept('cleanup'): cl.append(('cleanup',))
            elif p.accept('catch'):
                ct = p.type(); cl.append(('catch', p.value(ct)))
            elif p.accept('filter'):
                ct = p.type(); cl.append(('filter', p.value(ct)))
            else: break
        return Inst('landingpad', res, t, [], clauses=cl)
    if op in ('call', 'invoke'):
        while p.peek()[1] in FASTMATH or p.peek()[1] in ('fastcc', 'ccc', 'coldcc'): p.next()
        p.skip_param_attrs()
        while p.peek()[1] in LINKAGE: p.next()
        p.skip_param_attrs()
        t = p.type()
        if t.k == 'fn': t = t.a
        if p.peek()[1] == 'asm':
            if '""' in s or 'memory' in s: 
                return Inst('asm', res, t, [], text=s)
            raise Unsupported('inline asm')
        cal = p.value(PTR)
        p.expect('(')
        args = []
        while not p.accept(')'):
            at = p.type(); p.skip_param_attrs()
            if at.k == 'metadata':
                d = 0
                while not (d == 0 and p.peek()[1] in (',', ')')):
                    x = p.next()[1]
                    if x == '(': d += 1
                    if x == ')': d -= 1
                args.append((at, None))
            else:
                args.append((at, p.value(at)))
            p.accept(',')
        x = {}
        if op == 'invoke':
            while p.peek()[1] != 'to': p.next()
            p.next(); p.expect('label'); nd = p.next()[1]; p.expect('unwind'); p.expect('label'); ud = p.next()[1]
            x['succ'] = [nd, ud]
        return Inst(op, res, t, args, callee=cal, **x)
    if op == 'fence': return None
    if op == 'atomicrmw':
        p.accept('volatile'); sub = p.next()[1]
        pt, pv = p.tv(); p.expect(','); t, v = p.tv()
        return Inst('atomicrmw', res, t, [pv, v], sub=sub)
    if op == 'cmpxchg':
        p.accept('weak'); p.accept('volatile')
        pt, pv = p.tv(); p.expect(','); t, c = p.tv(); p.expect(','); t2, n = p.tv()
        return Inst('cmpxchg', res, t, [pv, c, n])
    raise Unsupported('instruction ' + s[:100])
