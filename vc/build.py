"""Mechanical extraction: compile the real sources of /repo (through a harness TU that only
#includes them and calls the public functions) to LLVM IR, normalise, parse."""
import os, re, subprocess, hashlib, shutil, tempfile
from . import ir

LLVM = '/usr/lib/llvm-18/bin/'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')

class BuildError(Exception):
    pass

PASSES = 'always-inline,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,early-cse,sroa,simplifycfg,adce,loop-simplify)'

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-6000:])
    return r.stdout

def demangle(names):
    names = list(names)
    out = subprocess.run([LLVM + 'llvm-cxxfilt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True).stdout.split('\n')
    return dict(zip(names, out))

def cxx_flags():
    return ['-std=c++20', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + HERE + '/shims', '-DDOTTORRENT_USE_OPENSSL', '-DFMT_HEADER_ONLY',
            '-Wno-everything']

def build(harness, boundary, keep=(), workdir=None, extra=()):
    """harness: path of the TU. boundary: predicate(demangled)->bool: functions whose bodies are dropped
    (they are covered by assumed contracts). keep: predicate(demangled)->bool: functions verified
    separately against a contract (kept out of line)."""
    wd = workdir or tempfile.mkdtemp(prefix='vcir.')
    try:
        raw = os.path.join(wd, 'raw.ll')
        run([LLVM + 'clang++'] + cxx_flags() + list(extra) + ['-O1', '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-fno-discard-value-names',
             '-fno-threadsafe-statics', '-fno-vectorize', '-fno-slp-vectorize', harness, '-o', raw])
        text = open(raw).read()
        lines = text.split('\n')
        names = [ir.parse_header(l) for l in lines if l.startswith('define') or l.startswith('declare')]
        dm = demangle(names)
        out = []
        i = 0
        dropped = set()
        while i < len(lines):
            l = lines[i]
            if l.startswith('define'):
                nm = ir.parse_header(l); d = dm[nm]
                j = i
                while lines[j] != '}': j += 1
                if boundary(d) or nm == '__clang_call_terminate':
                    out.append(to_decl(l)); dropped.add(nm)
                else:
                    b = l.rindex('{')
                    # attribute position: after the closing paren of parameters
                    pos = param_end(l)
                    mm = re.match(r'( (local_)?unnamed_addr)', l[pos:])
                    if mm: pos += mm.end()
                    if nm.startswith('vc_') :
                        pass
                    elif keep and keep(d):
                        l = l[:pos] + ' noinline' + l[pos:]
                    else:
                        l = l[:pos] + ' alwaysinline' + l[pos:]
                    # make everything external so that globaldce keeps entries only through use
                    out.append(l); out += lines[i+1:j+1]
                i = j
            else:
                out.append(l)
            i += 1
        mid = os.path.join(wd, 'mid.ll')
        txt = '\n'.join(out)
        txt = re.sub(r'^(attributes #\d+ = \{[^}]*\})$', lambda mm: re.sub(r'\b(noinline|optnone|inlinehint)\b ?', '', mm.group(1)), txt, flags=re.M)
        open(mid, 'w').write(txt)
        fin = os.path.join(wd, 'fin.ll')
        run([LLVM + 'opt', '-S', '-passes=' + PASSES, '-switch-to-lookup=false', '-bonus-inst-threshold=0', mid, '-o', fin])
        text = open(fin).read()
        m = ir.parse_module(text)
        m.demangled = demangle(list(m.funcs) + list(m.decls) + list(m.globals))
        m.dropped = sorted(dm[x] for x in dropped)
        m.sha = hashlib.sha256(text.encode()).hexdigest()
        return m
    finally:
        if workdir is None:
            shutil.rmtree(wd, ignore_errors=True)

def param_end(l):
    m = re.search(r'@(?:"([^"]+)"|([-a-zA-Z$._0-9]+))\(', l)
    i = m.end(); d = 1
    while d:
        if l[i] == '(': d += 1
        elif l[i] == ')': d -= 1
        i += 1
    return i

def to_decl(l):
    pos = param_end(l)
    s = l[len('define'):pos]
    # find first type start: drop linkage words
    toks = s.split(' ')
    out = []
    m = re.search(r'@(?:"([^"]+)"|([-a-zA-Z$._0-9]+))\(', s)
    head, tail = s[:m.start()], s[m.start():]
    hw = [w for w in head.split(' ') if w and w not in ('linkonce_odr', 'weak_odr', 'internal', 'available_externally', 'dso_local', 'hidden', 'weak', 'linkonce', 'private', 'protected')]
    return 'declare ' + ' '.join(hw) + ' ' + tail
