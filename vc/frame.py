"""Check runner: builds the IR of the real code, discharges every contract, runs the native contract validation,
decides, writes evidence."""
import threading, os, sys, time, json, subprocess, traceback, multiprocessing, tempfile, shutil, re, signal
import z3
from . import build, models, spec
from .ir import Unsupported
from .sym import NeedInvariant, PathLimit

VERIF = build.HERE
REPO = build.REPO

class Contract:
    """One function (or composition) under contract.
    setup/post: see spec.run_contract.  cex(ex, model, ctx) -> list of native case argument lists."""
    def __init__(self, name, entry, setup, post, text='', harness=None, contracts=None, cex=None, timeout=240, thorough=False, **kw):
        self.name, self.entry, self.setup, self.post, self.text = name, entry, setup, post, text
        self.harness, self.contracts, self.cex, self.timeout, self.thorough, self.kw = harness, contracts, cex, timeout, thorough, kw

class Timeout(Exception):
    pass
def _alarm(*a): raise Timeout()

def run_one(mod, c, conn):
    r = {'name': c.name, 'entry': c.entry, 'text': c.text, 'status': 'error', 'obligs': [], 'cases': []}
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(c.timeout)+20)
    try:
        if c.entry is None:
            ex = spec.run_lemma(c.obls())
        else:
          cons = c.contracts(mod) if c.contracts else None
          ex = spec.run_contract(mod, c.entry, c.setup, c.post, contracts=cons, timeout=c.timeout, cex=c.cex, **c.kw)
        r['obligs'] = [dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3), detail=o.detail, fn=o.fn[:200]) for o in ex.obligs]
        r['cases'] = ex.cases
        r['assumed'] = ex.assumed; r['loops'] = ex.loopinfo; r['inlined'] = sorted(ex.inlined); r['contracts_used'] = sorted(ex.used_contracts)
        r['solver_s'] = round(ex.sol.time, 2); r['queries'] = ex.sol.queries; r['paths'] = ex.paths; r['outcomes'] = ex.nout
        post = [o for o in ex.obligs if o.kind in ('post', 'lemma')]
        if not post and all(o.status == 'proved' for o in ex.obligs): r['status'] = 'undecided'; r['why'] = 'no postcondition obligation generated (vacuous)'
        elif all(o.status == 'proved' for o in ex.obligs): r['status'] = 'proved'
        elif any(o.status == 'refuted' for o in ex.obligs): r['status'] = 'refuted'
        else: r['status'] = 'undecided'; r['why'] = 'obligation not discharged by z3 or cvc5'
    except Unsupported as e:
        r['status'] = 'undecided'; r['why'] = 'outside the verifier: ' + str(e)
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    except (NeedInvariant, PathLimit) as e:
        r['status'] = 'undecided'; r['why'] = 'no inductive invariant found / path limit: ' + repr(e)
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    except Timeout:
        r['status'] = 'undecided'; r['why'] = 'verification time limit reached'
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    except BaseException as e:
        r['status'] = 'undecided'; r['why'] = 'verifier error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()[:400]
        if os.environ.get('VC_TRACE'): traceback.print_exc()
    signal.alarm(0)
    r['wall'] = round(time.time()-t0, 2)
    conn.send(r); conn.close()
    os._exit(0)

def run_parallel(jobs, nproc=8, stop=lambda: False):
    """jobs: list of (mod, contract); stop: give up what is not decided yet"""
    pending = list(jobs); active = []; results = []
    while pending or active:
        if stop():
            for p, a, c, t in active: p.kill(); p.join()
            for c, t in [(c, t) for p, a, c, t in active] + [(c, time.time()) for m, c in pending]:
                results.append({'name': c.name, 'entry': c.entry, 'text': c.text, 'status': 'undecided', 'why': 'stopped: the real code had already failed on a concrete input', 'obligs': [], 'cases': [], 'wall': time.time()-t})
            break
        while pending and len(active) < nproc:
            mod, c = pending.pop(0)
            a, b = multiprocessing.Pipe(False)
            p = multiprocessing.Process(target=run_one, args=(mod, c, b)); p.start(); b.close()
            active.append((p, a, c, time.time()))
        still = []
        for p, a, c, t in active:
            r = None
            if a.poll(0.02):
                try: r = a.recv()
                except EOFError: r = {'name': c.name, 'entry': c.entry, 'text': c.text, 'status': 'undecided', 'why': 'verifier process died', 'obligs': [], 'cases': [], 'wall': time.time()-t}
            elif time.time()-t > c.timeout+60:
                p.kill()
                r = {'name': c.name, 'entry': c.entry, 'text': c.text, 'status': 'undecided', 'why': 'verification time limit reached', 'obligs': [], 'cases': [], 'wall': time.time()-t}
            if r is None: still.append((p, a, c, t))
            else: p.join(); results.append(r)
        active = still
    order = {c.name: i for i, (m, c) in enumerate(jobs)}
    results.sort(key=lambda r: order[r['name']])
    return results

# ------------------------------------------------------------------ native
def native_flags(san=True):
    f = ['-std=c++20', '-O1', '-g1', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + VERIF + '/shims', '-I' + VERIF + '/native', '-DDOTTORRENT_USE_OPENSSL', '-DFMT_HEADER_ONLY', '-w']
    if san: f += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-D_GLIBCXX_ASSERTIONS']
    return f

class Native:
    def __init__(self, src, extra_src=(), libs=(), san=True, env=None, flags=()):
        self.src, self.extra, self.libs, self.san, self.flags = src, extra_src, libs, san, flags
        self.dir = tempfile.mkdtemp(prefix='vcnat.')
        self.exe = os.path.join(self.dir, 'drv')
        self.env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=77', TSAN_OPTIONS='halt_on_error=1:exitcode=77:report_signal_unsafe=0', **(env or {}))
    def cmd(self):
        return ['clang++'] + native_flags(self.san) + list(self.flags) + [os.path.join(VERIF, 'native', self.src)] + [os.path.join(REPO, e) for e in self.extra] + ['-o', self.exe] + list(self.libs)
    def start(self):
        self.p = subprocess.Popen(self.cmd(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    def finish(self):
        out = self.p.communicate()[0]
        self.log = out
        return self.p.returncode == 0
    def run(self, args, timeout):
        try:
            r = subprocess.run([self.exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=self.env, cwd=self.dir, errors='replace')
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b''
            return None, o.decode('utf8', 'replace') if isinstance(o, bytes) else o
        out = r.stdout if isinstance(r.stdout, str) else r.stdout.decode('utf8', 'replace')
        if 'FATAL: ThreadSanitizer' in out and any('thread' in x for x in self.flags):
            # the sanitizer cannot run on this kernel (address space layout): same driver without it
            self.flags = [x for x in self.flags if 'fsanitize' not in x]; self.start()
            if self.finish(): return self.run(args, timeout)
        return r.returncode, out
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def last_case(out):
    c = [l[6:] for l in out.split('\n') if l.startswith('case: ')]
    return c[-1] if c else None

class Result:
    pass

def run_property(P, tier, seed):
    t0 = time.time()
    pid = P.ID
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(P, 'LEVEL', 'proof')}
    os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
    try: os.unlink(f'{VERIF}/evidence/replay/{pid}.txt')
    except FileNotFoundError: pass
    nat = None
    errors = []
    results = []
    natres = {'cases': 0}
    viol = None        # (text, concrete?)
    try:
        if getattr(P, 'NATIVE', None):
            nat = Native(**P.NATIVE); nat.start()
        # ---- verify
        jobs = []
        mods = {}
        builderr = None
        cs = [c for c in P.contracts(tier) if tier == 'thorough' or not c.thorough]
        for c in cs:
            h = c.harness or P.HARNESS
            if h not in mods:
                try:
                    mods[h] = build.build(os.path.join(VERIF, 'harness', h), P.BOUNDARY if not isinstance(P.BOUNDARY, dict) else P.BOUNDARY[h], extra=getattr(P, 'FLAGS', ()), keep=getattr(P, 'KEEP', None))
                except (build.BuildError, Unsupported) as e:
                    builderr = str(e); mods[h] = None
            if mods[h] is not None: jobs.append((mods[h], c))
        early = {}
        if nat is not None and getattr(P, 'EARLY', False):
            # long proofs: the native validation runs beside them, and a failing input ends them
            def ahead():
                early['ok'] = nat.finish()
                if early['ok']:
                    early['res'] = nat.run(['search', seed, 5], 80)
                    if early['res'][0] not in (0, 3, None): early['failed'] = time.time()
            th = threading.Thread(target=ahead); th.start()
            results = run_parallel(jobs, stop=lambda: 'failed' in early and time.time() - early['failed'] > 60)
            th.join()
        else: results = run_parallel(jobs)
        nat_ok = True
        if nat is not None:
            nat_ok = early['ok'] if early else nat.finish()
        failed = [r for r in results if r['status'] != 'proved']
        concrete = None
        if nat is not None and nat_ok:
            # replay the verifier's counterexamples first
            for r in failed:
                for args in r.get('cases', []):
                    rc, out = nat.run(['case'] + args, 60)
                    if rc != 0:
                        concrete = ('verifier counterexample replayed', 'case ' + ' '.join(map(str, args)), out); break
                if concrete: break
            budget = (P.SEARCH_FAIL if failed else P.SEARCH)[tier] if hasattr(P, 'SEARCH') else (20 if failed else 5) * (6 if tier == 'thorough' else 1)
            if concrete is None:
                rc, out = early['res'] if 'failed' in early else nat.run(['search', seed, budget], budget*4+60)
                mm = re.findall(r'^cases: (\d+)$', out, re.M)
                natres = {'cases': int(mm[-1]) if mm else 0, 'budget_s': budget, 'rc': rc}
                mm = re.findall(r'^distinct: (\d+)$', out, re.M)
                if mm: natres['distinct'] = int(mm[-1])
                if rc == 0: pass
                elif rc is None:
                    lc = last_case(out)
                    concrete = ('the real code did not finish (hang or deadlock)', 'case ' + str(lc), out[-3000:])
                elif rc == 3: errors.append('native driver error: ' + out[-500:])
                else:
                    lc = last_case(out)
                    concrete = ('native contract validation failed', 'case ' + str(lc), out[-6000:])
        if failed and concrete is None and time.time()-t0 < 560:
            # another proof attempt, with every branch explored separately instead of joined
            names = {r['name'] for r in failed}; again = []
            for m, c in jobs:
                if c.name in names and c.entry is not None:
                    c.kw = dict(c.kw, merge=False); c.timeout = max(60, min(c.timeout, 800 - (time.time()-t0))); again.append((m, c))
            r2 = {r['name']: r for r in run_parallel(again)}
            results = [r2[r['name']] if r['name'] in r2 and r2[r['name']]['status'] == 'proved' else r for r in results]
            failed = [r for r in results if r['status'] != 'proved']
        if nat is not None and not nat_ok and builderr is None:
            errors.append('native driver does not compile: ' + nat.log[-1500:])
        if builderr:
            errors.append('extraction failed: ' + builderr[-1500:])
        known = load_known(pid)
        rp = f'{VERIF}/evidence/replay/{pid}.txt'
        if concrete is not None:
            viol = True
            with open(rp, 'w') as f:
                f.write(f'property {pid}: {P.TITLE}\nVIOLATED: {concrete[0]}\nfailing input: {concrete[1]}\n')
                f.write(f'reproduce: {VERIF}/check.py --property {pid} --replay "{concrete[1]}"\n\n--- output of the real code ---\n{concrete[2]}\n')
                f.write(failed_text(failed))
            print(f'VIOLATION property={pid} replay={rp}')
        elif failed and not errors:
            viol = True
            with open(rp, 'w') as f:
                f.write(f'property {pid}: {P.TITLE}\nan obligation that the contract generates from the current source is not discharged; no failing input was found\n')
                f.write(failed_text(failed))
            print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        for k in known: print(f'KNOWN-FINDING: property={pid} {k}')
        for r in failed: print('  failed contract:', r['name'], r['status'], r.get('why', ''))
        for e in errors: print('ERROR', e)
        obl = [o for r in results for o in r['obligs']]
        disc = [o for o in obl if o['status'] == 'proved']
        bk = {}
        for o in disc: bk[o['backend']] = bk.get(o['backend'], 0)+1
        assumed = {}
        for r in results:
            for k, v in (r.get('assumed') or {}).items(): assumed[k] = assumed.get(k, 0)+v
        cov = {
            'obligations': len(obl), 'discharged': len(disc),
            'checker_cmd': f'python3-vt {VERIF}/check.py --property {pid} --tier {tier}',
            'trusted_base': TRUSTED + list(getattr(P, 'TRUSTED', [])),
            'functions_under_contract': [{'contract': r['name'], 'entry': r['entry'], 'spec': r['text'], 'status': r['status'], 'why': r.get('why'), 'obligations': len(r['obligs']),
                 'discharged': sum(o['status'] == 'proved' for o in r['obligs']), 'paths': r.get('paths'), 'solver_s': r.get('solver_s'), 'wall_s': r['wall'],
                 'callee_contracts': r.get('contracts_used'), 'loops': r.get('loops')} for r in results],
            'real_functions_in_scope': P.FUNCTIONS,
            'backends': bk, 'solver_s': round(sum(r.get('solver_s') or 0 for r in results), 2), 'solver_queries': sum(r.get('queries') or 0 for r in results),
            'obligation_kinds': {k: sum(o['kind'] == k for o in obl) for k in {o['kind'] for o in obl}},
            'ir_sha256': {h: m.sha for h, m in mods.items() if m is not None},
            'native_contract_validation': natres,
        }
        ev['coverage'] = cov
        ev['assumptions'] = [f'assumed library contract: {k} (used at {v} calls)' for k, v in sorted(assumed.items())] + list(getattr(P, 'ASSUMPTIONS', []))
        ev['violations'] = 1 if viol else 0
    finally:
        if nat is not None: nat.close()
        ev['wall_s'] = round(time.time()-t0, 2)
        if 'coverage' not in ev: ev['coverage'] = {'explanation': 'run failed'}
        with open(f'{VERIF}/evidence/{pid}.json', 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{pid}: {len(ev["coverage"].get("functions_under_contract", []))} contracts, {ev["coverage"].get("discharged")}/{ev["coverage"].get("obligations")} obligations discharged, native cases {natres["cases"]}, {ev["wall_s"]}s')
    if viol: return 1
    if errors: return 2
    return 0

TRUSTED = ['clang 18 front end (C++ to LLVM IR) and the listed normalisation passes of opt', 'the VC generator in /verif/vc (sym.py, loops.py)', 'z3 and cvc5',
           'assumed contracts of library functions (vc/models.py), listed under assumptions']

def failed_text(failed):
    s = '\n--- verifier output ---\n'
    for r in failed:
        s += f'contract {r["name"]} (entry {r["entry"]}): {r["status"]} {r.get("why", "")}\n  spec: {r["text"]}\n'
        for o in r['obligs']:
            if o['status'] != 'proved':
                s += f'  obligation NOT discharged: [{o["kind"]}] {o["name"]} in {o["fn"]}: {o["status"]} ({o["backend"]})\n'
                if o['detail']: s += '    model: ' + o['detail'].replace('\n', '\n           ') + '\n'
    return s

def load_known(pid):
    fn = VERIF + '/known_findings.txt'
    r = []
    if os.path.exists(fn):
        for l in open(fn):
            if l.startswith(f'known: property={pid} '): r.append(l.split(' ', 2)[2].strip())
    return r
