"""Runs proof units: build from /repo's current sources, discharge, and on failure
look for an input that shows the failure on the executed code."""
import os, re, json, subprocess, tempfile, shutil, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import gen, loops

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
NCPU = os.cpu_count() or 4

CFG = {
    # name: extra defines. MPACK_DEBUG=1 turns mpack's own assertions into obligations.
    'rel':  ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1'],
    'plain': [],
    'size': ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_OPTIMIZE_FOR_SIZE=1'],
    'dbg':  ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_DEBUG=1', '-DMPACK_READ_TRACKING=0', '-DMPACK_WRITE_TRACKING=0',
             '-DMPACK_CUSTOM_ASSERT=1', '-DMPACK_CUSTOM_BREAK=1', '-DVF_DBG=1'],
    'track': ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_READ_TRACKING=1', '-DMPACK_WRITE_TRACKING=1'],
    'nofloat': ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_FLOAT=0', '-DMPACK_DOUBLE=0'],
    'nodouble': ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_DOUBLE=0'],
    'nostd': ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_STDIO=0', '-DMPACK_NO_BUILTINS=1', '-DMPACK_STDLIB=0'],
    'nobuiltin': ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_NO_BUILTINS=1'],
    'smallpage': ['-DMPACK_EXTENSIONS=1', '-DMPACK_COMPATIBILITY=1', '-DMPACK_BUILDER_PAGE_SIZE=112', '-DMPACK_NODE_PAGE_SIZE=128'],
}
COMMON = ['-DMPACK_MALLOC=vf_malloc', '-DMPACK_FREE=vf_free', '-DMPACK_REALLOC=vf_realloc']

# Window mode: buffer/end may lie outside the modelled part of their object by construction,
# so relations between such pointers (never accesses through them) are exempt.
WINDOW_ARTEFACT = re.compile(r'^pointer relation: ')

class Unit:
    def __init__(self, name, harness, entry, fn, replace=(), cases=(None,), cfgs=('rel',), unwind=None, loops=(),
                 defs=(), flags=(), ct=(), vac_ok=(), bounded=None, contract=True, timeout=400, tier='quick', cost=1,
                 objbits=None, nofree=False, native=True, refute_unwind=6, refute_defs=(), checks=True, window=False, internal=None, quick_cfgs=99, rmbody='', aux=False):
        self.__dict__.update(locals()); del self.__dict__['self']
        self.defs = tuple(defs)

class Job:
    """one unit x configuration x case"""
    def __init__(self, unit, cfg, case):
        self.u, self.cfg, self.case = unit, cfg, case
        self.id = '%s@%s%s' % (unit.name, cfg, '' if case is None else '.%s' % case)
        self.status = None; self.failed = []; self.nob = self.ndis = 0; self.secs = 0.0; self.solver = ''
        self.log = ''; self.note = ''; self.functions = []; self.replaced = []

def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return -1, (e.stdout or b'').decode('utf8', 'replace'), 'timeout'

class Engine:
    def __init__(self, tier='quick', seed=1, verbose=False):
        self.tier, self.seed, self.verbose = tier, seed, verbose
        self.dir = tempfile.mkdtemp(prefix='vf-')
        self.lock = threading.Lock(); self.natlocks = {}
        self.sem = threading.Semaphore(NCPU)       # running solver processes
        self.prepare()

    def close(self):
        if os.environ.get('VF_KEEP'): print('kept', self.dir)
        else: shutil.rmtree(self.dir, ignore_errors=True)

    # ---------------------------------------------------------------- sources
    def prepare(self):
        """plain/: links to the sources; loops/: the same with loop contracts inserted."""
        src = os.path.join(REPO, 'src', 'mpack')
        self.files = {f: open(os.path.join(src, f), errors='replace').read() for f in sorted(os.listdir(src)) if f.endswith(('.c', '.h'))}
        self.srchash = hashlib.sha256(''.join(self.files.values()).encode()).hexdigest()[:16]
        self.loop_notes = []
        self.loopdirs = {}
        self.plain_inc = os.path.join(REPO, 'src')
        self.contracts = {}
        for f in sorted(os.listdir(os.path.join(VERIF, 'contracts'))):
            if f.endswith('.ct') and f != 'templates.ct':
                self.contracts[f[:-3]] = gen.parse(os.path.join(VERIF, 'contracts', f))
        self.drop = set(); self.seq = 0
        self.write_contracts()

    def loops_inc(self, fns):
        """a copy of the sources with the loop contracts of these functions inserted"""
        with self.lock:
            if fns in self.loopdirs: return self.loopdirs[fns]
            inc = os.path.join(self.dir, 'loops%d' % len(self.loopdirs)); d = os.path.join(inc, 'mpack'); os.makedirs(d)
            for f, t in self.files.items():
                t2, done, notes = loops.inject(f, t, fns)
                self.loop_notes += notes
                open(os.path.join(d, f), 'w').write(t2)
            self.loopdirs[fns] = inc
            return inc

    def write_contracts(self):
        d = os.path.join(self.dir, 'gen'); os.makedirs(d, exist_ok=True)
        for n, cs in self.contracts.items():
            p = os.path.join(d, 'contracts_%s.gen.h' % n)
            open(p + '.new', 'w').write(gen.gen(cs, self.drop)); os.replace(p + '.new', p)

    def defs(self, job, window=True):
        u = job.u
        d = list(COMMON) + CFG[job.cfg] + list(u.defs)
        if window and getattr(job, 'window', False): d += ['-DVF_WINDOW=1', '-DMPACK_MEMCPY=vf_memcpy']
        if u.objbits: d.append('-DVF_OBJBITS=%d' % u.objbits)
        if job.case is not None:
            c = str(job.case).split('/'); d.append('-DVF_CASE=%s' % c[0])
            if len(c) > 1: d.append('-DVF_SUB=%s' % c[1])
        for x in sorted(self.drop): d.append('-DDROP_%s=1' % x)
        return d

    def inc(self, job, native=False):
        first = [self.loops_inc(job.u.loops)] if (job.u.loops and not native) else []
        return ['-I' + x for x in [os.path.join(VERIF, 'harness'), os.path.join(self.dir, 'gen')] + first + [self.plain_inc]]

    def goto_cc(self, job, mode, out, extra=(), loops_on=None):
        window = mode == 'VF_MODULAR'
        incs = self.inc(job, native=(loops_on is False))
        cmd = ['goto-cc', '-D' + mode] + incs + self.defs(job, window) + list(extra) + \
              ['--function', job.u.entry, os.path.join(VERIF, 'harness', job.u.harness + '.c'), '-o', out]
        for attempt in range(6):
            rc, so, se = sh(cmd, 300)
            if rc == 0 and os.path.exists(out): return True, se
            # a contract no longer matches a changed (internal) signature: drop that contract
            bad = set(re.findall(r"(?:chk|stub)_(\w+)", se)) | set(re.findall(r"conflicting types for [`'‘](\w+)", se)) \
                | set(re.findall(r"implicit declaration of function [`'‘\"](?:chk_)?(\w+)", se))
            known = {c.name for cs in self.contracts.values() for c in cs}
            bad = (bad & known) - self.drop
            if os.environ.get("VF_SHOWERR"): print(se[-3000:])
            if not bad: return False, se
            with self.lock:
                self.drop |= bad; self.write_contracts()
            cmd = cmd[:1] + ['-DDROP_%s=1' % b for b in sorted(bad)] + cmd[1:]
        return False, se

    def functions_with_body(self, gb):
        rc, so, se = sh(['goto-instrument', '--list-goto-functions', '--json-ui', gb], 60)
        names = set()
        try:
            for m in json.loads(so):
                for f in m.get('functions', []) if isinstance(m, dict) else []:
                    if f.get('isBodyAvailable'): names.add(f['name'])
        except Exception:
            pass
        return names

    # ---------------------------------------------------------------- discharge
    def run_cbmc(self, gb, args, timeout, portfolio=True):
        """First of a small portfolio of back ends to answer. Returns (solver, json, secs) or None."""
        base = ['cbmc', gb, '--slice-formula'] + args
        if os.environ.get('VF_KEEP'): print(' '.join(base))
        variants = [('minisat2', base), ('cadical', base + ['--sat-solver', 'cadical'])]
        if '--cvc5' in args or '--z3' in args: variants = [('smt', base)]
        procs = []; t0 = time.time(); res = None
        self.sem.acquire(); held = 1
        try:
            def start(i):
                o = open(gb + '.out%d' % i, 'w')
                procs.append((variants[i][0], subprocess.Popen(variants[i][1], stdout=o, stderr=subprocess.DEVNULL), gb + '.out%d' % i))
            start(0)
            while True:
                el = time.time() - t0
                for name, p, of in procs:
                    if p.poll() is not None:
                        j = parse_results(open(of, errors='replace').read())
                        if j is not None: return name, j, el
                if all(p.poll() is not None for _, p, _ in procs) and len(procs) == len(variants): return None
                if portfolio and len(procs) < len(variants) and (el > 12 or procs[0][1].poll() is not None):
                    if self.sem.acquire(blocking=False): held += 1; start(len(procs))
                    elif el > 45 or procs[0][1].poll() is not None: start(len(procs))
                if el > timeout: return None
                time.sleep(0.05 if el < 3 else 0.2)
        finally:
            for _, p, _ in procs:
                if p.poll() is None: p.kill()
                p.wait()
            for _ in range(held): self.sem.release()

    def discharge(self, job, replace=None, window=None, timeout=None, mode='VF_MODULAR'):
        """mode VF_REFUTE: bounded run over the real bodies (sizes and unwinding limited), never counted as a proof"""
        u = job.u; job.window = window = u.window if window is None else (window and u.window)
        replace = list(u.replace) if replace is None else list(replace)
        with self.lock: self.seq += 1; tag = re.sub(r'\W', '_', job.id) + '_%d' % self.seq
        gb = os.path.join(self.dir, tag + '.gb'); t0 = time.time()
        loops_on = bool(u.loops) and mode == 'VF_MODULAR'
        ok, err = self.goto_cc(job, mode, gb, extra=list(u.refute_defs) if mode == 'VF_REFUTE' else (), loops_on=loops_on or None if mode == 'VF_MODULAR' else False)
        if not ok and loops_on:
            loops_on = False
            ok, err = self.goto_cc(job, 'VF_MODULAR', gb, loops_on=False)
            job.note += 'loop contracts could not be attached; '
        if not ok:
            job.status = 'error'; job.log = err[-3000:]; return
        have = self.functions_with_body(gb)
        have |= {f[8:] for f in have if f.startswith('vf_self_')}   # recursive functions, see loops.py
        if u.contract and u.fn in self.drop:
            job.status = 'absent'; job.note += 'the signature of %s changed; its callers are checked with whatever it is now; ' % u.fn; return
        if u.contract and u.fn not in have:
            job.status = 'absent'; job.note += 'function %s no longer exists; its callers are checked with whatever replaced it; ' % u.fn; return
        cur = gb
        # functions out of this unit's reach whose only effect here would be more function pointer targets
        instr = ['--remove-function-body-regex', u.rmbody] if u.rmbody and mode == 'VF_MODULAR' else []
        job.replaced = []
        if replace and mode == 'VF_MODULAR':
            for r in replace:
                if r in have and 'stub_' + r in have:
                    instr += ['--replace-calls', '%s:stub_%s' % (r, r)]; job.replaced.append(r)
        if instr:
            nx = gb + '2'; rc, so, se = sh(['goto-instrument'] + instr + [cur, nx], 120)
            if rc != 0: job.status = 'error'; job.log = (so + se)[-3000:]; return
            cur = nx
        nx = gb + '4'; rc, so, se = sh(['goto-instrument', '--drop-unused-functions', cur, nx], 120)
        if rc == 0 and os.path.exists(nx): cur = nx
        if u.contract and not {u.fn, 'vf_self_' + u.fn} & self.functions_with_body(cur):
            job.status = 'error'; job.log = 'the body of %s was lost' % u.fn; return
        if loops_on:
            nx = gb + '3'; rc, so, se = sh(['goto-instrument', '--apply-loop-contracts', cur, nx], 120)
            if rc != 0 or not os.path.exists(nx): job.status = 'error'; job.log = (so + se)[-3000:]; return
            cur = nx
        args = list(u.flags) + (['--object-bits', str(u.objbits)] if u.objbits else [])
        if mode == 'VF_REFUTE': args += ['--unwind', str(u.refute_unwind or 20), '--no-unwinding-assertions']
        elif u.unwind: args += ['--unwind', str(u.unwind)]
        else: args += ['--unwind', '70']
        if not u.checks: args += ['--no-standard-checks']
        r = self.run_cbmc(cur, args, timeout or u.timeout)
        job.secs += time.time() - t0
        if r is None:
            job.status = 'timeout'; job.log = 'no answer from the verifier within %d s' % (timeout or u.timeout); return
        job.solver = r[0]
        props = r[1]
        reach = [p for p in props if p.get('description', '').startswith('reach')]
        rest = [p for p in props if not p.get('description', '').startswith('reach')]
        if window:
            # cbmc reports what passed but lies behind a failed check as UNKNOWN; behind artefacts it counts as passed
            rest = [p for p in rest if not WINDOW_ARTEFACT.search(p.get('description', ''))]
            if not any(p['status'] == 'FAILURE' for p in rest):
                for p in rest:
                    if p['status'] == 'UNKNOWN': p['status'] = 'SUCCESS'
        job.nob = len(rest); job.ndis = sum(p['status'] == 'SUCCESS' for p in rest)
        job.failed = [{'property': p.get('property', ''), 'description': p.get('description', ''),
                       'function': p.get('sourceLocation', {}).get('function', ''), 'file': p.get('sourceLocation', {}).get('file', ''),
                       'line': p.get('sourceLocation', {}).get('line', ''), 'status': p['status']} for p in rest if p['status'] != 'SUCCESS']
        job.functions = sorted({p.get('sourceLocation', {}).get('function', '') for p in rest} & have)
        job.reach_fail = sum(p['status'] == 'FAILURE' for p in reach); job.reach_n = len(reach)
        vac = mode == 'VF_MODULAR' and (not reach or job.reach_fail < len(reach)) and job.case not in u.vac_ok
        if job.failed: job.status = 'failed'
        elif not rest or vac: job.status = 'vacuous'; job.log = 'reachability probes: %d of %d reachable' % (job.reach_fail, len(reach))
        else: job.status = 'proved' if mode == 'VF_MODULAR' else 'bounded-ok'
        for f in (gb, gb + '2', gb + '3', gb + '4'):
            if f != cur and os.path.exists(f): os.unlink(f)

    # ---------------------------------------------------------------- refutation
    def build_native(self, job):
        u = job.u
        key = re.sub(r'\W', '_', '%s@%s' % (u.name, job.cfg))
        exe = os.path.join(self.dir, 'nat_' + key)
        with self.lock: lk = self.natlocks.setdefault(key, threading.Lock())
        with lk:
            if os.path.exists(exe): return exe, ''
            cmd = ['gcc', '-std=gnu11', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
                   '-DVF_NATIVE', '-DVF_HARNESS="%s.c"' % u.harness, '-DVF_ENTRY=' + u.entry] + self.inc(job, native=True) + self.defs(job, False) + \
                  [os.path.join(VERIF, 'harness', 'vf_native.c'), '-o', exe, '-lm']
            rc, so, se = sh(cmd, 300)
            return (exe if rc == 0 else None), se

    NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:abort_on_error=1')

    def replay(self, job, listfile):
        exe, err = self.build_native(job)
        if not exe: return False, 'native build failed: ' + err[-800:]
        rc, so, se = sh([exe, 'replay', listfile], 60, env=self.NENV)
        bad = rc not in (0, 7, 2) and rc >= 0 or 'VF-FAIL' in so
        return bad, (so + se)[-4000:]

    def refute(self, job, budget, bmc=True):
        """search for a concrete failing input: random execution of the harness; then, with bmc,
        a bounded run of the verifier over the real bodies, its counterexamples executed. Returns replay dict or None."""
        u = job.u; tag = re.sub(r'\W', '_', job.id)
        exe, err = self.build_native(job) if u.native else (None, 'no native build')
        if u.native and not exe:
            job.note += 'native build failed (%s); ' % err[-200:]; return None
        def rnd(k, secs):
            out = os.path.join(self.dir, '%s.rnd%d' % (tag, k))
            with self.sem:
                rc, so, se = sh([exe, 'random', str(self.seed * 1000 + k), str(secs), out], secs + 60, env=self.NENV)
            return out, rc, so + se
        def confirm(out, how):
            if not os.path.exists(out): return None
            bad, txt = self.replay(job, out)
            if bad:
                m = re.search(r'VF-FAIL (\S+)', txt) or re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]+)', txt)
                return {'how': how, 'inputs': open(out).read().split('\n')[1:], 'output': txt, 'what': m.group(1) if m else 'abnormal end', 'file': out}
            return None
        if exe and not bmc:
            return confirm(rnd(0, budget)[0], 'random search over the harness inputs')
        # bounded model checking of the same harness, real bodies
        gb = os.path.join(self.dir, tag + '.ref.gb')
        if self.goto_cc(job, 'VF_REFUTE', gb, extra=list(u.refute_defs), loops_on=False)[0]:
            nx = gb + '4'; rc, so, se = sh(['goto-instrument', '--drop-unused-functions', gb, nx], 120)
            cur = nx if rc == 0 and os.path.exists(nx) else gb
            args = ['cbmc', cur, '--json-ui', '--trace', '--unwind', str(u.refute_unwind or 20), '--no-unwinding-assertions'] + [f for f in u.flags if f != '--cvc5']
            if u.objbits: args += ['--object-bits', str(u.objbits)]
            with self.sem:
                rc, so, se = sh(args, budget)
            try: js = json.loads(so)
            except Exception: js = []
            n = 0
            for m in js:
                for p in (m.get('result') or []) if isinstance(m, dict) else []:
                    if p.get('status') != 'FAILURE' or 'trace' not in p: continue
                    vals = []
                    for st in p['trace']:
                        if st.get('stepType') == 'assignment' and st.get('lhs') == 'vf_rec' and not st.get('hidden', False) or \
                           st.get('stepType') == 'assignment' and st.get('lhs') == 'vf_rec':
                            d = st.get('value', {}).get('binary')
                            vals.append(int(d, 2) if d else 0)
                    vals = vals[1:] if vals and st_init(p['trace']) else vals
                    n += 1
                    out = os.path.join(self.dir, '%s.ref%d' % (tag, n))
                    open(out, 'w').write('cbmc %s %s\n' % (p.get('property'), p.get('description')) + '\n'.join(map(str, vals)) + '\n')
                    if exe:
                        r = confirm(out, 'counterexample of the bounded run for "%s"' % p.get('description'))
                        if r: return r
                    if n > 12: break
        if exe:
            r = confirm(rnd(1, min(25, budget / 2))[0], 'random search over the harness inputs')
            if r: return r
        return None

def parse_results(txt):
    """the verifier's verdict per obligation; None if it did not finish"""
    if not re.search(r'^VERIFICATION (SUCCESSFUL|FAILED)', txt, re.M): return None
    out = []; fil = fun = ''
    for l in txt[txt.index('** Results:'):].split('\n') if '** Results:' in txt else []:
        m = re.match(r'^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', l)
        if m: out.append({'property': m.group(1), 'description': m.group(3), 'status': m.group(4), 'sourceLocation': {'function': fun, 'file': fil, 'line': m.group(2) or ''}}); continue
        m = re.match(r'^(\S.*) function (\S+)$', l)
        if m: fil, fun = m.group(1), m.group(2)
    return out

def st_init(trace):
    """the static initialisation of vf_rec is the first assignment in the trace"""
    for st in trace:
        if st.get('stepType') == 'assignment' and st.get('lhs') == 'vf_rec':
            f = st.get('sourceLocation', {}).get('function', '')
            return f in ('', '__CPROVER_initialize') or st.get('sourceLocation', {}).get('function') is None
    return False
