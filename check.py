#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--unit NAME] [-v]
Discharges every obligation of a property from /repo's current sources.
exit 0: all discharged.  exit 1: VIOLATION line printed."""
import sys, os, json, time, argparse, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from vf.engine import Engine, Job, VERIF, NCPU
from vf import units

import re
LOOPOB = re.compile(r'loop invariant|unwinding assertion|decreases|loop variant|is assignable|position-in-range')
EVID = os.environ.get('VF_EVID') or os.path.join(VERIF, 'evidence')

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--unit', action='append'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--norefute', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    E = Engine(a.tier, seed, a.v)
    try:
        return run(a, E, seed, t0)
    finally:
        E.close()

def run(a, E, seed, t0):
    if a.prop == 'ALL': us = list(units.U.values())
    else: us = units.units_of(a.prop)
    if a.unit: us = [u for u in us if u.name in a.unit]
    us = [u for u in us if a.tier == 'thorough' or u.tier == 'quick']
    jobs = [Job(u, c, k) for u in us for i, c in enumerate(u.cfgs) for k in u.cases if a.tier == 'thorough' or i < u.quick_cfgs]
    jobs.sort(key=lambda j: -j.u.cost)
    def one(j):
        try: E.discharge(j)
        except Exception as e:
            j.status = 'error'; j.log = repr(e)
        if a.v: print('%-10s %-34s ob=%d/%d %.1fs %s %s' % (j.status, j.id, j.ndis, j.nob, j.secs, j.solver, j.note + ('' if j.status == 'proved' else j.log[-600:])) + ''.join('\n        %s %s %s:%s' % (f['property'], f['description'], f['function'], f['line']) for f in [f for f in j.failed if f['status'] == 'FAILURE'][:8]), flush=True)
    with ThreadPoolExecutor(NCPU + 2) as ex: list(ex.map(one, jobs))

    T_END = t0 + 640
    def left(): return max(5, T_END - time.time())
    def redo(j, **k):
        n = Job(j.u, j.cfg, j.case)
        try: E.discharge(n, timeout=min(j.u.timeout, left()), **k)
        except Exception as e: n.status = 'error'; n.log = repr(e)
        if a.v: print('   again %s: %s %s' % (k, n.status, n.id), [f['description'] for f in n.failed if f['status'] == 'FAILURE'][:5], n.log[-300:])
        n.note = j.note + n.note; n.refuted = getattr(j, 'refuted', None)
        return n
    def put(j, n, why):
        n.note += why; n.secs += j.secs; jobs[jobs.index(j)] = n
    BADST = ('failed', 'vacuous', 'timeout', 'error')
    OKST = ('proved', 'absent', 'helper-contract-dropped', 'bounded-ok')
    def badjobs(): return [j for j in jobs if j.status in BADST]
    def one_each(js):
        seen = {}
        for j in js: seen.setdefault((j.u.name, j.cfg), j)
        return list(seen.values())
    confirmed = []
    def hunt(js, secs, bmc):
        """look for an input that shows the failure on the executed code"""
        def h(j):
            if confirmed: return
            r = E.refute(j, secs, bmc)
            if r: j.refuted = r; confirmed.append((j, r))
        if js:
            with ThreadPoolExecutor(NCPU) as ex: list(ex.map(h, js))
    t_fail = time.time()
    # 1. a failed public contract: quick search for an executable failure
    badfn = {j.u.fn for j in badjobs() if j.u.internal}
    for _ in range(6): badfn |= {j.u.fn for j in jobs if j.u.internal and set(j.replaced) & badfn}
    public = one_each([j for j in badjobs() if not j.u.internal and j.status != 'timeout'] + [j for j in jobs if not j.u.internal and set(j.replaced) & badfn])
    if not a.norefute and public:
        hunt(public[:24], 4, False)
        if not confirmed: hunt(public[:8], 60, True)
    if not confirmed:
        # 2. the window abstraction, then the callee contracts, may be at fault: retry without them
        def retry(j):
            if j.u.loops and all(LOOPOB.search(f['description']) or f['status'] != 'FAILURE' for f in j.failed) or \
               j.u.loops and any(LOOPOB.search(f['description']) for f in j.failed):
                # the loop was rewritten and its invariant no longer fits: nothing is proved, but that alone is no violation
                n = redo(j, mode='VF_REFUTE')
                if n.status == 'bounded-ok': return put(j, n, 'loop contract does not fit the loop any more; only checked with bounds; ')
            if j.u.window:
                n = redo(j, window=False)
                if n.status == 'proved': return put(j, n, 'discharged without the window abstraction; ')
            if j.replaced:
                n = redo(j, window=False, replace=[])
                if n.status == 'proved': return put(j, n, 'discharged with callee bodies in place of callee contracts; ')
        if badjobs() and left() > 10:
            with ThreadPoolExecutor(NCPU) as ex: list(ex.map(retry, badjobs()))
        # 3. contracts of internal helpers are lemmas: if one no longer holds, its users are checked against its body instead
        lemma = {j.u.fn for j in badjobs() if j.u.internal}
        for rnd in range(3):
            users = [j for j in jobs if set(j.replaced) & lemma]
            if not users or left() < 10: break
            def relem(j):
                n = redo(j, replace=[r for r in j.u.replace if r not in lemma])
                if n.status != 'proved': n = redo(j, window=False, replace=[])
                put(j, n, 'helper contract(s) %s do not hold; checked against the body; ' % ', '.join(sorted(set(j.replaced) & lemma)))
            with ThreadPoolExecutor(NCPU) as ex: list(ex.map(relem, users))
            new = {j.u.fn for j in badjobs() if j.u.internal} - lemma
            if not new: break
            lemma |= new
        if lemma:
            ok = [j for j in jobs if not j.u.internal or j.u.fn not in lemma]
            wanted = set(units.PROPS[a.prop]['units']) if a.prop != 'ALL' else set()
            if ok and all(j.status in OKST for j in ok) and not any(j.u.fn in lemma and j.u.name in wanted for j in jobs):
                for j in jobs:
                    if j.u.fn in lemma: j.status = 'helper-contract-dropped'; j.note += 'the contract of this internal helper does not hold any more; every user was proved against its body; '

    def only_tool_limit(j):
        if j.status != 'failed': return True
        return all('unwinding assertion' in f['description'] or f['status'] not in ('FAILURE',) for f in j.failed)
    viol = list(confirmed); undecided = []
    if not confirmed and badjobs() and not a.norefute:
        # 4. a last, longer search, hardest evidence first
        todo = sorted(one_each(badjobs()), key=lambda j: (only_tool_limit(j), j.u.internal, j.u.name))
        hunt(todo[:16], max(15, min(120, (820 - (time.time() - t0)) / 2)), True)
        viol = list(confirmed)
    undecided += [j for j in jobs if j.status == 'bounded-ok']
    for j in badjobs():
        if any(v[0] is j for v in viol): continue
        if only_tool_limit(j): undecided.append(j)
        else: viol.append((j, None))
    viol.sort(key=lambda v: v[1] is None)
    rdir = os.path.join(EVID, 'replay'); os.makedirs(rdir, exist_ok=True)

    # known findings
    kf = []
    kfp = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kfp): kf = [k for k in json.load(open(kfp)) if k.get('kind') == 'finding' and k.get('property') == a.prop]
    def known(j, r):
        for k in kf:
            if k['unit'] == j.u.name and (r is None or k.get('what') == r['what']) and \
               {f['description'] for f in j.failed} <= set(k['obligations']): return k
        return None
    real = []
    for j, r in viol:
        k = known(j, r)
        if k: print('KNOWN-FINDING: property=%s %s' % (a.prop, k['text']))
        else: real.append((j, r))
    rc = 0
    if real:
        rc = 1
        j, r = real[0]
        path = os.path.join(rdir, '%s-%s.json' % (a.prop, j.u.name))
        if r and os.path.exists(r['file']): shutil.copy(r['file'], path[:-5] + '.inputs')
        json.dump({'property': a.prop, 'unit': j.id, 'function': j.u.fn, 'harness': 'harness/%s.c:%s' % (j.u.harness, j.u.entry), 'config': j.cfg,
                   'failed_obligations': j.failed, 'verifier_status': j.status, 'verifier_output': j.log,
                   'replayed_on_real_code': bool(r), 'how_found': r['how'] if r else None, 'observed': r['what'] if r else None,
                   'inputs': r['inputs'] if r else None, 'execution_output': r['output'] if r else None,
                   'replay_cmd': 'python3 replay.py %s' % path if r else None,
                   'all_failing_units': {x.id: [f['description'] for f in x.failed if f['status'] == 'FAILURE'][:20] for x, _ in real}}, open(path, 'w'), indent=1)
        for x, y in real[:6]:
            print('  failed: %s  %s%s' % (x.id, '; '.join(sorted({f['description'] for f in x.failed if f['status'] == 'FAILURE'}))[:300] or (x.status if x.status != 'proved' else 'relies on a helper whose contract fails'), '  [executed: %s]' % y['what'] if y else ''))
        print('VIOLATION property=%s replay=%s%s' % (a.prop, path, '' if r else ' no-failing-input-found'))
    if a.prop != 'ALL' and not a.unit: evidence(a, E, seed, t0, us, jobs, undecided, real)
    npv = sum(j.status == 'proved' for j in jobs)
    print('%s: %d proof units, %d proved, %d undecided; %d obligations, %d discharged; %.0f s solver+build, %.0f s wall' % (
        a.prop, len(jobs), npv, len(undecided), sum(j.nob for j in jobs), sum(j.ndis for j in jobs), sum(j.secs for j in jobs), time.time() - t0))
    for j in undecided: print('  undecided (bounded search found nothing): %s %s' % (j.id, j.status))
    return rc

def evidence(a, E, seed, t0, us, jobs, undecided, real):
    import vf.units as vu
    P = vu.PROPS[a.prop]
    by = {}
    for j in jobs: by[j.solver or 'none'] = by.get(j.solver or 'none', 0) + j.ndis
    proofs = [j for j in jobs if not j.u.bounded]; bnd = [j for j in jobs if j.u.bounded]
    trusted = ['CBMC 6.11 (goto-cc front end, symbolic execution, bit-vector back ends) and its C library models (memcpy, memset, memcmp, memmove, strlen, malloc, free)',
               'the contract generator vf/gen.py: enforce = assume requires; call; assert frame and ensures; replace = assert requires; havoc frame; assume ensures',
               'LP64 little-endian machine model of CBMC (x86-64); configurations: ' + ', '.join(sorted({j.cfg for j in jobs}))]
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'proof' ,
          'coverage': {
            'obligations': sum(j.nob for j in proofs), 'discharged': sum(j.ndis for j in proofs),
            'checker_cmd': 'python3 check.py %s --tier %s' % (a.prop, a.tier), 'trusted_base': trusted,
            'functions_under_contract': sorted({j.u.fn for j in proofs if j.u.contract}),
            'contracts_used_at_call_sites': sorted({r for j in jobs for r in j.replaced}),
            'functions_checked_in_place': sorted({f for j in jobs for f in j.functions if not f.startswith(('chk_', 'h_', 'vf_', 'nd_', 'stub_', 'W_', 'R_', 'T_', 'spec_', '__'))}),
            'discharged_by_back_end': by, 'solver_and_build_seconds': round(sum(j.secs for j in jobs), 1),
            'units': {j.id: {'status': j.status, 'obligations': j.nob, 'discharged': j.ndis, 'back_end': j.solver, 'seconds': round(j.secs, 1), 'note': j.note,
                             'reachability_probes_hit': getattr(j, 'reach_fail', 0)} for j in proofs},
            'bounded_units_not_counted_as_proved': {j.id: {'bound': j.u.bounded, 'status': j.status, 'checks': j.nob, 'passed': j.ndis} for j in bnd},
            'undecided': [j.id for j in undecided],
            'sources_sha256': E.srchash},
          'assumptions': P.get('assume', []) + ['object sizes up to 2^40 bytes, stream positions up to 2^42', 'callbacks behave as the environment stubs in harness/ allow: they may fail at any call but do not longjmp or write mpack structures'],
          'wall_s': round(time.time() - t0, 1), 'violations': len(real)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, a.prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    sys.exit(main())
