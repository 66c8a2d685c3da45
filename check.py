#!/usr/bin/env python3-vt
"""check.py <property> [--thorough]: decide one property of /repo's current tree.  See DESIGN.md."""
import os, sys, json, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from nv.build import Target, BuildError
    from nv.native import Native
    from nv.task import run_tasks
    from nv.props import PROPS
    P = PROPS[pid]
    os.makedirs(HERE + '/evidence', exist_ok=True)
    rdir = HERE + '/out'
    os.makedirs(rdir, exist_ok=True)
    notes = []
    known = load_known(pid)
    try:
        T = Target()
    except BuildError as e:
        print('BUILD-FAILED: the extraction could not compile the tree: %s' % str(e)[:400])
        T = None
    tasks, results, stand = [], [], []
    if T is not None:
        tasks = [t for t in P.tasks(T) if not t.info.get('standin')]
        stand = [t for t in P.tasks(T) if t.info.get('standin')]
        results = run_tasks(T, tasks, dump=40 if tier == 'thorough' else None)
    failing = [(t, r) for t, r in zip(tasks, results) if r['failed']]
    undecided = [(t, r) for t, r in zip(tasks, results) if not r['failed'] and r['undecided']]
    swept = {}
    violations = []
    native = None
    want = failing or undecided or stand or tier == 'thorough'
    if P.harness and want and T is not None:
        try: native = Native(P.harness, P.libs)
        except BuildError as e: notes.append('native replay harness does not compile: %s' % str(e)[:300])

    done, tried = [], {}

    def replay(t, ints, limit):
        if native is None or t.info.get('noreplay'): return None
        # tasks sharing an oracle share its (deterministic) search; one confirmed witness per run is enough
        gk = (str(t.info.get('native')), limit) if P.harness != 'vmprobe.cpp' else None
        if gk and gk in tried:
            swept[t.name] = tried[gk]
            return None
        if done and P.harness != 'vmprobe.cpp': return None
        n = 0
        try:
            n, m = P.replay(T, native, t, ints, seed, limit)
        except Exception as e:
            notes.append('replay of %s failed: %r' % (t.name, e))
            return None
        swept[t.name] = swept.get(t.name, 0) + n
        if gk and m is None: tried[gk] = n
        if m is not None: done.append(t)
        return m
    try:
        for t, r in failing:
            ints = []
            for f in r['failed']:
                for i in f['ints']:
                    if i not in ints: ints.append(i)
            m = replay(t, ints[:40], 6000)
            hard = [f for f in r['failed'] if f['status'] == 'fail']
            if m is not None: violations.append((t, r, m))
            elif hard and not t.info.get('soft'): violations.append((t, r, None))
            else: undecided.append((t, r))
        for t, r in undecided:
            if any(t is v[0] for v in violations): continue
            m = replay(t, [], 6000) if t.name not in swept else None
            if m is not None: violations.append((t, r, m))
        for t in stand:
            m = replay(t, [], t.info.get('limit', 4000) * (5 if tier == 'thorough' else 1))
            if m is not None:
                r = {'failed': [], 'undecided': 'bounded stand-in', 'obligations': 0, 'discharged': 0}
                violations.append((t, r, m))
            else: print('BOUNDED %s: %d native cases of the real code, no mismatch' % (t.name, swept.get(t.name, 0)))
        if tier == 'thorough':
            for t, r in zip(tasks, results):
                if t.name in swept: continue
                m = replay(t, [], 20000)
                if m is not None: violations.append((t, r, m))
    finally:
        if native is not None: native.close()
    smt2 = second_solver(results) if tier == 'thorough' else None
    code = 0
    nviol = 0
    for k, (t, r, m) in enumerate(violations):
        sig = signature(t, r, m)
        kf = [x for x in known if x['signature'] and x['signature'] in sig]
        if kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[0]['what']))
            continue
        path = '%s/%s-%d.json' % (rdir, pid, k)
        json.dump({'property': pid, 'task': t.name, 'failed_obligations': [{x: f[x] for x in ('obligation', 'where', 'status', 'goal', 'model', 'info')} for f in r['failed'][:8]],
                   'verifier': {'undecided': r['undecided'], 'obligations': r['obligations'], 'discharged': r['discharged']},
                   'witness': m, 'how_to_replay': 'python3-vt check.py %s' % pid}, open(path, 'w'), indent=1, default=str)
        for f in r['failed'][:3]: print('  failed obligation: %s  at %s [%s]' % (f['obligation'], f['where'], f['status']))
        if m: print('  witness on the real code: %s' % str(m.get('mismatch'))[:300])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if m else ' no-failing-input-found'))
        nviol += 1
        code = 1
    for t, r in undecided:
        if not any(t is v[0] for v in violations):
            print('UNDECIDED %s: %s; bounded stand-in: %d native cases, no mismatch' % (t.name, r['undecided'] or 'candidate counterexample not confirmed', swept.get(t.name, 0)))
    ev = evidence(pid, tier, seed, P, tasks, results, undecided, swept, notes, smt2, t0, nviol, stand)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, pid), 'w'), indent=1)
    c = ev['coverage']
    print('%s %s: %d/%d obligations discharged over %d tasks, %d undecided, %d violations, %.1fs' % (
        pid, tier, c['discharged'], c['obligations'], len(tasks), len(c['undecided']), nviol, time.time() - t0))
    sys.exit(code)


def signature(t, r, m):
    return '%s | %s | %s' % (t.name, ' ; '.join(f['obligation'] for f in r['failed']), (m or {}).get('mismatch', ''))


def load_known(pid):
    try: d = json.load(open(HERE + '/known_findings.json'))
    except OSError: return []
    return [x for x in d.get('findings', []) if x['property'] == pid]


def second_solver(results):
    """re-discharge a sample of the SMT queries with an independent solver"""
    import subprocess, tempfile, concurrent.futures
    qs = [(r['task'], n, s) for r in results for n, s in r.get('smt', [])]
    if not qs: return {'queries': 0}

    def one(q):
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write('(set-logic ALL)\n' + q[2].replace('(set-logic ALL)', ''))
        try:
            p = subprocess.run(['cvc5', '--tlimit=20000', f.name], capture_output=True, text=True, timeout=40)
            return p.stdout.strip().split('\n')[-1] if p.stdout.strip() else 'error'
        except subprocess.TimeoutExpired:
            return 'timeout'
        finally: os.remove(f.name)
    with concurrent.futures.ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, qs[:400]))
    out = {'queries': len(rs), 'solver': 'cvc5'}
    for x in rs: out[x[:12]] = out.get(x[:12], 0) + 1
    return out


def evidence(pid, tier, seed, P, tasks, results, undecided, swept, notes, smt2, t0, nviol, stand=()):
    un = {t.name for t, _ in undecided}
    fns, tr, con = set(), set(), set()
    for r in results:
        fns |= set(r['functions'])
        tr |= set(r['trusted'])
        con |= set(r['contracts'])
    from nv.assume import ASSUMPTIONS, TRUSTED
    cov = {'obligations': sum(r['obligations'] for r in results), 'discharged': sum(r['discharged'] for r in results),
           'checker_cmd': 'python3-vt check.py %s' % pid, 'trusted_base': TRUSTED + sorted('assumed contract: ' + c[:160] for c in con),
           'functions_under_contract': sorted(fns), 'solver': 'z3 (python3-vt)', 'solver_s': round(sum(r['solver_s'] for r in results), 2),
           'paths': sum(r['paths'] for r in results), 'specification_paths': sum(r['spec_paths'] for r in results),
           'loops_by_inductive_summary': sorted({l for r in results for l in r['summarised_loops']}),
           'bounded': [{'task': r['task'], 'loops': r['bounded'], 'paths_cut': r['cut']} for r in results if r['bounded']] +
                      [{'task': t.name, 'native_cases': swept.get(t.name, 0), 'what': t.info['what']} for t in stand],
           'undecided': [{'task': t.name, 'why': r['undecided'] or 'candidate counterexample not confirmed', 'native_cases_bounded': swept.get(t.name, 0)} for t, r in undecided],
           'tasks': [{'task': r['task'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'paths': r['paths'], 'spec_paths': r['spec_paths'],
                      'vacuity_canary': r['canary'], 'wall_s': round(r['wall_s'], 2)} for r in results],
           'native_cross_check_cases': swept, 'notes': notes}
    if smt2: cov['second_solver'] = smt2
    level = P.level
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUMPTIONS + sorted(tr), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}


if __name__ == '__main__':
    main()
