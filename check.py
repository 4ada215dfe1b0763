#!/usr/bin/env python3
"""./check <property>: decide one property on /repo's current tree.

1. every proof group of the property is run (pyvc: obligations generated from the real functions' source,
   discharged by z3), in parallel worker processes;
2. a small concrete cross-check (bounded, labelled as such) runs the real code against an independent oracle:
   it validates the assumed contracts of the dependencies and covers what is out of the verifier's reach;
3. if an obligation is not discharged, the verifier's counterexamples and a larger seeded search are replayed
   on the real code to find a failing input.
exit 0: everything discharged, no failing input; exit 1: VIOLATION line(s)."""
import sys, os, time, json, argparse, multiprocessing as mp, tempfile, shutil, signal, traceback, hashlib
import paths

MODULES = ['p_headers','p_io','p_meta','p_append','p_memory','p_reject','p_pretty','p_log','p_numpy','p_cli','p_contracts']
WALL = 600         # seconds for all groups of a property
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(paths.VERIF, 'evidence')


def load():
    import importlib
    from proofs import common
    for m in MODULES:
        if os.path.exists(os.path.join(paths.VERIF, 'proofs', m + '.py')):
            importlib.import_module('proofs.' + m)
    return common


def _group_worker(args):
    name, scale = args
    from proofs import common
    from pyvc.harness import run_group
    fn, props, budget, rl = common.GROUPS[name]
    r = run_group(name, fn, budget * scale, rlimit_ms=rl)
    # only plain data crosses the process boundary
    r['results'] = {k: (v[0], str(v[1])[:2000], _plain(v[2]), v[3]) for k, v in r['results'].items()}
    r['inlined'] = [str(x) for x in r['inlined']]
    r['contracts'] = [str(x) for x in r['contracts']]
    return r


def _plain(h):
    try:
        return json.loads(json.dumps(h, default=str))
    except Exception:
        return None


def run_proofs(prop, scale, only=None, relied=None):
    common = load()
    names = [n for n in common.groups_of(prop) if only is None or n in only] if relied is None else list(relied)
    if not names:
        return []
    names.sort(key=lambda n: -common.GROUPS[n][2])
    out, seen, pending, t0 = [], {}, [], time.time()
    with mp.get_context('fork').Pool(8) as pool:
        for n in names:
            seen[n] = (relied or {}).get(n)
            pending.append((n, pool.apply_async(_group_worker, ((n, scale),))))
        while pending:
            n, job = pending.pop(0)
            try:
                r = job.get(max(1, t0 + WALL * max(1, scale) - time.time()))
            except mp.TimeoutError:
                r = {'name': n, 'error': 'no answer from the worker process', 'results': {}, 'count': 0, 'inlined': [], 'contracts': [],
                     'stats': {'paths': 0, 'queries': 0, 'solver_s': 0, 'wall': time.time() - t0}}
            if seen[r['name']] is not None:
                # a group that is here for a contract: only the obligations the callers rely on
                keep = seen[r['name']]
                r['relied_on'] = keep
                if keep != '*':
                    r['results'] = {k: v for k, v in r['results'].items() if k.split('/')[1] in keep}
            out.append(r)
            for f in r['contracts']:
                for g, keep in common.PROVED_BY.get(f, ()) if only is None else ():
                    if g not in seen:
                        seen[g] = keep or '*'
                        pending.append((g, pool.apply_async(_group_worker, ((g, scale),))))
    return out


# ------------------------------------------------------------------ concrete part
def run_concrete(prop, mode, seed, seconds, hints, scratch, only=None):
    """runs the bounded concrete cases in child processes; returns a summary"""
    jn = os.path.join(scratch, 'journal-%s.json' % mode)
    res = os.path.join(scratch, 'result-%s.json' % mode)
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            work = os.path.join(scratch, 'work-' + mode)
            os.mkdir(work)
            os.chdir(work)
            dn = os.open(os.path.join(scratch, 'out-' + mode), os.O_CREAT | os.O_RDWR | os.O_TRUNC)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            from concrete import runner
            r = runner.run(prop, mode, seed, seconds, hints, jn, only)
            with open(res, 'w') as f:
                json.dump(r, f)
            os._exit(0)
        except BaseException:
            with open(res, 'w') as f:
                json.dump({'error': traceback.format_exc()}, f)
            os._exit(9)
    t0 = time.time()
    status = None
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
            break
        if time.time() - t0 > seconds * 3 + 120:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            status = 'hang'
            break
        time.sleep(0.02)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        r = json.load(open(res))
        return r
    except (OSError, ValueError):
        pass
    try:
        j = json.load(open(jn))
    except (OSError, ValueError):
        j = None
    what = 'hangs' if status == 'hang' else 'ends the process with signal %d' % (os.WTERMSIG(status)) if os.WIFSIGNALED(
        status) else 'ends the process with status %r' % status
    return {'evaluations': 0, 'distinct': 0, 'samples': [], 'rules': [], 'known': [],
            'failures': [{'check': j['check'], 'params': j['params'], 'what': 'the code under test ' + what}] if j else [],
            'error': None if j else 'concrete runner ' + what}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--record', action='store_true', help='record the expected obligation names')
    ap.add_argument('--no-concrete', action='store_true')
    ap.add_argument('--groups')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='bpverif-')
    try:
        if a.replay:
            return replay(a.prop, a.replay, seed, scratch)
        return decide(a, seed, tier, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


OPTIONAL = ('loop-summary-is-inductive', 'the-announced-size-is-known', 'reads-only-the-array', 'writes-only-the-array',
            'reads-contiguous-memory', 'metadata-is-read-at-its-place', 'metadata-is-read-where-it-is')


def replay(prop, path, seed, scratch):
    d = json.load(open(path))
    if not d.get('params'):
        print('the replay file holds no failing input (obligations: %s)' % ', '.join(d.get('obligations', [])))
        return 1
    r = run_concrete(prop, 'replay', seed, 120, [d], scratch)
    for f in r.get('failures', []):
        print('REPLAYED property=%s %s: %s' % (prop, f['check'], f['what']))
        print(json.dumps(f['params'])[:2000])
    if not r.get('failures'):
        print('not reproduced', r.get('error') or '')
    return 1 if r.get('failures') else 0


def write_replay(prop, name, d):
    p = os.path.join(EVID, 'replay')
    os.makedirs(p, exist_ok=True)
    fn = os.path.join(p, '%s-%s.json' % (prop, name))
    with open(fn, 'w') as f:
        json.dump(d, f, indent=1, default=str)
    return fn


def decide(a, seed, tier, t0, scratch):
    prop = a.prop
    thorough = tier == 'thorough'
    if thorough:
        from pyvc import core
        core.SMOKE = True
    expected_file = os.path.join(paths.VERIF, 'proofs', 'expected.json')
    try:
        expected = json.load(open(expected_file))
    except (OSError, ValueError):
        expected = {}
    os.makedirs(EVID, exist_ok=True)
    import_error = None
    # the import of the code under test happens in a child first: a broken module is itself a failure
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open('/dev/null', os.O_RDWR)
            os.dup2(dn, 1)
            from pyvc import harness
            import bloscpack, bloscpack.cli, bloscpack.numpy_io
            load()
            os._exit(0)
        except BaseException:
            with open(os.path.join(scratch, 'import'), 'w') as f:
                f.write(traceback.format_exc())
            os._exit(1)
    _, st = os.waitpid(pid, 0)
    if st:
        try:
            import_error = open(os.path.join(scratch, 'import')).read()
        except OSError:
            import_error = 'import ended with status %r' % st
    groups, conc = [], {'evaluations': 0, 'distinct': 0, 'samples': [], 'rules': [], 'failures': [], 'known': []}
    if import_error is None:
        # the concrete part runs beside the proofs
        q = mp.get_context('fork').Queue()
        if not a.no_concrete:
            cp = mp.get_context('fork').Process(
                target=lambda: q.put(run_concrete(prop, 'thorough' if thorough else 'quick', seed,
                                                  180 if thorough else 12, [], scratch)))
            cp.start()
        groups = run_proofs(prop, 5 if thorough else 1, a.groups and a.groups.split(','))
        retry = {r['name']: r.get('relied_on') for r in groups if (r['error'] or '').startswith('timeout')}
        if retry:
            groups = [r for r in groups if r['name'] not in retry] + run_proofs(prop, 3, list(retry), retry)
        if not a.no_concrete:
            conc = q.get()
            cp.join()
    if a.record:
        for r in groups:
            if r.get('relied_on', '*') == '*':
                expected[r['name']] = sorted(r['results'])
        json.dump(expected, open(expected_file, 'w'), indent=0, sort_keys=True)
    # ---- verdict
    open_obl, errors = [], []
    total = done = 0
    hints = []
    for r in groups:
        total += r['count']
        for k, v in r['results'].items():
            if v[0] != 'proved':
                open_obl.append((k, v[0], v[1], v[2]))
                hints.append({'obligation': k, 'model': v[2]})
        done += sum(1 if v[0] == 'proved' else 0 for v in r['results'].values())
        if r['error']:
            errors.append('%s: %s' % (r['name'], r['error']))
        want = set(expected.get(r['name'], []))
        if r.get('relied_on', '*') != '*':
            want = {k for k in want if k.split('/')[1] in r['relied_on']}
        # (a loop that is not there needs no summary, a contract that is not used no precondition)
        missing = sorted(k for k in want - set(r['results']) if k.split('/')[1] not in OPTIONAL)
        if missing or not r['results']:
            for m in missing or [r['name']]:
                open_obl.append((m, 'not generated', 'no path of the code reaches this obligation', None))
        for k, v in r.get('smoke', {}).items():
            if not set(v) & {'sat', 'unknown'} and k in r['results']:
                open_obl.append((k, 'vacuous', 'the assumptions of this obligation are contradictory on every path', None))
    bad_names = {k for k, *_ in open_obl}
    distinct = sum(len(r['results']) for r in groups) + sum(1 for o in open_obl if o[1] == 'not generated')
    failures = list(conc.get('failures', []))
    if conc.get('error'):
        errors.append('concrete part: ' + conc['error'])
    if import_error:
        errors.append('import of the code failed: ' + import_error)
    deep = None
    # loops whose end is not proved: no alarm, but a longer search
    endless = sorted({k for r in groups for k, v in r.get('variants', {}).items() if not v and not r['error']})
    for k in endless:
        print('NOTE no variant found for the loop of %s; searching for an input on which it does not end' % k)
    if (open_obl or errors or endless) and not failures and import_error is None and not a.no_concrete:
        deep = run_concrete(prop, 'deep', seed, 600 if thorough else 150, hints, scratch)
        failures = list(deep.get('failures', []))
        if deep.get('error'):
            errors.append('search: ' + deep['error'])
    known = []
    for c in (conc, deep or {}):
        for k in c.get('known', []):
            if k not in known:
                known.append(k)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    viol = 0
    for r in sorted(groups, key=lambda r: r['name']):
        nbad = len([1 for v in r['results'].values() if v[0] != 'proved'])
        print('%-44s obligations=%-6d names=%-4d open=%d paths=%d solver=%.1fs wall=%.1fs%s' % (
            r['name'], r['count'], len(r['results']), nbad, r['stats']['paths'], r['stats']['solver_s'],
            r['stats']['wall'], '  ERROR ' + r['error'][:300] if r['error'] else ''))
    for k, st, info, h in open_obl:
        print('OPEN %s [%s] %s' % (k, st, info[:300].replace('\n', ' ')))
    for e in errors:
        print('ERROR ' + e[:1500])
    obl = [o[0] for o in open_obl]
    if failures:
        f = failures[0]
        fn = write_replay(prop, hashlib.sha1(json.dumps(f['params'], sort_keys=True, default=str).encode()).hexdigest()[:10],
                          {'property': prop, 'check': f['check'], 'params': f['params'], 'what': f['what'],
                           'obligations': obl, 'errors': errors, 'rerun': './check %s --replay <this file>' % prop})
        print('failing input: %s: %s' % (f['check'], f['what'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, fn))
        viol = 1
    elif open_obl or errors:
        fn = write_replay(prop, 'open', {'property': prop, 'obligations': [
            {'name': k, 'status': st, 'info': info, 'model': h} for k, st, info, h in open_obl],
            'errors': errors, 'back end': 'z3', 'note': 'no failing input found'})
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, fn))
        viol = 1
    write_evidence(prop, tier, seed, t0, groups, conc, deep, distinct, done, viol, open_obl, errors, known, endless)
    return 1 if viol else 0


def write_evidence(prop, tier, seed, t0, groups, conc, deep, distinct, done, viol, open_obl, errors, known, endless=()):
    from proofs import trusted
    lv = trusted.level(prop)
    inl = sorted({x for r in groups for x in r['inlined']})
    con = sorted({x for r in groups for x in r['contracts']})
    ev = conc.get('evaluations', 0) + (deep or {}).get('evaluations', 0)
    cov = {
        'obligations': distinct, 'discharged': done,
        'obligation_instances': sum(r['count'] for r in groups),
        'checker_cmd': './check %s' % prop,
        'trusted_base': trusted.base(prop),
        'back_end': 'z3 (python API) on verification conditions generated by pyvc from the current source',
        'groups': {r['name']: {'obligations': len(r['results']), 'instances': r['count'],
                               'open': len([1 for v in r['results'].values() if v[0] != 'proved']),
                               'paths': r['stats']['paths'], 'queries': r['stats']['queries'],
                               'solver_s': round(r['stats']['solver_s'], 2), 'wall_s': round(r['stats']['wall'], 2),
                               'why': 'contract used by the other groups' if r.get('relied_on') else 'property'}
                   for r in groups},
        'solver_s': round(sum(r['stats']['solver_s'] for r in groups), 2),
        'functions_executed_symbolically': inl,
        'functions_used_through_contracts': con,
        'evaluations': ev,
        'distinct_nontrivial': conc.get('distinct', 0) + (deep or {}).get('distinct', 0),
        'rule': 'bounded concrete cross-check, not counted as proved: ' + '; '.join(conc.get('rules', [])),
        'samples': conc.get('samples', [])[:6] or [o for r in groups for o in list(r['results'])[:2]][:6],
    }
    if lv == 'other':
        cov['explanation'] = trusted.note(prop)
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': lv, 'coverage': cov,
         'assumptions': trusted.assumptions(prop), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    if known:
        d['coverage']['known_findings'] = known
    loops = {k: v for r in groups for k, v in r.get('variants', {}).items()}
    d['coverage']['termination'] = {
        'loops': 'over finite sequences or counted' + ('' if loops else '; there are no others'),
        **({'variants of other loops': loops} if loops else {}), **({'not proved': list(endless)} if endless else {})}
    if open_obl:
        d['coverage']['open'] = [o[0] for o in open_obl]
    if errors:
        d['coverage']['errors'] = [e[:500] for e in errors]
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
