"""Explore harnesses of one property, replay counterexamples, write evidence."""
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

os.environ['SYMX_MODE'] = 'sym'
os.environ.setdefault('PYTHONHASHSEED', '0')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/venv/lib/python3.12/site-packages')

from symx import sym as S          # noqa: E402
from symx import api               # noqa: E402

REPLAY_PY = '/opt/venv/bin/python'
RESET = None


def explore(prop, h, config, budget_s, path_timeout=120):
    """Run one harness over all paths.  Returns a result dict."""
    en = S.Engine()
    S.ENG = en
    en.frac_mode = h.get('frac_hash', 'const')
    en.opaque_hash = h.get('opaque_hash', False)
    en.str_values = h.get('str_values', False)
    en.deadline = time.time() + budget_s
    t0 = time.time()
    res = {'harness': h['name'], 'config': config, 'complete': False, 'cex': None, 'skipped': None,
           'unsupported': [], 'sample': None}

    def onalarm(*_):
        raise S.PathTimeout()
    signal.signal(signal.SIGPROF, onalarm)
    unsup = []
    try:
        while True:
            en.begin_path()
            RESET()
            ctx = api.SymCtx(en)
            signal.setitimer(signal.ITIMER_PROF, h.get('path_timeout', path_timeout))
            try:
                h['fn'](ctx, **config)
                signal.setitimer(signal.ITIMER_PROF, 0)
                en.st['paths'] += 1
                if en.st['paths'] <= 3 or en.st['paths'] % 97 == 0:
                    if en._check() == S.z3.sat:      # reachability twin: assert(false) here is violated
                        en.st['reach'] += 1
                        if res['sample'] is None:
                            res['sample'] = en.model_values()
            except S.PathEnd:
                en.st['infeasible'] += 1
            except S.Found as f:
                signal.setitimer(signal.ITIMER_PROF, 0)
                cex = {'kind': 'check', 'msg': f.msg, 'values': en.model_values()}
                out = replay(prop, h['name'], config, [cex['values']])[0] if cex['values'] is not None else []
                if out and out[0]['status'] in ('violation', 'exception', 'timeout'):
                    cex['replayed'] = out[0]
                    res['cex'] = cex
                    break
                # the proxies misrepresent this path: not a finding, go on with the other paths
                en.st['unsupported'] += 1
                cex['kind'] = 'spurious'
                cex['replayed'] = out[0] if out else {'status': 'failed', 'info': ''}
                unsup.append(cex)
                if len(unsup) >= 12:
                    break
            except (S.OutOfBudget, KeyboardInterrupt):
                break
            except api.SkipHarness as ex:
                res['skipped'] = str(ex)
                res['complete'] = True
                break
            except (S.PathTimeout, Exception) as ex:
                if api.harness_mismatch(ex):
                    res['skipped'] = repr(ex)[:300]
                    res['complete'] = True
                    break
                signal.setitimer(signal.ITIMER_PROF, 0)
                en.st['unsupported'] += 1
                kind = 'timeout' if isinstance(ex, S.PathTimeout) else 'exception'
                msg = 'path did not terminate' if kind == 'timeout' else ''.join(
                    traceback.format_exception(type(ex), ex, ex.__traceback__, limit=-6))
                try:
                    vals = en.model_values()
                except BaseException as ex2:  # noqa
                    vals = None
                    msg += '\n(model extraction: %r)' % ex2
                cex = {'kind': kind, 'msg': msg, 'values': vals}
                if kind == 'timeout' and vals is not None:
                    # endless, or only too slow for symbolic execution?
                    out = replay(prop, h['name'], config, [vals])[0]
                    cex['replayed'] = out[0] if out else {'status': 'failed', 'info': ''}
                    if cex['replayed']['status'] in ('violation', 'exception', 'timeout'):
                        res['cex'] = cex
                        break
                unsup.append(cex)
                if len(unsup) >= 12:
                    break
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
            en.reset_solver_levels()
            if not en.backtrack():
                res['complete'] = True
                break
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    res['unsupported'] = unsup
    res['st'] = en.st
    res['notes'] = en.notes[:5]
    res['wall_s'] = round(time.time() - t0, 3)
    return res


def replay(prop, harness, config, runs, timeout=240):
    """Run concrete inputs on the untouched code in a fresh interpreter."""
    d = tempfile.mkdtemp(prefix='symx-replay-')
    f = os.path.join(d, 'in.json')
    with open(f, 'w') as fh:
        json.dump({'property': prop, 'harness': harness, 'config': config, 'runs': runs, 'timeout': timeout}, fh)
    env = dict(os.environ, SYMX_MODE='conc', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.run([REPLAY_PY, os.path.join(HERE, 'symx', 'replay.py'), f],
                           capture_output=True, text=True, timeout=2 * timeout + 60, env=env)
        out = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
        err = p.stderr
    except subprocess.TimeoutExpired:
        out, err = [{'status': 'timeout' if len(runs) == 1 else 'slow', 'info': 'replay did not terminate'}], ''
    finally:
        try:
            os.unlink(f)
            os.rmdir(d)
        except OSError:
            pass
    return out, err


def _task(args):
    prop, hname, config, budget = args
    mod = importlib.import_module('harness.' + prop.lower())
    h = next(h for h in mod.HARNESSES if h['name'] == hname)
    try:
        return explore(prop, h, config, budget)
    except BaseException:
        return {'harness': hname, 'config': config, 'error': traceback.format_exc(), 'complete': False,
                'cex': None, 'unsupported': [], 'st': {}, 'notes': [], 'skipped': None, 'wall_s': 0, 'sample': None}


def main(argv):
    global RESET
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1 and argv[1] in ('quick', 'thorough'):
        tier = argv[1]
    only = [a for a in argv[2:]]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = float(os.environ.get('SYMX_BUDGET', '780' if tier == 'quick' else '7200'))
    try:
        mods = api.load_repo()
    except BaseException as ex:  # the tree does not import at all
        print('ERROR: cannot import /repo: %r' % ex)
        return 2
    RESET = api.StateReset(mods)
    mod = importlib.import_module('harness.' + prop.lower())
    tasks = []
    for h in mod.HARNESSES:
        if only and h['name'] not in only:
            continue
        cfgs = list(h['quick'])
        if tier == 'thorough':
            cfgs += [c for c in h.get('thorough') or [] if c not in cfgs]
        for c in cfgs:
            tasks.append((prop, h['name'], c, budget))
    # heavier configurations first
    tasks.sort(key=lambda t: -t[2].get('_w', 0))
    tasks = [(p, n, {k: v for k, v in c.items() if k != '_w'}, b) for p, n, c, b in tasks]
    results = []
    nproc = min(len(tasks), int(os.environ.get('SYMX_JOBS', '8')))
    stop = False
    deadline = t0 + budget
    if nproc <= 1:
        for t in tasks:
            r = _task(t)
            results.append(r)
            if r['cex']:
                break
    else:
        pool = multiprocessing.get_context('fork').Pool(nproc, maxtasksperchild=1)
        try:
            it = pool.imap_unordered(_task, tasks, chunksize=1)
            for _ in tasks:
                try:
                    r = it.next(timeout=max(1, deadline + 30 - time.time()))
                except multiprocessing.TimeoutError:
                    break
                results.append(r)
                if r['cex']:
                    break
        finally:
            pool.terminate()
            pool.join()
    return report(prop, tier, seed, mod, tasks, results, t0)


def report(prop, tier, seed, mod, tasks, results, t0):
    violations, errors, fallback_runs, inconclusive = [], [], 0, []
    for r in results:
        if r.get('error'):
            errors.append(r['harness'] + ': ' + r['error'])
            continue
        cands = []
        if r['cex']:
            cands.append(r['cex'])
        cands += [u for u in r['unsupported']]
        runs = [c for c in cands if c['values'] is not None]
        if not runs:
            for c in cands:
                inconclusive.append('%s %s: %s' % (r['harness'], r['config'], c['msg'][-300:]))
            continue
        todo = [c for c in runs if 'replayed' not in c]
        out, err = replay(prop, r['harness'], r['config'], [c['values'] for c in todo]) if todo else ([], '')
        for c, o in [(c, c['replayed']) for c in runs if 'replayed' in c] + list(zip(todo, out)):
            fallback_runs += 1
            if o['status'] in ('violation', 'exception', 'timeout'):
                violations.append((r, c, o))
            else:
                inconclusive.append('%s %s: %s -> concrete run %s' % (r['harness'], r['config'], c['msg'][-600:], o['status']))
        if len(out) < len(todo) and not violations and not any(o['status'] == 'slow' for o in out):
            errors.append('replay failed: ' + err[-1500:])
    st = {}
    for r in results:
        for k, v in r.get('st', {}).items():
            st[k] = st.get(k, 0) + v
    incomplete = [r for r in results if not r.get('complete') and not r.get('cex')]
    missing = len(tasks) - len(results)
    skipped = [r for r in results if r.get('skipped')]
    checked = [r for r in results if r.get('st', {}).get('queries', 0) > 0]
    wall = time.time() - t0
    samples = [{'harness': r['harness'], 'config': r['config'], 'inputs': r['sample']} for r in results if r.get('sample')][:5]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'symbolic execution of the real /repo code with z3: every path of each harness explored, '
                           'each assertion discharged by the solver for all inputs of the path (within the bounds below)',
            'functions_encoded': mod.FUNCTIONS,
            'bounds': mod.BOUNDS,
            'outside': mod.OUTSIDE,
            'harness_configs': len(tasks),
            'harness_configs_completed': sum(1 for r in results if r.get('complete') and not r.get('skipped')),
            'paths': st.get('paths', 0), 'infeasible_paths': st.get('infeasible', 0),
            'queries': st.get('queries', 0), 'queries_discharged': st.get('discharged', 0),
            'discharged_by_simplifier': st.get('trivial', 0),
            'branch_queries': st.get('branch_queries', 0), 'unknown': st.get('unknown', 0),
            'reachability_witnesses': st.get('reach', 0),
            'solver_s': round(st.get('solver_s', 0.0), 3),
            'solver': 'z3 ' + S.z3.get_version_string(),
            'unsupported_paths': st.get('unsupported', 0), 'concrete_replays': fallback_runs,
            'skipped_harnesses': [r['harness'] + ': ' + r['skipped'] for r in skipped],
            'incomplete_harnesses': ['%s %s' % (r['harness'], r['config']) for r in incomplete],
            'inconclusive': inconclusive[:10],
            'samples': samples,
            'per_harness': [{'harness': r['harness'], 'config': r['config'], 'paths': r.get('st', {}).get('paths'),
                             'queries': r.get('st', {}).get('queries'), 'wall_s': r.get('wall_s')} for r in results],
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s %s: %d harness configs, %d paths, %d queries (%d discharged, %d unknown), solver %.1fs, wall %.1fs' % (
        prop, tier, len(tasks), st.get('paths', 0), st.get('queries', 0), st.get('discharged', 0), st.get('unknown', 0),
        st.get('solver_s', 0), wall))
    if os.environ.get('SYMX_VERBOSE'):
        for r in sorted(results, key=lambda r: -r.get('wall_s', 0)):
            print('   %-24s %-60s paths=%s queries=%s unsup=%s wall=%ss %s%s' % (
                r['harness'], r['config'], r.get('st', {}).get('paths'), r.get('st', {}).get('queries'),
                r.get('st', {}).get('unsupported'), r.get('wall_s'), '' if r.get('complete') else 'INCOMPLETE ',
                r.get('skipped') or ''))
    if violations:
        # known findings are matched on (harness, config, message)
        r, c, o = violations[0]
        known = load_known(prop)
        rest = []
        for r, c, o in violations:
            k = match_known(known, r, c, o)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            else:
                rest.append((r, c, o))
        if rest:
            r, c, o = rest[0]
            rdir = os.path.join(HERE, 'evidence')
            path = os.path.join(rdir, '%s-replay.json' % prop)
            with open(path, 'w') as fh:
                json.dump({'property': prop, 'harness': r['harness'], 'config': r['config'], 'runs': [c['values']],
                           'what': o['info'], 'how': '%s %s/symx/replay.py %s' % (REPLAY_PY, HERE, path)}, fh, indent=1)
            print('harness %s %s' % (r['harness'], r['config']))
            print('inputs: %s' % json.dumps(c['values']))
            print('outcome on the real code: %s: %s' % (o['status'], o['info'][-1500:]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
    for e in errors:
        print('ERROR:', e)
    for e in inconclusive[:10]:
        print('INCONCLUSIVE:', e)
    for r in incomplete:
        print('INCOMPLETE: %s %s' % (r['harness'], r['config']))
    if missing:
        print('INCOMPLETE: %d harness configs not run' % missing)
    for r in skipped:
        print('SKIPPED: %s: %s' % (r['harness'], r['skipped']))
    if errors:
        return 2
    if not checked:
        print('ERROR: nothing was checked')
        return 2
    vac = [r for r in results if r.get('complete') and not r.get('skipped') and not r['unsupported']
           and (r['st'].get('queries', 0) == 0 or r['st'].get('reach', 0) == 0)]
    for r in vac:
        print('ERROR: vacuous harness %s %s' % (r['harness'], r['config']))
    return 2 if vac else 0


def load_known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]


def match_known(known, r, c, o):
    for k in known:
        if k['harness'] == r['harness'] and k.get('config', r['config']) == r['config'] and k['message'] in o['info'] \
                and all(v in c['values'] for v in k.get('values', [])):
            return k
    return None


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
