"""Run harnesses on concrete inputs against the untouched /repo (real quicktions, no proxies).

usage: replay.py FILE     FILE: {"property":, "harness":, "config":, "runs": [[inputs...], ...]}
prints one JSON line per run; exit 10 if any run violates the property, 0 if none.
"""
import importlib
import json
import os
import signal
import sys
import traceback

os.environ['SYMX_MODE'] = 'conc'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


class _TO(BaseException):
    pass


def run_one(h, config, values):
    from symx import api
    ctx = api.ConcCtx(values)
    try:
        h['fn'](ctx, **config)
    except api.Violation as ex:
        return 'violation', str(ex)
    except api.SkipHarness as ex:
        return 'skip', str(ex)
    except RecursionError as ex:
        return 'exception', 'RecursionError'
    except RuntimeError as ex:
        if str(ex).startswith('replay:'):
            return 'mismatch', str(ex)
        return 'exception', traceback.format_exc(limit=-4)
    except _TO:
        return 'timeout', 'did not terminate'
    except Exception as ex:
        if api.harness_mismatch(ex):
            return 'skip', repr(ex)
        return 'exception', traceback.format_exc(limit=-4)
    return 'ok', '%d checks' % ctx.checks


def main():
    data = json.load(open(sys.argv[1]))
    from symx import api
    mods = api.load_repo()
    reset = api.StateReset(mods)
    mod = importlib.import_module('harness.' + data['property'].lower())
    h = next(h for h in mod.HARNESSES if h['name'] == data['harness'])

    def onalarm(*_):
        raise _TO()
    signal.signal(signal.SIGPROF, onalarm)
    bad = 0
    for values in data['runs']:
        reset()
        signal.setitimer(signal.ITIMER_PROF, data.get('timeout', 240))
        st, info = run_one(h, data['config'], values)
        signal.setitimer(signal.ITIMER_PROF, 0)
        print(json.dumps({'status': st, 'info': info}), flush=True)
        if st in ('violation', 'exception', 'timeout'):
            bad = 1
            break
    sys.exit(10 if bad else 0)


if __name__ == '__main__':
    main()
