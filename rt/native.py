"""Run harnesses natively (PyPy).  Commands on stdin (JSON lines):
{"cmd": "random", "module":, "harness":, "seed":, "n":, "secs":, "first":}
{"cmd": "replay", "module":, "harness":, "inputs":}
One JSON line answers each."""
import importlib
import itertools
import json
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:0] = [REPO, HERE, os.path.dirname(HERE)]
import vc       # noqa
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)
vc.DICT = vc.harvest(REPO)


def get(module, name):
    if name.startswith('contract:'):
        importlib.import_module('contracts.common')
        if module:
            importlib.import_module(module)
        return vc.contract_body(name.split(':', 1)[1]), {}
    importlib.import_module(module)
    k = (module, name)
    if k in vc.HARNESSES:
        return vc.HARNESSES[k]
    return vc.BOUNDED[k]


def once(f, v):
    """None, 'skip' or (obligation, detail)"""
    try:
        f(v)
    except vc.Skip:
        return 'skip'
    except vc.Failed as e:
        return (e.obligation, e.detail)
    except MemoryError:
        return 'skip'
    except Exception as e:
        return ('no unexpected exception', '%s: %s | %s' % (
            type(e).__name__, e, traceback.format_exc()[-900:]))
    finally:
        v.done()
    return None


def random_run(c):
    f, opts = get(c['module'], c['harness'])
    t0 = time.time()
    n = c.get('n', 10 ** 9)
    secs = c.get('secs', 2)
    done = skipped = 0
    checks = set()
    sigs = set()
    samples = []
    fail = None
    i = c.get('first', 0)
    if opts.get('once'):
        n = 1
    while done + skipped < n:
        if time.time() - t0 > secs and done + skipped > 0:
            break
        v = vc.V(seed='%s/%s/%s' % (c.get('seed', 1), c['harness'], i))
        i += 1
        r = once(f, v)
        if r == 'skip':
            skipped += 1
            continue
        done += 1
        checks |= v.reached_checks
        key = json.dumps(v.used, sort_keys=True, default=str)
        sigs.add(hash(key))
        if len(samples) < 2:
            samples.append(key[:200])
        if r is not None:
            fail = {'obligation': r[0], 'detail': r[1], 'inputs': v.used}
            break
    return {'runs': done, 'skipped': skipped, 'fail': fail,
            'distinct': len(sigs), 'checks': sorted(checks),
            'samples': samples, 'secs': round(time.time() - t0, 2),
            'exhaustive': opts.get('once') and opts.get('exhaustive')}


def replay(c):
    f, opts = get(c['module'], c['harness'])
    inputs = c['inputs']
    out = None
    exact = False
    inputs = dict(inputs)
    sizes = inputs.pop('_sizes', {})
    whole = not inputs.pop('_cut', None) and '_errors' not in inputs
    for s in range(c.get('tries', 20)):
        v = vc.V(given=inputs, seed='replay/%s' % s)
        r = once(f, v)
        if r not in (None, 'skip'):
            out = {'obligation': r[0], 'detail': r[1], 'inputs': v.used}
            break
        if r is None and whole and not v.invented \
                and set(v.used) == set(inputs) and all(
                    v.sizes.get(k, n) == n for k, n in sizes.items()):
            # the very case the counter-model describes, and it is right
            exact = True
            break
    return {'fail': out, 'passes': exact}


def exhaust(c):
    """a contract on every combination of its arguments"""
    importlib.import_module('contracts.common')
    importlib.import_module(c['module'])
    kinds, ensures, requires, opts = vc.CONTRACTS[c['contract']]
    f = vc.resolve(c['contract'])
    n = 0
    for args in itertools.product(*[range(k[1], k[2] + 1) for k in kinds]):
        if requires is not None and not requires(*args):
            continue
        n += 1
        want = ensures(*args)
        try:
            got = f(*args)
        except Exception as e:
            got = e
        if type(got) is not type(want) or got != want:
            return {'fail': {'inputs': list(args), 'got': repr(got),
                             'want': repr(want)}, 'runs': n}
    return {'fail': None, 'runs': n}


def main():
    out = os.fdopen(os.dup(1), 'w')
    sys.stdout = open(os.devnull, 'w')
    if not os.environ.get('VERIF_NATIVE_STDERR'):
        sys.stderr = open(os.devnull, 'w')
    for line in sys.stdin:
        c = json.loads(line)
        try:
            r = random_run(c) if c['cmd'] == 'random' else exhaust(c) \
                if c['cmd'] == 'exhaust' else replay(c)
        except Exception as e:
            r = {'error': '%s: %s' % (type(e).__name__, e),
                 'trace': traceback.format_exc()[-2000:]}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
