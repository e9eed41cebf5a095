#!/usr/bin/env python3
"""Decide one property: run.py C01 [--tier quick|thorough]

Every harness of contracts/<property>.py is executed symbolically on the
current source of /repo by engine/ and its obligations are discharged; the
contracts it relied on are discharged against their bodies; counter-models are
replayed natively; functions the verifier cannot decide are covered by
labelled bounded native runs of the same harness.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time
if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYPY = '/opt/venv/bin/python'
ENGINE_PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(ENGINE_PY):
    import shutil
    ENGINE_PY = shutil.which('python3-vt') or sys.executable
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           VERIF_REPO=REPO, LC_ALL='C.UTF-8')


def literal(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return None


def discover(module):
    path = os.path.join(VERIF, module.replace('.', '/') + '.py')
    tree = ast.parse(open(path).read())
    hs = []
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) \
                        and d.func.id in ('harness', 'bounded'):
                    opts = {k.arg: literal(k.value) for k in d.keywords}
                    hs.append((n.name, d.func.id, opts,
                               ast.get_docstring(n) or ''))
    return hs


def exhaustive_contracts(module):
    out = set()
    for m in ('contracts.common', module):
        path = os.path.join(VERIF, m.replace('.', '/') + '.py')
        for n in ast.walk(ast.parse(open(path).read())):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == 'contract' and any(
                        k.arg == 'exhaustive' and literal(k.value)
                        for k in n.keywords):
                out.add(literal(n.args[0]))
    return out


class Native(object):
    """A pool of PyPy servers."""

    def __init__(self, n):
        self.q = queue.Queue()
        for _ in range(n):
            self.q.put(None)

    def start(self):
        return subprocess.Popen(
            [PYPY, os.path.join(VERIF, 'rt', 'native.py')], cwd='/tmp',
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=ENV)

    def call(self, cmd, timeout):
        p = self.q.get()
        try:
            if p is None or p.poll() is not None:
                p = self.start()
            t = threading.Timer(timeout, p.kill)
            t.start()
            try:
                p.stdin.write((json.dumps(cmd) + '\n').encode())
                p.stdin.flush()
                line = p.stdout.readline()
            except (OSError, ValueError):
                line = b''
            finally:
                t.cancel()
            if not line:
                try:
                    p.kill()
                    p.wait()
                except OSError:
                    pass
                p = None
                return {'error': 'native run ended (time or memory limit)'}
            return json.loads(line)
        finally:
            self.q.put(p)

    def close(self):
        while not self.q.empty():
            p = self.q.get()
            if p is not None:
                p.kill()
                p.wait()


def symbolic(module, name, budget, nocontract, deadline):
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    limit = min(budget + 40, max(5, deadline - time.time()))
    cmd = [ENGINE_PY, '-m', 'engine.runner', module, name, '--budget',
           str(budget), '--out', out, '--repo', REPO]
    if nocontract:
        cmd += ['--nocontract', ','.join(sorted(nocontract))]
    try:
        subprocess.run(cmd, cwd=VERIF, env=ENV, timeout=limit,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        txt = open(out).read()
        r = json.loads(txt) if txt else {}
    except (subprocess.TimeoutExpired, ValueError) as e:
        r = {'unsupported': {'time limit': 1}}
    finally:
        os.unlink(out)
    if not r:
        r = {'unsupported': {'engine ended without a result': 1}}
    r.setdefault('status', 'undecided')
    r.setdefault('harness', name)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--update-baseline', action='store_true')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.property.upper()
    module = 'contracts.' + prop.lower()
    thorough = a.tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    deadline = t0 + (3000 if thorough else 560)
    if '--tier' not in sys.argv and os.environ.get('VERIF_TIER') == 'quick':
        deadline = t0 + 560
    hs = [h for h in discover(module) if not a.only or h[0] == a.only]
    sym = [h for h in hs if h[1] == 'harness']
    nat = [h for h in hs if h[1] == 'bounded']
    base_path = os.path.join(VERIF, 'baseline.json')
    try:
        baseline = json.load(open(base_path))
    except (OSError, ValueError):
        baseline = {}
    mybase = baseline.get(prop, {})

    native = Native(4)
    pool = cf.ThreadPoolExecutor(7)
    npool = cf.ThreadPoolExecutor(4)
    budget = 150 if not thorough else 600

    # ---- bounded native runs of everything, in the background
    nat_f = {}
    shards = 4 if thorough else 1

    def nrun(name, opts, isbounded, shard):
        secs = opts.get('secs') or (8 if isbounded else 2.5)
        if thorough:
            secs *= 8
        return native.call({'cmd': 'random', 'module': module,
                            'harness': name, 'seed': seed * 1000 + shard,
                            'secs': secs}, secs * 3 + 90)
    for name, kind, opts, _ in sorted(
            nat + sym, key=lambda h: -(h[2].get('secs') or 1)):
        if opts.get('native') is False:
            continue
        for s in range(1 if opts.get('once') else shards):
            nat_f[name, s] = npool.submit(nrun, name, opts,
                                          kind == 'bounded', s)

    # ---- obligations
    res = {}
    order = sorted(sym, key=lambda h: -(h[2].get('cost') or 1))
    fut = {h[0]: pool.submit(symbolic, module, h[0],
                             h[2].get('budget') or budget, None, deadline)
           for h in order}
    for k, f in fut.items():
        res[k] = f.result()
    # contracts, transitively; those of small functions on every argument
    whole = exhaustive_contracts(module)

    def exhaust(q):
        t = time.time()
        r = native.call({'cmd': 'exhaust', 'module': module, 'contract': q},
                        200)
        ok = 'fail' in r and not r['fail'] and r['runs']
        return {'harness': 'contract:' + q, 'contracts': [], 'functions': [q],
                'status': 'proved' if ok else 'undecided',
                'obligations': {'result, on each of %d arguments'
                                % r.get('runs', 0): {
                                    'proved': int(bool(ok)), 'refuted': 0,
                                    'unknown': int(not ok)}},
                'unsupported': {} if ok else {str(r)[:300]: 1},
                'backends': {'execution on every argument': 1},
                'solver_s': time.time() - t}
    cres = {}
    todo = set()
    for r in res.values():
        todo |= set(r.get('contracts', []))
    while todo - set(cres):
        new = sorted(todo - set(cres))
        fs = {q: pool.submit(exhaust, q) if q in whole else
              pool.submit(symbolic, module, 'contract:' + q, budget, None,
                          deadline) for q in new}
        for q, f in fs.items():
            cres[q] = f.result()
            todo |= set(cres[q].get('contracts', []))
    bad = {q for q, r in cres.items() if r['status'] != 'proved'}
    # contracts depending on a bad one are not established either
    while True:
        more = {q for q, r in cres.items() if q not in bad
                and set(r.get('contracts', [])) & bad}
        if not more:
            break
        bad |= more
    if bad:
        fs = {}
        for k, r in res.items():
            if set(r.get('contracts', [])) & bad:
                h = [x for x in sym if x[0] == k][0]
                fs[k] = pool.submit(symbolic, module, k,
                                    h[2].get('budget') or budget, bad,
                                    deadline)
        for k, f in fs.items():
            r = f.result()
            r['inlined'] = sorted(bad)
            # contracts used after disabling the bad ones are good ones, or
            # new: check them too
            newq = set(r.get('contracts', [])) - set(cres)
            for q in newq:
                cres[q] = symbolic(module, 'contract:' + q, budget, bad,
                                   deadline)
                if cres[q]['status'] != 'proved':
                    r['status'] = 'undecided'
                    r.setdefault('unsupported', {})['contract ' + q] = 1
            res[k] = r

    nres = {}
    for k, f in nat_f.items():
        r = f.result()
        old = nres.get(k[0])
        if old is None:
            nres[k[0]] = r
        else:
            for x in ('runs', 'skipped', 'distinct'):
                old[x] = old.get(x, 0) + r.get(x, 0)
            old['fail'] = old.get('fail') or r.get('fail')
            old['checks'] = sorted(set(old.get('checks', []))
                                   | set(r.get('checks', [])))

    # ---- judge
    violations = []
    notes = []

    def replay_file(name, obligation, body):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        safe = ''.join(c if c.isalnum() else '_' for c in
                       '%s_%s_%s' % (prop, name, obligation))[:120]
        p = os.path.join(d, safe + '.json')
        body = dict(body, property=prop, module=module, harness=name,
                    obligation=obligation,
                    how='python3 %s/checks/replay.py <this file>' % VERIF)
        with open(p, 'w') as f:
            json.dump(body, f, indent=1, default=str)
        return p

    seen = set()

    def violation(name, fail, kind, extra=None):
        k = (name, fail['obligation'])
        if k in seen:
            return
        seen.add(k)
        p = replay_file(name, fail['obligation'], dict(
            inputs=fail.get('inputs'), detail=fail.get('detail'), kind=kind,
            **(extra or {})))
        violations.append({'harness': name, 'obligation': fail['obligation'],
                           'replay': p, 'kind': kind,
                           'detail': str(fail.get('detail'))[:600]})
        print('FAILED %s %s.%s: %s [%s]' % (
            prop, name, fail['obligation'], str(fail.get('detail'))[:400],
            kind))
        print('VIOLATION property=%s replay=%s%s' % (
            prop, p, ' no-failing-input-found' if kind == 'obligation'
            else ''))

    for name, r in sorted(nres.items()):
        if r.get('fail'):
            isb = any(h[0] == name for h in nat)
            violation(name, r['fail'], 'failing input')
        if r.get('error'):
            notes.append('native %s: %s' % (name, r['error']))
    opts_of = {h[0]: h[2] for h in hs}
    def search(name, r):
        """an input which fails: the verifier's counter-models, then more
        random ones"""
        for c in r.get('cex', []):
            rr = native.call({'cmd': 'replay', 'module': module,
                              'harness': name, 'inputs': c['inputs']}, 60)
            if rr.get('fail'):
                return c, rr['fail']
            if rr.get('passes') and c.get('exact'):
                c['weak'] = True
        if opts_of[name].get('native') is not False:
            for i in range(4 if thorough else 1):
                rr = native.call({'cmd': 'random', 'module': module,
                                  'harness': name, 'seed': seed * 77 + 5 + i,
                                  'secs': 25}, 120)
                if rr.get('fail'):
                    return ({'obligation': rr['fail']['obligation']},
                            rr['fail'])
        return None

    # what was proved and is no longer
    lost = [name for name, r in sorted(res.items())
            if (r['status'] == 'refuted' or r['status'] != 'proved'
                and mybase.get(name, {}).get('status') == 'proved')
            and not any(v['harness'] == name for v in violations)]
    looked = {name: npool.submit(search, name, res[name]) for name in lost}
    for name in lost:
        r = res[name]
        found = looked[name].result()
        if found:
            violation(name, found[1], 'failing input',
                      {'verifier': found[0]})
            continue
        if r['status'] != 'refuted':
            continue
        if all(c.get('weak') for c in r.get('cex', [])):
            r['status'] = 'undecided'
            notes.append('%s: the counter-models do not fail against the '
                         'real code' % name)
        for c in r.get('cex', []):
            if c.get('weak'):
                continue
            ob = c['obligation']
            was = mybase.get(name, {})
            if was.get('status') == 'proved':
                violation(name, {'obligation': ob, 'inputs': c['inputs'],
                                 'detail': 'obligation not discharged: '
                                 'counter-model %s values %s' % (
                                     c.get('model'), c.get('values'))},
                          'obligation', {'verifier_output': r})
            else:
                notes.append('%s.%s not proved (abstract counter-model that '
                             'does not replay)' % (name, ob))
                break

    kf_path = os.path.join(VERIF, 'known_findings.json')
    try:
        findings = json.load(open(kf_path))
    except (OSError, ValueError):
        findings = []
    for f in findings:
        if f.get('property') != prop or f.get('status') != 'known':
            continue
        rr = native.call({'cmd': 'replay', 'module': 'contracts.findings',
                          'harness': f['demo'], 'inputs': {}, 'tries': 1},
                         60)
        if rr.get('fail'):
            print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        else:
            notes.append('known finding %s no longer reproduces' % f['demo'])
    native.close()

    if a.update_baseline:
        baseline[prop] = {k: {'status': r['status'],
                              'obligations': sorted(
                                  r.get('obligations', {}))}
                          for k, r in sorted(res.items())}
        baseline.setdefault('contracts', {}).update(
            {q: r['status'] for q, r in sorted(cres.items())})
        with open(base_path, 'w') as f:
            json.dump(baseline, f, indent=1, sort_keys=True)
            f.write('\n')

    # ---- evidence
    obls = disch = 0
    by_backend = {}
    functions = set()
    solver_s = 0.0
    undecided = {}
    invs = set()
    trusted = set()
    for name, r in list(res.items()) + [('contract:' + q, r)
                                        for q, r in cres.items()]:
        for o, c in r.get('obligations', {}).items():
            n = c['proved'] + c['refuted'] + c['unknown']
            obls += n
            disch += c['proved']
        for k, n in r.get('backends', {}).items():
            by_backend[k] = by_backend.get(k, 0) + n
        functions |= set(r.get('functions', []))
        solver_s += r.get('solver_s', 0)
        invs |= set(r.get('invariants', []))
        trusted |= set(r.get('trusted', []))
        if r['status'] != 'proved':
            undecided[name] = {
                'status': r['status'],
                'why': dict(list(r.get('unsupported', {}).items())[:5])}
            lost = mybase.get(name, {}).get('status') == 'proved'
            if lost:
                notes.append('%s was proved on the baseline and is %s now: '
                             'bounded stand-in only' % (name, r['status']))
    proved_h = sorted(k for k, r in res.items() if r['status'] == 'proved')
    bounded_h = {h[0]: {'bound': h[3].split('\n')[0] or 'random inputs',
                        'runs': nres.get(h[0], {}).get('runs', 0),
                        'distinct': nres.get(h[0], {}).get('distinct', 0),
                        'exhaustive': bool(h[2].get('exhaustive'))}
                 for h in nat}
    ev_total = sum(r.get('runs', 0) for r in nres.values())
    ev_dist = sum(r.get('distinct', 0) for r in nres.values())
    samples = []
    for k in sorted(nres):
        for s in nres[k].get('samples', [])[:1]:
            samples.append('%s: %s' % (k, s))
    man = {}
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))[
                'checks']:
            man[c['property']] = c
    except (OSError, ValueError, KeyError):
        pass
    level = man.get(prop, {}).get('level', 'proof')
    ev = {
        'property': prop, 'tier': 'thorough' if thorough else 'quick',
        'seed': seed, 'level': level,
        'coverage': {
            'obligations': obls, 'discharged': disch,
            'checker_cmd': 'python3-vt -m engine.runner %s <harness>'
                           % module,
            'trusted_base': sorted(trusted) or ['engine/ (verification '
                                                'condition generator)',
                                                'z3', 'cvc5'],
            'evaluations': ev_total, 'distinct_nontrivial': ev_dist,
            'rule': 'distinct generated input tuples that satisfied the '
                    'harness assumptions, native runs of the real code',
            'samples': samples[:8] or ['none'],
            'explanation': 'harnesses proved for all inputs: %s; not '
                           'decided by the verifier and only run bounded: '
                           '%s; bounded-only harnesses: %s' % (
                               ', '.join(proved_h) or 'none',
                               ', '.join(sorted(k for k in undecided))
                               or 'none', ', '.join(bounded_h) or 'none'),
            'harnesses_proved': proved_h,
            'harnesses_undecided': undecided,
            'bounded_only': bounded_h,
            'functions_under_contract': sorted(functions),
            'contracts_discharged': sorted(q for q, r in cres.items()
                                           if r['status'] == 'proved'),
            'invariants': sorted(invs),
            'backends': by_backend, 'solver_s': round(solver_s, 2),
            'paths': sum(r.get('paths', 0) for r in res.values())
            + sum(r.get('paths', 0) for r in cres.values()),
            'notes': notes,
        },
        'assumptions': ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.replace(p + '.tmp', p)
    print('%s %s: %d/%d obligations discharged in %d harnesses (%d proved, '
          '%d undecided), %d contracts; %d bounded runs; %.1fs; %d '
          'violation(s)' % (
              prop, ev['tier'], disch, obls, len(res), len(proved_h),
              len([k for k in undecided if not k.startswith('contract')]),
              len(cres), ev_total, time.time() - t0, len(violations)))
    for k, u in undecided.items():
        print('   undecided %s: %s' % (k, u))
    for n in notes:
        print('   note:', n)
    pool.shutdown(wait=False)
    npool.shutdown(wait=False)
    return 1 if violations else 0


ASSUMPTIONS = [
    'engine/ (symbolic execution of the Python AST, rope theory, path '
    'exploration) is trusted; it is validated against PyPy by running every '
    'harness natively as well',
    'z3 and cvc5 are trusted; integers are mathematical integers as in '
    'Python, or exact bit-vectors wide enough for their range',
    'library models in engine/models.py (hash functions, block ciphers, '
    'RSA/DSA/ElGamal, zlib, bz2, base64, datetime) are assumed: '
    'uninterpreted functions with the stated algebraic laws only',
]

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
