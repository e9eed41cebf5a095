"""Plant bugs: seed(id, prop, path, [(old, new)...], demo, needs, breaks).

Works in a scratch copy of /repo; keeps the bug as seeded/<id>/ only when the
stable tests pass with it, the demonstration fails with it and passes without.
Then (check=True) applies it to /repo, runs the property's check and undoes it.
"""
import json, os, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')
STABLE = None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def origin_lines(path):
    r = sh('git -C /repo show 6536f96:%s' % path)
    return set(l.strip() for l in r.stdout.splitlines())


def failing(wt):
    out = wt + '.json'
    with open('/opt/vp/lib/run_nose.py') as f:
        t = f.read().replace("'/repo/pgp'", repr(wt + '/pgp'))
    with open(wt + '.py', 'w') as f:
        f.write(t)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               LC_ALL='C.UTF-8', NOSE_IGNORE_CONFIG_FILES='1')
    sh('timeout 600 /opt/venv/bin/python -W ignore %s.py %s.txt; '
       'python3 /opt/vp/results.py %s lines:%s.txt' % (wt, wt, out, wt),
       cwd=wt, env=env)
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open(out))
    key = [k for k in ('passed', 'stable', 'tests', 'pass') if k in b][0]
    okey = [k for k in ('passed', 'pass') if k in o][0]
    for x in ('.py', '.txt', '.json'):
        os.unlink(wt + x)
    return sorted(set(b[key]) - set(o[okey]))


def seed(id, prop, edits, demo, needs, breaks, check=True, tier='quick'):
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        return
    d = os.path.join(VERIF, 'seeded', id)
    wt = '/tmp/seed-%s' % id
    sh('rm -rf %s; git clone -q %s %s' % (wt, REPO, wt))
    try:
        work(wt, d, id, prop, edits, demo, needs, breaks, check, tier)
    finally:
        shutil.rmtree(wt)
    sys.stdout.flush()


def work(wt, d, id, prop, edits, demo, needs, breaks, check, tier):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(demo.lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\n'
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    ok = sh('bash %s/demo.sh' % d, cwd=wt)
    if ok.returncode:
        print(id, 'demo FAILS on unchanged tree', ok.stderr[-800:])
        return
    for path, old, new in edits:
        p = os.path.join(wt, path)
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        orig = origin_lines(path)
        a, b = old.splitlines(), new.splitlines()
        changed = [l for l in a if l not in b]
        if changed and not any(l.strip() in orig for l in changed):
            print(id, 'NOTE: changes only lines not in the original')
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % wt).stdout
    with open(os.path.join(d, 'patch.diff'), 'w') as f:
        f.write(diff)
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': prop, 'needs': needs,
                   'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
    bad = sh('bash %s/demo.sh' % d, cwd=wt)
    fails = failing(wt)
    msg = []
    if not bad.returncode:
        msg.append('demo PASSES with the patch')
    if fails:
        msg.append('tests fail: %s' % fails[:3])
    if msg:
        print(id, 'REJECTED:', '; '.join(msg))
        shutil.rmtree(d)
        return
    if check:
        r = sh('python3 checks/run.py %s --tier %s' % (prop, tier),
               cwd=VERIF, env=dict(os.environ, VERIF_REPO=wt))
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
        print(id, 'CAUGHT' if r.returncode == 1 and v else
              'MISSED rc=%d' % r.returncode, v[:1] or
              r.stdout[-600:] + r.stderr[-600:])
