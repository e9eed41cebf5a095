"""refactor(name, props, edits): apply an edit which changes no behaviour in a
scratch copy of /repo, run the stable tests and the checks of the properties:
they have to stay quiet, and should still prove what they prove."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import VERIF, failing, sh


def refactor(name, props, edits):
    if len(sys.argv) > 1 and name not in sys.argv[1:]:
        return
    wt = '/tmp/refactor-%s' % name
    sh('rm -rf %s; git clone -q /repo %s' % (wt, wt))
    try:
        for path, old, new in edits:
            p = os.path.join(wt, path)
            s = open(p).read()
            assert s.count(old) == 1, (name, path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        fails = failing(wt)
        if fails:
            print(name, 'tests fail:', fails[:3])
        for prop in props:
            r = sh('python3 checks/run.py %s --tier quick' % prop, cwd=VERIF,
                   env=dict(os.environ, VERIF_REPO=wt))
            out = r.stdout.splitlines()
            v = [l for l in out if 'VIOLATION' in l]
            u = [l for l in out if 'undecided' in l]
            print(name, prop, 'ALARM' if v else 'rc=%d' % r.returncode,
                  v[:3], u[:6])
            sys.stdout.flush()
    finally:
        shutil.rmtree(wt)
