"""
python tools/seed.py SPEC.py : makes seeded/<id>/ from a list SEEDS of dicts
    id, property, edits=[(file, old, new)], needs, breaks, demo (python source)
after confirming, in scratch copies of /repo's HEAD, that it applies, the tests pass, and the
demo succeeds without and fails with it
"""
import json, os, runpy, shutil, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'fc2f4de'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent/np',
           PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
           MPLCONFIGDIR='/tmp/seed-mpl')
DEMO_SH = '''#!/bin/bash
# exit 0 where the property holds, 1 where it is broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/np
export PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
exec timeout 120 /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"
'''

def sh(cmd, cwd, env=ENV):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)

def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    r = sh(f'git -C /repo archive HEAD | tar x -C {path} && cd {path} && git init -q && git add -A -f . '
           '&& git -c user.name=x -c user.email=x@x commit -qm x', '/')
    assert r.returncode == 0, r.stderr

def main(spec):
    seeds = runpy.run_path(spec)['SEEDS']
    clean, bad = '/tmp/seed-clean', '/tmp/seed-bad'
    fresh(clean)
    for s in seeds:
        out = os.path.join(here, 'seeded', s['id'])
        fresh(bad)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(bad, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'EDIT MATCHES', t.count(old), 'TIMES', f); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff', bad).stdout
        # the lines removed must be lines of the original repository
        cur = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = sh(f'git -C /repo show {BASE}:{line[6:]}', '/').stdout.splitlines()
            elif line.startswith('-') and not line.startswith('---'):
                if line[1:].strip() and line[1:] not in cur:
                    print(s['id'], 'NOTE: not an original line:', line)
        tmp = '/tmp/seed-demo'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/demo.py', 'w').write(s['demo'])
        open(tmp + '/demo.sh', 'w').write(DEMO_SH)
        a = sh(f'bash {tmp}/demo.sh', clean)
        b = sh(f'bash {tmp}/demo.sh', bad)
        e = dict(ENV, PYTHONPATH=bad)
        t = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3', bad, e)
        good = a.returncode == 0 and b.returncode not in (0, 124, 127) and '10 passed' in t.stdout and 'failed' not in t.stdout
        print(s['id'], 'OK' if good else 'REJECTED', a.returncode, b.returncode, t.stdout.strip().splitlines()[-1:])
        if not good:
            print('  clean:', (a.stdout + a.stderr)[-400:]); print('  bad:', (b.stdout + b.stderr)[-300:])
            continue
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(out + '/meta.json', 'w'), indent=1)
    for d in (clean, bad, '/tmp/seed-demo'):
        shutil.rmtree(d, ignore_errors=True)

main(sys.argv[1])
