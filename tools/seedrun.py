"""
python tools/seedrun.py [--jobs N] [--with CHECK,...] [ID...] : makes a scratch copy of /repo's
HEAD, applies each seeded change there in turn, and runs the quick check of its property (or the
given checks) against the copy; prints and records (tools/seed_results.json) which are caught
"""
import json, os, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args, jobs, others = sys.argv[1:], None, None
while args and args[0].startswith('--'):
    if args[0] == '--jobs':
        jobs = args[1]
    elif args[0] == '--with':
        others = args[1].split(',')
    args = args[2:]
ids = args or sorted(os.listdir(os.path.join(here, 'seeded')))
book = os.path.join(here, 'tools', 'seed_results.json')
work = tempfile.mkdtemp(prefix='seedrun-', dir='/tmp')
repo = work + '/repo'
subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
env = dict(os.environ, PYTHONPATH=f'{repo}:{here}', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           PYTHONPYCACHEPREFIX='/nonexistent/no-pycache', OMP_NUM_THREADS='1', MPLBACKEND='Agg',
           OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=work + '/mpl', VERIF_NO_EVIDENCE='1')
try:
    for i in ids:
        d = os.path.join(here, 'seeded', i)
        own = json.load(open(d + '/meta.json'))['property']
        if subprocess.run(['git', '-C', repo, 'apply', d + '/patch.diff']).returncode:
            print(i, own, 'DOES NOT APPLY'); continue
        for p in others or [own]:
            t = time.time()
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'mc.runner', p, '--tier', 'quick']
                               + (['--jobs', jobs] if jobs else []),
                               cwd=here, env=env, capture_output=True, text=True)
            hit = r.returncode == 1 and f'VIOLATION property={p}' in r.stdout
            why = [l.strip() for l in r.stdout.splitlines() if l.startswith('    ') and ': case' in l][:1]
            print(i, p, 'caught' if hit else f'MISSED rc={r.returncode}', f'{time.time()-t:.0f}s', *why,
                  flush=True)
            res = json.load(open(book)) if os.path.exists(book) else {}
            res.setdefault(i, {})[p] = 'caught' if hit else f'missed (exit {r.returncode})'
            json.dump(res, open(book, 'w'), indent=1, sort_keys=True)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'])
finally:
    shutil.rmtree(work, ignore_errors=True)
