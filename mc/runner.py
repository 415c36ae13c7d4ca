"""
the explorer: enumerates every case of a check's bounded space, runs each against the
real code in /repo, and reports.

A check module (checks/cNN.py) provides

    ID, LEVEL, RULE, ASSUMPTIONS
    cases(tier)      -> iterable of JSON-able cases: the whole bounded space
    run(case, ctx)   -> explores one case; calls ctx.check / ctx.equal / ctx.fail

Nothing is sampled: every case yielded is executed, or the run is reported as capped.
"""
import argparse
import collections
import faulthandler
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CASE_CPU = 40            # CPU seconds one case may use before it counts as a hang
STALL = 400              # wall seconds without any finished chunk before giving up
MAX_VIOLATIONS = 4
MEM = 6 << 30


class Hang(BaseException):
    pass


class Ctx(object):
    """collects what one case observed"""

    def __init__(self, case):
        self.case = case
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.problems = []
        self.nontrivial = False
        self.seen = set()
        self.evals = 0               # evaluations inside the case, if it is itself a space
        self.inner = 0               # distinct non-trivial ones among them

    def state(self, key=None):
        """count a state; with a key, count it once per case"""
        if key is None:
            self.states += 1
            return True
        if key in self.seen:
            return False
        self.seen.add(key)
        self.states += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, key, trivial=False):
        """record what was observed; trivial: nothing about the property was decided"""
        self.outcomes[str(key)] += 1
        if not trivial:
            self.nontrivial = True

    def tally(self, nontrivial=True):
        """one more distinct evaluation of an enumeration inside the case"""
        self.evals += 1
        self.inner += bool(nontrivial)

    def fail(self, what, **detail):
        if len(self.problems) < 6:
            self.problems.append((what, {k: _show(v) for k, v in detail.items()}))

    def check(self, ok, what, **detail):
        if not ok:
            self.fail(what, **detail)
        return bool(ok)

    def close(self, a, b, what, tol=1e-8, **detail):
        """numerical agreement of arrays, relative to their size"""
        import numpy as np
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except Exception:
            self.fail(what + ' (not numeric)', got=a, expected=b, **detail)
            return False
        if a.shape != b.shape:
            self.fail(what + ' (shape)', got=a, expected=b, **detail)
            return False
        if a.size == 0:
            return True
        na, nb = np.isnan(a), np.isnan(b)
        if (na != nb).any():
            self.fail(what + ' (nan)', got=a, expected=b, **detail)
            return False
        with np.errstate(all='ignore'):
            d = np.where(na | (a == b), 0.0, np.abs(a - b))
            scale = 1.0 + np.max(np.abs(np.where(na | np.isinf(b), 0.0, b)))
        if not (np.max(d) <= tol * scale):
            self.fail(what, got=a, expected=b, **detail)
            return False
        return True

    def raises(self, exc, fn, what, **detail):
        """`fn` must raise one of `exc`; any other ending is a violation"""
        try:
            val = fn()
        except exc as e:
            return e
        except Hang:
            raise
        except Exception as e:
            self.fail(what + f': raised {type(e).__name__}', error=str(e)[:300], **detail)
            return None
        self.fail(what + ': accepted', got=val, **detail)
        return None


def _show(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.size > 60:
            return f"array{v.shape} {np.array2string(v.ravel()[:40], precision=10)}..."
        return np.array2string(v, precision=12)
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) < 1500 else s[:1500] + '...'


def _alarm(signum, frame):
    raise Hang()


def _worker_init(module):
    global _mod
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    _mod = importlib.import_module(module)
    # the code under test may print; keep the check's output its own
    sys.stdout = open(os.devnull, 'w')


def _run_case(mod, case):
    import numpy as np
    ctx = Ctx(case)
    np.random.seed(int(os.environ.get('VERIF_SEED', '1')))
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, getattr(mod, 'CASE_CPU', CASE_CPU))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                mod.run(case, ctx)
    except Hang:
        ctx.fail('did not terminate')
    except MemoryError:
        ctx.fail('ran out of memory')
    except RecursionError as e:
        ctx.fail('unbounded recursion', trace=traceback.format_exc()[-1500:])
    except Exception as e:
        ctx.fail(f'raised {type(e).__name__}', error=str(e)[:500],
                 trace=traceback.format_exc()[-2500:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx


def _run_chunk(chunk):
    tot = [0, 0, 0, 0, 0]
    hashes = []
    outs = collections.Counter()
    probs = []
    for case in chunk:
        ctx = _run_case(_mod, case)
        tot[0] += ctx.evals or 1
        tot[4] += ctx.inner
        tot[1] += ctx.states
        tot[2] += ctx.transitions
        tot[3] += ctx.traces
        outs.update(ctx.outcomes)
        if ctx.nontrivial and not ctx.evals:
            hashes.append(hash(json.dumps(case, default=str)))
        for what, detail in ctx.problems:
            probs.append((case, what, detail))
        if len(probs) > 20:
            break
    return tot, outs, probs, hashes


def load_known(pid):
    """
    lines of known_findings.txt:
        finding: property=<id> key=<fingerprint> <text>
        fixed: property=<id> <commit> <text>         (suppresses nothing)
    """
    known = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding:'):
                parts = line.split(None, 3)
                if parts[1] == f'property={pid}':
                    known[parts[2].split('=', 1)[1]] = parts[3].strip()
    return known


def fingerprint(case, what):
    s = json.dumps([case, what], sort_keys=True, default=str)
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--all', action='store_true', help='do not stop early')
    ap.add_argument('--spread', action='store_true',
                    help='visit the cases in a mixed order and stop at the first violation')
    ap.add_argument('--limit', type=int, default=0)
    args = ap.parse_args()

    sys.path.insert(0, VERIF)
    modname = f'checks.{args.id.lower()}'
    warnings.simplefilter('ignore')
    mod = importlib.import_module(modname)
    pid = mod.ID

    if args.replay:
        data = json.load(open(args.replay))
        ctx = _run_case(mod, data['case'])
        for what, detail in ctx.problems:
            print(what)
            for k, v in detail.items():
                print('   ', k, ':', v)
        print('REPRODUCED' if ctx.problems else 'not reproduced')
        return 1 if ctx.problems else 0

    t0 = time.time()
    known = load_known(pid)
    cases = mod.cases(args.tier)
    samples, ncases = [], 0

    def gen():
        nonlocal ncases
        for c in cases:
            if args.limit and ncases >= args.limit:
                return
            if ncases in (0, 7, 101, 1009):
                samples.append(c)
            ncases += 1
            yield c

    evals = states = trans = traces = inner = 0
    outs = collections.Counter()
    violations, matched, distinct = [], {}, set()
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    size = getattr(mod, 'CHUNK', 8)
    most = MAX_VIOLATIONS
    if args.spread:
        size, most = max(1, size // 8), 1
        cases = list(cases)
        random.Random(0).shuffle(cases)
    capped = None

    pool = mp.get_context('fork').Pool(jobs, _worker_init, (modname,))
    try:
        it = pool.imap_unordered(_run_chunk, chunks(gen(), size))
        while True:
            try:
                tot, o, probs, hashes = it.next(timeout=STALL)
            except StopIteration:
                break
            except mp.TimeoutError:
                violations.append((None, f'no case finished for {STALL} s', {}))
                capped = 'stalled'
                break
            evals += tot[0]
            states += tot[1]
            trans += tot[2]
            traces += tot[3]
            inner += tot[4]
            outs.update(o)
            distinct.update(hashes)
            for case, what, detail in probs:
                fp = fingerprint(case, what)
                if fp in known:
                    matched[fp] = known[fp]
                else:
                    violations.append((case, what, detail))
            if len(violations) >= most and not args.all:
                capped = 'stopped at the first violations'
                break
    finally:
        pool.terminate()
        pool.join()

    rc = 0
    for fp, text in sorted(matched.items()):
        print(f'KNOWN-FINDING: property={pid} {text}')
    if violations:
        rc = 1
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        shown = violations if args.all else violations[:MAX_VIOLATIONS]
        for case, what, detail in shown[:40]:
            fp = fingerprint(case, what)
            path = os.path.join(rdir, f'{pid}-{fp}.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': case, 'what': what,
                           'detail': detail, 'fingerprint': fp,
                           'rerun': f'bash /verif/check.sh {pid} --replay {path}'},
                          f, indent=1, default=str)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'    {what}: case {json.dumps(case, default=str)[:400]}')
            for k, v in list(detail.items())[:4]:
                print(f'      {k}: {str(v)[-400:]}')

    wall = time.time() - t0
    # number of different non-error observations: a search with one outcome proves little
    cov = {
        'evaluations': evals,
        'distinct_nontrivial': len(distinct) + inner,
        'rule': mod.RULE,
        'samples': samples[:4],
        'outcomes': dict(outs.most_common(25)),
        'exhaustive': bool(not capped and not args.limit),
    }
    for name, n in (('states', states), ('transitions', trans),
                    ('traces_validated_against_impl', traces)):
        if n or mod.LEVEL == 'model_checking':
            cov[name] = n
    if capped:
        cov['capped'] = capped
    ev = {
        'property': pid,
        'tier': args.tier if args.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': mod.LEVEL,
        'coverage': cov,
        'assumptions': list(mod.ASSUMPTIONS),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid} {args.tier}: {evals} cases ({len(distinct) + inner} distinct non-trivial), {states} states, '
          f'{trans} transitions, {len(outs)} distinct outcomes, '
          f'{len(violations)} violations, {wall:.1f} s')
    return rc


if __name__ == '__main__':
    faulthandler.enable()
    sys.exit(main())
