"""
python tools/mutate.py FILE[,FILE…] --checks C01,C02 [--workers N] [--step K] [--only LINE-LINE]
makes every K-th small change of the files (operators, constants, conditions, bounds, deleted
statements, swapped arguments), each in a scratch copy of /repo's HEAD, runs the quick checks
against it until one reports a violation, then the repository's tests against those that survive;
appends survivors to tools/survivors.txt (not committed), to be judged by hand
"""
import argparse, ast, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.MatMult: '@', ast.Pow: '*',
       ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '+'}


def siblings(root):
    """attributes read off the same expression anywhere in the package"""
    import glob
    out = {}
    for f in glob.glob(os.path.join(root, 'pynare', '**', '*.py'), recursive=True):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                base = ast.unparse(n.value).split('.')[-1]
                out.setdefault(base, set()).add(n.attr)
    return {k: sorted(v) for k, v in out.items()}


def swaps(src, sib):
    """another attribute, another local name, two statements exchanged"""
    import difflib
    tree = ast.parse(src)
    starts = [0]
    for l in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    out = []
    near = lambda w, ws, k: difflib.get_close_matches(w, [x for x in ws if x != w], k, .5)
    for f in ast.walk(tree):
        if not isinstance(f, ast.FunctionDef) or f.name in ('__repr__', '__str__'):
            continue
        quiet = {id(m) for n in ast.walk(f) if isinstance(n, (ast.Raise, ast.JoinedStr))
                 for m in ast.walk(n)}
        local = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)
                 and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args} - {'self'}
        for n in ast.walk(f):
            if id(n) in quiet:
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                a, b = span(n)
                base = ast.unparse(n.value)
                if base in ('np', 'self', 'linalg', 'anp', 'pd', 'copy', 'os'):
                    continue
                for w in near(n.attr, sib.get(base.split('.')[-1], ()), 2):
                    out.append((n.lineno, b - len(n.attr), b, w, 'attribute'))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in local:
                a, b = span(n)
                for w in near(n.id, local, 1):
                    out.append((n.lineno, a, b, w, 'name'))
        for n in ast.walk(f):
            for body in (getattr(n, 'body', None), getattr(n, 'orelse', None)):
                if not isinstance(body, list):
                    continue
                for s, t in zip(body, body[1:]):
                    if all(isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) for x in (s, t)) \
                            and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        (a, b), (c, d) = span(s), span(t)
                        new = raw[c:d] + raw[b:c] + raw[a:b]
                        out.append((s.lineno, a, d, new.decode(), 'order'))
    seen, res = set(), []
    for m in sorted(out):
        new = (raw[:m[1]] + m[3].encode() + raw[m[2]:]).decode()
        if new not in seen:
            seen.add(new)
            try:
                compile(new, 'x', 'exec')
            except SyntaxError:
                continue
            res.append((m[0], m[4], raw[m[1]:m[2]].decode(), m[3], new))
    return res


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    doc, quiet = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                doc.add(id(n.body[0].value)); doc.add(id(n.body[0]))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                quiet.add(id(m))
        if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', '__str__'):
            for m in ast.walk(n):
                quiet.add(id(m))
        if isinstance(n, ast.arguments) or isinstance(n, ast.AnnAssign):
            for a in (getattr(n, 'args', []) or []):
                if a.annotation is not None:
                    for m in ast.walk(a.annotation):
                        quiet.add(id(m))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                if m is not n:
                    quiet.add(id(m))
    out = []

    def put(n, new, what, by=None):
        a, b = by or span(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, a, b, new, what))

    for n in ast.walk(tree):
        if id(n) in quiet or id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, f'{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}', 'compare')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.MatMult):
                put(n, f'{text(n.right)} @ {text(n.left)}', 'swap')
            elif not (isinstance(n.left, (ast.JoinedStr,)) or (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str))):
                put(n, f'({text(n.left)}) {BIN[type(n.op)]} ({text(n.right)})', 'operator')
        elif isinstance(n, ast.BoolOp):
            w = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + w.join(f'({text(v)})' for v in n.values) + ')', 'bool')
            put(n, text(n.values[0]), 'bool-first')
            put(n, text(n.values[-1]), 'bool-last')
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
                put(n, f'({text(n.operand)})', 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                put(n, str(not n.value), 'constant')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), 'constant')
                if n.value > 0:
                    put(n, str(n.value - 1), 'constant')
            elif isinstance(n.value, float):
                put(n, repr(n.value * 2 + 1), 'constant')
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                put(n, f':{text(n.upper) if n.upper else ""}', 'slice')
            if n.upper is not None:
                put(n, f'{text(n.lower) if n.lower else ""}:', 'slice')
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            put(n.test, 'False', 'cond')
            if isinstance(n, ast.If):
                put(n.test, 'True', 'cond')
        elif isinstance(n, (ast.If,)):
            put(n.test, 'False', 'cond')
        elif isinstance(n, ast.IfExp):
            put(n, text(n.body), 'ifexp'); put(n, text(n.orelse), 'ifexp')
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            put(n, text(n.value), 'transpose')
        elif isinstance(n, ast.Call):
            pos = [a for a in n.args if not isinstance(a, ast.Starred)]
            for a, b in zip(pos, pos[1:]):
                s = raw[span(a)[1]:span(b)[0]].decode()
                put(a, text(b) + s + text(a), 'swap', (span(a)[0], span(b)[1]))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'flatten', 'conj', 'conjugate') and not n.args:
                put(n, text(n.func.value), 'nocopy')
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'dict', 'tuple', 'abs', 'sorted', 'float', 'int', 'reversed') and len(n.args) == 1 and not n.keywords:
                put(n, f'({text(n.args[0])})', 'nowrap')
            for k in n.keywords:
                if k.arg:
                    a, b = starts[k.lineno - 1] + k.col_offset, span(k.value)[1]
                    tail = raw[b:b + 1].decode()
                    if tail == ',':
                        out.append((k.lineno, a, b + 1, '', 'keyword'))
                    else:
                        out.append((k.lineno, a, b, '', 'keyword'))
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Break, ast.Continue, ast.Delete)):
            put(n, 'pass', 'delete')
        elif isinstance(n, ast.Assign):
            if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                put(n, 'pass', 'delete')
        elif isinstance(n, ast.For):
            put(n.iter, f'list({text(n.iter)})[1:]', 'loop'); put(n.iter, f'list({text(n.iter)})[:-1]', 'loop')
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                put(i, 'True', 'filter')
    seen, res = set(), []
    for m in sorted(out):
        new = (raw[:m[1]] + m[3].encode() + raw[m[2]:]).decode()
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except SyntaxError:
            continue
        res.append((m[0], m[4], raw[m[1]:m[2]].decode(), m[3], new))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('files'); ap.add_argument('--checks', required=True)
    ap.add_argument('--workers', type=int, default=8); ap.add_argument('--step', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--budget', type=float, default=1500, help='seconds per check')
    ap.add_argument('--swaps', action='store_true')
    ap.add_argument('--only', default=''); ap.add_argument('--count', action='store_true')
    ap.add_argument('--out', default=os.path.join(here, 'tools', 'survivors.txt'))
    a = ap.parse_args()
    todo = []
    k = 0
    for f in a.files.split(','):
        text = open(os.path.join('/repo', f)).read()
        ms = swaps(text, siblings('/repo')) if a.swaps else mutants(text)
        if a.only:
            lo, hi = map(int, a.only.split('-'))
            ms = [m for m in ms if lo <= m[0] <= hi]
        todo += [(f, *m) for i, m in enumerate(ms) if (i + a.offset) % a.step == 0]
        print(f, len(ms), 'mutants', flush=True)
    if a.count:
        return
    work = tempfile.mkdtemp(prefix='mutate-', dir='/tmp')
    free = []
    for i in range(a.workers):
        d = f'{work}/w{i}'
        os.makedirs(d)
        subprocess.run(f'git -C /repo archive HEAD | tar x -C {d}', shell=True, check=True)
        free.append(d)
    tally = {'killed': 0, 'survived': 0, 'tests': 0}

    def one(job):
        f, line, kind, old, new, src = job
        d = free.pop()
        p = os.path.join(d, f)
        orig = open(p).read()
        env = dict(os.environ, PYTHONPATH=f'{d}:{d}/verif', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                   PYTHONPYCACHEPREFIX='/nonexistent/np', OMP_NUM_THREADS='1', MPLBACKEND='Agg',
                   OPENBLAS_NUM_THREADS='1', MPLCONFIGDIR=work + '/mpl')
        vf = d + '/verif'
        if not os.path.exists(vf):
            os.makedirs(vf)
            for x in ('mc', 'checks'):
                shutil.copytree(os.path.join(here, x), f'{vf}/{x}')
            shutil.copy(os.path.join(here, 'known_findings.txt'), vf)
        try:
            open(p, 'w').write(src)
            killer = None
            for c in a.checks.split(','):
                try:
                    r = subprocess.Popen(['nice', '-n', '15', '/opt/venv/bin/python', '-B', '-m', 'mc.runner', c,
                                          '--tier', 'quick', '--jobs', '1', '--spread'], cwd=vf, env=env,
                                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                         process_group=0)
                    r.wait(timeout=a.budget)
                except subprocess.TimeoutExpired:
                    os.killpg(r.pid, 9)
                    r.wait()
                    if a.budget >= 1500:
                        killer = c + ' (time)'; break
                    continue        # nothing found in that time
                if r.returncode:
                    killer = c; break
            if killer is None:
                t = subprocess.run('/opt/venv/bin/python -B -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -3',
                                   shell=True, cwd=d, env=dict(env, PYTHONPATH=d), capture_output=True, text=True, timeout=600)
                if '10 passed' not in t.stdout:
                    killer = 'tests'
        finally:
            open(p, 'w').write(orig)
            free.append(d)
        if killer is None:
            tally['survived'] += 1
            with open(a.out, 'a') as o:
                o.write(f'{f}:{line} [{kind}] {old!r} -> {new!r}   ({a.checks})\n')
        else:
            tally['tests' if killer == 'tests' else 'killed'] += 1
        print(sum(tally.values()), f'{f}:{line} [{kind}] {old[:60]!r} -> {new[:60]!r}', killer or 'SURVIVED', flush=True)

    try:
        with ThreadPoolExecutor(a.workers) as ex:
            list(ex.map(one, todo))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(tally)


main()
