"""C28: models load the same from files, examples and text"""
import glob
import itertools
import os
import pathlib
import shutil
import tempfile

from mc import modfiles, observe

ID = 'C28'
LEVEL = 'exploration'
RULE = ('all states of two directories with three file names (one of them an example\'s name, one '
        'an example\'s with a suffix), each file absent or with one of two models, and either '
        'working directory: in every state every file is loaded through every path form '
        '(relative, dotted, absolute, through the parent, text and path object), states being '
        'reached one after another by writing and deleting single files, so that the same path '
        'has other content, or none, the next time; every model of the catalogue, valid or not, '
        'x file names x line ends x final line ends; every shipped example x every way to write '
        'its name x working directories; unknown names; languages; '
        'outcome = (source, form, result)')
ASSUMPTIONS = [
    'file names have one suffix or none (the name of the model is the one without the suffix)',
    'files are readable text in the encoding of the locale',
    'a missing file with an example\'s name and any suffix means the example, as documented',
]
CHUNK = 4

A = 'var x; varexo e; parameters a; a = 0.5; model; x = a*x(-1) + e; end;'
B = ('var y, x; varexo e u; parameters a b; a = 0.2; b = a/4; model; x = a*x(-1) + e; '
     'y = b*y(+1) + x - u; end; shocks; var e = 0.3; end; initval; y = 1; end;')
NAMES = ['m.mod', 'basic_nk', 'simple_linear.txt']
EXAMPLES = ['simple_rbc', 'simple_linear', 'optim_ck', 'basic_nk', 'four_eq_nk',
            'herbst_schorfheide']
BAD = {
    'undeclared': 'var x; varexo e; model; x = q*x(-1) + e; end;',
    'cut': 'var x; varexo e; parameters a; a = 0.5; model; x = a*x(-1) + e',
    'empty': '',
    'junk': 'this is not a model',
}


def texts():
    out = dict(modfiles.FILES)
    out.update(BAD)
    out['A'], out['B'] = A, B
    return out


def cases(tier):
    deep = tier == 'thorough'
    for cwd in (0, 1):
        for first in itertools.product((0, 1, 2), repeat=3):
            yield ['states', cwd, list(first), 3 if deep else 2]
    for t in texts():
        for name in ('m.mod', 'm.txt', 'm', 'My_Model2.mod', 'four_eq_nk.mod', 'optim_ck'):
            yield ['file', t, name]
    for ex in EXAMPLES:
        for where in ('root', 'package', 'empty', 'same'):
            yield ['example', ex, where]
    for where in ('root', 'package', 'empty'):
        yield ['unknown', where]


def run(case, ctx):
    old = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='verif-c28-')
    try:
        return globals()['run_' + case[0]](ctx, scratch, *case[1:])
    finally:
        os.chdir(old)
        shutil.rmtree(scratch)


PARTS = ['basic', 'ss', 'steady jacobian', 'jacobian', 'dynamic residual']


def show(md, parts=PARTS):
    return [('endog', [str(v) for v in md.endog])] + [(p, *observe.ask(md, p)) for p in parts]


def agree(a, b):
    for x, y in zip(a, b):
        if x[0] == 'endog':
            if x != y:
                return False
        elif x[1] != y[1]:
            return False
        elif x[1] == 'ok':
            if not observe.same(x[2], y[2]):
                return False
        elif type(x[2]) is not type(y[2]):
            return False
    return True


def attempt(f):
    try:
        return 'ok', f()
    except Exception as e:
        return 'error', e


cache = {}


def reference(text, lang='dynare'):
    from pynare import Model
    from pynare.parsing import read_model
    if (text, lang) not in cache:
        kind, md = attempt(lambda: Model.from_outline(read_model(text, lang), lang, 'ref'))
        cache[text, lang] = (kind, show(md) if kind == 'ok' else md)
    return cache[text, lang]


def judge(ctx, path, text, name, what, **detail):
    """loading `path` must be reading `text` (None: not found), under `name`"""
    from pynare import Model
    ctx.step()
    kind, got = attempt(lambda: Model.from_path(path))
    detail.update(path=str(path), cwd=os.getcwd())
    if text is None:
        return ctx.check(kind == 'error' and isinstance(got, FileNotFoundError),
                         f'{what}: not reported as not found', got=repr(got), **detail)
    want, ref = reference(text)
    if want == 'error':
        return ctx.check(kind == 'error' and type(got) is type(ref),
                         f'{what}: an invalid model', got=repr(got), want=repr(ref), **detail)
    if not ctx.check(kind == 'ok', f'{what}: failed', got=repr(got), **detail):
        return False
    return ctx.check(got.name == name, f'{what}: name', got=got.name, want=name, **detail) \
        & ctx.check(agree(show(got, ['basic'] if what.startswith('path') else PARTS), ref),
                    f'{what}: another model', **detail)


def example_text(name):
    import pynare
    root = os.path.dirname(os.path.abspath(pynare.__file__))
    files = glob.glob(os.path.join(glob.escape(root), 'examples', 'pynare', name + '.*'))
    assert len(files) == 1, files
    with open(files[0]) as f:
        return f.read()


def run_states(ctx, scratch, cwd, first, depth):
    dirs = [os.path.join(scratch, d) for d in ('d0', 'd1')]
    content = {}
    for d in dirs:
        os.mkdir(d)
        for n in NAMES:
            content[d, n] = 0
    os.chdir(dirs[cwd])
    fallback = {n: example_text(n.split('.')[0]) if n.split('.')[0] in EXAMPLES else None
                for n in NAMES}
    source = {1: A, 2: B}

    def put(d, n, c):
        if content[d, n] == c:
            return
        content[d, n] = c
        p = os.path.join(d, n)
        if c:
            with open(p, 'w') as f:
                f.write(source[c])
        else:
            os.remove(p)

    def text_of(d, n, plain):
        c = content[d, n]
        # an example is only meant by its plain name
        return source[c] if c else (fallback[n] if plain else None)

    for n, c in zip(NAMES, first):
        put(dirs[cwd], n, c)
    other = dirs[1 - cwd]
    # a walk through the states of the other directory, one file changed at a time
    walk = list(itertools.product((0, 1, 2), repeat=depth))
    for k, st in enumerate(walk):
        for n, c in zip(NAMES, st):
            put(other, n, c)
        ctx.state((cwd, tuple(first), st))
        # own directory changes between the loads, too, and comes back
        for turn in range(2):
            n = NAMES[k % 3]
            if turn:
                put(dirs[cwd], n, (content[dirs[cwd], n] + 1) % 3)
            forms = []
            for n in NAMES if not turn else [n]:
                here, there = dirs[cwd], other
                forms += [(n, here, n, True), ('./' + n, here, n, False),
                          (os.path.join(here, n), here, n, False),
                          (f'../d{cwd}/{n}', here, n, False),
                          (os.path.join(there, n), there, n, False),
                          (f'../d{1 - cwd}/{n}', there, n, False)]
            for p, d, n, plain in forms:
                t = text_of(d, n, plain)
                stem = n.split('.')[0]
                judge(ctx, p, t, stem, 'path', state=(first, st))
                # a path object has no leading dot
                q = pathlib.Path(p)
                judge(ctx, q, text_of(d, n, plain or str(q) == n), stem, 'path object',
                      state=(first, st))
                ctx.outcome(('state', p[:2], content[d, n], t is None, turn))
            if turn:
                put(dirs[cwd], NAMES[k % 3], first[k % 3])


def run_file(ctx, scratch, t, name):
    text = texts()[t]
    os.chdir(scratch)
    os.mkdir('sub dir')
    stem = name.split('.')[0]
    for end, tail in itertools.product(('\n', '\r\n'), ('', '\n', '\n\n  \n')):
        body = text.strip() + tail
        for d in ('', 'sub dir'):
            p = os.path.join(d, name)
            with open(p, 'w', newline='') as f:
                f.write(body.replace('\n', end))
            for q in (p, os.path.abspath(p), os.path.join('.', p),
                      os.path.join(scratch, 'sub dir', '..', p)):
                judge(ctx, q, body, stem, 'file', source=t, end=end, tail=tail)
                judge(ctx, pathlib.Path(q), body, stem, 'file', source=t, end=end, tail=tail)
            ctx.outcome((t, name, end, tail, reference(body)[0]))


def place(scratch, where):
    import pynare
    pkg = os.path.dirname(os.path.abspath(pynare.__file__))
    return {'root': os.path.dirname(pkg), 'package': pkg, 'empty': scratch,
            'same': scratch}[where]


def run_example(ctx, scratch, ex, where):
    text = example_text(ex)
    os.chdir(place(scratch, where))
    if where == 'same':
        # names of other files and directories don't matter
        os.mkdir('sub')
        for p in ('sub/' + ex, 'x' + ex, ex + '_', 'README'):
            with open(p, 'w') as f:
                f.write(A)
    for form in (ex, ex + '.mod', ex + '.txt'):
        judge(ctx, form, text, ex, 'example')
        judge(ctx, pathlib.Path(form), text, ex, 'example')
        ctx.outcome(('example', ex, where, reference(text)[0]))
    for form in ('./' + ex, 'nowhere/' + ex, 'nowhere/' + ex + '.mod', '../' + ex, ex[:-1],
                 ex.upper(), ' ' + ex, '/' + ex):
        judge(ctx, form, None, None, 'almost an example')
    if where == 'same':
        with open(ex, 'w') as f:
            f.write(B)
        judge(ctx, ex, B, ex, 'file with the name of an example')
        judge(ctx, ex + '.mod', text, ex, 'example whose name without suffix is a file\'s')
        os.remove(ex)
        judge(ctx, ex, text, ex, 'example again')
        # the models loaded under one name are independent
    from pynare import Model
    kind, one = attempt(lambda: Model.from_path(ex))
    if kind == 'ok':
        ref = show(one)
        one.endog[0].name = 'changed'
        for k in list(one.params):
            one.params[k] = 17.0
        judge(ctx, ex, text, ex, 'example after the first one loaded was changed')
        ctx.check(agree(show(Model.from_path(ex)), ref), 'example loaded twice')


def run_unknown(ctx, scratch, where):
    os.chdir(place(scratch, where))
    for p in ('nosuch', 'nosuch.mod', 'no/such.mod', '/no/such.mod', '../nosuch', 'dynare',
              'example1', 'example1.mod', 'basic_nk_', 'None', 'examples.mod', 'ramst'):
        judge(ctx, p, None, None, 'unknown name')
        judge(ctx, pathlib.Path(p), None, None, 'unknown name')
        ctx.outcome(('unknown', where, p))
    from pynare import Model
    from pynare.parsing import read_model
    p = os.path.join(scratch, 'm.mod')
    with open(p, 'w') as f:
        f.write(A)
    for lang in ('dynare', 'matlab', '', 'DYNARE', None):
        kind, got = attempt(lambda: Model.from_path(p, lang))
        want, ref = attempt(lambda: Model.from_outline(read_model(A, lang), lang))
        ctx.check(kind == want and (kind == 'ok' and agree(show(got), show(ref))
                                    or type(got) is type(ref)),
                  'language: file and text differ', lang=lang, got=repr(got), want=repr(ref))
        ctx.check((kind == 'ok') == (lang == 'dynare'), 'language: accepted', lang=lang,
                  got=repr(got))
        ctx.outcome(('language', lang, kind))
