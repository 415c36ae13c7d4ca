"""writes DESIGN.md from the properties, the checks and the notes below"""
import importlib, json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)

INTRO = """# Design

How the properties of `properties.jsonl` are decided for pynare, all of them by model checking:
a bounded space of behaviours is enumerated completely and the **real code** is run on every
element of it, against a reference that was written independently of it. `MANIFEST.json` has the
commands; this file says what is specified, enumerated and compared, within what bounds, at what
cost, and why that reaches what the ten tests of the repository do not. It is generated by
`tools/mkdesign.py` (sections per property from the properties, the checks' own statements of
their bounds, and notes kept in the script).

## Approach

pynare is sequential numerical software: it reads a model file, calibrates and classifies it,
differentiates, solves for its steady state and decision rules, and simulates and summarises
the result. Its "executions" are therefore inputs (texts, models, shocks, options) and histories
of API calls on objects that cache, share and mutate. It starts no threads and writes no
files; but a solve can be interrupted at the keyboard, or run in several threads, and what objects keep
must survive that. What is explored:

* **Histories** (C06, C19, C20, C23, C29, C36; level `model_checking`). A small abstract state machine
  (a calibration; the content of a model; a world of several live models and the inputs they
  were made of; which solution is stored; a list of equations; a history with and without the operations that are refused) is explored exhaustively: from each
  reference state every operation is taken, up to a depth, and *every* explored trace is replayed
  on the implementation, the whole observable state being compared after each step (in C23 and C20
  also everything handed out before). So the model is bound to the code on every transition it
  has; `traces_validated_against_impl` in the evidence counts the replays. The evidence also has
  the numbers of reference states and transitions.
* **Stops and schedules** (C34, C35; level `model_checking`, `mc/crash.py`). A query runs under a tracer; at
  every distinct point (a line, and the functions that led there) the process forks, and in the
  child an exception is raised there (C34), or another thread is let run there to its end or to a
  point of its own (C35). The parent goes on undisturbed, so each point is reached from the same history
  and each child explores one stop or one schedule on the real code. C34 identifies states left
  behind by their whole object graph (with module globals, class attributes, defaults of functions)
  and asks each distinct one every query.
* **Inputs** (all other checks; level `exploration`). Bounded exhaustive exploration of the
  implementation itself: every token string up to a length, every edit of a file, every lead/lag
  incidence structure of models up to a size, every sequence of shocks over a small alphabet, every
  sequence of regimes up to a horizon, and so on. The state space is the input space; there is no
  sampling, and no random number is involved except where drawn shocks are themselves the subject
  (C14, where `numpy.random.normal` is replaced by a designed sequence).

**No verdict is taken from a tool that could be right for the wrong reason.** The references
are: a precedence-climbing parser and evaluator (`mc/exprs.py`), a recursive-descent reader of whole
model files with the documented rules about names (`mc/modlang.py`), symbolic differentiation over
nested tuples (`mc/sym.py`), an invariant-subspace solver for the first-order solution and
vectorised linear systems for the second-order one (`mc/ref.py`), brute-force enumeration of regime
sequences (`mc/occ.py`). None of them calls pynare. Results are read through the public interface
(`mc/access.py`, `mc/observe.py`), translated to declaration order, so that internal orders,
names and caches can change freely.

**Small-scope argument.** Reading is context-free with one token of look-ahead; the solvers treat
variables only through their class (static, backward, mixed, forward) and their position. All
combinations of classes, positions, ties and degenerate sizes (no shocks, one state, no state, no
forward variable, singular covariance...) occur in models of one to three variables, and almost
every defect that was found (86 of them, see below) shows in a model of one or two variables.
Larger models (5 to 12 variables) come from an enumeration of structures (every word of three classes, repeated) in C07 to C12, C14 to C17 and
C24, against code that treats, say, the sixth equation in its own way.

**Explorer** (`mc/runner.py`): a check module gives `cases(tier)`, the whole space as an iterator, and
`run(case, ctx)`. Cases are spread over 8 processes; every exception that escapes, exhausted memory,
unbounded recursion and more than 40 CPU seconds in one case are violations. A violation is written to
`replays/`, and `bash check.sh CNN --replay FILE` runs that single case again. A check stops at the
first violations (`--all` goes on). Evidence has the numbers of cases, of those that were
non-trivial (something about the property was decided), of distinct outcomes, and whether the space was
exhausted. `--spread` visits the cases in a mixed order (used for the mutation runs below).

**Tiers.** quick and thorough differ in bounds only. Where the quick tier takes a fixed part of the
deepest level (say every thirteenth history of length 3), the rule says so, and the thorough
tier takes all of it. On 8 cores a quick check takes 5 to 75 s, all of them together about
twelve minutes; the thorough tiers take from one minute to about an hour.

**Nothing is built**: the package is imported in place from `/repo`, with bytecode caches disabled,
so a check always sees the current tree. Checks write to `/verif/evidence`, `/verif/replays` and
private temporary directories only.

"""

NOTES = {
 'C01': ('a precedence-climbing parser over the same token lists and IEEE arithmetic',
         'tests hold a few models; precedence and associativity mistakes need particular operator triples'),
 'C02': ('a reference lexer and recursive-descent reader gives one of: malformed, breaks a rule about names, fine, outside of the documentation; a run-away reader is caught by the CPU limit',
         'no test reads a malformed file; silently dropped text needs particular token sequences'),
 'C03': ('the token stream (type, value, line, column) of a reference lexer, and the model read by the reference reader',
         'a comment or blank matters only at particular gaps, and comment openers inside comments, strings or operators are unusual input'),
 'C04': ('the reference reader, executed statement by statement; residuals of every equation at several points identify the equations',
         'orders of statements and reuse of names multiply; tests read three files'),
 'C05': ('the rules about names of the reference reader', 'each rule needs its own wrong file; the tests hold none'),
 'C06': ('a reference calibration: definitions evaluated in dependency order, refusing cycles; the state is the mapping of definitions',
         'stale values appear only after sequences of edits'),
 'C07': ('the classification computed from the incidence of the syntax trees', 'classes interact with positions; and an appearance can be hidden in the expression'),
 'C08': ('symbolic differentiation over nested tuples (the reference trees from which the model text was printed)',
         'all function and operator pairs, with leads and lags, shocks and parameters; tests differentiate two models'),
 'C09': ('known steady states (the systems are made from them), and plain Newton iteration for systems with several',
         'scales, signs, starting values, solver choices'),
 'C10': ('stable invariant subspace of the companion pencil by ordered QZ of scipy, on matrices that the symbolic reference provides; also residual of the matrix equation and stability of the result',
         'the shapes of the partition change with the incidence structure; tests solve three models'),
 'C11': ('eigenvalues of the reference pencil, and the rank of the reference static and forward blocks',
         'wrong verdicts appear on counts of roots that no test has'),
 'C12': ('the four arrays from vectorised linear systems of exact symbolic derivatives', 'cross terms, order of Kronecker products, and shapes without states, shocks or forward variables'),
 'C13': ('the matrix written down from the statements', 'orders of statements; correlations that come before or after variances; either name first'),
 'C14': ('the recursion written out with the reference solution, or, for order two, with the model arrays translated to declaration order, unpruned and as documented',
         'timing, orders of variables, scale factors; every shock sequence over an alphabet'),
 'C15': ('difference of two reference paths', 'correlated shocks, sizes, shapes'),
 'C16': ('discrete Lyapunov equation solved by vectorisation, powers of the reference transition', 'singular covariances, variables without variance, numbers of states'),
 'C17': ('shares from the reference moving-average with Cholesky columns', 'every selection and order of names'),
 'C18': ('sample formulas written as loops', 'off-by-one periods and lags, ordering of variables'),
 'C19': ('a model built afresh from the content that a reference of the edits says it has', 'caches survive particular sequences of edits only'),
 'C20': ('each live model has a reference content, which only its own edits change', 'aliasing shows only when a second object is edited after a first was made'),
 'C21': ('brute force: all 2^H sequences of regimes are solved as piecewise-linear systems; those that satisfy their own conditions are right',
         'needs particular shock sequences, so that regimes enter, leave, and re-enter'),
 'C22': ('brute force over all 4^H sequences of regimes, and guess-and-verify on the regimes for what may be left unsolved', 'two constraints interact for particular sequences only'),
 'C23': ('every query of a fresh model; the state is the model and which solution is stored', 'histories, by definition'),
 'C24': ('the printed tables are read back, by their labels, and compared with independent solutions; rows that may be left out are known from the numbers', 'labels and numbers go apart for particular orders of variables'),
 'C25': ('lines, axes and legends of the figure drawn, through matplotlib', 'numbers of series times layouts'),
 'C26': ('the defining equation of each routine', 'eigenvalue patterns and non-square shapes'),
 'C27': ('positions in a plain list of names', 'names that contain each other, copies and slices, lookups after edits'),
 'C28': ('the model built from the same text', 'directory states times path forms; a path may be found in several places'),
 'C29': ('a plain python list; printed equations are read back by the reference parser', 'positions beyond the ends, histories, forms of an equation'),
 'C30': ('a model written with all the equations; data by name from a dictionary', 'orders of columns, histories before and after observing'),
 'C32': ('both sides parsed by the reference parser and compared point by point', 'signs, ties, shapes of lists'),
 'C33': ('first token at which the predictive reference reader stops, names that break a rule of the reference', 'faults at every token in three layouts'),
 'C34': ('a model with the same history that was never interrupted, in which the query was made or was not; every state left behind is reached in a forked child by an injected exception', 'crash points times histories; a half-made update shows only in what is asked next'),
 'C35': ('the results of the operations alone; a controlled scheduler holds one thread at each point in a forked child', 'interleavings do not show in tests that use one thread'),
 'C36': ('the same history without the refused operation, queried by the same panel', 'error paths in the middle of a history: what was applied before the error is only seen in later answers'),
 'C37': ('the answers of the same model in the original units, multiplied', 'tolerances and cut-offs that are absolute only show when variables or shocks are of very different size'),
 'C31': ('the content that was put in, read back from the text by name', 'zero, huge, infinite values, several correlations, edits'),
}

TAIL = open(os.path.join(here, 'tools', 'design_tail.md')).read()


def main():
    props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
    o = [INTRO, '## Properties\n']
    for p in props:
        i = p['id']
        m = importlib.import_module('checks.' + i.lower())
        o.append(f"### {i} {p['title']}\n")
        o.append(f"*Decided by* {m.LEVEL.replace('_', ' ')}: "
                 + getattr(m, 'TECHNIQUE', 'bounded exhaustive enumeration of inputs, run on the real code') + '.\n')
        o.append(f'*Explored.* {m.RULE}.\n')
        o.append(f'*Oracle.* {NOTES[i][0]}.\n')
        o.append(f'*Beyond the tests.* {NOTES[i][1]}.\n')
        o.append('*Assumed or left out.* ' + '; '.join(m.ASSUMPTIONS) + '.\n')
    res = json.load(open(os.path.join(here, 'tools', 'seed_results.json')))
    o.append('## Planted changes\n')
    o.append('Each is in `seeded/<id>/`; the last column is what the quick check of its property said '
             '(`tools/seedrun.py`).\n')
    o.append('| id | property | breaks | needs | found by |\n|---|---|---|---|---|')
    for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
        me = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
        hit = ', '.join(f'{k}' if v == 'caught' else f'{k}: {v}' for k, v in sorted(res.get(d, {}).items()))
        o.append(f"| {d} | {me['property']} | {me['what_it_breaks']} | {me['needs']} | {hit or 'not run'} |".replace('\n', ' '))
    o.append('\n' + TAIL)
    open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(o))


main()
