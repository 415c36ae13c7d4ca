"""writes properties.jsonl (the statements live here so they stay readable)"""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=['pynare/' + f for f in files],
                          mechanism=[dict(name=a, where='pynare/' + b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b) for a, b in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


T0 = ('The existing tests only compare the first-order arrays of five shipped example models '
      'with stored values; ')

prop('C01', 'Model expressions mean what ordinary arithmetic says',
     'The value of any expression written in a model, a parameter assignment, a boundary value '
     'or a shock moment equals its value under ordinary mathematical rules: multiplication and '
     'division bind tighter than addition and subtraction and group to the left, parentheses '
     'and functions bind tightest, exponentiation binds tighter than unary and binary operators '
     'and groups to the right. An equation "l = r" evaluates to l minus r, and an expression '
     'without "=" to itself. Every supported function, sign and number literal has its usual '
     'value.',
     ['programs', 'inputs'],
     'all expressions over numbers, parameters, variables (with lags and leads), + - * / ^, '
     'unary signs, parentheses and the elementary functions',
     T0 + 'no test evaluates an expression of its own; grammar mistakes only show for particular '
     'operator combinations.',
     ['parsing/parser.py', 'parsing/base.py', 'parsing/lexer.py', 'core/expressions.py'],
     [('recursive-descent expression grammar', 'parsing/parser.py'),
      ('tree evaluators', 'parsing/base.py'),
      ('steady and dynamic model functions', 'core/expressions.py')],
     observe=['values of parameters, steady and dynamic residuals'])

prop('C02', 'Malformed model text is rejected, and reading always ends',
     'Reading any text as a model file or as a single expression finishes and either yields a '
     'result that accounts for the whole text or raises an error: it never hangs and never '
     'silently drops part of an expression. Text that is not in the language (an unbalanced '
     'parenthesis, a missing operand, operator, semicolon or "end", an extra token, an unknown '
     'symbol, an unterminated comment or string) always raises an error.',
     ['programs', 'inputs'],
     'all texts: every token sequence up to a length as an expression; every single-token '
     'deletion, duplication, replacement and truncation of model files',
     T0 + 'no malformed text is ever read.',
     ['parsing/lexer.py', 'parsing/parser.py', 'parsing/api.py'],
     [('tokenizer', 'parsing/lexer.py'), ('recursive-descent parser', 'parsing/parser.py')])

prop('C03', 'Comments, blanks and line breaks never change a model',
     'Inserting blanks, tabs, line breaks, empty lines and any of the supported comments '
     'between any two tokens of a model file, at its beginning or at its end, leaves the model '
     'that is read unchanged, as does removing blanks that do not separate words. Every token '
     'is reported at the line and column it really occupies in the text, whatever was read '
     'before in the same process.',
     ['programs', 'inputs', 'histories'],
     'all model texts, all insertion points, all kinds and sequences of comments and blanks',
     T0 + 'five fixed layouts are read.',
     ['parsing/lexer.py', 'parsing/base.py', 'parsing/dynare.py'],
     [('whitespace and comment skipping, line/column bookkeeping', 'parsing/lexer.py'),
      ('reserved word tokens', 'parsing/dynare.py')])

prop('C04', 'A model file is read faithfully',
     'A model read from text has exactly the declared endogenous variables, stochastic shocks '
     'and parameters, in declaration order, the parameter values given by the assignments '
     '(which may use previously assigned parameters and helper names), the equations of the '
     'model block in order with local "#" definitions substituted, the initial, terminal and '
     'historical values of their blocks, and the shock moments of the shocks block. Optional '
     'blocks may be missing or come in any order after the model block, and the preamble may '
     'mix declarations and assignments.',
     ['programs', 'configurations'],
     'all model files within the supported language: every combination and order of '
     'declaration statements, assignments, local definitions, optional blocks and shock kinds',
     T0 + 'blocks other than those used by the five examples are never read.',
     ['parsing/parser.py', 'parsing/factory.py', 'core/model.py', 'core/generic.py'],
     [('file grammar', 'parsing/parser.py'), ('outline factory', 'parsing/factory.py'),
      ('construction from an outline', 'core/model.py')])

prop('C05', 'Semantically invalid model files are rejected with an error',
     'A model file that uses an undeclared name in the model block, gives a lead or lag to '
     'something other than an endogenous variable, assigns to or gives boundary values or shock '
     'moments to a name of the wrong kind, or declares the same name twice raises an error when '
     'it is read. A file with none of these faults is accepted.',
     ['programs', 'inputs'],
     'all placements of each fault in a model file (each statement, operand position, sign, '
     'function argument), and all valid files',
     T0 + 'no invalid file is ever read.',
     ['parsing/semantics.py', 'parsing/factory.py'],
     [('symbol tables and semantic visitor', 'parsing/semantics.py')])

prop('C06', 'Calibration always equals evaluating its own formulas',
     'A calibration given as numbers and formulas in terms of other parameters, in any order, '
     'holds for every parameter the value of its formula; cyclic or unresolvable formulas are '
     'rejected. After any sequence of setting and deleting parameters, all dependent parameters '
     'have been re-evaluated, a rejected change leaves the calibration as it was, and the '
     'mapping (keys, values, length, iteration) agrees with what was set.',
     ['inputs', 'histories'],
     'all formula graphs over a few parameters and all sequences of sets (numbers, formulas), '
     'deletions and failing operations up to a depth',
     T0 + 'parameters are never changed after construction.',
     ['core/variables.py'],
     [('calibration mapping with dependency ordering', 'core/variables.py'),
      ('parameter formula evaluation', 'core/variables.py')],
     state=[('parameter values', 'current value of every parameter'),
            ('formulas', 'definition of parameters given in terms of others')])

prop('C07', 'Variables are classified by the periods they really appear in',
     'Each endogenous variable is static, purely backward, mixed or purely forward according to '
     'whether it appears with a lag and with a lead anywhere in the equations, and the derived '
     'facts agree: the counts, the lists of names, the state variables, the incidence table, '
     'the columns of the derivative matrices and the decision-rule ordering, which is a '
     'permutation whose inverse is the declaration-order index.',
     ['programs', 'configurations'],
     'all assignments of appearance patterns to variables, all placements of the appearances in '
     'the equations, all declaration orders',
     T0 + 'five incidence patterns are exercised.',
     ['core/variables.py', 'core/generic.py'],
     [('lead/lag reading', 'core/variables.py'), ('index manager', 'core/variables.py')])

prop('C08', 'Derivative matrices are the exact derivatives of the equations',
     'The steady-state Jacobian, the dynamic Jacobian and the Hessian of a model are the first '
     'and second derivatives of its equations at the steady state, with the columns in the '
     'documented order (lags, current values, leads in declaration order, then shocks).',
     ['programs', 'configurations'],
     'all equations over the supported operators and functions, all incidence patterns and '
     'declaration orders',
     T0 + 'derivatives enter only indirectly, for five models, and the Hessian not at all.',
     ['core/linearizing.py', 'core/expressions.py', 'core/generic.py'],
     [('automatic differentiation of the model functions', 'core/linearizing.py'),
      ('argument order of the dynamic functions', 'core/expressions.py')])

prop('C09', 'The steady state solves the static model',
     'The steady state found from starting values close to a regular solution of the static '
     'equations makes every static residual (numerically) zero, is reported in declaration '
     'order, and does not depend on the order of equations or declarations, on the solver '
     'chosen, or on shocks. Starting values given for a variable are used for that variable, '
     'and the residual function matches the equations with all leads and lags removed and '
     'shocks set to zero.',
     ['inputs', 'configurations'],
     'all well-conditioned models in the bounded family, all starting points around the '
     'solution, all declaration and equation orders, all available solvers',
     T0 + 'the steady state is only used indirectly.',
     ['core/steady.py', 'core/expressions.py', 'core/generic.py'],
     [('least-squares minimisation', 'core/steady.py'), ('static functions', 'core/expressions.py')])

prop('C10', 'The first-order solution is the stable solution of the model',
     'Whenever the linearised model has a unique stable solution, the solution computed at '
     'first order satisfies the linearised equations exactly for every variable and shock, is '
     'stable (no root outside the unit circle; a root of modulus one, such as a random walk, is '
     'not explosive), and equals that unique solution, independently of the order of declarations and '
     'equations and of how the model was built.',
     ['programs', 'configurations'],
     'all lead/lag structures with coefficient tables, shock layouts (including none), '
     'declaration and equation orders',
     T0 + 'they cover five structures, none without static, mixed, purely forward or purely '
     'backward variables in the unusual combinations.',
     ['core/solve/first_order.py', 'core/solve/statespace.py', 'utils/numpy.py'],
     [('structural state space', 'core/solve/statespace.py'),
      ('ordered generalised Schur decomposition', 'utils/numpy.py'),
      ('policy matrices', 'core/solve/first_order.py')])

prop('C11', 'Models without a unique stable solution are rejected',
     'Solving a model at first or second order succeeds exactly when the Blanchard-Kahn order '
     'and rank conditions hold (roots of modulus one count as stable); otherwise an identification error is raised that names the '
     'violated condition (and, where the order condition fails, the numbers of explosive roots and of '
     'forward-looking variables), every time the model is solved or used. A rank-deficient block of static equations is reported as such, with '
     'the rank and the number of static variables.',
     ['programs', 'configurations'],
     'all lead/lag structures x coefficient tables that make the model determinate, '
     'indeterminate or explosive',
     T0 + 'only determinate models are solved.',
     ['core/solve/statespace.py', 'core/solve/first_order.py', 'errors/__init__.py'],
     [('Blanchard-Kahn verification', 'core/solve/statespace.py')])

prop('C12', 'The second-order solution solves the second-order expansion',
     'The second-order solution satisfies the second-order Taylor expansion of the model at the '
     'steady state (state, state-shock, shock and uncertainty terms, the latter for the '
     "model's shock covariance) on top of the first-order solution, whatever the number of "
     'states, shocks, forward or static variables and the order of declarations and equations.',
     ['programs', 'configurations'],
     'all lead/lag structures x quadratic terms x shock layouts x covariances x orders',
     T0 + 'the second-order arrays are never checked.',
     ['core/solve/second_order.py', 'utils/numpy.py', 'core/linearizing.py'],
     [('Hessian reordering and second-order systems', 'core/solve/second_order.py'),
      ('generalised Sylvester equation', 'utils/numpy.py')])

prop('C13', 'The shock covariance matrix is the one declared',
     'The covariance matrix of the shocks, in declaration order, has the declared variances '
     '(or squared standard errors, or one when none is given) on the diagonal and the declared '
     'covariances, or correlations times standard deviations, off the diagonal, symmetrically, '
     'and zero elsewhere, in whatever order the statements come.',
     ['programs', 'configurations'],
     'all combinations and orders of variance, standard error, correlation and covariance '
     'statements over the shocks, from text and from constructor arguments',
     T0 + 'the covariance never enters the tested arrays.',
     ['core/generic.py', 'core/variables.py', 'parsing/factory.py'],
     [('covariance construction', 'core/generic.py'), ('shocks block', 'parsing/factory.py')])

prop('C14', 'Simulations follow the solved decision rules',
     'A simulated path starts at the given initial values (the steady state by default), and '
     "each later period follows the solution's decision rule from the previous period's values "
     'and the shocks applied in between, first or second order, where given shocks are in '
     'standard-deviation units and scaled by the Cholesky factor of their covariance. The '
     'number of periods, the shocks reported and the order requested are respected, and the '
     'inputs are not modified.',
     ['inputs', 'configurations', 'histories'],
     'all solved models in the family, all shock sequences over a small alphabet, all initial '
     'values, both orders',
     T0 + 'nothing is ever simulated.',
     ['simul.py'], [('recursion on decision rules', 'simul.py'),
                    ('shock scaling', 'simul.py')])

prop('C15', 'Impulse responses are the deviations caused by one shock',
     'An impulse response is the simulated path, in deviation from the steady state, after a '
     'single disturbance of the requested size (in standard deviations) to the requested shock, '
     'orthogonalised by the Cholesky factor of the covariance as in simulations; the shock may be named in any declaration position, the default is the '
     'first one, an unknown name raises an error, and first-order responses are proportional '
     'to the size.',
     ['inputs', 'configurations'],
     'all solved models in the family, shocks, sizes, horizons, orders',
     T0 + 'no impulse response is computed.',
     ['impulse.py', 'simul.py'], [('single-impulse simulation', 'impulse.py')])

prop('C16', 'Theoretical moments are those of the solved process',
     'Means, variances, standard deviations, covariances, correlations, autocovariances and '
     'autocorrelations reported for a model are the unconditional moments of the process '
     'defined by its solution and shock covariance, in declaration order, for any numbers of '
     'states, shocks and variables; second-order means include the correction implied by the '
     'second-order terms.',
     ['programs', 'configurations'],
     'all solved models in the family x shock covariances x both orders x horizons',
     T0 + 'no moment is computed.',
     ['stats/moments.py', 'stats/stats.py', 'core/solve/statespace.py'],
     [('moment formulas', 'stats/moments.py'), ('state covariance', 'core/solve/statespace.py')])

prop('C17', 'Variance decompositions split the variance exactly',
     'The variance decomposition gives for each variable the share of its unconditional '
     'variance due to each (Cholesky-orthogonalised) shock: shares lie between zero and one, '
     'sum to one, and match the moments of the model driven by that shock alone. Selecting '
     'variables or shocks by name returns exactly those rows and columns in the order asked, '
     'and unknown names raise an error.',
     ['configurations', 'inputs'],
     'all solved models in the family x covariances x selections of variables and shocks',
     T0 + 'no decomposition is computed.',
     ['stats/var.py'], [('orthogonalised decomposition', 'stats/var.py')])

prop('C18', 'Statistics of simulated paths are the sample statistics',
     'Correlations and autocorrelations of a simulated path equal the textbook sample '
     'statistics of exactly the periods kept after dropping the first ones, labelled with the '
     "variables' names in declaration order; asking to drop or lag more than there is raises an "
     'error.',
     ['inputs'],
     'all paths over a small alphabet up to a length x numbers of dropped periods and lags',
     T0 + 'nothing is simulated.',
     ['simul.py'], [('sample statistics', 'simul.py')])

prop('C19', 'An edited model equals one built afresh with the same content',
     'After any sequence of edits (parameters, equations, endogenous variables, shocks) and '
     'queries in between, an updated model behaves exactly like a model built from scratch with '
     'the resulting content: same classification, steady state, derivatives, shock covariance '
     'and (re-solved) solution.',
     ['histories'],
     'all sequences of edits and queries up to a depth',
     T0 + 'models are never edited.',
     ['core/generic.py', 'core/model.py', 'core/expressions.py', 'core/variables.py'],
     [('alteration flag and update', 'core/generic.py'), ('expression container', 'core/expressions.py')],
     state=[('model content', 'equations, variables, shocks, parameters'),
            ('derived objects', 'steady state, derivatives, state space, solution')])

prop('C20', 'Models never share state with copies, other models or callers',
     'Changing a model, or an object the caller passed to build it, never changes another '
     'model: copies are equal to their original and independent of it, models built from the '
     'same inputs or with default arguments are independent, and building, copying, solving '
     'and simulating leave the inputs unmodified.',
     ['histories'],
     'all interleavings of building, copying, editing and querying several models up to a depth',
     T0 + 'each test builds one model and never changes it.',
     ['core/generic.py', 'core/model.py', 'core/variables.py', 'core/expressions.py'],
     [('copying and construction', 'core/generic.py')],
     state=[('content of each live model', 'its parameters, equations, variables and values')])

prop('C21', 'One occasionally binding constraint: the path solves its regimes',
     'The piecewise-linear solution under one constraint follows in every period the linear '
     'equations of the regime in force, with agents anticipating the remaining regimes and the '
     'reference regime afterwards; the alternative regime is in force exactly in the periods in '
     'which the constraint binds. When the constraint never binds the path is the linear one, '
     'and when no consistent regime sequence is found this is reported, not hidden.',
     ['inputs', 'configurations'],
     'all shock sequences over a small alphabet x models x constraint forms x initial values; '
     'all regime sequences are enumerated as the oracle',
     T0 + 'occasionally binding solutions are never computed.',
     ['core/solve/binding.py', 'regimes.py'],
     [('guess-and-verify on regimes', 'core/solve/binding.py')],
     state=[('regime of each period', 'which constraints bind')])

prop('C22', 'Two occasionally binding constraints: the path solves its regimes',
     'With two constraints, in every period the linear equations of the regime given by the '
     'combination of binding constraints hold, with anticipation of the remaining regimes, and '
     'each constraint binds exactly in the periods its regime indicator says. A constraint that '
     'never binds leaves the one-constraint solution unchanged, and neither the order in which '
     'the constraints are given nor asking for one constraint to be updated at a time matters; '
     'when no consistent regime sequence is found this is reported, not hidden.',
     ['inputs', 'configurations'],
     'all shock sequences over a small alphabet x models x pairs of constraints',
     T0 + 'occasionally binding solutions are never computed.',
     ['core/solve/binding.py', 'regimes.py'],
     [('guess-and-verify on pairs of regimes', 'core/solve/binding.py')])

prop('C23', 'Queries and solves do not depend on what was asked before',
     'The answers a model gives (solution of the requested order, simulation for given shocks, '
     'impulse response, moments, decomposition, summaries) depend only on its content and the '
     'request, not on which queries, solves or simulations were made before, and asking again '
     'gives the same answer.',
     ['histories'],
     'all sequences of queries up to a depth, compared with the same query on a fresh model',
     T0 + 'each test makes one query.',
     ['core/model.py', 'core/generic.py', 'core/solve/base.py'],
     [('cached solutions and lazily computed parts', 'core/model.py')],
     state=[('stored solution', 'last solution computed and its order'),
            ('lazily computed parts', 'steady state, derivatives, state space')])

prop('C24', 'Summaries print the numbers they are labelled with',
     'Printed summaries of a model, its solution and its statistics show, under each label, the '
     'value belonging to that label: policy coefficients under the variable, lagged state, '
     'shock or product they belong to, moments and autocorrelations (column p = k for lag k) '
     'beside their variable, counts, eigenvalues, shock covariances and parameters of the '
     'model. Selected blocks, digits and paddings are honoured, and rows are left out only if '
     'all their values are below the threshold in absolute value.',
     ['programs', 'configurations'],
     'all solved models in the family x both orders x printed precisions',
     T0 + 'no summary is printed.',
     ['io/summary.py'], [('table layout', 'io/summary.py')])

prop('C25', 'Plots show every series, once, under its name',
     'Plotting a simulation, an impulse response or any table of paths draws each series '
     'exactly once, unaltered, in a panel whose legend names it, for any number of series and '
     'every documented layout; panels are arranged as documented and shared only if there are '
     'fewer panels than series; an unknown layout raises an error.',
     ['configurations', 'inputs'],
     'all numbers of series up to a bound x all layouts up to a bound x labels x options',
     T0 + 'nothing is plotted.',
     ['plotting/base.py', 'plotting/wrapper.py', 'simul.py', 'impulse.py'],
     [('panel layout', 'plotting/base.py')])

prop('C26', 'Matrix utilities satisfy their defining equations',
     'The matrix routines the solvers are built on return what they document for every '
     'conforming input: the generalised Sylvester solution satisfies its equation, the '
     'partitioned QZ blocks reproduce the pencil with stable eigenvalues first, inverses of '
     'symmetric positive definite matrices and Kronecker products are exact; non-conforming '
     'input raises an error.',
     ['inputs'],
     'all small integer matrices over a bounded alphabet and all shapes up to a bound',
     T0 + 'the routines see a handful of matrices.',
     ['utils/numpy.py'],
     [('Bartels-Stewart type algorithm', 'utils/numpy.py'), ('ordered QZ', 'utils/numpy.py')])

prop('C27', 'Variables are found by name, in the order asked',
     'Looking variables up by name, name list or variable object returns the position of each '
     'one in declaration order, in the order asked; membership and names agree with the '
     'declared variables, in the lists of a model, in copies of them and in selections from them '
     'alike; unknown names, values that are no variables and lists of several kinds of '
     'variables raise an error.',
     ['inputs', 'configurations'],
     'all variable lists up to a length x all keys and key lists',
     T0 + 'no lookup is made.',
     ['core/variables.py'], [('variable arrays', 'core/variables.py')])

prop('C28', 'Models load the same from files, examples and text',
     'Loading a model by file path (text or path object, absolute or relative, any working '
     'directory), by the name of a shipped example, or from its text gives the same model, '
     "named after the file; a path that exists is preferred to an example's name, and unknown "
     'names raise a file-not-found error.',
     ['configurations', 'inputs'],
     'all path forms x working directories x file names x shipped examples',
     T0 + 'examples are only loaded by name from the repository root.',
     ['core/model.py', 'io/files.py', 'examples/__init__.py'],
     [('file and example lookup', 'io/files.py')])

prop('C29', 'The equations of a model are a list, and print as what they are',
     "A model's equations behave as a list: reading, setting, deleting, inserting, appending, "
     'extending, popping, reversing and clearing by position (negative positions too) give the '
     'contents a Python list would have, whatever form an equation is given in; something that '
     'is no equation, or a position that does not exist, is refused and changes nothing; and '
     'every equation, however it was given, prints as an equation that reads back with the same '
     'meaning.',
     ['histories', 'inputs'],
     'all sequences of list operations x forms of equations; all expressions',
     T0 + 'items are compared by what they evaluate to.',
     ['core/expressions.py'], [('lists of equations', 'core/expressions.py')])

prop('C30', 'Observed models add their observation equations and nothing else',
     'A model with observation equations has the variables and equations of the model followed '
     'by the observed ones, and answers everything (steady state, derivatives, eigenvalues, '
     'solution, covariance of shocks) as a model written with all these equations would, '
     'whatever was changed in the model before; afterwards neither follows changes of the other. '
     'Data with named columns go to the observed variables of these names, in whatever order the '
     'columns come; data without names go by position, and data that do not fit are refused.',
     ['programs', 'inputs', 'histories'],
     'all models x sets and orders of observation equations x orders of data columns',
     T0 + 'observation equations involve no shocks; the filters themselves are unfinished.',
     ['stats/observation.py', 'stats/filters.py'],
     [('observed models', 'stats/observation.py'), ('data of filters', 'stats/filters.py')])

prop('C31', 'What is printed of the parts of a model is what they hold',
     'Calibrations, shocks, variables, arrays of variables, equations, constraints, models, '
     'solutions, simulations and responses can always be printed, whatever values they hold '
     '(none, zero, tiny, huge, infinite), and print names in order, the values and the counts '
     'that they hold now, also after edits and solves.',
     ['inputs', 'histories'],
     'all values x contents x histories of edits',
     T0 + 'layout is free; calibrations are printed to six decimals.',
     ['core/variables.py', 'core/expressions.py', 'core/generic.py', 'core/solve/statespace.py',
      'simul.py', 'impulse.py', 'core/solve/binding.py', 'core/solve/base.py'],
     [('printing', 'core/variables.py')])

prop('C32', 'Conditions of constraints hold exactly where they say',
     'A constraint is a pair of conditions, or a list of such pairs; a condition is a comparison of '
     'two expressions. Evaluated on a path, each condition is true in exactly the periods in which '
     'the comparison holds for the values of the variables and parameters, ties included, whatever '
     'the order of the variables and the length of the path; malformed conditions and things '
     'that are not pairs are refused.',
     ['inputs'],
     'all conditions x points x orders of variables',
     T0 + 'conditions are about current variables and parameters.',
     ['core/solve/binding.py', 'parsing/base.py', 'parsing/parser.py', 'parsing/lexer.py'],
     [('constraints', 'core/solve/binding.py')])

prop('C33', 'Errors in model files are reported at their place',
     'A malformed model file is refused with an error that names the line and the column of the '
     'first token which no well-formed file could have there; a file that breaks a rule about '
     'names (declared twice, not declared, assigned to or given a boundary value or a shock '
     'though it is of another kind, out of period without being endogenous) with one that names '
     'the line and the column of a name that breaks a rule. That holds whatever the layout of '
     'the file and the comments in it; a location is the line a token ends on and the '
     'column of its last character.',
     ['inputs'],
     'all files x all faults x all layouts',
     T0 + 'commands after the model block, names used before they have a value and periods above '
     'one may be reported without a place.',
     ['parsing/lexer.py', 'parsing/parser.py', 'parsing/semantics.py', 'errors/__init__.py'],
     [('locations', 'parsing/semantics.py')])

prop('C34', 'An interrupted query leaves a model as good as before',
     'Whenever a query of a model - a solve, a moment, a simulation, a response, a decomposition, a '
     'summary, the derivatives, the steady state, a copy - is stopped by an exception at any '
     'point (an interrupt from the keyboard, exhausted memory), the model afterwards answers every '
     'query as if the stopped one had either not been made or been completed; the same holds of '
     'other models, and of reading files after the reading of one was stopped.',
     ['crash_points', 'histories'],
     'all queries x histories before them x points at which they are stopped x later queries',
     T0 + 'stops come between lines of pynare; the edits themselves are not queries.',
     ['core/solve/base.py', 'core/base.py', 'core/generic.py', 'core/variables.py', 'core/solve/',
      'parsing/'],
     [('what is stored, and when', 'core/solve/base.py'), ('updates', 'core/base.py')])

prop('C35', 'Models used in different threads do not affect one another',
     'Threads that read files, build, edit, solve and query models of their own get the results '
     'they get alone, however their steps interleave, also where the models are copies of one '
     'another or come from the same inputs or the same outline; and an error in one thread '
     'stays there.',
     ['schedules'],
     'all pairs of operations x interleavings',
     T0 + 'no single model is used by two threads at once; threads switch between lines of pynare; '
     'two threads, two preemptions.',
     ['parsing/', 'core/', 'stats/', 'utils/'],
     [('reading', 'parsing/parser.py'), ('solving', 'core/solve/base.py'),
      ('copies', 'core/base.py')])

prop('C36', 'An operation that is refused changes nothing',
     'Whenever an edit, a solve or a query of a model raises an error because of what it was given '
     '- parameters, equations, variables, shocks, options, constraints or names that are '
     'malformed, unknown or do not fit, also when only some of several are - the model, and '
     'everything it answers afterwards, also after further edits, is as if the operation had not '
     'been tried.',
     ['histories', 'fault_sequences'],
     'all refused operations x situations x what follows',
     T0 + 'a refused query may have solved the model at the order it would have.',
     ['core/', 'stats/', 'utils/', 'parsing/', 'regimes.py'],
     [('parameters', 'core/variables.py'), ('equations', 'core/expressions.py'),
      ('edits', 'core/generic.py'), ('solving', 'core/model.py'), ('regimes', 'regimes.py')])

prop('C37', 'Units of measurement do not matter',
     'A model written with some of its variables, shocks or equations in other units - each '
     'variable, shock or equation multiplied by a number of its own, a few powers of ten larger or '
     'smaller - has the steady state, decision rules of first and second order, simulations, '
     'impulse responses, means, variances, covariances and autocovariances of the original model '
     'expressed in those units, and the same correlations and variance shares.',
     ['programs', 'configurations'],
     'all small lead/lag structures x systems of units',
     T0 + 'all of their variables and shocks are of similar size, and absolute tolerances only '
     'show when they are not.',
     ['core/', 'core/solve/', 'stats/', 'simul.py', 'impulse.py', 'utils/numpy.py'],
     [('solutions', 'core/solve/first_order.py'), ('decompositions', 'utils/numpy.py'),
      ('moments', 'stats/moments.py')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
