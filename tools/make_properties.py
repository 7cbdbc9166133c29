#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
S = 'src/satisfy/'

def prop(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     state=[dict(name=a, meaning=b, where=S + c) for a, b, c in state],
                     mechanism=[dict(name=a, where=S + b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

NOSOLVER = "No existing test solves a model at all (only expressions and sentinels are tested); "
prop('C01', 'Every solution the solver yields satisfies the model',
     'Every assignment yielded by solving a model binds each declared variable, and nothing else, to a value of its declared domain. It satisfies every constraint added to the model (expressions of any arity, all-different groups, user-defined constraints) and every additional constraint passed to that solve call.',
     ['inputs', 'configurations'], 'all models (variables, domains, constraint sets) x selection policies x compiled/interpreted evaluation',
     NOSOLVER + 'soundness is a statement about every model and every yielded assignment.',
     ['solver.py', 'constraint.py', 'model.py'],
     [('Solver.solve', 'solver.py'), ('Solver._setup', 'solver.py'), ('Constraint.unsatisfied', 'constraint.py')],
     [('substitution', 'partial assignment on the search stack', 'solver.py')], ['items yielded by Solver.solve'])
prop('C02', 'Solving enumerates every satisfying assignment exactly once',
     'When a solve runs to the end without limit or timeout, every assignment that satisfies the model is yielded, and no assignment is yielded twice. A model without satisfying assignments yields nothing, and a model without variables that is not contradictory yields the empty assignment once.',
     ['inputs', 'configurations'], 'all models x selection policies x compiled/interpreted evaluation',
     NOSOLVER + 'a missing or repeated solution shows only against an exhaustive enumeration of the assignments.',
     ['solver.py', 'constraint.py', 'model.py'],
     [('Solver.solve backtracking', 'solver.py'), ('per-variable candidate lists', 'solver.py'), ('unary constraint folding in Solver._setup', 'solver.py')],
     [('domains', 'remaining candidates per open variable', 'solver.py')], ['items yielded by Solver.solve'])
prop('C03', 'Search heuristics and model phrasing never change the set of solutions',
     'The set of solutions of a model is the same under every variable selection policy (every outcome of the random one included) and with constraint compilation on or off. It does not depend on the order in which variables or constraints were declared, on the order or the container type of domain values, or on whether a constraint was added to the model or passed as an additional constraint. In either place, a constraint on a variable that the model does not have is an error.',
     ['configurations', 'inputs'], 'all models x 8 policies x all random orders x compile on/off x declaration permutations x placement of constraints',
     NOSOLVER + 'policies only reorder the search, so a wrong one shows as a difference between runs that nobody compares.',
     ['solver.py'],
     [('variable ordering', 'solver.py'), ('VarSelectionPolicy', 'solver.py'), ('Constraint.compile', 'constraint.py')], (), ['items yielded by Solver.solve'])
prop('C04', 'A limit truncates the enumeration and is reported',
     'With a limit of N a solve yields exactly the first N solutions of the unlimited run with the same settings, or all of them if there are fewer, and the statistics then report interrupt "limit" exactly when N solutions were reached. A limit or timeout given to a single solve call overrides the one of the solver, and None or INFINITY, given in either place, means no bound; INFINITY is one object however it is obtained, and prints as text.',
     ['inputs', 'configurations'], 'all models x limits 0..count+2/None/INFINITY x where the limit is given',
     NOSOLVER + 'limits are never exercised.',
     ['solver.py', 'utils.py'], [('limit handling in Solver.solve', 'solver.py'), ('limit/timeout setters', 'solver.py')],
     [('_interrupt', 'reason of the last interruption', 'solver.py')], ['Solver.solve', 'Solver.get_stats'])
prop('C05', 'A timeout stops the search promptly, truthfully and only when exceeded',
     'A solve whose own search time never exceeds the timeout behaves exactly as without timeout; time the consumer spends between solutions is not counted. Once the search time exceeds the timeout the solve ends within one search step (at most one more solution is yielded), what it yielded is a prefix of the full enumeration, and the statistics report interrupt "timeout".',
     ['schedules', 'inputs'], 'all schedules of the clock: every constraint evaluation or consumer step may let time pass',
     'Tests never use a timeout, and real clocks make the interesting schedules unreachable on purpose.',
     ['solver.py', 'utils.py'], [('timeout test at the top of the search loop', 'solver.py'), ('Timer', 'utils.py')],
     [('_timer', 'search stopwatch, stopped while a solution is with the consumer', 'solver.py')], ['Solver.solve', 'Solver.get_stats'])
prop('C06', 'Solve statistics count the solutions and the search time',
     'At any moment of a solve, while it searches, at a pause, at its end or when it is ended by an error of a constraint, the reported count is the number of solutions yielded so far by that solve, and the reported elapsed time is the time spent searching (including the search after the last solution) without the time the consumer kept control. Statistics start from zero, with no interrupt, at every new solve.',
     ['schedules', 'histories'], 'all clock schedules x all points at which the consumer pauses, abandons or restarts',
     'No test reads statistics.',
     ['solver.py', 'utils.py'], [('Timer.start/stop/abort around the search', 'solver.py'), ('Solver.get_stats', 'solver.py'), ('Solver._reset', 'solver.py')], (), ['Solver.get_stats'])
prop('C07', 'Expressions built with operators denote the written integer formula',
     'An expression built from variables, parameters, constants and plain numbers with + - * / % ** (where / is integer floor division), comparisons, & | (logical and/or), unary + -, abs and sum() evaluates, under every integer assignment for which the formula is defined, to the value of that formula. The n-ary nodes Sum and Prod built directly from any operands are the sum and the product of them. Constant folding, flattening of sums and products and neutral/absorbing element shortcuts never change the value, and building or evaluating an expression never alters its operands.',
     ['programs', 'inputs'], 'all operator trees x operand kinds x integer assignments',
     'The tests evaluate eight formulas, all of the form 3*x*2+3-y or smaller.',
     ['expression.py'], [('operator overloads of Expression and Const', 'expression.py'), ('_make_accumulate', 'expression.py'), ('Accumulation', 'expression.py')], (), ['Expression.evaluate'])
prop('C08', 'Compiled evaluation agrees with interpreted evaluation',
     'For every expression and every assignment of its variables, the compiled function returns the same value as interpreted evaluation, or both fail with the same kind of error. An expression constraint gives that value whether it is compiled or not, however often this is switched. This holds for every variable name the model accepts and for every nesting of operators, also when compilation is not possible.',
     ['programs', 'inputs'], 'all operator trees x assignments x accepted variable names x nesting depth',
     'The tests compile eight formulas without nested precedence, unary operators, negative constants or unusual names (and, by an oversight, never run the interpreter).',
     ['expression.py', 'constraint.py'], [('py_expr / py_source / as_function', 'expression.py'), ('ExpressionConstraint.compile', 'constraint.py')], (), ['Expression.as_function', 'Expression.evaluate'])
prop('C09', 'Declared variables are exact and partial checks never reject too early',
     'The variables reported by an expression or constraint are exactly the non-parameter variables left in it, each once, its value depends on nothing else, and the free variables under a partial assignment are the reported ones not yet bound. A constraint is reported unsatisfied under a partial assignment only if all its variables are bound and it evaluates to false.',
     ['programs', 'inputs'], 'all operator trees and constraints x all partial assignments',
     'Tests never query variables or partial assignments.',
     ['expression.py', 'constraint.py'], [('vars/free_vars', 'expression.py'), ('Constraint.unsatisfied/free_vars', 'constraint.py')], (), ['Expression.vars', 'Expression.free_vars', 'Constraint.unsatisfied', 'Constraint.free_vars'])
prop('C10', 'Solving uses the current value of every parameter',
     'Whatever sequence of parameter changes, solves and optimizations came before, a new solve or optimization gives the results of the model with the parameters replaced by their current values, in compiled and interpreted mode alike. This includes constraints that mention only parameters.',
     ['histories'], 'all histories of parameter assignments, solves, partial solves, optimizations and mode switches',
     'Tests evaluate two fixed parameters and never change them.',
     ['expression.py', 'constraint.py', 'model.py', 'solver.py'], [('Parameter.value', 'expression.py'), ('compile at every setup', 'solver.py'), ('Model.solvable', 'model.py')],
     [('_evaluate_function', 'compiled form in which parameter values are frozen', 'constraint.py')], ['Solver.solve', 'Solver.optimize'])
prop('C11', 'Optimization yields feasible, strictly improving solutions',
     'Every solution yielded while optimizing satisfies the model and the additional constraints, and is strictly better than the one before it in every objective. At least one solution is yielded when the model is feasible and the search is not interrupted. An objective reports for a solution the value of its expression.',
     ['inputs', 'configurations'], 'all small models x objective expressions x directions x domain orders x policies x compile on/off',
     NOSOLVER + 'optimization is never run.',
     ['solver.py', 'objective.py'], [('Solver.optimize', 'solver.py'), ('MinMaxConstraint.set_bound', 'objective.py')],
     [('_bound', 'best objective value so far', 'objective.py')], ['Solver.optimize'])
prop('C12', 'The optimal solution is optimal, and is called optimal only when proven',
     'When optimization finishes without interruption, the returned solution satisfies the model and no satisfying assignment is strictly better in every objective; it is then flagged optimal. An infeasible model gives no solution and no optimality claim, and a search stopped by limit or timeout returns the last solution found without claiming optimality.',
     ['inputs', 'configurations', 'schedules'], 'all small models x objectives x directions x domain orders x policies x compile x limits x timeouts',
     NOSOLVER + 'optimization is never run.',
     ['solver.py', 'objective.py'], [('Solver.optimal_solution', 'solver.py'), ('MinMaxConstraint', 'objective.py')], (), ['Solver.optimal_solution'])
prop('C13', 'Past solving activity never influences later results',
     'After any sequence of complete, partial, limited, timed-out, abandoned or optimizing runs, with any settings, on a model, that model and a solver still give exactly the solutions that a fresh model and solver give. Modifying a yielded solution, or the container a domain was declared with, has no effect on later results, and the model keeps its declared variables, domains and constraints.',
     ['histories'], 'all histories of solver activity up to the depth bound, followed by an observation',
     'No test solves twice.',
     ['solver.py', 'model.py', 'constraint.py', 'objective.py'], [('Solver._setup builds per-run data', 'solver.py'), ('copied substitutions', 'solver.py'), ('Model.variables proxy', 'model.py')], (), ['Solver.solve', 'Model.variables', 'Model.constraints'])
prop('C14', 'Interleaved iterations do not disturb each other',
     'Several solve or optimize iterations running at the same time, on the same model and even on the same solver, each yield exactly the sequence they yield when run alone, however their steps are interleaved and whenever one of them is closed. An optimal solution computed while other iterations are paused is the same, with the same optimality claim, as if they did not exist.',
     ['schedules'], 'all interleavings of the steps of 2-3 iterations, nested solves and closes',
     'No test iterates at all.',
     ['solver.py', 'constraint.py', 'objective.py'], [('generator-local search state in Solver.solve', 'solver.py'), ('per-call objective constraints', 'objective.py')], (), ['Solver.solve', 'Solver.optimize'])
prop('C15', 'Model declarations are validated and failed ones leave no trace',
     'A model accepts exactly: new names that start with a letter followed by word characters, domains without repeated values, and constraints on declared variables; everything else raises an error and leaves variables, domains and constraints as they were. Declared variables keep declaration order, name and domain, automatic names never clash with any other name, and the views given to the user cannot be used to change the model.',
     ['histories', 'inputs'], 'all sequences of valid and invalid declarations',
     'Tests never build a model.',
     ['model.py'], [('Model._check_name/_get_variable/_get_parameter', 'model.py'), ('Model.add_int_variable', 'model.py'), ('Model.add_constraint', 'model.py')],
     [('_variables', 'declared variables and parameters', 'model.py'), ('_constraints', 'declared constraints', 'model.py')], ['Model.variables', 'Model.constraints', 'Model.get_var_domain', 'Model.get_variable'])
prop('C16', 'Constant constraints: contradictions empty the model, tautologies are neutral',
     'Adding a constraint without variables (a boolean, a constant expression, or a relation that folds to a constant) that is false makes the model not solvable and without solutions for good, wherever it is added in the sequence of declarations; one that is true changes neither solvability nor solutions. Marking a model as not solvable likewise empties it until it is marked solvable again.',
     ['histories', 'inputs'], 'all sequences of declarations containing constant constraints and solvable marks',
     'Tests never build a model.',
     ['model.py', 'constraint.py', 'expression.py'], [('Model.add_constraint', 'model.py'), ('Model.solvable/set_solvable', 'model.py'), ('ConstConstraint', 'constraint.py')], (), ['Model.solvable', 'Solver.solve'])
prop('C17', 'Structural equality of expressions is exact',
     'Two expressions compare as structurally equal exactly when they are built from the same kind of nodes with equal names, values and constants in the same positions; it is reflexive, symmetric and transitive. Structurally equal expressions evaluate to the same value under every assignment.',
     ['programs'], 'all pairs of small expression trees',
     'Structural equality is not tested.',
     ['expression.py'], [('equals', 'expression.py')], (), ['Expression.equals'])
prop('C18', 'Sudoku: exactly the valid completions of the schema',
     'For every 9x9 schema the sudoku solver yields completed grids that keep the givens and contain 1..9 exactly once in every row, column and block; without limit it yields every such completion once, by default only the first. A schema whose givens conflict or that has no completion yields nothing, and malformed schemas (wrong size or values) are rejected with ValueError.',
     ['inputs'], 'all schemas obtained by erasing or altering cells of complete grids within the bound',
     'The sudoku solver is not tested.',
     ['sudoku.py'], [('candidate elimination by givens', 'sudoku.py'), ('all-different groups per row/column/block', 'sudoku.py')], (), ['SudokuSolver'])
prop('C19', 'Cryptarithm: exactly the digit assignments that make the equation true',
     'For every arithmetic relation over words of letters and digits, the solver yields exactly the assignments of distinct digits to letters for which the relation, with each word read as a decimal number, holds (/ meaning floor division). Letters may be written in either case; if leading zeros are avoided no word may start with a letter that is zero, otherwise zero is allowed everywhere.',
     ['inputs'], 'all relations over small words and alphabets',
     'The cryptarithm solver is not tested.',
     ['cryptarithm.py'], [('rewriting of words into positional sums', 'cryptarithm.py')], (), ['CryptarithmSolver'])
prop('C20', 'Graph labeling: exactly the proper labelings',
     'For every graph (directed or not, with self-loops, parallel edges, isolated nodes, arbitrary node names) and list of labels, the solver yields exactly the assignments of a label to each node in which adjacent nodes have different labels, each once.',
     ['inputs'], 'all graphs up to the node bound x label lists',
     'The graph labeling solver is not tested.',
     ['graph_labeling.py'], [('one variable per node, one constraint per edge', 'graph_labeling.py')], (), ['GraphLabelingSolver'])
prop('C21', 'Nonogram: exactly the pictures matching the clues',
     'For every list of row and column clues, the solver yields exactly the pictures of that size whose runs of filled cells, in order, are the clues of every row and column, each picture once. Contradictory or oversized clues yield nothing, and empty (or zero) clues mean an empty line.',
     ['inputs'], 'all pictures and all clue combinations up to the grid bound',
     'The nonogram solver is not tested.',
     ['nonogram.py'], [('start-position variables and ordering constraints', 'nonogram.py'), ('cell agreement of rows and columns', 'nonogram.py')], (), ['NonogramSolver'])
prop('C22', 'Pictures, images and clues convert faithfully',
     'The clues computed from a picture are the lengths of its maximal runs of filled cells in every row and column, in order, for every picture including ones with rows of different length. Turning a picture into a text image and back gives the same picture, and the clues of an image are those of its picture.',
     ['inputs'], 'all pictures up to the size bound, ragged ones included',
     'The conversions are not tested.',
     ['nonogram.py', 'tool/demo_nonogram.py'], [('pixmap_to_nonogram', 'nonogram.py'), ('image_to_pixmap/pixmap_to_image', 'tool/demo_nonogram.py')], (), ['pixmap_to_nonogram', 'image_to_nonogram', 'pixmap_to_image'])
prop('C23', 'Knapsack: the reported selection is feasible, best and reported correctly',
     'For every instance the knapsack optimizer returns a 0/1 selection whose total weight respects every capacity and whose total value is the maximum possible, together with exactly that value and those weights. It claims optimality unless interrupted, returns no solution exactly when none is feasible, gives the same answer for lists and iterators, and rejects malformed instances with an error.',
     ['inputs'], 'all instances over small value/weight/capacity alphabets, negative and zero numbers included',
     'The knapsack optimizer is not tested.',
     ['knapsack.py', 'objective.py', 'solver.py'], [('capacity constraints', 'knapsack.py'), ('Maximize', 'objective.py')], (), ['KnapsackOptimizer'])
prop('C24', 'Queens: exactly the non-attacking placements',
     'For every board size N the queens solver yields exactly the placements of N mutually non-attacking queens, each once, as N x N boards of zeros and ones.',
     ['inputs', 'configurations'], 'board sizes up to the bound x policies x compile on/off',
     'The queens solver is not tested.',
     ['tool/queens.py'], [('column and diagonal all-different groups', 'tool/queens.py')], (), ['QueensSolver'])
prop('C25', "Einstein's riddle: the one arrangement consistent with the 15 statements",
     "Under every solver configuration the riddle solver yields exactly one arrangement, that arrangement satisfies all fifteen printed statements, and it is the one found by checking all arrangements of owners, colors, drinks, smokes and animals.",
     ['configurations'], 'all selection policies x compile on/off x limits',
     'The riddle solver is not tested.',
     ['tool/einstein_riddle.py'], [('constraints 1-15', 'tool/einstein_riddle.py')], (), ['EinsteinRiddleSolver'])
prop('C26', 'Map coloring: regions are found right and neighbors differ in color',
     'For every ascii map, the regions are the maximal groups of equal characters connected horizontally, vertically or diagonally (blank and dot cells belong to none). Every yielded coloring gives all cells of a region the same color, gives regions that touch different colors and leaves blank cells blank; without limit all such colorings are yielded once each, by default only the first.',
     ['inputs'], 'all maps up to the size bound over a small alphabet, ragged ones included',
     'The map coloring solver is not tested.',
     ['tool/ascii_map_coloring.py', 'graph_labeling.py'], [('flood fill', 'tool/ascii_map_coloring.py'), ('neighbor detection', 'tool/ascii_map_coloring.py')], (), ['AsciiMapColoringSolver'])
prop('C27', 'The command line prints every solution once and a truthful summary',
     'For every subcommand, input source (default, file, image) and combination of limit, timeout and model options, the tool prints exactly the solutions of the given problem under these options, in a rendering that shows the solution, followed by a summary with their number. The summary says "unique" or "all", or calls a selection optimal, only if the search was complete, and names the limit or timeout otherwise.',
     ['inputs', 'configurations', 'schedules'], 'all subcommands x option combinations x small inputs x clock schedules',
     'The tool is not tested.',
     ['tool/__init__.py', 'tool/demo_utils.py', 'tool/demo_sudoku.py', 'tool/demo_queens.py', 'tool/demo_nonogram.py', 'tool/demo_knapsack.py', 'tool/demo_graph_labeling.py', 'tool/demo_cryptarithm.py', 'tool/demo_einstein_riddle.py', 'tool/demo_ascii_map_coloring.py'],
     [('argument parsing', 'tool/__init__.py'), ('print_solve_stats', 'tool/demo_utils.py'), ('print_optimization_stats', 'tool/demo_utils.py')], (), ['standard output of satisfy.tool.main'])
prop('C28', 'The stopwatch accumulates exactly the running intervals',
     'Under every sequence of start, stop, abort and reading, the elapsed time is the sum of the intervals during which the stopwatch was running (the current one included while it runs), and the count is the sum of the counts given when stopping; aborting adds the interval but no count. Stopping returns the interval it ends. Starting it while running or stopping it while stopped raises an error and changes nothing, and reading it never changes it.',
     ['histories', 'schedules'], 'all sequences of stopwatch operations x clock advances',
     'The stopwatch is not tested.',
     ['utils.py'], [('Timer', 'utils.py')], [('_t_start/_t_elapsed/_count', 'running interval and totals', 'utils.py')], ['Timer'])
prop('C29', 'Puzzle solvers are ordinary solvers of an ordinary model',
     'Every puzzle solver (sudoku, cryptarithm, graph labeling, map coloring, nonogram, queens, Einstein, knapsack) yields the renderings of the solutions of its model in the sequence in which its solver finds them, whatever was done with it before: iterations that are complete, partial, abandoned, nested or run in turn, solutions or the data it was built from modified by the consumer, other puzzles used meanwhile. The model and solver it is given are the ones it uses, the settings (limit, timeout, policy, compilation) it is made with are those of its solver and take effect whenever they are changed, constraints added to its model and solvability marks restrict its solutions exactly, and its statistics are those of its solver. The knapsack optimizer, called again after such changes, returns the best selection of the changed model.',
     ['histories', 'configurations', 'schedules'], 'all histories of uses of one puzzle object up to a depth',
     'The puzzle solvers are run once by the tests, if at all.',
     ['solver.py', 'sudoku.py', 'cryptarithm.py', 'graph_labeling.py', 'nonogram.py', 'knapsack.py', 'tool/queens.py', 'tool/einstein_riddle.py', 'tool/ascii_map_coloring.py'],
     [('ModelSolverBase', 'solver.py'), ('ModelSolver', 'solver.py')], (), ['ModelSolver', 'ModelOptimizer', 'all puzzle solvers'])
prop('C30', 'The printed forms denote what is printed',
     'The text of an expression, read as a formula (/ is integer division, & | ^ are logical and, or, not; sum and prod take lists), has the value of the expression under every assignment under which it is defined, and evaluating the representation of an expression, constraint or objective builds an equal one, also after a parameter has changed. The model listing of the command line names every variable with its domain and every constraint, in the sequence of their declaration. Printing changes nothing.',
     ['inputs'], 'all expression trees up to a depth, all small models, all assignments',
     'No test looks at a printed expression.',
     ['expression.py', 'constraint.py', 'objective.py', 'tool/demo_utils.py'],
     [('__str__/__repr__', 'expression.py'), ('__str__/__repr__', 'constraint.py'), ('print_model', 'tool/demo_utils.py')], (), ['str(expression)', 'repr(expression)', 'print_model'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
