#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
S='src/satisfy/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=[S+f for f in files],
      state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
      mechanism=[dict(name=a,where=S+c) for a,c in mech],observe_at=list(observe),hook_needed=hook)))
NOTEST="No test touches this code at all: the suite only evaluates eight fixed expressions and checks three singletons. "
p('C01','Every yielded solution satisfies the model',
 "Every solution a solve yields assigns exactly the decision variables of the model (no more, no fewer), each to a value of its declared domain, and satisfies every constraint of the model and every additional constraint given to that solve. This holds for every variable selection policy, with constraints compiled or not, and with or without limit and timeout; a model that contains a never-satisfied constraint yields nothing.",
 ['inputs','configurations'],"all models (finite integer domains, expression / all-different / boolean / user-defined constraints), policies, compile settings, additional constraints",
 NOTEST+"The space of models and configurations is unbounded.",
 ['solver.py','constraint.py','model.py','expression.py'],
 [('backtracking search over candidate domains','solver.py:Solver.solve'),('constraint indexing and unary reduction','solver.py:Solver._setup'),('Constraint.unsatisfied','constraint.py:Constraint')],
 [('stack','partial assignments being extended','solver.py:solve'),('domains','candidate values left per variable','solver.py:solve')],['Solver.solve','ModelSolver.__iter__'])
p('C02','An uninterrupted solve yields every solution exactly once',
 "A solve without limit or timeout terminates after yielding every assignment that satisfies the model and the additional constraints, each exactly once. The set of solutions is the same for every variable selection policy and whether or not constraints are compiled; a model without decision variables whose constraints hold has exactly one, empty, solution.",
 ['inputs','configurations'],"all models, all eight policies, compile on/off, additional constraints",
 NOTEST+"Completeness is a statement about every assignment of every model.",
 ['solver.py','constraint.py','model.py'],
 [('backtracking: candidate lists are computed, consumed and dropped per variable','solver.py:Solver.solve'),('variable ordering policies','solver.py:Solver.solve'),('all-different neighbour sets','solver.py:Solver._setup')],
 [('domains','candidate values left per variable','solver.py:solve')],['Solver.solve'])
p('C03','Ordered and reversed enumeration is lexicographic and repeatable',
 "With the ordered policy, solutions come in lexicographic order of the variables' declaration order, values being ranked by their position in the declared domain; with the reversed policy the variables are ranked in the opposite order. Enumerating the same unchanged model again with the same non-random policy yields the same sequence.",
 ['inputs','configurations'],"all models whose domains are sequences, ordered and reversed policy; repeatability for all policies but random",
 NOTEST,['solver.py'],[('variable order per policy; values are taken from the front','solver.py:Solver.solve')],[],['Solver.solve'])
p('C04','A limit yields a prefix of the enumeration and is reported',
 "With a limit of N (N >= 0) a solve yields exactly the first min(N, total) solutions of the same enumeration without a limit. When the enumeration has yielded N solutions and ends, the reported interrupt reason is 'limit'; when it ends because there are fewer than N solutions no interrupt is reported.",
 ['inputs','configurations','histories'],"all models, limits from 0 to beyond the number of solutions, non-random policies, solver default or per-call limit",
 NOTEST,['solver.py'],[('solution counting and interrupt reason','solver.py:Solver.solve')],[('_interrupt','why the last solve stopped','solver.py:Solver')],['Solver.solve','Solver.get_stats'])
p('C05','A timeout stops the search promptly and never loses work before it',
 "If the cumulative time spent searching (the consumer's own time between solutions does not count) never exceeds the timeout, the enumeration and its reported interrupt reason are as without timeout. Once it exceeds the timeout, the enumeration ends with interrupt reason 'timeout' after examining at most the candidate values of one variable, and a request for a further solution made after that point yields none; everything yielded is still a distinct correct solution.",
 ['inputs','schedules','configurations','histories'],"all models, timeouts, and all ways in which time passes during constraint evaluation and between requests",
 NOTEST+"It depends on when time passes, which no test controls.",
 ['solver.py','utils.py'],[('elapsed time check at every search step','solver.py:Solver.solve'),('Timer paused while the consumer runs','utils.py:Timer')],[('_timer','accumulated search time','solver.py:Solver')],['Solver.solve','Solver.get_stats'],)
p('C06','Solve statistics describe the last solve',
 "After a solve has ended, the statistics report as count the number of solutions it yielded, as elapsed time the whole time spent searching (including the search after the last solution, excluding the consumer's time), and as interrupt reason 'limit', 'timeout' or none. Starting another solve on the same solver starts from fresh statistics.",
 ['inputs','histories','schedules'],"all models and sequences of complete, limited, timed out, abandoned and failed solves (a constraint raised) on one solver",
 NOTEST,['solver.py','utils.py'],[('timer start/stop around yields','solver.py:Solver.solve'),('reset per solve','solver.py:Solver._reset')],[('_timer','count and elapsed','solver.py:Solver'),('_interrupt','interrupt reason','solver.py:Solver')],['Solver.get_stats','ModelSolver.get_stats'])
p('C07','Optimization yields feasible, strictly improving solutions',
 "Every solution yielded by an optimization satisfies the model and the additional constraints, and is strictly better in every objective than each solution yielded before it. This holds for minimization and maximization, one or several objectives, every policy, and compiled or interpreted constraints.",
 ['inputs','configurations','histories'],"all models, objectives (any expression over the model's variables and parameters), policies, compile settings",
 NOTEST,['solver.py','objective.py'],[('bound constraint tightened after each solution','objective.py:MinMaxConstraint'),('candidates are re-checked against the tightened bound','solver.py:Solver.solve')],[('_bound/_not_set','current bound parameters','objective.py:MinMaxConstraint')],['Solver.optimize'])
p('C08','A solution flagged optimal is optimal',
 "When the best-solution search reports an optimal result, the solution is feasible and no feasible assignment is strictly better in all objectives (for a single objective: its value is the true minimum or maximum). An uninterrupted search on a feasible model always reports an optimal result; an infeasible model reports no solution and not optimal; a search cut by limit or timeout reports its best solution so far, not flagged optimal.",
 ['inputs','configurations','schedules'],"all models and objectives, limits, timeouts, policies, compile settings",
 NOTEST,['solver.py','objective.py'],[('optimal_solution keeps the last improving solution','solver.py:Solver.optimal_solution')],[],['Solver.optimal_solution','KnapsackOptimizer.__call__'])
p('C09','An expression evaluates to the value of the formula as written',
 "Evaluating an expression built from variables, parameters and integer constants with the overloaded operators (+ - * / % ** comparisons & | unary minus, abs, and reflected forms, where / is integer floor division and & | are Python and/or) gives the value of that formula under Python integer semantics, for every assignment under which the formula is defined. Automatic simplification and flattening of sums and products never changes the value, and an expression keeps its value when others are built out of it.",
 ['programs','inputs'],"all formulas and all integer assignments",
 "Tests evaluate eight fixed formulas at one point each; simplification rules interact over all nestings.",
 ['expression.py'],[('operator overloads with neutral/absorbing element shortcuts','expression.py:Expression, Const'),('flattening of Add/Sum and Mul/Prod','expression.py:_make_accumulate, Accumulation')],[],['Expression.evaluate'])
p('C10','Compiled and interpreted evaluation agree',
 "For every expression and every assignment of its variables, the compiled function returns the same value, or fails with the same kind of error, as interpreted evaluation; extra names in the assignment are ignored by both. A constraint evaluates to the truth of its expression, whether it is compiled, decompiled again or neither. This holds whatever legal (ASCII) names the variables have.",
 ['programs','inputs'],"all expressions, operator nestings, parameter values and variable names",
 "The existing parametrised test takes the compiled path in both variants and covers no logical, unary or nested-precedence expression.",
 ['expression.py','constraint.py'],[('rendering of an expression as Python source','expression.py:py_expr'),('compile and fallback','expression.py:as_function')],[('_evaluate_function','cached compiled function','constraint.py:ExpressionConstraint')],['Expression.compile_py_function','ExpressionConstraint.evaluate'])
p('C11','Solving uses the current value of parameters',
 "A solve uses, for every constraint that depends on decision variables (one whose simplified form reports none, as v*0 >= p does, is judged when it is added), the value each parameter has when the enumeration starts, provided it is not changed while the enumeration is running, however often it was changed before and whether earlier solves, or this one, compile constraints. A parameter reports its current value, and expressions mentioning it evaluate with it.",
 ['histories','configurations'],"all sequences of parameter updates and solves, compile settings per solve",
 NOTEST+"Staleness needs a multi-step history.",
 ['expression.py','constraint.py','solver.py'],[('recompilation at the start of each solve','solver.py:Solver._setup'),('parameter values baked in compiled source','expression.py:Parameter.py_expr')],[('_value','parameter value','expression.py:Parameter')],['Parameter.value','Solver.solve'])
p('C12','Model building keeps names unique and rejects invalid input',
 "Every variable and parameter of a model has a distinct name; variables keep declaration order and their declared domain; generated names never clash with chosen ones. Illegal or already used names, domains with repeated values, constraints over variables unknown to the model objects given as constraints or objectives that are none, and objectives over something that is not an expression are rejected with ValueError or TypeError, and a rejected operation leaves the model unchanged. Adding an always-true constraint changes nothing; adding a never-true one makes the model unsolvable; solvability can be set explicitly.",
 ['histories','inputs'],"all sequences of model building operations, valid and invalid",
 NOTEST,['model.py'],[('name and domain checks','model.py:Model._check_name, _get_variable, add_int_variable'),('constraint admission','model.py:Model.add_constraint')],[('_variables','declared variables and parameters','model.py:Model'),('_constraints','constraints','model.py:Model')],['Model.variables','Model.constraints','Model.solvable'])
p('C13','Enumerations are isolated from each other and from their consumer',
 "What an enumeration yields does not depend on other enumerations over the same model or the same solver running interleaved with it, on earlier abandoned, interrupted, failed (a constraint raised) or optimizing runs, on the consumer modifying or keeping yielded solutions, or on variables and constraints added to the model after it yielded its first solution. Solving does not change the model's variables, domains or constraints.",
 ['schedules','histories'],"all interleavings of several enumerations and consumer actions",
 NOTEST+"Interleavings and abandoned generators are not sampled by any test.",
 ['solver.py','model.py'],[('per-call search state and copied assignments','solver.py:Solver.solve'),('copied variable table','solver.py:Solver._setup')],[('stack, domains','local to one solve call','solver.py:solve')],['Solver.solve','ModelSolver.__iter__'])
p('C14','Reported variables are exactly what evaluation needs',
 "The variables reported by an expression or constraint are distinct, occur in it, and assigning just these makes it evaluable; the free variables under a partial assignment are the reported ones not assigned. A constraint is never considered unsatisfied by a partial assignment that lacks one of its variables, and is unsatisfied by a full one exactly when it evaluates to false.",
 ['programs','inputs'],"all expressions, constraints and partial assignments",
 NOTEST,['expression.py','constraint.py'],[('variable collection','expression.py:Collection'),('unsatisfied on partial assignments','constraint.py:Constraint.unsatisfied')],[],['Expression.vars','Expression.free_vars','Constraint.vars','Constraint.unsatisfied'])
p('C15','Solver settings: per-call arguments override defaults, INFINITY lifts',
 "A solve runs with the policy, timeout and limit given to the call, or else those currently set on the solver (at construction or assigned later); None and INFINITY both mean unbounded in every place. Per-call arguments affect only that call, and assigning a policy that is not one of the defined policies is rejected with TypeError and leaves the solver's settings unchanged. The solver's attributes read back what is set (an unbounded limit or timeout as None).",
 ['configurations','histories'],"all combinations of constructor arguments, attribute assignments and per-call arguments",
 NOTEST,['solver.py','utils.py'],[('property setters','solver.py:Solver'),('argument resolution','solver.py:Solver.solve')],[('_limit,_timeout,_var_selection_policy','defaults','solver.py:Solver')],['Solver','Solver.solve'])
p('C16','Sudoku solver yields exactly the valid completions',
 "Every grid yielded for a 9x9 schema keeps the given cells and contains 1..9 exactly once in every row, column and 3x3 block; without a limit every such completion is yielded exactly once (by default just one), so contradictory givens yield nothing and a complete valid grid yields itself. Unknown cells may be written 0 or None; schemas with a wrong number of rows or bad values are rejected with ValueError.",
 ['inputs','configurations'],"all schemas, with few or many solutions, unsolvable, complete, contradictory",
 NOTEST,['sudoku.py'],[('domain reduction by givens and all-different groups','sudoku.py:SudokuSolver.__init__')],[],['SudokuSolver.__iter__'])
p('C17','Nonogram solver yields exactly the pictures matching the clues',
 "Every picture yielded for a nonogram has the nonogram's size and its runs of filled cells in every row and column are exactly the clues; every such picture is yielded exactly once. Clues that no picture satisfies yield nothing.",
 ['inputs'],"all nonograms (positive block sizes), rectangular shapes, empty lines, ambiguous and contradictory clues",
 NOTEST,['nonogram.py'],[('start position variables and row/column agreement constraints','nonogram.py:NonogramSolver.__init__')],[],['NonogramSolver.__iter__'])
p('C18','Knapsack optimizer returns a feasible selection of maximum value',
 "For every list of values, capacities and weights the optimizer returns a 0/1 selection whose total weight fits every capacity and whose total value is the maximum over all such selections, flagged optimal, with value and weights equal to the totals of the selection; if nothing fits it returns no solution, not flagged optimal. Inputs may be any iterables; wrong shapes and non-integer entries are rejected with ValueError or TypeError.",
 ['inputs'],"all multidimensional knapsack instances, including negative and zero values and weights",
 NOTEST,['knapsack.py','solver.py','objective.py'],[('capacity constraints and maximization','knapsack.py:KnapsackOptimizer')],[],['KnapsackOptimizer.__call__'])
p('C19','Cryptarithm solver yields exactly the valid digit assignments',
 "Every solution for a cryptarithm assigns distinct digits to its letters such that the equation holds when letters are replaced by digits; each such assignment is yielded exactly once. With leading zeros avoided (the default) no number starts with a letter assigned zero; otherwise this is not required. Letters are case-insensitive and may be mixed with digits.",
 ['inputs','configurations'],"all single (in)equations over + - * with numbers mixing letters and digits, both leading-zero settings",
 NOTEST,['cryptarithm.py'],[('rewriting of numbers into weighted sums','cryptarithm.py:CryptarithmSolver.__init__')],[],['CryptarithmSolver.__iter__'])
p('C20','Graph labeling yields exactly the proper labelings',
 "For every graph and list of distinct labels, the solver yields exactly once every assignment of labels to the graph's nodes in which the ends of each edge have different labels, and nothing else. Every node gets one of the given labels.",
 ['inputs'],"all finite graphs (directed or not, isolated nodes, self loops, arbitrary node objects) and label lists",
 NOTEST,['graph_labeling.py'],[('one variable per node, one disequality per edge','graph_labeling.py:GraphLabelingSolver')],[],['GraphLabelingSolver.__iter__'])
p('C21','Map coloring: connected regions one color, touching regions different',
 "For every ASCII map, each maximal connected area (8-neighbourhood) of one character other than blank or dot is one region, drawn in one color; regions that touch (8-neighbourhood) have different colors, blanks stay blank and the drawn map has the shape of the input. Without a limit every proper coloring of the regions is yielded exactly once (by default just one).",
 ['inputs'],"all rectangular or ragged ASCII maps and color lists",
 NOTEST,['tool/ascii_map_coloring.py','graph_labeling.py'],[('flood fill and neighbour detection','tool/ascii_map_coloring.py:AsciiMapColoringSolver')],[],['AsciiMapColoringSolver.__iter__'])
p('C22','Queens and Einstein riddle solvers yield exactly the true solutions',
 "For every board size the queens solver yields, exactly once each, all placements of N queens on an NxN board with no two sharing a row, column or diagonal. The Einstein riddle solver yields exactly the assignments of owner, color, drink, smoke and animal to houses consistent with the riddle's statements (there is one), under every policy and compile setting.",
 ['configurations','inputs'],"all board sizes, policies, limits, compile settings",
 NOTEST,['tool/queens.py','tool/einstein_riddle.py'],[('diagonal variables and all-different groups','tool/queens.py:QueensSolver'),('riddle constraints','tool/einstein_riddle.py:EinsteinRiddleSolver')],[],['QueensSolver.__iter__','EinsteinRiddleSolver.__iter__'])
p('C23','The command line tool prints every solution and a truthful summary',
 "Each subcommand solves the given input (file, text or built-in example) with the given options, prints every solution found in a form that shows it faithfully, numbered from 1, and ends with a summary whose count is the number of solutions printed: partial with its reason exactly when the search was cut by limit or timeout, unique for exactly one, all otherwise. The knapsack command reports whether the printed selection is optimal, the number of solve iterations and, when the search was cut, the reason. The time printed is search time that passed during the run, more than the timeout if that was reached, and not much more if it was not. With the show-model option, and only then, every variable of the model with its domain and every constraint is listed first, numbered from 0.",
 ['inputs','configurations'],"all subcommands, input files, limits, timeouts and options",
 NOTEST,['tool/__init__.py','tool/demo_utils.py','tool/demo_sudoku.py','tool/demo_nonogram.py','tool/demo_knapsack.py','tool/demo_graph_labeling.py','tool/demo_queens.py','tool/demo_cryptarithm.py','tool/demo_ascii_map_coloring.py','tool/demo_einstein_riddle.py'],
 [('argument parsing and dispatch','tool/__init__.py:main'),('summaries','tool/demo_utils.py')],[],['standard output of the satisfy command'])
p('C24','Timer accumulates exactly the started-to-stopped time and counts stops',
 "A timer is running exactly between a successful start and the next stop or abort; its elapsed time is the sum of all such intervals including the current one, and its count is the sum of the counts given to stop. Starting a running timer or stopping one that is not running raises RuntimeError and changes nothing; aborting when not running changes nothing and an abort keeps the elapsed time but adds no count. A stop returns the length of the interval it ends.",
 ['histories','schedules'],"all sequences of start, stop, abort and passage of time",
 "No test covers the timer; the property is about every history.",
 ['utils.py'],[('Timer','utils.py:Timer')],[('_t_elapsed,_t_start,_count','accumulated time, start of current interval, count','utils.py:Timer')],['Timer.running','Timer.elapsed','Timer.count','Timer.stats'])
p('C25','Structural equality of expressions is sound and complete',
 "Two expressions are reported structurally equal exactly when they are the same kind of expression built from structurally equal operands in the same order with the same constants and names; in particular structurally equal expressions over the same parameters always evaluate to the same value, and an expression equals a separately built copy of itself.",
 ['programs'],"all pairs of expressions",
 NOTEST,['expression.py'],[('equals','expression.py:Collection.equals, Const.equals, Variable.equals')],[],['Expression.equals'])
p('C26','Clues extracted from a picture are its run lengths',
 "The nonogram extracted from a rectangular picture lists, for every row and every column, the lengths of the maximal runs of filled cells in order (an empty list for a blank line), and solving that nonogram yields the picture. Converting a picture to text and back yields the same picture, and text lines of different length are padded with blanks.",
 ['inputs'],"all pictures and images",
 NOTEST,['nonogram.py','tool/demo_nonogram.py'],[('run length extraction','nonogram.py:pixmap_to_nonogram'),('image conversion','tool/demo_nonogram.py:image_to_pixmap, pixmap_to_image')],[],['pixmap_to_nonogram','image_to_nonogram','pixmap_to_image'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
