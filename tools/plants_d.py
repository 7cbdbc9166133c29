BUGS = []
def bug(id, property, edits, demo, needs, breaks, also=()):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, also=also))

S, X, M, C, O, U = 'solver.py', 'expression.py', 'model.py', 'constraint.py', 'objective.py', 'utils.py'
SU, CR, GL, NO, KN = 'sudoku.py', 'cryptarithm.py', 'graph_labeling.py', 'nonogram.py', 'knapsack.py'
EI, QU, MA = 'tool/einstein_riddle.py', 'tool/queens.py', 'tool/ascii_map_coloring.py'

bug('c29-given-solver', 'C29', [(S, "        if solver is None:\n            solver = Solver(**args)", "        if solver is None or args:\n            solver = Solver(**args)")], '''
from satisfy import Solver
from satisfy.graph_labeling import GraphLabelingSolver
import networkx as nx
s = Solver(limit=1)
g = GraphLabelingSolver(nx.path_graph(2), 'ab', solver=s)
assert len(list(g)) == 1 and s.get_stats().count == 1
''', 'a puzzle that sets a default option of its own and is given a solver', 'the given solver is replaced')

bug('c29-fixed-limit', 'C29', [(S, "        yield from self._solver.solve(self._model)", "        yield from self._solver.solve(self._model, limit=self._limit)"),
  (S, "        self._solver = solver\n\n    @property\n    def model", "        self._solver = solver\n        self._limit = solver.limit\n\n    @property\n    def model")], '''
from satisfy.cryptarithm import CryptarithmSolver
c = CryptarithmSolver('A+1==B')
c.solver.limit = 2
assert len(list(c)) == 2
''', 'changing the limit of the solver of a cryptarithm after construction', 'the new limit has no effect')

bug('c29-knapsack-cached', 'C29', [(KN, "        opt_result = solver.optimal_solution(model, objective)\n", "        if self._result is None or self._result[0] != sum(1 for _ in model.variables()):\n            self._result = (sum(1 for _ in model.variables()), solver.optimal_solution(model, objective))\n        opt_result = self._result[1]\n"),
  (KN, "        self._variables = variables\n        self._model", "        self._variables = variables\n        self._result = None\n        self._model")], '''
from satisfy.knapsack import KnapsackOptimizer
k = KnapsackOptimizer([1, 2], [3], [[1], [1]])
assert k().value == 3
k.model.add_constraint(k.model.get_variable('i_0') == 0)
assert k().value == 2
''', 'calling the optimizer again after adding a constraint to its model', 'the old result is returned')

bug('c29-queens-rows', 'C29', [(QU, "            board = [[0 for _ in range(board_size)] for _ in range(board_size)]\n            for r, queen in enumerate(queens):\n                board[r][solution[queen.name]] = 1\n            yield tuple(board)",
  "            board = []\n            for r, queen in enumerate(queens):\n                column = solution[queen.name]\n                if column not in self._rows:\n                    self._rows[column] = [int(c == column) for c in range(board_size)]\n                board.append(self._rows[column])\n            yield tuple(board)"),
  (QU, "        self._queens = queens", "        self._queens = queens\n        self._rows = {}")], '''
from satisfy.tool.queens import QueensSolver
q = QueensSolver(4)
first = [[list(r) for r in b] for b in q]
for b in q:
    b[0][0] = 7
assert [[list(r) for r in b] for b in q] == first
''', 'a consumer that modifies a board', 'later boards share the modified rows')

bug('c29-nonogram-cells', 'C29', [(NO, "            pixmap = [[0 for _ in range(num_cols)] for _ in range(num_rows)]\n            for r, cur_vars in row_vars.items():\n                for var in cur_vars:",
  "            pixmap = [[0] * num_cols if row_vars.get(r) else self._blank for r in range(num_rows)]\n            for r, cur_vars in row_vars.items():\n                for var in cur_vars:"),
  (NO, "        self._shape = (num_rows, num_cols)", "        self._shape = (num_rows, num_cols)\n        self._blank = [0] * num_cols")], '''
from satisfy.nonogram import NonogramSolver
n = NonogramSolver({'rows': [[], [1]], 'columns': [[1], []]})
p, = n
p[0][0] = 1
p, = n
assert p == [[0, 0], [1, 0]], p
''', 'a consumer that modifies the empty line of a picture', 'later pictures show the modification')

bug('c29-label-names', 'C29', [(GL, "                node_labels[node] = labels[solution[variable.name]]\n            yield node_labels", "                node_labels[node] = labels[solution[variable.name]]\n            self._last = node_labels\n            yield node_labels"),
  (MA, "        for solution in super().__iter__():\n", "        for solution in super().__iter__():\n            solution = self._last\n"),
  (MA, "            ascii_map = [[' ' for _ in row] for row in orig_ascii_map]\n", "            ascii_map = self._blank if len(groups) > 2 else [[' ' for _ in row] for row in orig_ascii_map]\n"),
  (MA, "        self._groups = groups\n", "        self._groups = groups\n        self._blank = [[' ' for _ in row] for row in rows]\n")], '''
from satisfy.tool.ascii_map_coloring import AsciiMapColoringSolver
a = AsciiMapColoringSolver('ABC', ['red', 'blue'], limit=5)
m = list(a)
assert m[0] != m[1]
''', 'keeping more than one coloring of a map with three regions', 'colorings share their cells', also=('C26',))

bug('c29-einstein-houses', 'C29', [(EI, "            z_sol = {}\n            for index in indices:\n                z_sol[index] = {}\n", "            z_sol = self._houses\n            for index in indices:\n                z_sol.setdefault(index, {})\n"),
  (EI, "        self._indices = indices\n", "        self._indices = indices\n        self._houses = {}\n")], '''
from satisfy.tool.einstein_riddle import EinsteinRiddleSolver
e = EinsteinRiddleSolver()
a, = e
want = {k: dict(v) for k, v in a.items()}
a[1]['pet'] = 'none'
a[9] = {}
b, = e
assert b == want, b
''', 'a consumer that modifies the arrangement and iterates again', 'the modification shows in later arrangements')

bug('c29-sudoku-solutions', 'C29', [(SU, "        for solution in solver.solve(model):\n            solved_schema = []\n", "        for solution in solver.solve(model, var_selection_policy=self._policy):\n            solved_schema = []\n"),
  (SU, "        self._schema = schema\n\n", "        self._schema = schema\n        self._policy = self._solver.var_selection_policy\n\n")], '''
from satisfy import VarSelectionPolicy
from satisfy.sudoku import SudokuSolver
from satisfy.utils import INFINITY
text = '534678912672195348198342567859761423426853791713924856961537284287419635345286179'
g = [[0 if text[9 * r + c] in '12' else int(text[9 * r + c]) for c in range(9)] for r in range(9)]
s = SudokuSolver(g, limit=INFINITY)
a = list(s)
s.solver.var_selection_policy = VarSelectionPolicy.REVERSED
b = list(s)
raw = [tuple(sorted(x.items())) for x in s.solver.solve(s.model)]
t = SudokuSolver(g, limit=INFINITY, var_selection_policy=VarSelectionPolicy.REVERSED)
assert sorted(a) == sorted(b) and b == list(t)
''', 'changing the policy of a sudoku solver after construction', 'the sequence is that of the old policy')

bug('c29-stats', 'C29', [(S, "    def get_stats(self):\n        return self._solver.get_stats()\n", "    def get_stats(self):\n        stats = self._solver.get_stats()\n        if stats.interrupt == 'limit' and stats.count != self._solver.limit:\n            stats = stats._replace(interrupt=None)\n        return stats\n")], '''
from satisfy.cryptarithm import CryptarithmSolver
c = CryptarithmSolver('A+1==B', limit=2)
list(c)
c.solver.limit = 3
assert c.get_stats().interrupt == 'limit'
''', 'reading the statistics after changing the limit', 'the interrupt is not reported', also=('C04',))

bug('c29-solvable-kept', 'C29', [(S, "        yield from self._solver.solve(self._model)", "        if self._solvable:\n            yield from self._solver.solve(self._model)"),
  (S, "        self._model = model\n", "        self._model = model\n        self._solvable = model.solvable()\n")], '''
from satisfy import Model
from satisfy.cryptarithm import CryptarithmSolver
m = Model()
m.set_solvable(False)
c = CryptarithmSolver('A+1==B', model=m)
assert list(c) == []
m.set_solvable(True)
assert list(c)
''', 'a model given as not solvable and marked solvable later', 'the puzzle stays empty')
