ENUM = 'exhaustive enumeration of the bounded space of executions of the real code'
T = ('Explicit exploration of the implementation itself within the bounds of the evidence file, no abstraction gap; nothing is sampled. '
     'Says nothing beyond the alphabet and bounds. Trusts CPython and ')
REF = T + 'the independent evaluator mc/ref.py.'
BRUTE = T + 'the brute-force oracle (mc/ref.py over the full cube of assignments).'
NOTES = {
 'C01': (ENUM + ' (models x policies x compilation), checked against brute force', BRUTE),
 'C02': (ENUM + ' (models x policies x compilation), checked against brute force', BRUTE),
 'C03': (ENUM + ' (models x rephrasings x all outcomes of the random policy under a controlled shuffle)', T + 'the reference phrasing, itself compared with brute force.'),
 'C04': (ENUM + ' (all call sequences over limits up to a depth) against the unlimited run', T + 'the unlimited run (decided by C01/C02).'),
 'C05': (ENUM + ': all delay schedules within a deviation bound on a virtual clock owned by the harness', T + 'the virtual clock: time passes only in constraint evaluations and pauses.'),
 'C06': (ENUM + ': all delay/pause/abandon schedules within a deviation bound on a virtual clock', T + 'the virtual clock.'),
 'C07': (ENUM + ' (all expression trees up to a depth x all assignments) against a reference evaluator', REF),
 'C08': (ENUM + ' (all expression trees up to a depth x all assignments x names x nesting): compiled vs interpreted', REF),
 'C09': (ENUM + ' (all expressions and constraints x all partial assignments) against a reference evaluator', REF),
 'C10': (ENUM + ': all histories of parameter changes and solves up to a depth, each solve against brute force', BRUTE),
 'C11': (ENUM + ' (models x objectives x directions x configurations) against brute force', BRUTE),
 'C12': (ENUM + ' (models x objectives x limits x timeouts on a virtual clock) against brute force', BRUTE),
 'C13': (ENUM + ': all histories of solving activities up to a depth, compared with a pristine process', T + 'the forked pristine process as reference.'),
 'C14': (ENUM + ': all interleavings of the steps of 2-3 iterations, all abandonment points', T + 'the same iteration run alone in a pristine process as reference.'),
 'C15': (ENUM + ': all histories of valid and invalid declarations up to a depth against a reference model', T + 'the reference model of declarations in the check.'),
 'C16': (ENUM + ': all histories of constant constraints and solvability marks up to a depth against a reference model', T + 'the reference model in the check.'),
 'C17': (ENUM + ': all ordered pairs of a bounded universe of expression trees', T + 'the rule that separately built non-folding trees are equal iff their formulas are.'),
 'C18': (ENUM + ' (all erasures/alterations of bounded size of complete grids, all single malformations) against a bit-mask solver', T + 'the independent sudoku solver in the check.'),
 'C19': (ENUM + ' (all equations of a bounded grammar) against all digit assignments', T + 'Python integer arithmetic on the digit strings.'),
 'C20': (ENUM + ' (all graphs of bounded size x label lists) against all label assignments', T + 'networkx as container of the graphs.'),
 'C21': (ENUM + ' (all clue lists over an alphabet, clues of all pictures of bounded size) against all pictures', T + 'the clue computation of mc/nono.py.'),
 'C22': (ENUM + ' (all pictures, ragged ones included, and all texts of bounded size)', T + 'the clue computation of mc/nono.py.'),
 'C23': (ENUM + ' (all instances over small alphabets, all malformed shapes, limits, clock ticks) against all selections', T + 'the brute force over selections.'),
 'C24': (ENUM + ' (board sizes x configurations x limits x clock ticks) against all permutations', T + 'the brute force over permutations. Policies whose search explodes are bounded to tiny boards.'),
 'C25': (ENUM + ' (all configurations, limits, clock ticks) against all arrangements admitted by the printed sentences', T + 'the reading of the fifteen sentences. The RANDOM policy is left out (its search does not end in reasonable time).'),
 'C26': (ENUM + ' (all ascii maps of bounded size) against union-find regions and all colorings', T + 'the ANSI codes of the eight colors.'),
 'C27': (ENUM + ' (subcommands x inputs x sources x limits x timeouts x clock ticks), the printed text parsed back and compared with brute force', T + 'the oracles of C18-C26 and the layout of the printed renderings.'),
 'C29': (ENUM + ': all histories of uses of one puzzle object up to a depth, every yielded sequence against renderings computed in a pristine process', T + 'the pristine run of the puzzle (its solutions are decided by C18-C26).'),
 'C28': (ENUM + ': all operation sequences up to a depth on a virtual clock against a reference stopwatch', T + 'the virtual clock.'),
 'C30': (ENUM + ' (all expression trees up to a depth, all models of a bounded universe x all assignments): the printed text read back and compared with a reference evaluator', REF),
}
