"""usage: mutate.py OUT.jsonl FILE [FILE ...]     (files relative to src/satisfy)
Mutation analysis of the checks: every single-site mutant of the given files that the stable tests do not kill is given to the
checks relevant for its file (in scratch copies); survivors are written to OUT.jsonl for inspection.  Informative only."""
import ast, json, os, queue, shutil, subprocess, sys, tempfile, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SLOTS = int(os.environ.get('SLOTS', '4'))
CHECKS = {
    'solver.py': 'C02 C04 C05 C06 C01 C12 C11 C10 C03 C16 C29',
    'expression.py': 'C17 C09 C07 C30 C08 C10 C16',
    'constraint.py': 'C09 C15 C02 C10 C08 C16 C30',
    'model.py': 'C15 C16 C02 C10 C29',
    'objective.py': 'C12 C11 C30 C23',
    'utils.py': 'C28 C06 C05 C04 C27 C29',
    'sudoku.py': 'C18 C29 C27', 'cryptarithm.py': 'C19 C29 C27', 'graph_labeling.py': 'C20 C29 C27', 'nonogram.py': 'C21 C22 C29 C27', 'knapsack.py': 'C23 C29 C27',
    'tool/__init__.py': 'C27 C30', 'tool/ascii_map_coloring.py': 'C26 C29 C27', 'tool/einstein_riddle.py': 'C25 C29 C27', 'tool/queens.py': 'C24 C29 C27',
    'tool/demo_utils.py': 'C27 C30',
}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['+'], ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['//'], ast.Pow: ['*'], ast.BitOr: ['&'], ast.BitAnd: ['|']}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    b = src.encode()
    for line in b.split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)
    pos = lambda n: (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: b[slice(*pos(n))].decode()

    def rep(n, new, kind):
        s, e = pos(n)
        return (kind, n.lineno, text(n)[:80], new[:80], (b[:s] + new.encode() + b[e:]).decode())

    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and node.name == '_solve_forbidden':
            node.body = []
    # names for display and export only
    tree.body = [node for node in tree.body if not (isinstance(node, ast.Assign) and (
        getattr(node.targets[0], 'id', '') in ('__all__', 'LOG') or 'namedtuple' in text(node.value)))]
    for n in ast.walk(tree):
        for child in ast.iter_child_nodes(n):
            child.parent = n
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise) or isinstance(n, ast.FunctionDef) and n.name == '__repr__' or isinstance(n, ast.Expr) and text(n).startswith('LOG.'):
            skip.update(id(m) for m in ast.walk(n) if m is not n)
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP[type(n.ops[0])]:
                yield rep(n, '({} {} {})'.format(text(n.left), op, text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            for op in BIN[type(n.op)]:
                yield rep(n, '({} {} {})'.format(text(n.left), op, text(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield rep(n, '(' + op.join(text(v) for v in n.values) + ')', 'bool')
            keep = ' and ' if isinstance(n.op, ast.And) else ' or '
            for k in range(len(n.values)):
                yield rep(n, '(' + keep.join(text(v) for j, v in enumerate(n.values) if j != k) + ')', 'drop operand')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield rep(n, '(' + text(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield rep(n, str(not n.value), 'const')
            elif n.value is None and not isinstance(n.parent, (ast.Compare,)):
                yield rep(n, '0', 'const')
            elif type(n.value) in (int, float):
                yield rep(n, repr(n.value + 1), 'const')
                if n.value > 0:
                    yield rep(n, repr(n.value - 1), 'const')
            elif isinstance(n.value, str) and not isinstance(n.parent, (ast.Expr, ast.JoinedStr)) and n.value:
                yield rep(n, repr('' if len(n.value) == 1 else n.value[:-1]), 'string')
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield rep(n.test, 'True', 'cond')
            yield rep(n.test, 'False', 'cond')
        elif isinstance(n, ast.comprehension):
            for c in n.ifs:
                yield rep(c, 'True', 'filter')
        elif isinstance(n, ast.Call):
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'reversed', 'tuple', 'list', 'set', 'frozenset', 'abs', 'bool', 'int', 'iter', 'sum', 'min', 'max', 'len'):
                yield rep(n, '(' + text(n.args[0]) + ')', 'unwrap')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'union', 'upper', 'lower', 'strip', 'difference', 'rstrip'):
                yield rep(n, '(' + text(n.func.value) + ')', 'unwrap')
            if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max'):
                yield rep(n.func, {'min': 'max', 'max': 'min'}[n.func.id], 'minmax')
            if isinstance(n.func, ast.Name) and n.func.id in ('all', 'any'):
                yield rep(n.func, {'any': 'all', 'all': 'any'}[n.func.id], 'anyall')
            for kw in n.keywords:
                if kw.arg:
                    s, e = pos(kw)
                    new = b[:s] + b'**{}' + b[e:]
                    yield ('drop keyword', n.lineno, text(kw)[:80], '', new.decode())
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield rep(n, '(' + text(n.value) + ')', 'slice')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(n.parent, (ast.Module,)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Assign) and isinstance(n.parent, ast.ClassDef):
                continue
            if text(n).startswith('LOG.'):
                continue
            yield rep(n, 'pass', 'delete')
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield rep(n, 'return None', 'return')
        elif isinstance(n, ast.Return):
            yield rep(n, 'pass', 'return')
        elif isinstance(n, ast.Raise):
            yield rep(n, 'pass', 'raise')
        elif isinstance(n, ast.Continue):
            yield rep(n, 'break', 'continue')
            yield rep(n, 'pass', 'continue')
        elif isinstance(n, ast.Break):
            yield rep(n, 'continue', 'break')
            yield rep(n, 'pass', 'break')


def sh(*a, timeout=None, **k):
    p = subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, **k)
    try:
        out, err = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(a, p.returncode, out, err)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None


def main():
    out = open(sys.argv[1], 'a')
    jobs = queue.Queue()
    n = 0
    only = os.environ.get('ONLY')
    for f in sys.argv[2:]:
        src = open(os.path.join('/repo/src/satisfy', f)).read()
        seen = {src}
        for kind, line, old, new, mutated in mutants(src):
            if mutated in seen:
                continue
            seen.add(mutated)
            try:
                compile(mutated, f, 'exec')
            except SyntaxError:
                continue
            jobs.put((f, kind, line, old, new, mutated))
            n += 1
    print(n, 'mutants', flush=True)
    lock = threading.Lock()
    stats = dict(killed=0, caught=0, survived=0)

    def work(slot):
        scratch = tempfile.mkdtemp(prefix='mutate-')
        repo = os.path.join(scratch, 'repo')
        ver = os.path.join(scratch, 'verif')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'evidence', 'replays'))
        # a copy of the explorer that visits one case in TRIAGE; only what survives it is given to the complete checks
        core = os.path.join(ver, 'mc/core.py')
        text = open(core).read()
        mark = "            if spread(idx) % n != k:\n"
        assert mark in text
        open(core, 'w').write(text.replace(mark, "            if idx % int(os.environ.get('TRIAGE', '1')):\n                continue\n            idx //= int(os.environ.get('TRIAGE', '1'))\n" + mark))
        try:
            while True:
                try:
                    f, kind, line, old, new, mutated = jobs.get_nowait()
                except queue.Empty:
                    return
                path = os.path.join(repo, 'src/satisfy', f)
                orig = open(os.path.join('/repo/src/satisfy', f)).read()
                open(path, 'w').write(mutated)
                env = dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
                t = sh(PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests', cwd=repo, env=env, timeout=60)
                res = {}
                if t is None or t.returncode != 0:
                    verdict = 'killed'
                else:
                    verdict = 'survived'
                    checks = CHECKS.get(f, 'C27').split()
                    for c, triage in [(c, '13') for c in checks] + [(c, '1') for c in checks]:
                        r = sh(ver + '/bin/check', c, env=dict(os.environ, SATISFY_REPO=repo, MC_WORKERS=str(max(1, 8 // SLOTS)), TRIAGE=triage), timeout=float(os.environ.get('LIMIT', '880')))
                        res[c] = r.returncode if r else 'timeout'
                        if r and r.returncode == 1:
                            verdict = 'caught'
                            break
                open(path, 'w').write(orig)
                with lock:
                    stats[verdict] += 1
                    if verdict != 'killed':
                        json.dump(dict(file=f, kind=kind, line=line, old=old, new=new, verdict=verdict, checks=res), out)
                        out.write('\n')
                        out.flush()
                    if verdict == 'survived':
                        print(f, line, kind, repr(old), '->', repr(new), res, flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    threads = [threading.Thread(target=work, args=(k,)) for k in range(SLOTS)]
    [t.start() for t in threads]
    [t.join() for t in threads]
    print(stats, flush=True)


if __name__ == '__main__':
    main()
