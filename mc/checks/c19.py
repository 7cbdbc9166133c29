"""C19: every equation of a bounded grammar over short words, both leading-zero modes, against brute force over the digit
assignments; words are read as decimal numbers by the oracle (never through the library's expansion)."""
import itertools
import re

from mc.core import kept, need

PROPERTY = 'C19'
HORIZON = 400

WORDS = ['A', 'B', 'AB', 'BA', 'AA', 'A1', '1B', '0A', '7', '12', 'ABA', '10', 'B0B', 'A1B', '007', 'A0', 'A05', '5A0', 'B00']
SHORT = ['A', 'B', 'AB', 'BA', 'A1', '1B', '7']
FORMS = ['{}+{}=={}', '{}*{}=={}', '{}-{}=={}', '{}+{}!={}', '{}*{}<{}', '{}-{}>={}', '{} + {} <= {}', '{}>{}+{}', '{}=={}*{}', '({}+1)*{}=={}', '{}*2+{}=={}']
NONZERO = ['1B', '7', '12', '10', '1A0', '3']
SPECIAL = ['A**2==BA', '-A+B==1', 'A+B+C==AB', 'AB+C==CA', '(A+B==5)&(A<B)', '(A==1)|(B==2)', 'A*(B+C)==AB', 'ABC==CBA', 'AB*A==CBA', 'A==A', 'A!=A', '7==7', '7==8',
           'AB-BA==9*C', 'A+A+A==BA', 'A1+B1==1AB', 'AAA/3==BC', 'AB%7==C', 'A*B*C==ABC', 'Z+1==Q', 'AB+CD==DC', 'ABCD==1089', 'ABCD*2==8712', 'A+B==C+D',
           'SO+SO==TOO', 'AB<BA', 'ABC%11==0', 'A0B==B0A', 'ABAB==101*AB', 'NO+ON==121', '1A1==A1A', '2*AB==BA+9', 'AB == 12', '10*A+B==AB', 'IF*OR==1A8', 'A+0==A',
           'A*A+B*B==C*C', '0==A', '0==A*B', 'AB==0C', 'A - B - C == 1', 'A/2-B==1', '9-A/2==B', '(A-B)*(A+B)==21', '2**A==BC', '2**A==B', 'A0==B+B', 'A05-B==C0', 'A00==B00+C0', '0A0+B==BB', '5A0==B0A', 'A0B0==1010*A', '00A==B', 'A*100==A00', '5A+05B==C1', 'A10-A01==9', 'A9+B==C0', 'A007==7+B*1000', '1A0B+1==10A1', 'AB00/100==C0', 'X==5', 'Q9Q==9Q9', '100/7==1A']

# more letters, longer words, longer equations
BIG = ['TWO+TWO==FOUR', 'EAT+THAT==APPLE', 'ABCDEF*3==BCDEFA', 'ABCDEF==142857', 'ABC*DE==FED', '1A2B3C+C3B2A1==555555', 'ABABABABABAB==101010101010*AB', '123456789A+B==12345678A0+C',
       'A+B+C+D+E==10', 'A*B*C*D*E==120', 'ABCDE<FEDCB-70000', 'A**B==C**D', 'AAAAAAAAAAAAAAAAAAAAAAAA==B*111111111111111111111111', 'A000000000000000000001==B*1000000000000000000000+C',
       '(AB//7==C)&(CD//9==1)', 'ABC//1D==E', '0-AB//7==0-C', 'A+BB+CCC+DDDD==EEEE', '((((A+1)*2+B)*2+C)*2+D)*2==EFA', 'AB==CD+EF-A*B+C*D-E*F',
       'A' + '0' * 26 + '==7' + '0' * 26, 'ABABABABABABABABABABABABABABABAB==52525252525252525252525252525252', 'A0B0C0D0E0F0==102030405060', 'AB' + '1' * 30 + '-12' + '1' * 30 + '==0', 'A+A+A+A+A+A+A+A+A+A+A+A+A+A+A+A+A+A+A+A==1A0']
BIGGER = ['BASE+BALL==GAMES']
BIGGEST = ['SEND+MORE==MONEY', 'GAMES-BALL==BASE', 'ABCDEFGHIJ==9876543210']


def bounds(tier):
    return dict(words=WORDS if tier == 'thorough' else SHORT + ['(all words in turn)'], forms=FORMS, divisions='{}/{}=={}, {}%{}=={} with divisors that are never zero',
                special=len(SPECIAL), many_letters=[list(m) for m in MANY], big=BIG + BIGGER + (BIGGEST if tier == 'thorough' else []), modes='leading zeros avoided / allowed; upper, lower and mixed case; policies and compilation rotated', tier=tier)


def equations(tier):
    words = WORDS if tier == 'thorough' else SHORT
    for form in FORMS:
        for k, ws in enumerate(itertools.product(words, repeat=3)):
            yield form.format(*ws)
        if tier != 'thorough':
            # every other word in every position
            for w in WORDS:
                if w not in SHORT:
                    for pos in range(3):
                        for others in itertools.product(['A', 'BA', '7'], repeat=2):
                            ws = list(others)
                            ws.insert(pos, w)
                            yield form.format(*ws)
    for op in '/%':
        for rel in ('==', '<', '!='):
            for a, d, c in itertools.product(words, NONZERO, words):
                yield '{}{}{}{}{}'.format(a, op, d, rel, c)
    yield from SPECIAL


BUNDLE = 24


def cases(tier):
    bundle = []
    for k, eq in enumerate(equations(tier)):
        bundle.append(eq)
        if len(bundle) == BUNDLE:
            yield tuple(bundle)
            bundle = []
    yield tuple(bundle)
    for k in range(len(MANY)):
        for avoid in (True, False):
            yield ('many', k, avoid)
    for k, eq in enumerate(BIG + BIGGER + (BIGGEST if tier == 'thorough' else [])):
        for avoid in (True, False):
            if len(set(filter(str.isalpha, eq))) < 10 or avoid:
                yield ('big', eq, avoid)


TOKEN = re.compile('[A-Za-z0-9]+')


def oracle(eq, avoid):
    """Set of digit tuples for the sorted letters."""
    up = eq.upper()
    words = TOKEN.findall(up)
    letters = sorted(set(ch for w in words for ch in w if ch.isalpha()))
    first = {w[0] for w in words if w[0].isalpha()} if avoid else set()
    code = compile(TOKEN.sub(lambda m: 'W[{!r}]'.format(m.group()), up).replace('//', '/').replace('/', '//'), 'eq', 'eval')
    res = set()
    for digits in itertools.permutations(range(10), len(letters)):
        env = dict(zip(letters, digits))
        if any(env[ch] == 0 for ch in first):
            continue
        table = str.maketrans({ch: str(d) for ch, d in env.items()})
        W = {w: int(w.translate(table)) for w in words}
        if eval(code, {'W': W}):
            res.add(digits)
    return letters, res


def mixed(eq):
    return ''.join(ch.lower() if k % 2 else ch for k, ch in enumerate(eq))


# (words, letters given by constraints in the model): as many letters as digits, and more
MANY = [('A B C D E F G H I J', 'ABCDE'), ('AB CD EF GH IJ', 'BCFHI'), ('A B C D E F G H I J K', 'ABCDEF'), ('AB CD EF GH IJ K', 'BDFHJ'), ('XYZ W V UTS RQ PO NM', 'XYZWV'), ('AB CD EF GH IJ KL MN OP QR ST UV WX YZ', 'ACEGIKMBD'),
        ('ABCDEFGHIJ', 'CDEFG'), ('ABCDEFGHIJK', 'CDEFG'), ('ABCDEFGHIJK', ''), ('A B C D E F G H I', 'ACEGI')]


def run_many(case, ctx):
    """The digits run out: without the given letters the search would be long."""
    from satisfy import Solver
    from satisfy.cryptarithm import CryptarithmSolver
    _, k, avoid = case
    words, given = MANY[k]
    words = words.split()
    letters = sorted(set(''.join(words)))
    first = {w[0] for w in words} if avoid else set()
    if not given:
        # nothing is left to search for: it is enough that the leading letters have no digits
        given = ''.join(letters[:9])
    for digits in ((1, 2, 3, 4, 5, 6, 7, 8, 9), (9, 8, 7, 6, 5, 4, 3, 2, 1), (5, 0, 3, 9, 7, 2, 1, 4, 6), (2, 2, 3, 4, 5, 6, 7, 8, 9)):
        fixed = dict(zip(given, digits))
        want = set()
        if len(set(fixed.values())) == len(fixed) and not any(fixed.get(ch) == 0 for ch in first):
            free = [ch for ch in letters if ch not in fixed]
            for vals in itertools.permutations([d for d in range(10) if d not in fixed.values()], len(free)):
                env = dict(fixed, **dict(zip(free, vals)))
                if not any(env[ch] == 0 for ch in first):
                    want.add(tuple(env[ch] for ch in letters))
        for rel in ('+{}>=0', '*{}!=0-1'):
            eq = '+'.join(words) + rel.format(words[0])
            puzzle = CryptarithmSolver(eq, avoid_leading_zeros=avoid)
            for ch, d in fixed.items():
                puzzle.model.add_constraint(puzzle.model.get_variable(ch) == d)
            got = [tuple(sol[ch] for ch in letters) for sol in itertools.islice(puzzle, len(want) + 1)]
            need(set(got) == want and len(got) == len(want), '{} avoid_leading_zeros={} with {}: {} instead of {}', eq, avoid, fixed, got[:3], sorted(want)[:3])
            ctx.step(len(got) + 1)
            ctx.state(eq, avoid, digits)
            ctx.trace((len(letters), len(want)))


def run_case(case, ctx):
    from satisfy.cryptarithm import CryptarithmSolver
    from satisfy import VarSelectionPolicy
    pols = list(VarSelectionPolicy)
    if case[0] == 'many':
        return run_many(case, ctx)
    if case[0] == 'big':
        return run_big(case, ctx)
    for k, eq in enumerate(case):
        for avoid in (True, False):
            letters, want = oracle(eq, avoid)
            variants = [(eq, {})]
            alt = (eq.lower(), mixed(eq))[k % 2]
            variants.append((alt, dict(var_selection_policy=pols[k % 8], compile_constraints=bool(k % 3))))
            for text, args in variants:
                args = dict(args)
                if not (avoid and k % 2):
                    args['avoid_leading_zeros'] = avoid
                got = []
                for sol in kept(CryptarithmSolver(text, **args), k % 3, len(want) + 6):
                    need(sorted(sol) == letters, '{} avoid_leading_zeros={}: {} does not bind {}', text, avoid, sol, letters)
                    got.append(tuple(sol[ch] for ch in letters))
                    need(len(got) <= len(want) + 5, '{} avoid_leading_zeros={} {}: too many solutions {}', text, avoid, args, got)
                need(len(set(got)) == len(got), '{} avoid_leading_zeros={} {}: a solution is repeated', text, avoid, args)
                if set(got) != want:
                    need(False, '{} avoid_leading_zeros={} {}: letters {} missing {} wrong {}', text, avoid, args, letters,
                         sorted(want - set(got))[:4], sorted(set(got) - want)[:4])
                ctx.step(len(got) + 1)
                ctx.state(text, avoid, tuple(sorted(args)))
                ctx.trace((len(want), len(letters)))


def run_big(case, ctx):
    from satisfy.cryptarithm import CryptarithmSolver
    _, eq, avoid = case
    letters, want = oracle(eq, avoid)
    got = set()
    for sol in CryptarithmSolver(eq, avoid_leading_zeros=avoid):
        need(sorted(sol) == letters, '{} avoid_leading_zeros={}: {} does not bind {}', eq, avoid, sol, letters)
        key = tuple(sol[ch] for ch in letters)
        need(key in want and key not in got, '{} avoid_leading_zeros={}: {} is wrong or repeated', eq, avoid, sol)
        got.add(key)
    need(got == want, '{} avoid_leading_zeros={}: letters {} missing {}', eq, avoid, letters, sorted(want - got)[:4])
    ctx.step(len(got) + 1)
    ctx.state(eq, avoid)
    ctx.trace((len(want), len(letters)))
