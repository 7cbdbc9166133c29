"""C28: all sequences of operations of the stopwatch and of passing time up to a depth, against a reference stopwatch."""
import itertools

from mc.clock import CLOCK
from mc.core import need

PROPERTY = 'C28'
VIRTUAL_CLOCK = True

OPS = ('start', 'stop', 'stop count=0', 'stop count=3', 'abort', 'read', 'wait 1', 'wait 0.25', 'wait 1000')
REDUCED = ('start', 'stop', 'abort', 'read', 'wait 1', 'stop count=3')

PERIODS = 300

# what the clock reads at the start, apart from the usual 1000: zero, and values that become zero
BASES = (0.0, -1.0, -4.0)

# operations on two stopwatches that must not know of each other
TWO = tuple((op, k) for op in ('start', 'stop', 'abort') for k in (0, 1)) + (('wait 1', 0),)


def bounds(tier):
    return dict(operations=list(OPS), depth='{} over all operations, {} over {}; two stopwatches: {} over {}'.format(
        *depths(tier), len(REDUCED), 7 if tier == 'thorough' else 6, len(TWO)),
                periodic='every sequence of {} operations, {} times over'.format(3 if tier == 'quick' else 4, PERIODS),
                bases='clocks that start at {}: two operations less'.format(', '.join(map(str, BASES))),
                readings='running(), count(), elapsed() and stats() after every operation', tier=tier)


def depths(tier):
    return (7, 9) if tier == 'thorough' else (6, 8)


def cases(tier):
    full, reduced = depths(tier)
    for first in itertools.product(OPS, repeat=2):
        yield ('all', full) + first
    for first in itertools.product(REDUCED, repeat=2):
        yield ('reduced', reduced) + first
    for first in itertools.product(OPS, repeat=2):
        yield ('periodic', 3 if tier == 'quick' else 4) + first
    for base in BASES:
        for first in itertools.product(REDUCED, repeat=2):
            yield ('base {}'.format(base), reduced - 2) + first
    for first in TWO:
        yield ('two', 7 if tier == 'thorough' else 6, first)


class Reference:
    def __init__(self):
        self.total, self.count, self.since = 0.0, 0, None

    def elapsed(self):
        return self.total + (CLOCK.now - self.since if self.since is not None else 0.0)


def check(timer, ref, what):
    if timer.running() != (ref.since is not None):
        need(False, '{}: running() is {}', what, timer.running())
    if timer.count() != ref.count:
        need(False, '{}: count() is {} instead of {}', what, timer.count(), ref.count)
    if abs(timer.elapsed() - ref.elapsed()) > 1e-6:
        need(False, '{}: elapsed() is {} instead of {}', what, timer.elapsed(), ref.elapsed())


def apply(timer, ref, op, what):
    if op.startswith('wait'):
        CLOCK.advance(float(op[5:]))
        return
    if op == 'read':
        before = (timer.running(), timer.count(), timer.elapsed(), tuple(timer.stats()))
        after = (timer.running(), timer.count(), timer.elapsed(), tuple(timer.stats()))
        need(before == after, '{}: reading changes the stopwatch: {} then {}', what, before, after)
        stats = timer.stats()
        need(stats.count == ref.count, '{}: stats().count is {} instead of {}', what, stats.count, ref.count)
        need(abs(stats.elapsed - ref.elapsed()) < 1e-6, '{}: stats().elapsed is {} instead of {}', what, stats.elapsed, ref.elapsed())
        return
    error = got = None
    try:
        if op == 'start':
            timer.start()
        elif op == 'stop':
            got = timer.stop()
        elif op == 'abort':
            timer.abort()
        else:
            got = timer.stop(count=int(op[-1]))
    except Exception as e:
        error = e
    running = ref.since is not None
    bad = (op == 'start' and running) or (op.startswith('stop') and not running)
    need((error is not None) == bad, '{}: {} while {}running: error {!r}', what, op, '' if running else 'not ', error)
    if bad:
        return
    if op == 'start':
        ref.since = CLOCK.now
    elif running:
        if op != 'abort':
            need(got is not None and abs(got - (CLOCK.now - ref.since)) < 1e-6, '{}: {} returns {} after {} s', what, op, got, CLOCK.now - ref.since)
        ref.total += CLOCK.now - ref.since
        ref.since = None
        ref.count += 0 if op == 'abort' else 1 if op == 'stop' else int(op[-1])


def run_case(case, ctx):
    """Depth-first over the tree of sequences; every sequence is executed from a new stopwatch."""
    from satisfy.utils import Timer
    kind, depth = case[:2]
    if kind == 'two':
        for rest in itertools.product(TWO, repeat=depth - 1):
            seq = case[2:] + rest
            CLOCK.reset()
            pairs = [(Timer(), Reference()), (Timer(), Reference())]
            for op, k in seq:
                apply(*pairs[k], op, seq)
                ctx.step()
            for timer, ref in pairs:
                check(timer, ref, seq)
                apply(timer, ref, 'read', seq)
            ctx.state(seq)
            ctx.trace(tuple((t.count(), t.elapsed(), t.running()) for t, _ in pairs))
        return
    if kind == 'periodic':
        for rest in itertools.product(OPS, repeat=depth - 2):
            seq = case[2:] + rest
            CLOCK.reset()
            timer, ref = Timer(), Reference()
            for round in range(PERIODS):
                for op in seq:
                    apply(timer, ref, op, seq)
                    check(timer, ref, seq)
                    ctx.step()
                apply(timer, ref, 'read', seq)
            ctx.state(seq, PERIODS)
            ctx.trace((timer.count(), timer.elapsed(), timer.running()))
        return
    ops = OPS if kind == 'all' else REDUCED
    base = float(kind[5:]) if kind.startswith('base') else 1000.0
    for rest in itertools.product(ops, repeat=depth - 2):
        seq = case[2:] + rest
        CLOCK.reset(base=base)
        timer, ref = Timer(), Reference()
        for op in seq:
            apply(timer, ref, op, seq)
            check(timer, ref, seq)
            ctx.step()
        apply(timer, ref, 'read', seq)
        ctx.state(seq)
        ctx.trace((timer.count(), timer.elapsed(), timer.running()))
