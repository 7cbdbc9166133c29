"""Explorer runtime: enumerates the finite case space of a check completely, on all cores, executes
every case on the real code, and reports coverage, evidence and replayable violations.

A check module (mc/checks/cXX.py) defines
    PROPERTY, TITLE, LEVEL (default model_checking), HORIZON (processor seconds per case, default 60)
    cases(tier)        -> iterator over python literals (the complete bounded space, in a fixed order)
    run_case(case, ctx)-> executes one case on the implementation; raises Violation
    bounds(tier)       -> dict describing alphabet and bounds (goes into the evidence)
    VIRTUAL_CLOCK      -> True to own the clock
    DISTRIBUTE         -> 'mod' (default): worker k takes the cases with index % workers == k
"""
import ast
import hashlib
import importlib
import itertools
import json
import logging
import os
import pickle
import random
import resource
import signal
import sys
import tempfile
import time
import traceback
import zlib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SATISFY_REPO', '/repo')
_real_time = time.time
_process_time = time.process_time
SLOW = os.environ.get('MC_SLOW')      # report cases that take more seconds than this


class Violation(Exception):
    pass


class Horizon(BaseException):
    """A case did not come to an end within its horizon."""


def need(cond, fmt, *args):
    if not cond:
        raise Violation(fmt.format(*args) if args else fmt)


class Ctx:
    """Counters of one worker.  Nothing here is a constant: every number is counted on this run."""

    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.outcomes = set()
        self.case_key = None
        self.extra = {}

    def state(self, *key):
        """A distinct state reached: the case plus what was observed so far in it."""
        self.states.add(hash((self.case_key, key)))

    def step(self, n=1):
        self.transitions += n

    def trace(self, outcome=None):
        """A complete execution of the implementation compared with the oracle."""
        self.traces += 1
        if outcome is not None:
            self.outcomes.add(hash(outcome))

    def evals(self, n=1):
        self.evaluations += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def load(prop):
    name = 'mc.checks.' + prop.lower()
    path = os.path.join(ROOT, 'mc', 'checks', prop.lower() + '.py')
    src = open(path).read()
    if 'VIRTUAL_CLOCK = True' in src:
        from . import clock
        clock.install()
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(name)
    import satisfy
    if not os.path.realpath(satisfy.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('satisfy is imported from {}'.format(satisfy.__file__))
    return mod


def case_id(case):
    return hashlib.sha1(repr(case).encode()).hexdigest()[:12]


def known_findings(prop):
    """Lines 'finding: property=Cxx case=<id> <text>' of known_findings.txt ('fixed:' lines suppress nothing)."""
    res = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: '):
                words = line.split(None, 3)
                if words[1] == 'property=' + prop and words[2].startswith('case='):
                    res[words[2][5:]] = words[3].strip() if len(words) > 3 else ''
    return res


def kept(it, keep, cap):
    """The items one by one or, with keep, all of them (at most cap) before the first one is looked at."""
    return list(itertools.islice(it, cap)) if keep else it


def spoil(sol):
    """Modifies a yielded solution as deeply as it lets one."""
    if isinstance(sol, dict):
        for v in sol.values():
            spoil(v)
        if sol:
            sol.pop(next(iter(sol)))
        sol['new'] = 0
    elif isinstance(sol, list):
        for v in sol:
            spoil(v)
        if sol and not isinstance(sol[0], (list, tuple, dict)):
            sol[0] = 7
        sol.append(9)
    elif isinstance(sol, tuple):
        for v in sol:
            spoil(v)


def pristine(fun):
    """Result of fun() in a process in which nothing has been executed yet (called before the first case)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = (True, fun())
            except BaseException:
                res = (False, traceback.format_exc(limit=-8))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, 'process died')


def _alarm(signum, frame):
    raise Horizon()


def execute(mod, case, ctx):
    """Runs one case; returns None or a text describing the violation."""
    horizon = getattr(mod, 'HORIZON', 60)
    random.seed(len(repr(case)))       # where no harness owns the random policy, it is at least the same in every run
    ctx.case_key = hash(repr(case)) if not isinstance(case, int) else case
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    # processor time, so that a loaded machine is no alarm; the interval makes the alarm fire again if the code under test swallows it
    signal.setitimer(signal.ITIMER_PROF, horizon, 1.0)
    signal.setitimer(signal.ITIMER_REAL, min(6 * horizon, 600), 1.0)
    t_start = _process_time() if SLOW else 0
    try:
        mod.run_case(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except Horizon:
        return 'no end within {} s (horizon)'.format(horizon)
    except (KeyboardInterrupt, SystemExit):
        return 'unexpected exit:\n' + traceback.format_exc(limit=-12)
    except BaseException:
        return 'unexpected exception:\n' + traceback.format_exc(limit=-12)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0, 0)
        signal.setitimer(signal.ITIMER_REAL, 0, 0)
        if SLOW and _process_time() - t_start > float(SLOW):
            print('SLOW', mod.PROPERTY, case, round(_process_time() - t_start, 1), file=sys.stderr, flush=True)


def first_found(tmp):
    """The lowest index of a case that any worker has reported so far."""
    marks = [int(name[5:]) for name in os.listdir(tmp) if name.startswith('found')]
    return min(marks) if marks else None


def spread(idx):
    # cases come in regular products: dealt out by their number modulo the workers, one worker would get all the heavy ones
    return zlib.crc32(str(idx).encode()) >> 4


def worker(mod, tier, k, n, out, findings):
    try:
        # a runaway search must not take the machine with it
        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    ctx = Ctx(tier)
    found, known, ncases, samples = None, [], 0, []
    try:
        for idx, case in enumerate(mod.cases(tier)):
            if spread(idx) % n != k:
                continue
            if ncases % 4 == 0:
                first = first_found(os.path.dirname(out))
                if first is not None and first < idx:
                    break
            ncases += 1
            msg = execute(mod, case, ctx)
            if msg is not None:
                cid = case_id(case)
                if cid in findings:
                    known.append((cid, findings[cid]))
                    continue
                found = (idx, repr(case), msg)
                open(os.path.join(os.path.dirname(out), 'found{}'.format(idx)), 'w').close()
                break
            if len(samples) < 2 and (idx // n) % 97 == 5 or ncases == 1:
                samples.append(repr(case)[:400])
        err = None
    except BaseException:
        err = traceback.format_exc()
    with open(out, 'wb') as f:
        pickle.dump(dict(found=found, known=known, ncases=ncases, samples=samples, err=err,
                         states=len(ctx.states), transitions=ctx.transitions, traces=ctx.traces,
                         evaluations=ctx.evaluations, outcomes=ctx.outcomes, extra=ctx.extra), f)


def run_check(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = _real_time()
    mod = load(prop)
    findings = known_findings(prop)
    n = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    n = min(n, getattr(mod, 'MAX_WORKERS', 64))
    tmp = tempfile.mkdtemp(prefix='mc-')
    pids = []
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                worker(mod, tier, k, n, os.path.join(tmp, str(k)), findings)
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    results, errors = [], []
    for k in range(n):
        path = os.path.join(tmp, str(k))
        try:
            with open(path, 'rb') as f:
                results.append(pickle.load(f))
            os.unlink(path)
        except (OSError, EOFError, pickle.UnpicklingError):
            errors.append('worker {} died'.format(k))
    for name in os.listdir(tmp):
        if name.startswith('found'):
            os.unlink(os.path.join(tmp, name))
    os.rmdir(tmp) if not os.listdir(tmp) else None
    errors.extend(r['err'] for r in results if r['err'])
    outcomes = set()
    for r in results:
        outcomes |= r['outcomes']
    total = lambda key: sum(r[key] for r in results)
    found = sorted((r['found'] for r in results if r['found']), key=lambda x: x[0])
    known = sorted(set(x for r in results for x in r['known']))
    extra = {}
    for r in results:
        for key, val in r['extra'].items():
            extra[key] = extra.get(key, 0) + val
    level = getattr(mod, 'LEVEL', 'model_checking')
    coverage = dict(
        states=total('states'), transitions=total('transitions'),
        traces_validated_against_impl=total('traces'),
        samples=[s for r in results for s in r['samples']][:6],
        cases=total('ncases'), point_evaluations=total('evaluations'),
        distinct_outcomes=len(outcomes),
        exhaustive=not found and not errors,
        bounds=mod.bounds(tier), **extra)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'exhaustive within the stated bounds only; values and sizes outside the alphabet are not covered',
            'CPython 3.12 of /opt/venv, PYTHONHASHSEED={}'.format(os.environ.get('PYTHONHASHSEED'))],
        wall_s=round(_real_time() - t0, 3), violations=len(found))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    for cid, text in known:
        print('KNOWN-FINDING: property={} {}'.format(prop, text))
    print('{} [{}] cases={} states={} transitions={} traces={} evaluations={} outcomes={} wall={:.1f}s {}'.format(
        prop, tier, coverage['cases'], coverage['states'], coverage['transitions'],
        coverage['traces_validated_against_impl'], coverage['point_evaluations'], len(outcomes),
        evidence['wall_s'], extra or ''))
    if found:
        idx, case, msg = found[0]
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join('replays', '{}-{}.json'.format(prop, hashlib.sha1(case.encode()).hexdigest()[:12]))
        with open(os.path.join(ROOT, path), 'w') as f:
            json.dump(dict(property=prop, index=idx, case=case, message=msg,
                           how='bin/check --replay ' + path), f, indent=1)
        print('case #{}: {}'.format(idx, case[:2000]))
        print(msg[:4000])
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if errors:
        print('ERROR of the check:\n' + '\n'.join(errors))
        return 2
    return 0


def replay(path):
    data = json.load(open(path))
    mod = load(data['property'])
    case = ast.literal_eval(data['case'])
    sys.setrecursionlimit(3000)
    msg = execute(mod, case, Ctx('replay'))
    if msg is None:
        print('replay of {}: holds'.format(path))
        return 0
    print(msg)
    print('VIOLATION property={} replay={}'.format(data['property'], path))
    return 1


def main(argv):
    if len(argv) == 2 and argv[0] == '--replay':
        return replay(argv[1])
    if len(argv) == 1:
        return run_check(argv[0])
    print('usage: bin/check Cxx | bin/check --replay FILE')
    return 2


if __name__ == '__main__':
    # run as the importable module, so that check modules see the same Violation class
    from mc import core
    sys.exit(core.main(sys.argv[1:]))
