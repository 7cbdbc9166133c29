"""usage: plant.py DEFS.py [id ...]
Makes /verif/seeded/<id>/ from definitions: in a scratch copy of /repo applies the edits, verifies that the patch touches
original lines, builds, passes the stable tests and that the demo tells the trees apart, then runs the property's check on it
(informative).  FORCE=1 runs the check also for changes of lines that are not original (never kept).  Keeps only changes for which all of that holds."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8 FORCE_COLOR=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def demo(d, cwd):
    return sh('bash', os.path.join(d, 'demo.sh'), cwd=cwd)

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        scratch = tempfile.mkdtemp(prefix='plant-')
        repo = os.path.join(scratch, 'repo')
        try:
            sh('cp', '-a', '/repo', repo)
            orig = True
            for f, old, new in b['edits']:
                p = os.path.join(repo, 'src/satisfy', f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'EDIT', f, 'matches', s.count(old)); orig = False; break
                open(p, 'w').write(s.replace(old, new))
            if not orig:
                continue
            diff = sh('git', 'diff', cwd=repo).stdout
            # an original line must be changed
            mine = {}
            removed = []
            f = None
            for line in diff.split('\n'):
                if line.startswith('--- a/'): f = line[6:]
                elif line.startswith('@@'): n = int(line.split()[1][1:].split(',')[0])
                elif line.startswith('-'):
                    removed.append((f, n)); n += 1
                elif line.startswith(' '): n += 1
            ok = False; notorig = 0
            for f, n in removed:
                bl = sh('git', 'blame', '-s', '-L', '%d,%d' % (n, n), 'HEAD', '--', f, cwd='/repo').stdout
                if bl.startswith('^'): ok = True
                else: notorig += 1
            if not ok and not os.environ.get('FORCE'):
                print(b['id'], 'NOT ORIGINAL'); continue
            d = os.path.join(ROOT, 'seeded', b['id'])
            stage = os.path.join(scratch, 'stage'); os.makedirs(stage)
            open(os.path.join(stage, 'patch.diff'), 'w').write(diff)
            open(os.path.join(stage, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            open(os.path.join(stage, 'demo.sh'), 'w').write(DEMO)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(stage, 'meta.json'), 'w'), indent=1)
            env = dict(os.environ, PYTHONPATH=repo + '/src', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
            t = sh(PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests', cwd=repo, env=env)
            imp = sh(PY, '-c', 'import satisfy.tool, satisfy; print(satisfy.__file__)', cwd=repo, env=env)
            a, c = demo(stage, '/repo'), demo(stage, repo)
            good = t.returncode == 0 and repo in imp.stdout and a.returncode == 0 and c.returncode not in (0,)
            if not good:
                print(b['id'], 'REJECTED tests', t.returncode, 'demo clean', a.returncode, 'patched', c.returncode, '\n', a.stderr[-600:], t.stdout[-500:] if t.returncode else ''); continue
            if c.returncode == 124: print(b['id'], 'demo times out with the patch')
            if ok:
                os.makedirs(d, exist_ok=True)
                for x in os.listdir(stage): shutil.copy(os.path.join(stage, x), os.path.join(d, x))
            res = []
            for prop in [b['property']] + list(b.get('also', ())):
                r = sh(ROOT + '/bin/check', prop, env=dict(os.environ, SATISFY_REPO=repo, MC_SCRATCH_EVIDENCE=scratch))
                lines = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
                res.append('%s:%s' % (prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%d' % r.returncode) if r.returncode != 1 or lines else 'rc1?'))
            print(b['id'], 'kept' if ok else 'not original, not kept', '(touches %d own lines)' % notorig if notorig else '', *res, '| demo:', (c.stderr.strip().split('\n') or [''])[-1][:100], flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
main()
