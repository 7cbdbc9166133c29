"""usage: catches.py [CHECK ...]   runs the check of its property (or the given ones) on every seeded bug, prints a table for DESIGN.md."""
import json, os, queue, shutil, subprocess, sys, tempfile, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SLOTS = int(os.environ.get('SLOTS', '4'))
jobs, res, lock = queue.Queue(), {}, threading.Lock()
for bug in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    jobs.put(bug)


def work():
    d = tempfile.mkdtemp(prefix='catches-')
    try:
        while True:
            try:
                bug = jobs.get_nowait()
            except queue.Empty:
                return
            repo = os.path.join(d, 'repo')
            shutil.rmtree(repo, ignore_errors=True)
            shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
            meta = json.load(open(os.path.join(ROOT, 'seeded', bug, 'meta.json')))
            r = subprocess.run(['git', '-C', repo, 'apply', os.path.join(ROOT, 'seeded', bug, 'patch.diff')])
            got = []
            for c in [meta['property']] + sys.argv[1:]:
                r = subprocess.run([os.path.join(ROOT, 'bin/check'), c], env=dict(os.environ, SATISFY_REPO=repo, MC_SCRATCH_EVIDENCE=d, MC_WORKERS=str(8 // SLOTS)), capture_output=True, text=True)
                if r.returncode == 1 and 'VIOLATION property=' + c in r.stdout and c not in got:
                    got.append(c)
            with lock:
                res[bug] = (meta['property'], meta['needs'], got)
                print(bug, got or 'MISSED', file=sys.stderr, flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


threads = [threading.Thread(target=work) for _ in range(SLOTS)]
[t.start() for t in threads]
[t.join() for t in threads]
for bug in sorted(res):
    print('| {} | {} | {} |'.format(bug, res[bug][1], ', '.join(res[bug][2]) or '**missed**'))
