"""usage: cover.py Cxx ...    lines of the code under test that no given check executes (informative)."""
import os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = '''
import os, sys
mon, tool, lines = sys.monitoring, 3, set()
mon.use_tool_id(tool, 'cover')
def line(code, no):
    if '/src/satisfy/' in code.co_filename:
        lines.add((code.co_filename, no))
    return mon.DISABLE
mon.register_callback(tool, mon.events.LINE, line)
mon.set_events(tool, mon.events.LINE)
pid0, leave = os.getpid(), os._exit
def dump(code):
    with open(os.path.join(os.environ['COVER_DIR'], str(os.getpid())), 'w') as f:
        f.writelines('%s:%d\\n' % x for x in lines)
    leave(code)
os._exit = dump
import runpy
sys.argv = ['mc.core'] + sys.argv[1:]
runpy.run_module('mc.core', run_name='__main__')
'''
hit = set()
for check in sys.argv[1:]:
    with tempfile.TemporaryDirectory() as d:
        repo = os.environ.get('SATISFY_REPO', '/repo')
        env = dict(os.environ, PYTHONPATH=repo + '/src:' + ROOT, SATISFY_REPO=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent',
                   PYTHONHASHSEED='0', FORCE_COLOR='1', PYTHONIOENCODING='utf-8', COVER_DIR=d)
        r = subprocess.run(['/opt/venv/bin/python', '-c', SHIM, check], env=env, cwd=ROOT, capture_output=True, text=True)
        print(check, r.returncode, r.stdout.strip()[-100:], file=sys.stderr)
        for name in os.listdir(d):
            for l in open(os.path.join(d, name)):
                f, no = l.rsplit(':', 1)
                hit.add((f, int(no)))


def possible(code, out):
    out.update(no for _, _, no in code.co_lines() if no)
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            possible(c, out)
    return out


for base, _, names in sorted(os.walk(os.path.join(repo, 'src/satisfy'))):
    for name in sorted(names):
        if name.endswith('.py'):
            path = os.path.join(base, name)
            src = open(path).read().split('\n')
            mine = {no for f, no in hit if f == path}
            for no in sorted(possible(compile(open(path).read(), path, 'exec'), set()) - mine):
                print('{}:{}: {}'.format(os.path.relpath(path, repo), no, src[no - 1]))
