"""Makes and confirms a planted bug: make(id, prop, edits, needs, breaks, demo)."""
import json, os, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SW = '/tmp/sw/repo'
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the patch
HERE="$(cd "$(dirname "$0")" && pwd)"
export DEMO_SCRATCH="$(mktemp -d)"
trap 'rm -rf "$DEMO_SCRATCH"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPYCACHEPREFIX="$DEMO_SCRATCH/pyc" NUMBA_CACHE_DIR="$DEMO_SCRATCH/numba"
export MPLBACKEND=Agg MPLCONFIGDIR="$DEMO_SCRATCH/mpl" NUMBA_DISABLE_JIT=1
/opt/venv/bin/python -W ignore "$HERE/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def tests():
    e = dict(os.environ, PYTHONPATH=SW, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX='/tmp/sw/pyc',
             NUMBA_CACHE_DIR='/tmp/sw/numba', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/sw/mpl')
    e.pop('NUMBA_DISABLE_JIT', None)
    p = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--import-mode=importlib', 'tests'], cwd=SW, env=e)
    return p.returncode == 0 and '24 passed' in p.stdout, p.stdout[-600:]


def make(id, prop, edits, needs, breaks, demo, extra=()):
    d = os.path.join(R, 'seeded', id)
    shutil.rmtree('/tmp/sw', ignore_errors=True)
    os.makedirs('/tmp/sw')
    sh(['cp', '-a', '/repo', SW])
    assert sh(['git', 'status', '--short'], cwd=SW).stdout.strip() == ''
    for f, old, new in edits:
        p = os.path.join(SW, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff'], cwd=SW).stdout
    for f, _, _ in edits:
        base = set(sh(['git', 'show', '94ff308:' + f], cwd=SW).stdout.splitlines())
        gone = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        print('removed lines of the original:', sum(g in base for g in gone), 'of', len(gone))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(demo)
    shutil.copy(os.path.join(R, 'tools', 'seedlab.py'), d + '/lab.py')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = sh(['bash', d + '/demo.sh'], cwd='/repo')
    b = sh(['bash', d + '/demo.sh'], cwd=SW)
    ok, out = tests()
    print(id, 'unchanged:', a.returncode, 'patched:', b.returncode, 'tests:', ok)
    if a.returncode or not b.returncode or 'FAILED' not in b.stdout or not ok:
        print(a.stdout[-1500:], '\n---\n', b.stdout[-1500:], '\n---\n', '' if ok else out)
        print('NOT KEPT', id)
        shutil.rmtree(d)
    shutil.rmtree('/tmp/sw', ignore_errors=True)


def against(id, props=None):
    """Run the checks of the bug's property on /repo with the patch applied."""
    d = os.path.join(R, 'seeded', id)
    m = json.load(open(d + '/meta.json'))
    assert sh(['git', '-C', '/repo', 'status', '--short']).stdout.strip() == ''
    a = sh(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    assert a.returncode == 0, a.stdout
    try:
        for p in props or [m['property']]:
            r = sh(['python3', os.path.join(R, 'harness', 'run.py'), p])
            out = [l for l in r.stdout.splitlines() if not l.startswith(('Parsing', 'Semantic'))]
            print(id, p, 'rc', r.returncode, ' | '.join(out[-3:])[:400], flush=True)
    finally:
        sh(['git', '-C', '/repo', 'checkout', '--', '.'])


if __name__ == '__main__':
    for i in sys.argv[1:]:
        i, *pr = i.split(':')
        against(i, pr or None)
