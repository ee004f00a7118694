"""
python3 mk/seed.py FILE.py ... : build seeded/<id>/ from SEEDS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]
A seed is kept only if it applies, all stable tests pass with it, and its demo exits 0 without and nonzero with it.
The files themselves are written from the text of a property; nothing here looks at what the checks cover.
"""
import importlib.util, json, multiprocessing, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def one(s):
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        r = os.path.join(d, 'r')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        demo = os.path.join(d, 'demo')
        os.makedirs(demo)
        open(os.path.join(demo, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        open(os.path.join(demo, 'demo.sh'), 'w').write(SH)
        run = lambda: subprocess.run(['bash', os.path.join(demo, 'demo.sh')], cwd=r, capture_output=True, text=True)
        a = run()
        if a.returncode:
            return s['id'], 'demo fails on the unchanged tree: ' + a.stderr[-400:]
        base = subprocess.run(['git', 'blame', '-s', '886b456', '--', 'x'], cwd=r, capture_output=True)
        for f, old, new in s['edits']:
            p = os.path.join(r, 'records', f)
            t = open(p).read()
            if t.count(old) != 1:
                return s['id'], f'{f}: {old[:50]!r} occurs {t.count(old)} times'
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        # removed lines must be lines of the original repository
        cur = None
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                cur = subprocess.run(['git', 'show', '886b456:' + l[6:]], cwd=r, capture_output=True, text=True).stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:] not in cur:
                return s['id'], 'changes a line that is not of the original: ' + l
        b = run()
        if not b.returncode:
            return s['id'], 'demo passes with the change'
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1', PYTHONPATH=r)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'],
                           cwd=r, capture_output=True, text=True, env=env)
        if t.returncode or '216 passed' not in t.stdout:
            return s['id'], 'tests: ' + ' | '.join([l for l in t.stdout.splitlines() if l.startswith('FAILED') or l.startswith('E ')][:4]) + t.stdout[-120:]
        out = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        shutil.copy(os.path.join(demo, 'demo.py'), out)
        shutil.copy(os.path.join(demo, 'demo.sh'), out)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        return s['id'], 'ok (%s)' % (b.stderr.strip().splitlines() or b.stdout.strip().splitlines() or ['?'])[-1][:90]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    seeds = []
    for f in sys.argv[1:]:
        spec = importlib.util.spec_from_file_location('seeds', f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    with multiprocessing.Pool(8) as pool:
        for i, r in pool.imap(one, seeds):
            print(i, r)
