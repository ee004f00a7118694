"""python3 mk/detect.py [id-substring ...]: which checks report each seeded bug (development aid; no check reads seeded/)"""
import json, os, shutil, subprocess, sys, tempfile, multiprocessing
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def one(i):
    d = tempfile.mkdtemp(prefix='det-')
    try:
        r = os.path.join(d, 'r')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        p = subprocess.run(['git', 'apply', os.path.join(ROOT, 'seeded', i, 'patch.diff')], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return i, ['PATCH DOES NOT APPLY']
        m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
        hit = []
        for c in m['checks']:
            q = subprocess.run(c['quick_cmd'].split(), cwd=ROOT, capture_output=True, text=True,
                               env=dict(os.environ, SA_REPO=r, SA_EVIDENCE=d))
            if q.returncode:
                hit.append(c['property'] + ('' if q.returncode == 1 and 'VIOLATION property=' + c['property'] in q.stdout else '(rc%d)' % q.returncode))
        return i, hit
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ids = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    ids = [i for i in ids if not sys.argv[1:] or any(a in i for a in sys.argv[1:])]
    with multiprocessing.Pool(8) as pool:
        for i, h in pool.imap(one, ids):
            prop = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))['property']
            print('%-6s %-34s %s' % ('ok' if prop in h else ('other' if h else 'MISSED'), i, ' '.join(h)), flush=True)
