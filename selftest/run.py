"""
python3 selftest/run.py [-k substring] [-p C14,C15] : run the rules on scratch copies of the source with one edit each
  cases_*.py define BUGS = [(name, [props], [(file, old, new), ...])]  (each prop must report a violation)
  and SAME = [(name, [(file, old, new), ...])]                         (no new violation anywhere)
"""
import glob, importlib.util, multiprocessing, os, shutil, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get('SA_REPO', '/repo')


def load():
    bugs, same = [], []
    for f in sorted(glob.glob(os.path.join(ROOT, 'selftest', 'cases_*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += getattr(m, 'BUGS', [])
        same += getattr(m, 'SAME', [])
    return bugs, same


def one(job):
    name, props, edits, want_all = job
    from sa import check
    from sa.program import Program
    from sa.rules.base import REGISTRY
    d = tempfile.mkdtemp(prefix='sa-selftest-')
    try:
        shutil.copytree(os.path.join(REPO, 'records'), os.path.join(d, 'records'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = os.path.join(d, 'records', f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'NOT APPLICABLE', f'{f}: {old[:60]!r} not found'
            open(p, 'w').write(s.replace(old, new, 1))
        try:
            prog = Program(d)
        except SyntaxError as e:
            return name, 'SYNTAX', str(e)
        check.load_rules()
        res = {}
        for pr in (sorted(REGISTRY) if want_all else props):
            ctx, errs = check.run_rules(pr, prog)
            known = check.known_findings(pr)
            v = [x for x in ctx.violations if x.key not in known]
            res[pr] = (len(v), len(ctx.undecided), [f'{x.rule}@{x.where}: {x.msg[:160]}' for x in v[:2]] or
                       [str(u)[:160] for u in ctx.undecided[:2]], [e.strip().splitlines()[-1] for e in errs])
        return name, 'RUN', res
    except (Exception, SystemExit) as e:
        import traceback
        return name, 'CRASH', traceback.format_exc()[-600:]
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    k = args[args.index('-k') + 1] if '-k' in args else ''
    only = args[args.index('-p') + 1].split(',') if '-p' in args else None
    verbose = '-v' in args
    bugs, same = load()
    jobs = []
    if '--same' not in args:
        jobs += [(n, [p for p in ps if not only or p in only], ed, False) for n, ps, ed in bugs if k in n]
    if '--bugs' not in args:
        jobs += [(n, [], ed, True) if not only else (n, only, ed, False) for n, ed in same if k in n]
    kinds = {n: 'bug' for n, _, _ in bugs}
    bad = 0
    with multiprocessing.Pool(7, maxtasksperchild=1) as pool:
        for name, st, res in pool.imap(one, [j for j in jobs if j[1] or j[3]]):
            if st != 'RUN':
                print(f'{st:8} {name}: {res}')
                bad += 1
            elif kinds.get(name) == 'bug':
                miss = [p for p, r in res.items() if not r[0]]
                if miss:
                    bad += 1
                print(f'{"caught" if not miss else "MISSED"} {name}' + ''.join(f'\n      {p}: {res[p][1:]}' for p in miss))
                if verbose and not miss:
                    for p, r in res.items():
                        print('      ', p, r[2][0])
            else:
                al = {p: r for p, r in res.items() if r[0]}
                und = {p: r for p, r in res.items() if r[1]}
                if al:
                    bad += 1
                print(f'{"quiet " if not al else "ALARM "} {name}' + ''.join(f'\n      {p}: {r[2]}' for p, r in al.items())
                      + ('' if al or not und else '   undecided: ' + '; '.join(f'{p}: {r[2][0][:150]} {r[3]}' for p, r in und.items())))
    print(f'{bad} problems in {len(jobs)} cases')
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
