"""python3 -m sa.check <property>: run the static rules of one property on the current source of the repository"""
import importlib
import json
import os
import sys
import time
import traceback

from .program import Program, AnalysisBroken
from .state import Limit
from .rules.base import Ctx, REGISTRY

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = [f[:-3] for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'rules')))
           if f.endswith('.py') and f not in ('__init__.py', 'base.py')]


def known_findings(prop):
    out = {}
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        with open(fn) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith(f'finding: property={prop} '):
                    rest = line[len(f'finding: property={prop} '):]
                    key, _, text = rest.partition(' ')
                    if key.startswith('key='):
                        out[key[4:]] = text
    return out


def load_rules():
    for m in MODULES:
        importlib.import_module(f'sa.rules.{m}')


def run_rules(prop, prog=None, thorough=False):
    load_rules()
    if prop not in REGISTRY:
        raise SystemExit(f'no rules for {prop}')
    prog = prog or Program()
    ctx = Ctx(prog, prop, thorough)
    errors = []
    for name, text, f in REGISTRY[prop]:
        ctx.rules[name] = text
        n = len(ctx.obligations)
        try:
            f(ctx)
        except (AnalysisBroken, Limit) as e:
            ctx.undec(name, name, f'not analysable: {e}')
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            errors.append(traceback.format_exc())
            ctx.undec(name, name, f'analysis error {type(e).__name__}: {e}')
        if len(ctx.obligations) == n:
            ctx.undec(name, name, 'nothing matched')
    return ctx, errors


def main(argv):
    prop = argv[0]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        ctx, errors = run_rules(prop, thorough=tier == 'thorough')
    except SyntaxError as e:
        print(f'cannot parse the source: {e}')
        return 2
    known = known_findings(prop)
    new, old = [], []
    seen = set()
    for v in ctx.violations:
        if v.key in seen:
            continue
        seen.add(v.key)
        (old if v.key in known else new).append(v)
    for v in old:
        print(f'KNOWN-FINDING: property={prop} {known[v.key]}')
    outdir = os.environ.get('SA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    replay = os.path.join('evidence', f'{prop}.replay.json')
    if new:
        with open(os.path.join(outdir, f'{prop}.replay.json'), 'w') as fh:
            json.dump([v.as_dict() for v in new], fh, indent=1)
        for v in new:
            print(f'{v.loc or v.where}: [{v.rule}] {v.where}: {v.msg}')
        print(f'VIOLATION property={prop} replay={replay}')
    n_ok = sum(1 for o in ctx.obligations if o[3] == 'ok')
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the current source: path summaries by provenance dataflow, compared with '
                           'decision tables, who-may-call and effect rules; nothing is executed',
            'rules': ctx.rules,
            'obligations': len(ctx.obligations), 'discharged': n_ok,
            'undecided': ctx.undecided,
            'functions_analysed': sorted(ctx.functions),
            'paths': ctx.paths, 'table_valuations': ctx.valuations, 'call_sites': ctx.sites,
            'samples': [{'rule': o[0], 'construct': o[1], 'obligation': o[2], 'result': o[3]}
                        for o in ctx.obligations[:40]],
            'analysis_errors': errors,
        },
        'assumptions': ctx.assumptions + [
            'user supplied callables (validators, coercers, factories, __eq__, ...) terminate and are only what they are '
            'called as', 'standard library functions behave as documented',
            'no monkey patching of the package at run time'],
        'wall_s': round(time.time() - t0, 3), 'violations': len(new),
    }
    with open(os.path.join(outdir, f'{prop}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    if not new:
        print(f'{prop}: {n_ok}/{len(ctx.obligations)} obligations hold, {len(ctx.undecided)} undecided, '
              f'{len(old)} known findings, {ctx.paths} paths in {len(ctx.functions)} functions')
    if os.environ.get('SA_VERBOSE'):
        for o in ctx.obligations:
            print('  ', o)
        for e in errors:
            print(e)
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
