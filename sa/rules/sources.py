"""
Where mappings come from and what untrusted data may reach: layering of mappings (C29), unpickling and evaluation (C18),
overridable implementations (C19).
"""
import ast

from .base import (T, K, SELF, CLS, A, C, G, is_call, is_k, kval, murky, unver, rule, show, sym, all_events, contents,
                   exc_class, NONE, contains, mk_is, walk, loops, Path)
from ..interp import Limit, fn_kind
from ..program import AnalysisBroken


class Unknown(Exception):
    pass


def base_defs(ctx, cls, name):
    """all definitions of a name in a class body (a decorator may combine several)"""
    return [d for d in ast.walk(ctx.P.cls_named(cls).node) if isinstance(d, ast.FunctionDef) and d.name == name
            and any(d is x for x in _body_defs(ctx.P.cls_named(cls).node.body))]


def _body_defs(body):
    for s in body:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                yield from _body_defs(getattr(s, f, None) or [])


def deco_text(d):
    return [ast.unparse(x) for x in d.decorator_list]


# -- layers of a mapping ----------------------------------------------------------------------------------------------
MAPS, KW, SELECT = sym('maps'), sym('kwargs'), sym('select')


def star_of(t):
    return isinstance(t, T) and t.op == 'star'


def layers(t, p, depth=0):
    """what a mapping value consists of, weakest first: 'M' earlier maps first, 'MR' later maps first, 'K', or a term"""
    if depth > 12:
        raise Unknown('too deep')
    t = unver(t) if isinstance(t, T) else t
    if star_of(t):
        return ['M'] if t.a[0] is MAPS else [t]
    if t is KW:
        return with_updates(t, ['K'], p, depth)
    if is_call(t, G('collections.ChainMap')):
        out = []
        for a in reversed(t.a[1]):
            out += layers(a, p, depth + 1)
        return with_updates(t, out, p, depth)
    if t.op == 'bin' and t.a[0] == '|':
        return layers(t.a[1], p, depth + 1) + layers(t.a[2], p, depth + 1)
    if t.op in ('items',):
        return layers(t.a[0], p, depth + 1)
    h = p.st.h(t)
    if h is not None and h.kind == 'dict':
        return log_layers(h.log, p, depth)
    if h is not None and h.kind in ('tuple', 'list'):
        raise Unknown(show(t))
    if murky(t):
        raise Unknown(show(t))
    return with_updates(t, [t], p, depth)


def with_updates(t, out, p, depth):
    """a mapping the analysis does not own, changed by method calls on the path"""
    for e in p.events:
        if e.kind in ('setitem', 'delitem') and unver(e.a[0]) is t:
            raise Unknown('item assignment')
        if e.kind == 'call':
            f = unver(e.a[0])
            if f.op == 'attr' and f.a[0] is t and f.a[1] in ('update', '__ior__'):
                for a in e.a[1]:
                    out = out + layers(a, p, depth + 1)
                for k, v in e.a[2]:
                    out = out + (layers(v, p, depth + 1) if k is None else [('key', k)])
            elif f.op == 'attr' and f.a[0] is t and f.a[1] in ('pop', 'clear', 'setdefault', 'popitem', '__setitem__', '__delitem__'):
                raise Unknown(show(e.a[3]))
        if e.kind == 'loop':
            for ip in e.a[0].paths:
                for x in all_events(ip.events):
                    if x.kind in ('setitem', 'delitem') and unver(x.a[0]) is t:
                        raise Unknown('item assignment')
                    if x.kind == 'call' and unver(x.a[0]).op == 'attr' and unver(x.a[0]).a[0] is t:
                        m = unver(x.a[0]).a[1]
                        if m != 'update' or len(x.a[1]) != 1 or x.a[2]:
                            raise Unknown(show(x.a[3]))
                        out = out + loop_layer(e.a[0], x.a[1][0], ip)
    return out


def loop_layer(S, x, ip):
    d, rev = unver(S.dom), False
    while d.op in ('reversed', 'rev') or is_call(d, G('builtins.reversed')):
        rev = not rev
        d = d.a[0] if d.op in ('reversed', 'rev') else d.a[1][0]
    x = unver(x)
    if d is not MAPS or not (isinstance(x, T) and x.op in ('elem', 'idx', 'item') or x.op == 'relem'):
        raise Unknown(f'loop over {show(d)}')
    if x.op == 'relem':
        rev = True
    return ['M' if rev else 'MR']


def log_layers(log, p, depth):
    out = []
    for op in log:
        if op[0] in ('upd', 'dupdate', 'update', 'ext'):
            out += layers(op[1], p, depth + 1)
        elif op[0] == 'set' and is_k(op[1]):
            out.append(('key', kval(op[1])))
        elif op[0] == 'loop':
            S, o = op[1], op[2]
            for ip in S.paths:
                if not ip.goes_on:
                    continue
                for k, ops in ip.ops.items():
                    if k is not o:
                        continue
                    for x in ops:
                        if x[0] in ('upd', 'dupdate', 'update'):
                            out += loop_layer(S, x[1], ip)
                        else:
                            raise Unknown(f'loop {x[0]}')
        else:
            raise Unknown(op[0])
    return out


def star_ctx(ctx, node, lead, opaque, kws=()):
    I = ctx.interp(opaque=opaque)
    st = I.new_state()
    st.types[CLS] = ('class', ctx.P.cls_named('RecordBase'))
    return ctx.run(node, list(lead) + [T('star', MAPS)], list(kws) + [(None, KW)], st, I=I)


def brief(ls):
    return [x if isinstance(x, str) else show(x) if isinstance(x, T) else str(x) for x in ls]


@rule('C29', 'layers', 'the attributes taken from the object lie below the mappings, an earlier mapping above a later one, and'
                       ' the keywords are included; mappings are combined in the same order')
def r_layers(ctx):
    want = {'from_instance': True, 'from_mapping': False}
    for name, inst in want.items():
        w = f'RecordBase.{name}'
        ds = [d for d in base_defs(ctx, 'RecordBase', name) if not any(t.endswith('.shortcut') for t in deco_text(d))]
        if len(ds) != 1:
            ctx.undec('layers', w, f'{len(ds)} definitions')
            continue
        d = ds[0]
        try:
            prm = [a.arg for a in d.args.kwonlyargs + d.args.args]
            ps = star_ctx(ctx, d, [CLS, sym('v')] if inst else [CLS], ['_to_dict'],
                          [('_select', SELECT)] if '_select' in prm else ())
        except AnalysisBroken as e:
            ctx.undec('layers', w, str(e))
            continue
        if ps is None:
            continue
        sel = None
        n = 0
        for p in ps:
            if not p.returns:
                continue
            n += 1
            # a path on which there are no maps or no keywords need not mention them
            nomaps = p.st.known(T('truthy', MAPS)) is False
            nokw = p.st.known(T('truthy', KW)) is False
            try:
                ls = layers(p.value, p)
            except Unknown as e:
                ctx.undec('layers', w, f'{show(p.value)}: {e}')
                continue
            objs = [x for x in ls if isinstance(x, T)]
            rest = [x for x in ls if isinstance(x, str)]
            bad = None
            if 'MR' in rest:
                bad = 'a later mapping overrides an earlier one'
            elif 'M' not in rest and not nomaps:
                bad = 'the mappings are dropped'
            elif 'K' not in rest and not nokw:
                bad = 'the keywords are dropped'
            elif 'M' in rest and 'K' in rest and (rest.index('M') < rest.index('K')) is not inst:
                bad = 'the keywords give way to the mappings' if inst else 'the keywords override the mappings'
            elif any(isinstance(x, tuple) for x in ls):
                bad = f'the mapping gets extra keys: {brief(ls)}'
            elif inst and len(objs) != 1:
                bad = f'the attributes of the object are not taken exactly once: {brief(ls)}'
            elif inst and not (is_call(objs[0]) and objs[0].a[0] is A(CLS, '_to_dict') and objs[0].a[1][:1] == (sym('v'),)):
                ctx.undec('layers', w, f'takes {show(objs[0])}')
                continue
            elif inst and not isinstance(ls[0], T):
                bad = 'the attributes of the object override what was given in addition'
            elif not inst and objs:
                ctx.undec('layers', w, f'contains {brief(objs)}')
                continue
            if bad:
                ctx.bad('layers', w, bad, p.sig.node or d, p)
                continue
            ctx.ok('layers', w, f'weakest first: {brief(ls)}')
            if inst:
                kws = dict(objs[0].a[2])
                sel = kws.get('_rev_select')
                extra = set(kws) - {'_rev_select'} - ({'sort'})
                ctx.check(True if sel is SELECT else None if sel is not None and murky(sel) else False, 'layers', w,
                          'the select in use decides what is taken from the object', p.sig.node or d, p)
                ctx.check(not extra and len(objs[0].a[1]) == 1 or None, 'layers', w,
                          f'no further export arguments {sorted(map(str, extra))}', p.sig.node or d, p)
        ctx.check(n > 0, 'layers', w, 'returns a mapping', d)
        if inst:
            # the parameter the select comes in by is the one the factory class passes
            ctx.check('_select' in prm or None, 'layers', w, 'takes the select as _select', d)
            deco = [t for t in deco_text(d)]
            cls = next((ctx.P.classes[c] for c in ctx.P.classes for t in deco if c.rsplit('.', 1)[-1] == t), None)
            if cls is None:
                ctx.undec('layers', w, f'decorators {deco}')
            else:
                passes = cls.is_sub(ctx.P.cls_named('SpecializedSelectableFactory'))
                ctx.check(bool(passes), 'layers', w, f'{cls.qual.rsplit(".", 1)[-1]} passes the select on to the function', d)


# -- C18 --------------------------------------------------------------------------------------------------------------
EVALS = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__', 'importlib.import_module',
         'importlib.__import__', 'runpy.run_path', 'runpy.run_module', 'os.system', 'os.popen', 'subprocess.run',
         'subprocess.Popen', 'subprocess.check_output', 'subprocess.call', 'subprocess.check_call', 'code.interact',
         'timeit.timeit', 'sympy.sympify'}
LOADERS = {'loads', 'load', 'Unpickler', '_loads', '_load', '_Unpickler', 'read_pickle'}
LOADMODS = {'pickle', '_pickle', 'cPickle', 'marshal', 'dill', 'cloudpickle', 'shelve', 'joblib', 'yaml', 'jsonpickle'}


class Sites:
    """references by function: which function (outermost method or module function) mentions what"""

    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.direct = []      # (kind, text, owner, node, module)
        self.refs = []        # (name, base, owner, node)
        self.fns = {}         # owner -> (node, cls)
        for m in self.P.modules.values():
            self.scan(m, m.tree.body, f'{m.name}.<module>', None, None)

    def scan(self, m, body, owner, cls, fn):
        for s in body:
            self.node(m, s, owner, cls, fn)

    def node(self, m, s, owner, cls, fn):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in s.decorator_list + s.args.defaults + [d for d in s.args.kw_defaults if d]:
                self.node(m, x, owner, cls, fn)
            if fn is None:
                q = f'{cls}.{s.name}' if cls else f'{m.name}.{s.name}'
                self.fns.setdefault(q, []).append((s, cls))
                loc = self.alias(m, s)
                for x in s.body:
                    self.node(m, x, q, cls, loc)
            else:
                for x in s.body:
                    self.node(m, x, owner, cls, fn)
            return
        if isinstance(s, ast.Lambda) and fn is None:
            pass
        if isinstance(s, ast.ClassDef):
            q = f'{cls}.{s.name}' if cls else f'{m.name}.{s.name}'
            for x in s.decorator_list + s.bases + [k.value for k in s.keywords]:
                self.node(m, x, owner, cls, fn)
            for x in s.body:
                self.node(m, x, f'{q}.<body>' if fn is None else owner, q, fn)
            return
        if isinstance(s, ast.AnnAssign):
            for x in (s.target, s.value):
                if x is not None:
                    self.node(m, x, owner, cls, fn)
            return
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Load):
            self.mention(m, s, owner, fn)
        if isinstance(s, ast.Attribute):
            if self.mention(m, s, owner, fn):
                return
            self.refs.append((s.attr, ast.unparse(s.value), owner, s, m))
        for x in ast.iter_child_nodes(s):
            self.node(m, x, owner, cls, fn)

    def alias(self, m, f):
        """local names of a function -> the module or function they were assigned or imported as (dotted), '' unknown"""
        out = {a.arg: '' for g in ast.walk(f) if isinstance(g, (ast.FunctionDef, ast.Lambda))
               for a in g.args.args + g.args.kwonlyargs + g.args.posonlyargs}
        for x in ast.walk(f):
            if isinstance(x, ast.Import):
                for a in x.names:
                    out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(x, ast.ImportFrom):
                for a in x.names:
                    out[a.asname or a.name] = f'{x.module}.{a.name}'
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                d = self.dotted(m, x.value, out)
                if d:
                    out[x.targets[0].id] = d
        return out

    def dotted(self, m, e, local):
        """dotted global name an expression denotes, e.g. records.extras.pickle.loads"""
        if isinstance(e, ast.Name):
            if local is not None and e.id in local:
                return local[e.id] or None
            t = self.P.resolve(m, e.id)
            k = m.names.get(e.id)
            if k is not None and k[0] == 'from' and k[1] == 'records.extras':
                return f'records.extras!.{k[2]}'        # frozen at import
            if t is not None and t.op in ('mod', 'glob'):
                return t.a[0]
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(m, e.value, local)
            return f'{b}.{e.attr}' if b else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr' and len(e.args) >= 2 and \
                isinstance(e.args[1], ast.Constant):
            b = self.dotted(m, e.args[0], local)
            return f'{b}.{e.args[1].value}' if b else None
        return None

    def mention(self, m, e, owner, local):
        d = self.dotted(m, e, local)
        if d is None:
            if isinstance(e, ast.Name):
                self.refs.append((e.id, None, owner, e, m))
            return False
        self.direct.append((d.replace('builtins.builtins', 'builtins'), owner, e, m, local is not None))
        return True

    def kind(self, d):
        if d in EVALS:
            return 'evaluates'
        parts = d.replace('!', '').split('.')
        if parts[-1] in LOADERS and len(parts) > 1 and parts[-2] in LOADMODS:
            return 'unpickles'
        return None


def sites(ctx):
    s = getattr(ctx.P, '_sites', None)
    if s is None:
        s = ctx.P._sites = Sites(ctx)
    return s


def may_unpickle(q, S):
    c, _, n = q.rpartition('.')
    return c.endswith('RecordBase') and 'pickle' in n


@rule('C18', 'dangerous-reach', 'unpickling, eval, exec and imports are referenced only by the explicit pickle conversions and the'
                                ' evaluation coercer, which nothing else in the package reaches and no parser is')
def r_danger(ctx):
    S = sites(ctx)
    E = ctx.P.cls_named('Eval').qual

    for nm, base, o, x, mm in S.refs:
        t = ctx.P.resolve(mm, nm) if base is None else None
        if nm == 'Eval' and (base is not None or t == T('class', E)) and not o.startswith(E + '.'):
            ctx.bad('dangerous-reach', o, 'makes or uses an evaluation coercer the user did not ask for', f'{mm.path}:{x.lineno}')

    def root(q, kind):
        return may_unpickle(q, S) if kind == 'unpickles' else q.startswith(E + '.')
    ctx.sites += len(S.direct) + len(S.refs)
    found = {'unpickles': 0, 'evaluates': 0}
    for kind in found:
        danger = {}
        for d, owner, e, m, infn in S.direct:
            if S.kind(d) == kind:
                found[kind] += 1
                danger.setdefault(owner, (d, e, m))
        if kind == 'unpickles':
            ctx.check(found[kind] > 0 or None, 'dangerous-reach', 'RecordBase', 'the pickle conversions unpickle')
        todo = list(danger)
        okay = True
        why = dict(danger)
        seen = set(todo)
        while todo:
            q = todo.pop()
            name = q.rsplit('.', 1)[-1]
            d, e, m = why[q]
            if q.endswith('.<module>') or q.endswith('.<body>'):
                ctx.bad('dangerous-reach', q, f'{kind} when the module is loaded or captures {d}', f'{m.path}:{e.lineno}')
                okay = False
                continue
            callers = [(o, x, mm) for nm, base, o, x, mm in S.refs if nm == name and o != q and
                       (base is None or S.dotted(mm, x.value, None) is None) and plausible(ctx, S, q, base, x, mm)]
            callers += [(o, x, mm) for dd, o, x, mm, _ in S.direct if dd == q and o != q]
            if root(q, kind):
                for n, c in S.fns[q]:
                    if any(t.split('(')[0].rsplit('.', 1)[-1] == 'parser' for t in deco_text(n)):
                        ctx.bad('dangerous-reach', q, f'a parser {kind} its input', n)
                        okay = False
                for o, x, mm in callers:
                    if not root(o, kind):
                        ctx.bad('dangerous-reach', o, f'reaches {q}, which {kind} its input', f'{mm.path}:{x.lineno}')
                        okay = False
                continue
            if not callers:
                n = S.fns[q][0][0]
                ctx.bad('dangerous-reach', q, f'{kind} data ({d})', f'{m.path}:{e.lineno}')
                okay = False
                continue
            for o, x, mm in callers:
                if o not in seen:
                    seen.add(o)
                    why[o] = (q, x, mm)
                    todo.append(o)
        if okay:
            ctx.ok('dangerous-reach', kind, f'{found[kind]} references, all in {sorted(danger) or "nothing"}')


def plausible(ctx, S, q, base, x, m):
    """can the reference mean function q"""
    cls = S.fns[q][0][1]
    if cls is None:
        if base is not None:
            return False
        t = ctx.P.resolve(m, x.id)
        return t is None or t.op == 'fn' and t.a[0] == q
    if q.rsplit('.', 1)[-1].startswith('__'):
        return base is not None and base.split('(')[0].rsplit('.', 1)[-1] == cls.rsplit('.', 1)[-1]
    return base is not None


def given_names(t, p, origin, depth=0):
    """are the names in a namespace only those the token was given (None: not known)"""
    t = unver(t)
    if t is A(SELF, 'kwargs'):
        return True
    h = p.st.h(t)
    if is_call(t, A(A(SELF, 'kwargs'), 'copy')):
        return True
    if is_call(t, G('collections.ChainMap')):
        rs = [given_names(a, p, origin, depth + 1) for a in t.a[1]]
        return False if False in rs else None if None in rs else True
    if t.op == 'bin' and t.a[0] == '|':
        rs = [given_names(a, p, origin, depth + 1) for a in t.a[1:]]
        return False if False in rs else None if None in rs else True
    if h is not None and h.kind == 'dict' and depth < 6:
        res = True
        for op in h.log:
            if op[0] in ('upd', 'update', 'dupdate', 'ext'):
                r = given_names(op[1], p, origin, depth + 1)
            elif op[0] == 'set':
                r = True if op[1] is A(origin, '__name__') and op[2] is origin else \
                    True if is_k(op[1], '__builtins__') and (given_names(op[2], p, origin, depth + 1) or
                                                             is_empty(op[2], p)) else False
                if r is False and (murky(op[1]) or murky(op[2])):
                    r = None
            elif op[0] == 'loop':
                r = None
            else:
                r = True if op[0] in ('pop', 'del') else None
            if r is False:
                return False
            if r is None:
                res = None
        return res
    if murky(t):
        return None
    return False


def is_empty(t, p):
    h = p.st.h(t)
    return h is not None and not h.log or is_k(t) and not kval(t)


@rule('C18', 'eval-namespace', 'the evaluation coercer evaluates the value itself with only the names it was given (and its type'
                               ' if asked) and no builtins')
def r_eval(ctx):
    w = ctx.where('Eval', '__call__')
    node = ctx.node('Eval', '__call__')
    origin, v = sym('origin'), sym('v')
    I = ctx.interp()
    ps = ctx.summ('Eval', '__call__', args=[origin, sym('filler')], I=I)
    if ps is None:
        return
    n = 0
    for p in ps:
        if not p.returns:
            continue
        qs = ctx.call(I, p.value, [v], [], p.st, node)
        if qs is None:
            continue
        for q in qs:
            for e in q.events:
                if e.kind != 'call' or e.a[0] is not G('builtins.eval'):
                    continue
                n += 1
                args, kws = e.a[1], dict(e.a[2])
                src = args[0] if args else kws.get('source')
                gl = args[1] if len(args) > 1 else kws.get('globals')
                lc = args[2] if len(args) > 2 else kws.get('locals')
                if gl is None or is_k(gl, None):
                    ctx.bad('eval-namespace', w, 'evaluates in the namespace of the library', e.node or node, q)
                    continue
                ctx.check(True if src is v else None if murky(src) else False, 'eval-namespace', w,
                          'evaluates the value it was given', e.node or node, q)
                h = q.st.h(unver(gl))
                ops = h.log if h is not None and h.kind == 'dict' else None
                if ops is None:
                    ctx.check(None if murky(gl) or h is None and gl is not A(SELF, 'kwargs') else False, 'eval-namespace', w,
                              f'builtins are removed from {show(gl)}', e.node or node, q)
                    continue
                has = [op for op in ops if op[0] == 'set' and is_k(op[1], '__builtins__')]
                late = [i for i, op in enumerate(ops) if op[0] == 'set' and is_k(op[1], '__builtins__')]
                ctx.check(bool(has), 'eval-namespace', w, 'the builtins are removed', e.node or node, q)
                for t in (gl, lc):
                    if t is None or is_k(t, None):
                        continue
                    ctx.check(given_names(t, q, origin), 'eval-namespace', w,
                              f'only the given names are accessible', e.node or node, q)
        # evaluated only when called
        ctx.check(not any(e.kind == 'call' and e.a[0] is G('builtins.eval') for e in p.events), 'eval-namespace', w,
                  'nothing is evaluated before a value is given', node, p)
    ctx.check(n > 0 or None, 'eval-namespace', w, 'the coercer evaluates', node)


# -- C19 --------------------------------------------------------------------------------------------------------------
IMPLS = ('json', 'pickle', 're')


def impl_name(t):
    """records.extras.<impl>.<function> -> (impl, function)"""
    if isinstance(t, T) and t.op == 'attr' and isinstance(t.a[0], T) and t.a[0].op == 'attr' and \
            t.a[0].a[0] is T('mod', 'records.extras'):
        return t.a[0].a[1], t.a[1]
    return None


@rule('C19', 'late-lookup', 'the implementations are looked up in records.extras when they are used, never captured or bypassed')
def r_late(ctx):
    S = sites(ctx)
    n = bad = 0
    for d, owner, e, m, infn in S.direct:
        if m.name == 'records.extras':
            continue
        frozen, late = d.startswith('records.extras!.'), d.startswith('records.extras.')
        parts = d.split('.')[2 if frozen or late else 0:]
        if parts[0] not in IMPLS:
            continue
        impl, fn = parts[0], parts[1] if len(parts) > 1 else None
        if fn is None and (not (frozen or late) or late and infn):
            continue        # the module itself, asked for its function where it is used
        if fn is not None and (fn[:1].isupper() and fn not in ('Unpickler', 'Pickler', 'JSONEncoder', 'JSONDecoder')
                               or fn == 'error'):
            continue        # classes of exceptions and patterns
        via = frozen or late
        n += 1
        if d.startswith('records.extras!.'):
            ctx.bad('late-lookup', owner, f'uses {impl} as it was when the module was imported', f'{m.path}:{e.lineno}')
            bad += 1
        elif not via:
            ctx.bad('late-lookup', owner, f'uses {d} directly instead of the installed implementation', f'{m.path}:{e.lineno}')
            bad += 1
        elif not infn:
            ctx.bad('late-lookup', owner, f'captures {d} when the module is loaded', f'{m.path}:{e.lineno}')
            bad += 1
    if not bad:
        ctx.check(n > 0 or None, 'late-lookup', 'package', f'{n} uses of the implementations')


def norm_call(e):
    """positional arguments of dump/dumps/load/loads/compile call, with the usual keyword spellings"""
    args, kws = list(e.a[1]), list(e.a[2])
    for k in ('obj', 's', 'fp', 'file', 'data', 'pattern'):
        for i, (n, v) in enumerate(kws):
            if n == k:
                args.append(v)
                del kws[i]
                break
    return tuple(args), tuple(kws)


@rule('C19', 'forms', 'encoding and decoding call the string or the stream form as the arguments say, with the data and every'
                      ' other argument, and hand back its result')
def r_forms(ctx):
    v = sym('v')
    spec = []
    for name, impl, first, exporter in (('to_json', 'json', v, True), ('to_pickle', 'pickle', SELF, False)):
        spec.append((name, impl, first, 'dump'))
    for name, impl, fn in (('from_json', 'json', 'loads'), ('from_json_io', 'json', 'load'),
                           ('from_pickle', 'pickle', 'loads'), ('from_pickle_io', 'pickle', 'load')):
        spec.append((name, impl, v, fn))
    io = sym('io')
    for name, impl, first, fn in spec:
        w = f'RecordBase.{name}'
        ds = base_defs(ctx, 'RecordBase', name)
        if len(ds) != 1:
            ctx.undec('forms', w, f'{len(ds)} definitions')
            continue
        d = ds[0]
        I = ctx.interp(opaque=['parse'])
        st = I.new_state()
        kws = [(None, KW)]
        lead = []
        if fn_kind(d) in ('class', 'classmethod') or any(t == 'classmethod' for t in deco_text(d)):
            lead = [CLS]
            st.types[CLS] = ('class', ctx.P.cls_named('RecordBase'))
        lead.append(first)
        if fn == 'dump':
            kws = [('io', io)] + kws
        star = [T('star', MAPS)] if d.args.vararg else []
        ps = None
        try:
            ps = ctx.run(d, lead + star, kws, st, I=I)
        except AnalysisBroken as e:
            ctx.undec('forms', w, str(e))
        if ps is None:
            continue
        if fn == 'dump' and not d.args.vararg and not d.args.kwarg:
            ctx.bad('forms', w, 'the other arguments are not taken', d)
            continue

        def observe(p):
            uses = []
            for e in all_events(p.events):
                if e.kind == 'call' and impl_name(unver(e.a[0])):
                    i, f = impl_name(unver(e.a[0]))
                    uses.append((i, f, e))
            if not uses:
                return None if p.raises or any(murky(e.a[0]) for e in p.events if e.kind == 'call') else 'nothing is called'
            if len(uses) > 1:
                return 'called more than once'
            i, f, e = uses[0]
            if i != impl:
                return f'{i}.{f}'
            args, kw = norm_call(e)
            want = (first,) + ((io,) if f == 'dump' else ()) + tuple(star)
            if args != want or kw != ((None, KW),):
                if any(murky(x) for x in args) or any(murky(x) for _, x in kw):
                    return None
                return f'{f} with ({", ".join([show(x) for x in args] + [f"{k}={show(x)}" if k else "**" + show(x) for k, x in kw])})'
            if f in ('dumps',) and p.returns and unver(p.value) is not unver(e.a[3]):
                return f'{f} without handing back its result'
            return f
        if fn == 'dump':
            ctx.decide('forms', w, ps, [('no io', mk_is(io, NONE))], lambda x: 'dumps' if x['no io'] else 'dump', observe, d)
        else:
            ctx.decide('forms', w, ps, [], lambda x: fn, observe, d)
            # the decoded object is what is handed on
            for p in ps:
                if not p.returns:
                    continue
                calls = [e.a[3] for e in p.events if e.kind == 'call' and impl_name(unver(e.a[0]))]
                if len(calls) != 1:
                    continue
                r = unver(calls[0])
                isin = p.st.known(T('isinstance', r, CLS))
                val = unver(p.value)
                if impl == 'json':
                    ctx.check(True if val is r else None if murky(val) else False, 'forms', w,
                              'the decoded mapping is what the record is made of', p.sig.node or d, p)
                elif isin is True:
                    ctx.check(True if val is r else None if murky(val) else False, 'forms', w,
                              'an unpickled record of the class is returned', p.sig.node or d, p)
                elif isin is False:
                    good = is_call(val, A(CLS, 'parse')) and val.a[1] == (r,)
                    ctx.check(True if good else None if murky(val) else False, 'forms', w,
                              'another unpickled object is parsed', p.sig.node or d, p)
                else:
                    ctx.bad('forms', w, 'an unpickled object is returned whatever its type', p.sig.node or d, p)
    # patterns
    w = ctx.where('FullMatch', '__init__')
    ps = ctx.summ('FullMatch', '__init__', args=[sym('pattern')], kwargs=[(None, KW)])
    if ps is None:
        return

    def obs(p):
        uses = [(impl_name(unver(e.a[0])), e) for e in p.events if e.kind == 'call' and impl_name(unver(e.a[0]))]
        sets = [e for e in p.events if e.kind == 'setattr' and e.a[0] is SELF and e.a[1] == 'pattern']
        if len(uses) != 1 or uses[0][0] != ('re', 'compile'):
            return 'other' if not uses else show(uses[0][1].a[0])
        args, kw = norm_call(uses[0][1])
        if args != (sym('pattern'),) or kw:
            return 'compile with other arguments'
        return 'compile'
    ctx.decide('forms', w, [p for p in ps if p.returns], [], lambda x: 'compile', obs, ctx.node('FullMatch', '__init__'))
