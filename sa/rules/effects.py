"""
C08 and C27: what the functions users reach may change.

Judges the effects computed by ``sa.effects`` at every entry point: public functions and methods, special methods, and
closures and bound methods handed out as callbacks.  Helpers are judged where they are called.
"""
import ast

from .base import rule
from ..effects import analyse, show_place, MUT_KINDS, MEMO_DECOS, SETUP_CALLS

API = set('''
add_assert_validator add_coercer add_validator apply assert_ bind callable_checker decorator_kw_method
default_type_check_style export_with filter_by_tag fill from_instance from_json from_json_io from_mapping from_pickle
from_pickle_io from_type_hint func_args get_annotated_filler get_args get_coercer get_filler get_origin get_validator
has_args has_default inner is_annotation is_default is_frozen is_hollow is_inert constrain make_default merge
none_checker parse parser post_new pre_bind reconstruct run select shortcut split_annotation sub_filler to_dict to_json
to_pickle type_check _typing
'''.split())
# functions that set up the object they belong to; they may write to that object only
SETUP = {'__init__', '__set_name__', '__setattr__', '__delattr__', '__setstate__', '__init_subclass__',
         'pre_bind', '__set__', '__delete__'} | SETUP_CALLS
SHARED = {'cls', 'filler', 'token', 'origin', 'stored_type', 'owner_cls', 'owner', 'field', 'select', 'descriptor', 'th',
          'f', 'target_filler'}
INTERNAL_DICT = '__dict__'


class Judge:
    def __init__(self, ctx):
        self.ctx = ctx
        self.an = analyse(ctx.P)
        ctx.assumptions.append('library functions and methods change only what the table in sa/effects.py says; '
                               'user supplied callables change nothing of the package')
        try:
            self.record = ctx.P.cls_named('RecordBase')
        except Exception:
            self.record = None
        self.memo = {}
        for f in self.an.fns:
            if f.cls is None or f.outer is not None:
                continue
            if f.name == '__bool__' and f.cls.name == 'Select' or \
                    f.name == '__hash__' and self.record is not None and f.cls.is_sub(self.record):
                for e in f.effects.values():
                    if e.kind == 'write' and e.place == (('P', f.self_name), ()) and e.what.startswith('sets attr'):
                        self.memo.setdefault(f.cls.qual, set()).add(e.what)

    def is_record(self, cls):
        return cls is not None and self.record is not None and cls.is_sub(self.record)

    def entry(self, f):
        if f.outer is not None:
            return f.escapes
        if f.name in API or (f.name.startswith('__') and f.name.endswith('__')):
            return True
        if f.cls is not None:
            return f.name in self.an.value_methods
        return f.qual in self.an.value_funcs

    def setup(self, f):
        return f.outer is None and f.cls is not None and f.name in SETUP

    # -- one effect -------------------------------------------------------------------------------------------------
    def attr(self, place):
        return place[1][-1] if place[1] else None

    def kinds(self, f, place):
        a = self.attr(place)
        if a is not None:
            return self.an.attr_kinds.get(a, set())
        if place[0][0] == 'C':
            o, var = f.outer, place[0][1]
            while o is not None and var not in o.locals:
                o = o.outer
            if o is not None:
                return o.kinds_out.get(var, set())
        return set()

    def judge(self, f, e):
        """-> set of properties the effect breaks at entry f, with a description"""
        (root, path), kind = e.place, e.kind
        if kind == 'iterate':
            if self.setup(f) or 'iter' not in self.kinds(f, e.place):
                return set()
            return {'C27'}
        if kind in ('index', 'index-handled'):
            # a lookup of an absent key inserts it into a defaultdict; a mapping of the user's may be one, and a lookup in it
            # is only suspicious if the key may well be absent
            ks = self.kinds(f, e.place)
            if self.setup(f):
                return set()
            if kind == 'index':
                return {'C27'} if 'defaultdict' in ks else set()
            return {'C08', 'C27'} if 'usermap' in ks else set()
        if kind == 'leak':
            if path and (path[-1] == INTERNAL_DICT or self.an.attr_kinds.get(path[-1], set()) & MUT_KINDS) and \
                    f.name not in ('__getstate__', '__reduce__', '__reduce_ex__'):
                return {'C08'}
            return set()
        if kind == 'rebind':
            return {'C27'} if f.escapes else set()
        if root[0] == 'G':
            return {'C27'}
        if root[0] == 'U':
            return set() if kind == 'setup' else {'C08'}
        if root[0] == 'C':
            return self.captured(f, e)
        name = root[1]
        if self.setup(f) and name == f.self_name:
            if f.name == '__init_subclass__':
                return set() if kind == 'setup' or not path else {'C27'}
            if len(path) <= 1 or any('filler' in a for a in path):
                return set()
            return {'C27'}
        if kind == 'setup' and f.name == '__init_subclass__':
            return set()
        if f.cls is None and f.outer is None and f.name == 'parser' and name == (f.params or [None])[0] and not path:
            return set()
        if f.name == '__deepcopy__' and name != f.self_name:
            return set()       # the memo is there to be filled
        if name == f.self_name:
            if f.cls is not None and not path and e.what in self.memo.get(self.owner(f, e), ()):
                return set()
            if f.classm or f.name == '__new__' or not self.is_record(f.cls) or '__class__' in path:
                return {'C27'}
            return {'C08'}
        out = {'C08'}
        if name in SHARED or '__class__' in path:
            out.add('C27')
        return out

    def owner(self, f, e):
        for q, names in self.memo.items():
            c = self.ctx.P.classes.get(q)
            if c is not None and f.cls.is_sub(c) and e.what in names:
                return q
        return None

    def captured(self, f, e):
        (root, path) = e.place
        o = f.outer
        while o is not None and root[1] not in o.locals:
            o = o.outer
        if o is None:
            return {'C27'}
        lasting = 'fn' in o.ret_kinds or self.setup(o) or o.escapes
        out = set()
        for p in o.env_out.get(root[1], ()):
            if p[0][0] == 'F':
                if lasting:
                    out.add('C27')
            elif lasting:
                out.add('C27')
            else:
                q = (p[0], p[1] + path)
                out |= self.judge(o, e.at(q)) if q[0][0] != 'C' or o.outer is not None else {'C27'}
        if lasting and not out and e.kind in ('write', 'inplace'):
            # a variable of the enclosing function (the nested function itself, an immutable value)
            out.add('C27')
        return out


def describe(f, e):
    at = '' if e.qual == f.qual else f' (in {e.qual.rsplit(".", 2)[-2]}.{e.qual.rsplit(".", 1)[-1]})'
    return f'{e.what} on {show_place(e.place)}{at}'


def run(ctx, prop, name, only=None):
    j = Judge(ctx)
    n = 0
    for f in j.an.fns:
        if only is not None and not only(f):
            continue
        ctx.functions.add(f.qual)
        if not j.entry(f):
            continue
        n += 1
        seen = set()
        for e in sorted(f.effects.values(), key=lambda e: (e.node.lineno, e.what, str(e.place))):
            ctx.sites += 1
            if prop in j.judge(f, e):
                k = (e.qual, e.node.lineno, e.what)
                if k in seen:
                    continue
                seen.add(k)
                what = {'C08': 'changes an object of the caller or of the record',
                        'C27': 'changes state that outlives the call'}[prop]
                if e.kind == 'leak':
                    what = 'hands an internal container to outside code'
                if e.kind == 'iterate':
                    what = 'uses up an iterator that is kept for later calls'
                if e.kind in ('index', 'index-handled'):
                    what = 'a lookup that may insert into a mapping that is kept'
                ctx.bad(name, f.qual, f'{what}: {describe(f, e)}', ctx.loc(e.node, e.module),
                        key=f'{name}@{e.qual}:{e.what}')
        if not seen:
            ctx.ok(name, f.qual, 'every effect stays on objects created by the call'
                   if not j.setup(f) else 'writes only to the object being set up')
    ctx.paths += j.an.rounds
    return n


@rule('C08', 'no-effect-on-arguments',
      'an entry point writes only to objects it created, to the record under construction and to memos')
def args_(ctx):
    run(ctx, 'C08', 'no-effect-on-arguments')


@rule('C08', 'no-internal-result', 'an entry point never returns a container the class, field or record itself uses')
def results(ctx):
    j = Judge(ctx)
    for f in j.an.fns:
        if not j.entry(f) or j.setup(f):
            continue
        if f.name in ('__getstate__', '__reduce__', '__reduce_ex__'):
            continue
        bad = None
        for p in f.ret:
            if p[1] and (p[1][-1] == INTERNAL_DICT or j.an.attr_kinds.get(p[1][-1], set()) & MUT_KINDS):
                bad = p
        if bad:
            ctx.bad('no-internal-result', f.qual, f'returns the internal container {show_place(bad)}', f.node,
                    key=f'no-internal-result@{f.qual}')
        else:
            ctx.ok('no-internal-result', f.qual, 'no internal container among the results')


@rule('C27', 'no-lasting-state',
      'an entry point changes neither class, field, filler, token, select, closure nor module state')
def state(ctx):
    run(ctx, 'C27', 'no-lasting-state')


@rule('C24', 'same-every-time', 'what a coercer does with a value does not depend on what it was used for before')
def coercers_(ctx):
    run(ctx, 'C27', 'same-every-time', only=lambda f: '.coercers.' in f.qual or 'std_fillers.' in f.qual and f.name not in FILLING[:3])


@rule('C27', 'no-memo-no-ambient', 'no function memoizes its results or depends on time, randomness or the process')
def ambient(ctx):
    an = analyse(ctx.P)
    for f in an.fns:
        bad = False
        for g, node in f.ambient.values():
            bad = True
            ctx.bad('no-memo-no-ambient', f.qual, f'depends on {g}', ctx.loc(node, f.module),
                    key=f'no-memo-no-ambient@{f.qual}:{g}')
        for d in getattr(f.node, 'decorator_list', []):
            x = d.func if isinstance(d, ast.Call) else d
            r = ctx.P.resolve_expr(x, f.module)
            if r is not None and r.op == 'glob' and r.a[0] in MEMO_DECOS:
                bad = True
                ctx.bad('no-memo-no-ambient', f.qual, f'results are remembered by {r.a[0]}', ctx.loc(d, f.module),
                        key=f'no-memo-no-ambient@{f.qual}:{r.a[0]}')
        if not bad:
            ctx.ok('no-memo-no-ambient', f.qual, 'no memo, no ambient input')


# -- what a part of the library does may not depend on what it did before ------------------------------------------------
FILLING = ('fill', 'type_check', 'inner_validator', '__call__', '_')
SELECTS = ('Select', 'SelectableFactory', 'SpecializedSelectableFactory', 'SelectableShortcutFactory', 'Exporter', 'NoArgExporter')


def in_classes(*names):
    return lambda f: any(f'.{n}.' in f.qual for n in names)


def named(*names):
    return lambda f: f.name in names


def filling(f):
    return '.fillers.' in f.qual and f.name in FILLING and not in_classes('Eval', 'LiteralEval')(f)


PARTS = {
    'C01': ('which field gets what', lambda f: f.name == '__new__' and 'RecordBase' in f.qual),
    'C02': ('the filling of a value', filling),
    'C03': ('the filling of a value', lambda f: filling(f) or '.coercers.' in f.qual),
    'C04': ('the filling of a value', lambda f: filling(f) or 'validators.' in f.qual),
    'C07': ('the filling of a container', lambda f: 'typing_fillers.' in f.qual and f.name in FILLING + ('reconstruct',)),
    'C09': ('the filling of a union', in_classes('UnionFiller')),
    'C11': ('the comparison of two records', named('__eq__', '__hash__')),
    'C12': ('the comparison of two records', named('__lt__', '__le__', '__gt__', '__ge__')),
    'C13': ('an export', named('to_dict', 'filter_by_tag', 'is_default', 'make_default')),
    'C14': ('a selection', in_classes('Select')),
    'C15': ('a specialised call', in_classes(*SELECTS)),
    'C16': ('a parse', named('parse', '__new__')),
    'C17': ('a conversion', named('from_json', 'from_json_io', 'from_pickle', 'from_pickle_io', 'to_json', 'to_pickle')),
    'C21': ('the making of a default', named('make_default', 'is_default', 'has_default')),
    'C22': ('a copy', named('__copy__', '__deepcopy__', 'from_instance', '__getnewargs_ex__')),
    'C25': ('what a validator does', lambda f: 'builtin_validators.' in f.qual),
    'C26': ('what a validator does', lambda f: '.validators.' in f.qual or 'builtin_validators.' in f.qual),
}


def same_every_time(prop):
    what, only = PARTS[prop]

    def f(ctx):
        run(ctx, 'C27', 'same-every-time', only=only)
    rule(prop, 'same-every-time', f'{what} does not depend on what was done before')(f)


for _p in PARTS:
    same_every_time(_p)
