"""Fields: defaults, annotations, tags, tokens added to sub-fillers (C21, C06, C13, C20, C03, C04)."""
from .base import *
from .construct import new_paths, default_of, given_case, is_opt_rest, KW as NEWKW, OPT as NEWOPT, FIELDS as NEWFIELDS
from .base import rule

F = 'RecordField'
DEF, ISF = A(SELF, 'default'), A(SELF, 'default_is_factory')
NO_DEFAULT = T('sentinel', 'records.field.NO_DEFAULT')
SKIP = T('sentinel', 'records.field.SKIP_FIELD')
V = sym('v')
BOOLS = {'eq', 'is', 'isinstance', 'in', 'not', 'truthy', 'lt', 'le', 'callable', 'subclass', 'has', 'issubclass'}


def truth_paths(ps):
    """split the paths of a predicate by the truth of what they return -> [Path returning K(bool)]"""
    out = []
    for p in ps:
        if not p.returns:
            out.append(p)
            continue
        v = p.value
        if is_k(v):
            out.append(Path(p.st, Sig('return', K(bool(kval(v))), None, p.sig.node)))
            continue
        t = v if v.op in BOOLS else T('truthy', v)
        for b in (True, False):
            s = p.st.assume(t, b)
            if s is not None:
                out.append(Path(s, Sig('return', K(b), None, p.sig.node)))
    return out


def boolean(p):
    return kval(p.value) if p.returns else 'raises'


@rule('C21', 'default-made', 'a default is the very object that was given, or what one call of the factory returns')
def r_make(ctx):
    ps = ctx.summ(F, 'make_default')
    if ps is None:
        return
    w, node = f'{F}.make_default', ctx.node(F, 'make_default')

    def observe(p):
        calls = [e for e in all_events(p.events) if e.kind == 'call']
        sets = [e for e in all_events(p.events) if e.kind in ('setattr', 'setitem', 'delattr')]
        if sets:
            return 'remembers something'
        if p.raises:
            return 'raises'
        v = unver(p.value)
        if v is C(DEF):
            return 'factory result' if len(calls) == 1 else 'factory called more than once'
        if v is DEF:
            return 'constant' if not calls else 'constant, after calling something'
        return None if murky(v) else show(v)
    ctx.decide('default-made', w, ps, [('factory', T('truthy', ISF))],
               lambda v: 'factory result' if v['factory'] else 'constant', observe, node)


@rule('C21', 'default-kept', 'a field keeps the default as it was given, and the function of a factory')
def r_kept(ctx):
    ps = ctx.summ(F, '__init__', args=[], kwargs=[('filler', sym('filler')), ('owner', sym('owner')), ('name', sym('name')),
                                                  ('default', sym('default'))])
    if ps is None:
        return
    w, node = f'{F}.__init__', ctx.node(F, '__init__')
    d = sym('default')
    fc = next((T('class', q) for q in ctx.P.classes if q.endswith('.Factory')), None)

    def observe(p):
        if p.raises:
            return 'raises'
        last = {}
        for e in p.events:
            if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1]):
                last[kval(e.a[1])] = unver(e.a[2])
        dv, fv = last.get('default'), last.get('default_is_factory')
        if dv is None or fv is None or murky(dv) or murky(fv):
            return None
        names = tuple(last.get(n) is sym(n) for n in ('filler', 'owner', 'name'))
        if not all(names):
            return 'filler, owner and name are not kept'
        b = bool(kval(fv)) if is_k(fv) else p.st.known(fv if fv.op in BOOLS else T('truthy', fv))
        return show(dv) + (', factory' if b is True else ', constant' if b is False else ', ' + show(fv))
    ps = [Path(s2, p.sig) for p in ps for b in (True, False) for s2 in [p.st.assume(T('isinstance', d, fc), b)] if s2 is not None]
    ctx.decide('default-kept', w, ps, [('factory', T('isinstance', d, fc))],
               lambda v: 'default.func, factory' if v['factory'] else 'default, constant', observe, node)
    # the wrapper keeps the function itself
    ps = ctx.summ('Factory', '__init__', args=[sym('func')])
    for p in ps or []:
        got = [e for e in p.events if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], 'func')]
        ctx.check(bool(got) and unver(got[-1].a[2]) is sym('func'), 'default-kept', 'Factory.__init__',
                  'the factory keeps the function it was given', ctx.node('Factory', '__init__'), p)


@rule('C21', 'has-default', 'a field has a default exactly if one was given, whatever its value')
def r_has(ctx):
    ps = ctx.summ(F, 'has_default')
    if ps is None:
        return
    ctx.decide('has-default', f'{F}.has_default', truth_paths(ps), [('none given', mk_is(DEF, NO_DEFAULT))],
               lambda v: not v['none given'], boolean, ctx.node(F, 'has_default'))


IS = 'a value counts as the default only if the default is a constant equal to it'


def is_default(ctx):
    ps = ctx.summ(F, 'is_default', args=[V])
    if ps is None:
        return
    ctx.decide('is-default', f'{F}.is_default', truth_paths(ps),
               [('factory', T('truthy', ISF)), ('equal', mk_cmp('eq', DEF, V))],
               lambda v: v['equal'] and not v['factory'], boolean, ctx.node(F, 'is_default'))


rule('C21', 'is-default', IS)(is_default)
rule('C13', 'is-default', IS)(is_default)


@rule('C21', 'default-when-needed', 'constructing makes a default only for a field that was not given, once')
def r_needed(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    n = 0
    done = set()
    for p in ps:
        for e in p.events:
            if e.kind == 'call' and len(e.a) > 3 and default_of(e.a[3]) is not None:
                k = default_of(e.a[3])
                given = p.st.known(T('in', k, NEWKW))
                if given is not False:
                    ctx.bad('default-when-needed', w, f'the default of {show(k)} is made whether or not it was given', e.node, p)
                    return
        for le in all_loops(p.events):
            S = le.a[0]
            if id(S) in done:
                continue
            done.add(id(S))
            dm = unver(S.dom)
            for ip in S.paths:
                mk = [e for e in ip.events if e.kind == 'call' and len(e.a) > 3 and default_of(e.a[3]) is not None]
                if not mk:
                    continue
                n += 1
                k = default_of(mk[0].a[3])
                if len(mk) > 1:
                    ctx.bad('default-when-needed', w, 'a default is made more than once', mk[1].node, p)
                    return
                g = given_case(Entry(('set', k, NONE), S.dom, ip.facts, ip, S), dm, k, p)
                if g is None:
                    for f, v in ip.facts.items():
                        if murky(f):
                            ctx.undec('default-when-needed', w, f'depends on {show(f)}')
                            return
                    # is the name known to be missing from something that holds exactly the given ones
                    other = [f for f, v in ip.facts.items() if f.op == 'in' and unver(f.a[0]) is k and v is False]
                    if other and any(p.st.h(unver(f.a[1])) is not None for f in other):
                        continue
                if g is not False:
                    ctx.bad('default-when-needed', w, 'the default of a field is made although the field was given', mk[0].node, p)
                    return
    ctx.check(n > 0 or None, 'default-when-needed', w, f'{n} ways to make a default, each for a name that was not given', node)


# -- annotations ------------------------------------------------------------------------------------------------------
def hint_paths(ctx):
    if 'hint' not in ctx._cache:
        st = None
        I = ctx.interp(opaque=['from_type_hint', 'get_filler', 'split_annotation', f'{F}._apply', 'is_frozen'])
        ctx._cache['hint'] = ctx.summ(F, 'from_type_hint', args=[TH], kwargs=[('owner', OWNER), (None, sym('kwargs'))], I=I)
    return ctx._cache['hint']


TH, OWNER = sym('th'), sym('owner')


def split_call(t):
    return is_call(t) and 'split_annotation' in show(t.a[0]) and t.a[1] == (TH,)


def part(t, i):
    return isinstance(t, T) and t.op == 'item' and split_call(t.a[0]) and is_k(t.a[1], i)


def origin_is(name):
    def f(p):
        for k in list(p.facts):
            for x in walk(k):
                if x.op == 'is' and any(y is G(f'typing.{name}') for y in x.a) and \
                        any(is_call(y, G('typing.get_origin')) and part(y.a[1][0], 0) for y in x.a):
                    return x
        return T('is', G(f'typing.{name}'), sym('?origin'))
    return f


def frozen_term(p):
    for k in p.facts:
        for x in walk(k):
            if is_call(x) and is_attr(x.a[0], 'is_frozen', OWNER):
                return T('truthy', x)
            if is_attr(x, '_frozen', OWNER):
                return T('truthy', x)
    return T('truthy', C(A(OWNER, 'is_frozen')))


def hint_outcome(p):
    if p.raises:
        return 'error'
    v = unver(p.value)
    if v is SKIP:
        return 'skip'
    if is_call(v):
        f = v.a[0]
        kws = dict((k, unver(x)) for k, x in v.a[2])
        if f is CLS or f.op == 'class' and f.a[0].endswith('.' + F):
            fl = kws.get('filler')
            good = fl is not None and is_call(fl) and 'get_filler' in show(fl.a[0])
            if good and fl.a[1] == (TH,) and kws.get('owner') is OWNER and kws.get(None) is sym('kwargs'):
                return 'field'
            return None if not good else 'a field of something else'
        if is_attr(f, 'from_type_hint'):
            if kws.get('owner') is not OWNER or kws.get(None) is not sym('kwargs'):
                return 'a field without its owner, name or default'
            return 'inner'
    return None if murky(v) else show(v)


@rule('C06', 'annotation-kinds', 'an annotation gives one field, class variables give none, a raw Final and a Final in a class that'
                                 ' is not frozen are refused')
def r_hints(ctx):
    hints(ctx, 'annotation-kinds')


@rule('C20', 'annotation-kinds', 'every annotation of a class gives it one field, except class variables')
def r_hints_fields(ctx):
    hints(ctx, 'annotation-kinds')


def hints(ctx, R):
    ps = hint_paths(ctx)
    if ps is None:
        return
    w, node = f'{F}.from_type_hint', ctx.node(F, 'from_type_hint')

    def table(v):
        if v['raw'] or v['final'] and not v['frozen'] and not v['classvar']:
            return 'error'
        if v['classvar']:
            return None if v['final'] else 'skip'
        return 'inner' if v['final'] else 'field'
    ctx.decide(R, w, ps, [('raw', mk_is(TH, G('typing.Final'))), ('classvar', origin_is('ClassVar')),
                                           ('final', origin_is('Final')), ('frozen', frozen_term)], table, hint_outcome, node)


def merged_args(p, v):
    """does the annotation given on to the inner call contain the outer tokens (True/False/None)"""
    x = unver(v).a[1][0] if unver(v).a[1] else None
    if x is None:
        return None
    if contains(x, lambda y: part(y, 1)):
        return True
    for y in walk(x):
        h = p.st.h(y)
        if h is not None and any(isinstance(z, T) and contains(z, lambda q: part(q, 1)) for op in h.log for z in op[1:]):
            return True
    return False


@rule('C06', 'tokens-reach-field', 'every token of an annotation reaches the filler and the field, also those outside of Final')
def r_tokens(ctx):
    ps = hint_paths(ctx)
    if ps is None:
        return
    w, node = f'{F}.from_type_hint', ctx.node(F, 'from_type_hint')
    for p in ps:
        if not p.returns:
            continue
        o = hint_outcome(p)
        args = [k.a[0] for k in p.facts if k.op == 'truthy' and part(k.a[0], 1)]
        noargs = any(p.st.known(T('truthy', a)) is False for a in args)
        if o == 'inner':
            ctx.check(noargs or merged_args(p, p.value), 'tokens-reach-field', w,
                      'tokens outside of Final are given on', p.sig.node or node, p)
    # (the plain case hands the whole annotation to get_filler: see annotation-kinds)


@rule('C13', 'tags-kept', 'every tag of an annotation becomes a tag of its field, and nothing else does')
def r_tags(ctx):
    ps = hint_paths(ctx)
    if ps is None:
        return
    w, node = f'{F}.from_type_hint', ctx.node(F, 'from_type_hint')
    tag = next((T('class', q) for q in ctx.P.classes if q.endswith('.Tag')), None)
    for p in ps:
        if not p.returns or hint_outcome(p) not in ('field', 'inner'):
            continue
        v = unver(p.value)
        args = [k.a[0] for k in p.facts if k.op == 'truthy' and part(k.a[0], 1)]
        if any(p.st.known(T('truthy', a)) is False for a in args) or \
                hint_outcome(p) == 'inner' and merged_args(p, p.value):
            ctx.ok('tags-kept', w, 'the tokens are given on')
            continue
        good = None
        for e in p.events:
            if e.kind != 'loop':
                continue
            S, how = e.a
            if not part(unver(S.dom), 1):
                continue
            el = None
            good = True
            for ip in allowed_paths(S, how):
                ap = [x for x in ip.events if x.kind == 'call' and is_attr(unver(x.a[0]), '_apply') and
                      unver(unver(x.a[0]).a[0]) is v and len(x.a[1]) == 1 and unver(x.a[1][0]).op == 'elem']
                ad = [x for x in ip.events if x.kind == 'call' and is_attr(unver(x.a[0]), 'add') and
                      unver(unver(x.a[0]).a[0]) is A(v, 'tags') and len(x.a[1]) == 1 and unver(x.a[1][0]).op == 'elem']
                ist = [b for k, b in ip.facts.items() if k.op == 'isinstance' and k.a[0].op == 'elem' and k.a[1] is tag]
                if len(ip.facts) == 1 and len(ist) == 1 and ist[0] == bool(ad) and len(ad) < 2 and not ap:
                    continue
                if not ap:
                    good = None if any(x.kind == 'call' or murky(k) for x in ip.events for k in ip.facts) else False
            if how[0] != 'done':
                good = False
        if good is None:
            touched = any('tag' in show(x.a[0]) or '_apply' in show(x.a[0]) for x in all_events(p.events) if x.kind == 'call')
            if not touched:
                ctx.bad('tags-kept', w, 'the tags of the annotation are dropped', p.sig.node or node, p)
                continue
        ctx.check(good, 'tags-kept', w, 'every token is offered to the field', p.sig.node or node, p)
    ps = ctx.summ(F, '_apply', args=[sym('token')])
    if ps is None:
        return

    def observe(p):
        if p.raises:
            return 'raises'
        adds = [e for e in all_events(p.events) if e.kind == 'call' and is_attr(unver(e.a[0])) and
                unver(unver(e.a[0]).a[0]) is A(SELF, 'tags')]
        if not adds:
            other = [e for e in all_events(p.events) if e.kind in ('setattr', 'setitem', 'dictupdate')]
            return None if other else 'nothing'
        e = adds[0]
        return 'added' if len(adds) == 1 and unver(e.a[0]).a[1] == 'add' and e.a[1] == (sym('token'),) else None
    ctx.decide('tags-kept', f'{F}._apply', ps, [('tag', T('isinstance', sym('token'), tag))],
               lambda v: 'added' if v['tag'] else 'nothing', observe, ctx.node(F, '_apply'))
    ps = ctx.summ('Tag', '__eq__', args=[sym('other')])
    if ps is not None:
        o = sym('other')
        ctx.decide('tags-kept', 'Tag.__eq__', truth_paths(ps),
                   [('same type', mk_is(T('typeof', o), T('typeof', SELF))),
                    ('equal', mk_cmp('eq', A(SELF, 'inner'), A(o, 'inner')))],
                   lambda v: v['same type'] and v['equal'], boolean, ctx.node('Tag', '__eq__'))


# -- tokens for sub-fillers -------------------------------------------------------------------------------------------
@rule('C20', 'sub-key', 'a token added to a field goes to the filler its key names: none to the field\'s own, a position to that'
                        ' alternative, element, key or value, any other is refused')
def r_subkey(ctx):
    ps = ctx.summ(F, '_apply_to_filler', args=[sym('token'), sym('key')])
    w, node = f'{F}._apply_to_filler', ctx.node(F, '_apply_to_filler')
    if ps is not None:
        FL = A(SELF, 'filler')
        for p in ps:
            ap = [e for e in all_events(p.events) if e.kind == 'call' and is_attr(unver(e.a[0]), 'apply')]
            if p.raises:
                continue
            if len(ap) != 1:
                ctx.check(None if any(murky(e.a[0]) for e in p.events if e.kind == 'call') else False, 'sub-key', w,
                          f'the token is applied once (not {len(ap)} times)', node, p)
                continue
            t = unver(unver(ap[0].a[0]).a[0])
            none = p.st.known(mk_is(sym('key'), NONE))
            good = t is C(A(FL, 'sub_filler'), sym('key')) or none is True and t in (FL, C(A(FL, 'sub_filler'), NONE))
            ctx.check(True if good and ap[0].a[1] == (sym('token'),) else None if murky(t) else False, 'sub-key', w,
                      'the token is applied to the filler the key names', ap[0].node or node, p)
    want = {
        'Filler': {}, 'WrapperFiller': {}, 'AnnotatedFiller': {},
        'UnionFiller': {0: T('item', A(SELF, 'sub_fillers'), K(0)), 1: T('item', A(SELF, 'sub_fillers'), K(1))},
        'TupleFiller': {0: T('item', A(SELF, 'sub_fillers'), K(0)), 1: T('item', A(SELF, 'sub_fillers'), K(1))},
        'GenericIterableFiller': {0: A(SELF, 'element_filler')},
        'GenericMappingFiller': {0: A(SELF, 'key_filler'), 1: A(SELF, 'value_filler')},
    }
    for cn, m in want.items():
        for c in [x for x in ctx.P.classes.values() if x.is_sub(ctx.P.cls_named(cn))]:
            name = c.qual.rsplit('.', 1)[-1]
            if name != cn and (name in want or 'sub_filler' not in c.attrs):
                continue
            for key in (None, 0, 1, 2, 'x'):
                if m.get(1) is not None and m[1].op == 'item' and key == 2:
                    continue
                exp = SELF if key is None else m.get(key)
                ps = ctx.summ(c, 'sub_filler', args=[K(key)])
                for p in ps or []:
                    if p.raises:
                        good = exp is None and _lookup_error(ctx, p)
                        if exp is not None and exp.op == 'item' and any(murky(k) or k.op == 'raises' for k in p.facts):
                            continue
                    else:
                        good = unver(p.value) is exp
                    ctx.check(True if good else None if p.returns and murky(p.value) else False, 'sub-key', f'{name}.sub_filler',
                              f'key {key!r} gives {show(exp) if exp is not None else "an error"}', p.sig.node, p)


def _lookup_error(ctx, p):
    n = exc_class(p.sig.val)
    return n in (None, 'builtins.LookupError', 'builtins.KeyError', 'builtins.IndexError')


ADDERS = {'add_validator': 'CallValidation', 'add_assert_validator': 'AssertCallValidation', 'add_coercer': 'CallCoercion'}


def adder(names):
    def f(ctx):
        for n in names:
            w, node = f'{F}.{n}', ctx.node(F, n)
            ps = ctx.summ(F, n, args=[sym('func')], kwargs=[('sub_key', sym('key')), (None, sym('kwargs'))])
            if ps is None:
                continue
            cq = ctx.P.cls_named(ADDERS[n]).qual
            tok = T('call', T('class', cq), (sym('func'),), ((None, sym('kwargs')),))
            for p in ps:
                if p.raises:
                    ctx.bad('token-added', w, 'refuses', node, p)
                    continue
                ap = [e for e in all_events(p.events) if e.kind == 'call' and is_attr(unver(e.a[0]), 'apply')]
                if len(ap) != 1:
                    ctx.check(None if any(murky(e.a[0]) for e in p.events if e.kind == 'call') else False, 'token-added', w,
                              f'one token is applied (not {len(ap)})', node, p)
                    continue
                t, a = unver(unver(ap[0].a[0]).a[0]), tuple(unver(x) for x in ap[0].a[1])
                named = t is C(A(SELF, 'filler', 'sub_filler'), sym('key')) or \
                    t is A(SELF, 'filler') and p.st.known(mk_is(sym('key'), NONE)) is True
                good = named and len(a) == 1 and \
                    (a[0] is tok or built(p, a[0], cq))
                ctx.check(True if good else None if murky(t) or any(map(murky, a)) else False, 'token-added', w,
                          f'applies {ADDERS[n]}(func, **kwargs) to the named filler', ap[0].node or node, p)
                ctx.check(unver(p.value) is sym('func'), 'token-added', w, 'returns the function', p.sig.node or node, p)
        # the decorator that delays it
        q = next((q for q in ctx.P.functions if q.endswith('.decorator_kw_method')), None)
        if q is None:
            return
        f = ctx.P.functions[q][0]
        I = ctx.interp()
        ps = ctx.run(f, [sym('func')], [], I=I)
        for p in ps or []:
            if not p.returns:
                ctx.bad('token-added', 'decorator_kw_method', 'refuses', f, p)
                continue
            KWS = [(None, sym('kw'))]
            for delayed in (False, True):
                for r in ctx.call(I, p.value, [SELF] if delayed else [SELF, sym('f')], KWS, p.st, f) or []:
                    if delayed and r.returns:
                        rs = ctx.call(I, r.value, [sym('f')], [], r.st, f) or []
                    else:
                        rs = [r]
                    for x in rs:
                        if not delayed and x.st.known(mk_is(sym('f'), NONE)) is True:
                            continue
                        if delayed and x.st.known(mk_is(sym('f'), NONE)) is True:
                            continue
                        good = x.returns and unver(x.value) is T('call', sym('func'), (SELF, sym('f')), ((None, sym('kw')),))
                        ctx.check(True if good else None if x.returns and murky(x.value) else False, 'token-added',
                                  'decorator_kw_method', 'calls the decorated method with the function and every keyword',
                                  x.sig.node or f, x)
    return f


def built(p, t, cq):
    h = p.st.h(t)
    return h is not None and h.cls is not None and getattr(h.cls, 'qual', h.cls) == cq


rule('C04', 'token-added', 'a validator added to a field is applied as a token made of the function and its arguments')(
    adder(['add_validator', 'add_assert_validator']))
rule('C03', 'token-added', 'a coercer added to a field is applied as a token made of the function and its arguments')(
    adder(['add_coercer']))
rule('C20', 'token-added', 'sub_key of every way of adding a token names the sub-filler that gets it')(adder(list(ADDERS)))
