"""Filling one value: type checks, coercion, validation, hollowness (C02, C03, C04, C05, C06)."""
from .base import *

STYLE = A(SELF, 'type_checking_style')
COERCERS, VALIDATORS = A(SELF, 'coercers'), A(SELF, 'validators')
TSTYLE = 'records.fillers.filler.TypeCheckStyle'
TMATCH = 'records.fillers.filler.TypeMatch'


def member(ctx, cls, name):
    e = ctx.P.enum_member(ctx.P.cls_named(cls).qual, name)
    if e is None:
        raise AnalysisBroken(f'{cls}.{name} not found')
    return e


def filler_classes(ctx):
    base = ctx.P.cls_named('Filler')
    return [c for c in ctx.P.classes.values() if base in c.mro()]


def fill_defs(ctx, names):
    """(class, name, node) of every definition of one of the methods in a filler class"""
    out = []
    for c in filler_classes(ctx):
        for n in names:
            d = c.attrs.get(n)
            if isinstance(d, ast.FunctionDef):
                out.append((c, n, d))
    return out


def fill_paths(ctx):
    if 'fill' not in ctx._cache:
        ctx._cache['fill'] = ctx.summ('AnnotatedFiller', 'fill', opaque=['type_check'])
    return ctx._cache['fill']


def success(t):
    """(value, pass kind) of a FillingSuccess"""
    if t is None:
        return None
    if t.op == 'struct' and 'FillingSuccess' in str(t.a[0]):
        d = dict(t.a[1])
        return d.get('value'), d.get('type_pass_kind')
    if is_call(t) and 'FillingSuccess' in show(t.a[0]) and len(t.a[1]) == 2:
        return t.a[1]
    if t.op == 'tuple' and len(t.a[0]) == 2:
        return t.a[0]
    return None


def peel(p, v):
    """(value before validation, problem): undo the fold over the validators"""
    v0 = v
    if v.op == 'fold' and v.a[0].op == 'L' and unver(v.a[0].a[0]) is VALIDATORS:
        L = v.a[0]
        step = v.a[2]
        want = T('call', T('elem', L.a[0], L), (T('acc', L),), ())
        want2 = T('call', T('elem', L.a[0]), (T('acc', L),), ())
        good = step is want or step is want2 or (is_call(step) and step.a[0].op == 'elem' and step.a[1] == (T('acc', L),)
                                                 and not step.a[2])
        return v.a[1], None if good else f'each step is {show(step)}'
    if v.op == 'phiout' and v.a[0].op == 'L' and unver(v.a[0].a[0]) is VALIDATORS:
        return v.a[2], 'the result of a validator is only used under a condition'
    if p.st.known(T('truthy', VALIDATORS)) is False:
        return v, None
    ran = [e for e in all_loops(p.events) if unver(e.a[0].dom) is VALIDATORS]
    if ran:
        return v, 'the results of the validators are not used, or not all validators run'
    if any(contains(x, lambda y: y is VALIDATORS) for x in [v]):
        return v, None if False else 'the validators are not folded over the value in order'
    return v, 'the validators do not run'


def coerced_by(v):
    """the coercer and its arguments, if v is the direct result of one of the filler's coercers"""
    v = unver(v)
    if is_call(v) and v.a[0].op in ('elem', 'item') and unver(v.a[0].a[0]) is COERCERS:
        return v.a[0], v.a[1], v.a[2]
    return None


# ---------------------------------------------------------------------------------------------------------------------
def atoms_for(ctx, v):
    tc = C(A(SELF, 'type_check'), v)
    h, c = member(ctx, 'TypeCheckStyle', 'hollow'), member(ctx, 'TypeCheckStyle', 'check')
    d = member(ctx, 'TypeCheckStyle', 'default')
    ex, inx = member(ctx, 'TypeMatch', 'exact'), member(ctx, 'TypeMatch', 'inexact')
    return [('default', mk_is(STYLE, d)), ('hollow', mk_is(STYLE, h)), ('check', mk_is(STYLE, c)),
            ('exact', mk_is(tc, ex)), ('inexact', mk_is(tc, inx)), ('matched', T('truthy', tc))]


def acceptable(v):
    if v['matched'] and not v['exact'] and not v['inexact']:
        return None      # type_check returns exact, inexact or something falsish
    if (v['exact'] or v['inexact']) and not v['matched']:
        return None
    return v['exact'] or v['inexact'] and v['check']


def classify(p):
    """('raise',) | ('arg',) | ('coerced',) | ('other', text) | None: what the filler accepted on the path"""
    if p.raises:
        return 'raise'
    s = success(p.value)
    if s is None:
        return None if murky(p.value) else f'returns {show(p.value)}'
    base, _ = peel(p, s[0])
    base = unver(base)
    if base is ARG:
        return 'argument'
    if coerced_by(base):
        return 'coerced'
    return None if murky(base) else f'accepts {show(base)[:120]}'


def coercer_raised(p):
    return any(k.op == 'raises' and v and coerced_by(k.a[0]) for k, v in p.facts.items())


def check_fill(ctx, R, aspect):
    ps = fill_paths(ctx)
    if ps is None:
        return
    w, node = 'AnnotatedFiller.fill', ctx.node('AnnotatedFiller', 'fill')
    at = atoms_for(ctx, ARG)

    def table(v):
        if v['default']:
            return None       # an unbound filler
        if v['hollow']:
            return {'argument'}
        ok = acceptable(v)
        if ok is None:
            return None
        if aspect == 'sound':
            return {'argument', 'raise', 'coerced'} if ok else {'coerced', 'raise'}
        return {'argument'} if ok else {'coerced', 'raise'}
    return ctx.decide(R, w, ps, at, table, classify, node)


@rule('C02', 'accept-table', 'an uncoerced value is only stored if its type check gives exact, or inexact under check')
def accept_table(ctx):
    check_fill(ctx, 'accept-table', 'sound')


@rule('C03', 'coerce-only-on-mismatch', 'a value that matches is never coerced, a value that does not match is never '
      'stored as it is')
def coerce_only(ctx):
    if check_fill(ctx, 'coerce-only-on-mismatch', 'exact') is not True:
        return
    ps = fill_paths(ctx)
    w, node = 'AnnotatedFiller.fill', ctx.node('AnnotatedFiller', 'fill')
    for p in ps:
        if p.returns and classify(p) == 'argument':
            for e in all_events(p.events):
                if e.kind == 'call' and len(e.a) > 3 and coerced_by(e.a[3]):
                    ctx.bad('coerce-only-on-mismatch', w, 'a coercer runs although the value matches', e.node, p)
                    return


@rule('C05', 'hollow-no-check', 'a hollow filler calls neither type check nor coercer')
def hollow_no_check(ctx):
    ps = fill_paths(ctx)
    if ps is None:
        return
    w, node = 'AnnotatedFiller.fill', ctx.node('AnnotatedFiller', 'fill')
    hol = mk_is(STYLE, member(ctx, 'TypeCheckStyle', 'hollow'))
    n = 0
    for p in ps:
        k = p.st.assume(hol, True)
        if k is None:
            continue
        n += 1
        for e in all_events(p.events):
            if e.kind == 'call' and len(e.a) > 3 and (coerced_by(e.a[3]) or is_attr(e.a[0], 'type_check')):
                ctx.bad('hollow-no-check', w, 'a hollow filler checks or coerces', e.node, p)
                return
        if p.raises:
            ctx.bad('hollow-no-check', w, 'a hollow filler refuses a value', p.sig.node, p)
            return
    ctx.check(n > 0 or None, 'hollow-no-check', w, f'{n} hollow paths', node)


@rule('C05', 'hollow-identity', 'without a check and without validators, every way of filling gives the very object that was given')
def hollow_identity(ctx):
    R = 'hollow-identity'
    hol = mk_is(STYLE, member(ctx, 'TypeCheckStyle', 'hollow'))
    n = 0
    for c, name, node in fill_defs(ctx, ['fill', '__call__']):
        if 'abstractmethod' in [ast.unparse(d).split('.')[-1] for d in node.decorator_list]:
            continue
        w = f'{c.qual.rsplit(".", 1)[-1]}.{name}'
        ps = ctx.summ(c, name, opaque=['type_check'] if name == 'fill' else ['fill'])
        for p in ps or []:
            st = p.st.assume(hol, True)
            st = st and st.assume(T('truthy', VALIDATORS), False)
            if st is None or not p.returns:
                continue
            v = p.value
            if name == 'fill':
                if is_call(unver(v)) and is_attr(unver(v).a[0], 'fill'):
                    n += 1
                    ctx.check(unver(v).a[1] == (ARG,) and not unver(v).a[2], R, w, 'the object itself is passed on', p.sig.node or node, p)
                    continue
                s = success(v)
                if s is None:
                    ctx.undec(R, w, f'{show(v)[:100]}')
                    continue
                v = peel(p, s[0])[0]
            if contains(v, lambda x: is_call(x) and is_attr(x.a[0], 'fill') or x.op in ('phiout', 'fold')):
                continue        # what the filling gave: judged there
            if v.op == 'item' and p.st.h(unver(v.a[0])) is not None:
                continue        # one of the collected results: judged by the rules of C09
            n += 1
            ctx.check(True if unver(v) is ARG else None if murky(v) else False, R, w, f'gives the object itself, not {show(v)[:80]}',
                      p.sig.node or node, p)
    ctx.check(n > 2 or None, R, 'fill', f'{n} paths')


@rule('C02', 'coerced-checked', 'a coerced value is only stored if its own type check gives exact, or inexact under check')
def coerced_checked(ctx):
    coercion_loop(ctx, 'coerced-checked', 'sound')


@rule('C03', 'coercion-order', 'coercers are tried in declared order, each with the original value; the first acceptable '
      'result wins; if none is acceptable an error is raised')
def coercion_order(ctx):
    coercion_loop(ctx, 'coercion-order', 'order')


def coercion_loop(ctx, R, aspect):
    ps = fill_paths(ctx)
    if ps is None:
        return
    w, node = 'AnnotatedFiller.fill', ctx.node('AnnotatedFiller', 'fill')
    done = set()
    nacc = 0
    for p in ps:
        if p.returns and classify(p) == 'coerced':
            base, _ = peel(p, success(p.value)[0])
            base = unver(base)
            at = atoms_for(ctx, base)[2:]
            r = ctx.decide(R, w, [p], at, lambda v: None if acceptable(v) is None else
                           ({'accepted'} if acceptable(v) else {'rejected'}), lambda p: 'accepted', node,
                           what='accepting path')
            if not r:
                return
            f, args, kws = coerced_by(base)
            if unver(args[0]) is not ARG or len(args) != 1 or kws:
                ctx.bad(R, w, f'a coercer is called with {show(args)}', node, p)
                return
            if f.op == 'item':
                ctx.undec(R, w, f'coercers taken by index {show(f)}')
                return
            nacc += 1
    for p in ps:
        ls = [e for e in p.events if e.kind == 'loop' and unver(e.a[0].dom) is COERCERS and
              any(x.kind == 'call' for ip in e.a[0].paths for x in ip.events)]
        if len(ls) > 1:
            ctx.undec(R, w, 'several loops over the coercers')
            return
        if not ls:
            if any(e.kind == 'call' and len(e.a) > 3 and coerced_by(e.a[3]) for e in all_events(p.events)):
                ctx.undec(R, w, 'coercers are called outside a loop over them')
                return
            if any(contains(e.a[0].dom, lambda x: x is COERCERS) and unver(e.a[0].dom) is not COERCERS and
                   any(y.kind == 'call' for ip in e.a[0].paths for y in ip.events) for e in p.events if e.kind == 'loop'):
                if aspect == 'order':
                    ctx.bad(R, w, f'coercers are not tried in declared order: {[show(e.a[0].dom) for e in p.events if e.kind == "loop"]}', node, p)
                return
            continue
        S, how = ls[0].a
        if how[0] == 'done' and not p.raises and p.st.known(T('truthy', COERCERS)) is not False:
            if aspect == 'order' or classify(p) != 'coerced':
                if classify(p) == 'coerced':
                    ctx.bad(R, w, 'the result is not that of the first acceptable coercer', node, p)
                else:
                    ctx.bad(R, w, 'the value is accepted although no coercer succeeded', node, p)
                return
        key = tuple((tuple(ip.facts.items()), ip.sig.kind) for ip in S.paths)
        if key in done:
            continue
        done.add(key)
        el = T('elem', S.dom, S.L)
        for ip in S.paths:
            calls = [e for e in ip.events if e.kind == 'call' and len(e.a) > 3 and coerced_by(e.a[3])]
            if len(calls) != 1:
                if not calls and ip.goes_on and aspect == 'order':
                    ctx.bad(R, w, 'a coercer may be skipped', S.node, p)
                    return
                if len(calls) > 1:
                    ctx.bad(R, w, 'a coercer is called more than once', S.node, p)
                    return
                continue
            c = calls[0]
            args = tuple(unver(x) for x in c.a[1])
            if args != (ARG,) or c.a[2]:
                if aspect == 'order':
                    ctx.bad(R, w, f'a coercer is called with {show(args)}, not with the original value', c.node, p)
                    return
                continue
            res = c.a[3]
            if aspect != 'order':
                continue
            raised = ip.facts.get(T('raises', res))
            if raised is None:
                ctx.bad(R, w, 'an error of a coercer ends the search', c.node, p)
                return
            tcres = C(A(SELF, 'type_check'), res)
            if ip.goes_on and not raised and ip.facts.get(T('raises', tcres)) is not True:
                r = ctx.decide(R, w, [ip], atoms_for(ctx, res)[2:], lambda v: None if acceptable(v) is None else
                               ({'stop'} if acceptable(v) else {'next'}), lambda q: 'next', S.node, what='iteration')
                if not r:
                    return
            for k, v in ip.facts.items():
                if k.op == 'excis' and show(k.a[1]) not in ('builtins.Exception', 'builtins.BaseException'):
                    ctx.bad(R, w, f'only {show(k.a[1])} of a coercer is handled', S.node, p)
                    return
            if ip.sig.kind == 'raise' and ip.facts.get(T('last', S.L)) is not True:
                ctx.bad(R, w, 'raises before all coercers were tried', ip.sig.node or S.node, p)
                return
    # the empty case
    ctx.check(nacc > 0 or None, R, w, f'{nacc} accepting paths, {len(done)} coercion loops', node)


# -- C02: type checks ------------------------------------------------------------------------------------------------
@rule('C02', 'type-checks', 'each type check gives exact only for exactly the stored type, inexact only for its instances, '
      'and nothing otherwise')
@rule('C28', 'type-checks', 'each type check gives exact only for exactly the stored type, inexact only for its instances, '
      'and nothing otherwise')
def type_checks(ctx):
    R = 'type-checks'
    defs = fill_defs(ctx, ['type_check'])
    n = 0
    for c, name, node in defs:
        if 'abstractmethod' in [ast.unparse(d).split('.')[-1] for d in node.decorator_list]:
            continue
        ps = ctx.summ(c, 'type_check')
        if ps is None:
            continue
        w = f'{c.name if hasattr(c, "name") else c.qual.rsplit(".", 1)[-1]}.type_check'
        short = c.qual.rsplit('.', 1)[-1]
        if check_type_check(ctx, R, w, short, ps, node):
            n += 1
    ctx.check(n >= 5 or None, R, 'type_check', f'{n} implementations')


def tc_value(ctx, p):
    """exact / inexact / none / error"""
    if p.raises:
        return 'error'
    v = p.value
    ex, inx = member(ctx, 'TypeMatch', 'exact'), member(ctx, 'TypeMatch', 'inexact')
    if v is ex:
        return 'exact'
    if v is inx:
        return 'inexact'
    if is_k(v, None, False):
        return 'none'
    if p.st.known(T('truthy', v)) is False:
        return 'none'
    if v.op == 'bool' and p.st.known(v.a[0]) is False:
        return 'none'
    if v.op in BOOLISH and p.st.known(v) is False:
        return 'none'
    return None if murky(v) else f'{show(v)}'


BOOLISH = {'is', 'eq', 'lt', 'le', 'in', 'isinstance', 'issubclass', 'not', 'truthy'}


def check_type_check(ctx, R, w, short, ps, node):
    V = sym([a.arg for a in node.args.args if a.arg != 'self'][0])
    typ = T('typeof', V)
    org = A(SELF, 'origin')
    if short == 'NoneFiller':
        at = [('same', mk_is(V, NONE))]
        table = lambda v: 'exact' if v['same'] else 'none'
    elif short == 'EllipsisFiller':
        at = [('same', mk_is(V, K(Ellipsis)))]
        table = lambda v: 'exact' if v['same'] else 'none'
    elif short == 'CallableFiller':
        at = [('callable', T('callable', V))]
        table = lambda v: 'exact' if v['callable'] else 'none'
    elif short == 'LiteralFiller':
        pv = A(SELF, 'possible_values')
        at = [('known', T('in', typ, pv))]
        inst = None
        for p in ps:
            for k in p.facts:
                if k.op == 'isinstance' and k.a[0] is V and contains(k.a[1], lambda x: x is pv):
                    inst = k
        if inst is not None:
            at.append(('instance', inst))

        def table(v):
            if v['known']:
                return 'exact'
            if 'instance' not in v:
                return {'none', 'inexact'}
            return 'inexact' if v['instance'] else 'none'
    else:
        at = [('same', mk_is(typ, org)), ('instance', T('isinstance', V, org))]

        def table(v):
            if v['same']:
                return 'exact'
            return 'inexact' if v['instance'] else 'none'
    return ctx.decide(R, w, ps, at, table, lambda p: tc_value(ctx, p), node)


@rule('C02', 'pass-kinds', 'every success is reported with the way it really passed: exact, subtype, coerced or unchecked')
def pass_kinds(ctx):
    pass_kind_rule(ctx, 'pass-kinds')


@rule('C09', 'pass-kinds', 'every member reports the way a value really passed it: exact, subtype, coerced or unchecked')
def pass_kinds9(ctx):
    pass_kind_rule(ctx, 'pass-kinds')


def pass_kind_rule(ctx, R):
    ps = fill_paths(ctx)
    if ps is None:
        return
    w, node = 'AnnotatedFiller.fill', ctx.node('AnnotatedFiller', 'fill')

    def observe(p):
        if p.raises:
            return 'raise'
        s = success(p.value)
        if s is None or s[1] is None:
            return None
        k = s[1]
        if k.op == 'enum':
            return k.a[1]
        return show(k) if not murky(k) else None

    def table(v):
        if v['default']:
            return None
        if v['hollow']:
            return {'hollow', 'raise'}
        if v['exact'] and v['matched']:
            return {'no_coerce_strict', 'raise'}
        if v['inexact'] and v['matched'] and v['check']:
            return {'no_coerce', 'raise'}
        if acceptable(v) is None:
            return None
        return {'coerce', 'raise'}
    ctx.decide(R, w, ps, atoms_for(ctx, ARG), table, observe, node)


# -- C04: validators --------------------------------------------------------------------------------------------------
@rule('C04', 'validators-fold', 'the value returned is the accepted value passed through every validator in order')
def validators_fold(ctx):
    ps = fill_paths(ctx)
    if ps is None:
        return
    R = 'validators-fold'
    w, node = 'AnnotatedFiller.fill', ctx.node('AnnotatedFiller', 'fill')
    n = 0
    for p in ps:
        if not p.returns:
            continue
        s = success(p.value)
        if s is None:
            ctx.undec(R, w, f'returned value {show(p.value)} not recognised')
            return
        if murky(s[0]):
            ctx.undec(R, w, f'{show(s[0])}')
            return
        base, prob = peel(p, s[0])
        if prob:
            ctx.bad(R, w, f'{prob} (value {show(s[0])[:150]})', p.sig.node or node, p)
            return
        n += 1
    ctx.check(n > 0 or None, R, w, f'{n} successful paths', node)


@rule('C04', 'call-runs-fill', 'filling through a call runs the whole filling process; the only shortcut is a hollow '
      'filler without validators')
def call_runs_fill(ctx):
    R = 'call-runs-fill'
    h = member(ctx, 'TypeCheckStyle', 'hollow')
    n = 0
    for c, name, node in fill_defs(ctx, ['__call__']):
        ps = ctx.summ(c, '__call__', opaque=['fill'])
        if ps is None:
            continue
        w = f'{c.qual.rsplit(".", 1)[-1]}.__call__'
        full = None

        def observe(p):
            if p.raises:
                return 'raise'
            v = unver(p.value)
            if v is ARG:
                return 'argument'
            if is_attr(v, 'value') and is_call(v.a[0]) and is_attr(v.a[0].a[0], 'fill') and v.a[0].a[1] == (ARG,):
                return 'filled'
            if v.op == 'item' and is_call(v.a[0]) and is_attr(v.a[0].a[0], 'fill') and is_k(v.a[1], 0):
                return 'filled'
            return None if murky(v) else show(v)
        if ctx.decide(R, w, ps, [('hollow', mk_is(STYLE, h)), ('validators', T('truthy', VALIDATORS))],
                      lambda v: {'filled', 'argument'} if v['hollow'] and not v['validators'] else {'filled'},
                      observe, node):
            n += 1
    ctx.check(n > 0 or None, R, '__call__', f'{n} definitions')


@rule('C04', 'token-applied', 'a validation token appends exactly its own validator, a coercion token its own coercer, a '
      'style token sets the style; nothing else changes')
def token_applied(ctx):
    apply_rule(ctx, 'token-applied')


@rule('C03', 'token-applied', 'a coercion token appends exactly its own coercer after the ones declared before')
def token_applied3(ctx):
    apply_rule(ctx, 'token-applied')


@rule('C05', 'token-applied', 'a style token always sets the style, also if there was one before')
def token_applied5(ctx):
    apply_rule(ctx, 'token-applied')


def apply_rule(ctx, R):
    ps = ctx.summ('AnnotatedFiller', 'apply', opaque=['get_coercer', 'get_validator', '_as_instance'])
    w, node = 'AnnotatedFiller.apply', ctx.node('AnnotatedFiller', 'apply')
    if ps is None:
        return
    TOK = sym('token')

    def muts(p):
        out = []
        for e in all_events(p.events):
            if e.kind == 'call' and is_attr(e.a[0]) and e.a[0].a[1] in MUTATORS:
                out.append((e.a[0].a[1], unver(e.a[0].a[0]), e.a[1], e))
            elif e.kind in ('mut', 'iadd', 'setitem', 'delitem', 'delattr'):
                out.append((e.kind, unver(e.a[0]), e.a[1:], e))
            elif e.kind == 'setattr':
                out.append(('set', e.a[0], e.a[1:], e))
        return out

    def as_inst(p, cname):
        for k, v in p.facts.items():
            if k.op == 'is' and is_k(k.a[0], None) or k.op == 'is' and is_k(k.a[1], None):
                x = k.a[1] if is_k(k.a[0], None) else k.a[0]
                if is_call(x) and '_as_instance' in show(x.a[0]) and cname in show(x.a[1]):
                    return not v, x
        return None, None
    n = 0
    for p in ps:
        m = muts(p)
        if p.raises:
            continue
        own = p.st.known(T('truthy', A(SELF, 'owner')))
        notnone = p.st.known(mk_is(NONE, A(SELF, 'owner')))
        if own is not False and notnone is not True:
            ctx.bad(R, w, 'a token is applied to a filler that is already bound', node, p)
            return
        style = path_fact(p, lambda k: k.op == 'isinstance' and k.a[0] is TOK and 'TypeCheckStyle' in show(k.a[1]))
        ic, xc = as_inst(p, 'CoercionToken')
        iv, xv = as_inst(p, 'ValidationToken')
        if style:
            good = len(m) == 1 and m[0][0] == 'set' and is_k(m[0][2][0], 'type_checking_style') and m[0][2][1] is TOK
            what = 'a style token'
        elif ic:
            good = len(m) == 1 and m[0][0] == 'append' and m[0][1] is COERCERS and len(m[0][2]) == 1 and \
                is_call(m[0][2][0]) and is_attr(m[0][2][0].a[0], 'get_coercer') and m[0][2][0].a[1] == (xc,)
            what = 'a coercion token'
        elif iv:
            good = len(m) == 1 and m[0][0] == 'append' and m[0][1] is VALIDATORS and len(m[0][2]) == 1 and \
                is_call(m[0][2][0]) and is_attr(m[0][2][0].a[0], 'get_validator') and m[0][2][0].a[1] == (xv,)
            what = 'a validation token'
        else:
            if style is None or ic is None or iv is None:
                asked = [k for k in p.facts if contains(k, lambda y: y is TOK) and not (
                    k.op == 'isinstance' and k.a[0] is TOK and 'TypeCheckStyle' in show(k.a[1]) or
                    k.op == 'is' and any(x in (xc, xv) for x in k.a if x is not None))]
                if not m and not asked:
                    ctx.bad(R, w, 'a token is dropped without asking whether it is '
                            + ('a style' if style is None else 'a coercer' if ic is None else 'a validator'), node, p)
                else:
                    ctx.undec(R, w, 'what kind of token it is is not looked at')
                return
            good = not m
            what = 'any other token'
        if not good:
            ctx.bad(R, w, f'{what} does {[(x[0], show(x[1]), show(x[2])) for x in m]}', m[0][3].node if m else node, p)
            return
        n += 1
    ctx.check(n >= 4 or None, R, w, f'{n} paths', node)


def bind_paths(ctx, cls='AnnotatedFiller'):
    key = 'bind:' + cls
    if key not in ctx._cache:
        ctx._cache[key] = ctx.summ(cls, 'bind', opaque=['apply', 'default_type_check_style', 'is_hollow'])
    return ctx._cache[key]


@rule('C04', 'bind-applies-args', 'binding applies every annotation token of the field once, in order, while unbound')
def bind_applies(ctx):
    bind_rule(ctx, 'bind-applies-args')


@rule('C06', 'bind-applies-args', 'every annotation token of a field is offered to its filler')
def bind_applies6(ctx):
    bind_rule(ctx, 'bind-applies-args')


def bind_rule(ctx, R):
    ps = bind_paths(ctx)
    w, node = 'AnnotatedFiller.bind', ctx.node('AnnotatedFiller', 'bind')
    if ps is None:
        return
    ARGS = A(SELF, 'args')
    n = 0
    for p in ps:
        if not p.returns:
            continue
        ls = [e for e in p.events if e.kind == 'loop' and any(is_attr(x.a[0], 'apply') for ip in e.a[0].paths
                                                              for x in ip.events if x.kind == 'call')]
        if len(ls) != 1 or unver(ls[0].a[0].dom) is not ARGS:
            if not ls:
                ctx.bad(R, w, 'the tokens of the annotation are not applied', node, p)
            elif contains(ls[0].a[0].dom, lambda x: x is ARGS):
                ctx.bad(R, w, f'tokens are applied over {show(ls[0].a[0].dom)}', ls[0].node, p)
            else:
                ctx.undec(R, w, f'{len(ls)} loops apply tokens')
            return
        S = ls[0].a[0]
        for ip in S.paths:
            calls = [x for x in ip.events if x.kind == 'call' and is_attr(x.a[0], 'apply')]
            if not ip.goes_on or len(calls) != 1 or calls[0].a[0].a[0] is not SELF or \
                    unver(calls[0].a[1][0]).op != 'elem':
                ctx.bad(R, w, f'a token is applied {len(calls)} times', S.node, p)
                return
        evs = list(p.events)
        ow = [i for i, e in enumerate(evs) if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], 'owner')]
        if not ow:
            ctx.bad(R, w, 'the filler is not marked as bound', node, p)
            return
        if ow[0] < evs.index(ls[0]):
            ctx.bad(R, w, 'tokens are applied after the filler was marked as bound', evs[ow[0]].node, p)
            return
        n += 1
    ctx.check(n > 0 or None, R, w, f'{n} paths', node)


@rule('C05', 'style-resolved', 'a filler without a style of its own takes the class\'s default when bound, any other keeps '
      'its own')
def style_resolved(ctx):
    ps = bind_paths(ctx)
    R = 'style-resolved'
    w, node = 'AnnotatedFiller.bind', ctx.node('AnnotatedFiller', 'bind')
    if ps is None:
        return
    OWN = sym('owner_cls')
    isdef = mk_is(STYLE, member(ctx, 'TypeCheckStyle', 'default'))
    want = C(A(OWN, 'default_type_check_style'))

    def observe(p):
        s = [e for e in all_events(p.events) if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], 'type_checking_style')]
        if not s:
            return 'kept'
        if s[-1].a[2] is want or is_attr(s[-1].a[2], '_default_type_check_style', OWN):
            return 'class-default'
        if s[-1].a[2] is STYLE:
            return 'kept'
        return None if murky(s[-1].a[2]) else show(s[-1].a[2])
    rets = [p for p in ps if p.returns]
    # facts on the style may be about its value after the tokens were applied: match any version
    def isdef_t(p):
        for k in p.facts:
            if k.op == 'is' and unver(k) is isdef:
                return k
        return isdef
    ctx.decide(R, w, rets, [('default', isdef_t)], lambda v: 'class-default' if v['default'] else 'kept', observe, node)
    for c, name, nd in fill_defs(ctx, ['bind', '__init__', 'fill', 'apply']):
        for x in ast.walk(nd):
            if isinstance(x, ast.Attribute) and x.attr == 'type_checking_style' and isinstance(x.ctx, ast.Store):
                short = c.qual.rsplit('.', 1)[-1]
                ctx.check(short == 'AnnotatedFiller', R, f'{short}.{name}', 'the style is only set by AnnotatedFiller', x)


def of_style(x, val):
    """is x the style the filler has after binding"""
    return unver(x) is STYLE or unver(x) is unver(val)


@rule('C06', 'hollow-coercers-refused', 'a field without type checking that has coercers is refused when the class is made')
def hollow_coercers(ctx):
    ps = bind_paths(ctx)
    R = 'hollow-coercers-refused'
    w, node = 'AnnotatedFiller.bind', ctx.node('AnnotatedFiller', 'bind')
    if ps is None:
        return
    h, d = member(ctx, 'TypeCheckStyle', 'hollow'), member(ctx, 'TypeCheckStyle', 'default')
    OWN = sym('owner_cls')
    n = 0
    for p in ps:
        if not p.returns:
            continue
        s = [e for e in p.events if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], 'type_checking_style')]
        val = s[-1].a[2] if s else STYLE
        st = p.st
        coe = None
        hol = None
        for k, v in p.facts.items():
            if k.op == 'truthy' and unver(k.a[0]) is COERCERS:
                coe = v
            if k.op == 'is' and h in k.a and any(of_style(x, val) for x in k.a):
                hol = v if hol is None or v is False else hol
            if k.op == 'is' and v and h not in k.a and not any(is_k(x, None) for x in k.a) and \
                    any(of_style(x, val) for x in k.a) and any(x.op == 'enum' and x is not d for x in k.a):
                hol = False
        if coe is False or hol is False:
            n += 1
            continue
        if hol is None and any(murky(k) and 'style' in show(k) for k in p.facts):
            ctx.undec(R, w, 'how the style is looked at is not followed')
            return
        ctx.bad(R, w, 'a hollow field with coercers is accepted', node, p)
        return
    ctx.check(n > 0 or None, R, w, f'{n} accepting paths', node)


@rule('C06', 'strict-abstract-refused', 'strict checking of an abstract class is refused when the class is made')
def strict_abstract(ctx):
    R = 'strict-abstract-refused'
    ps = bind_paths(ctx, 'SimpleFiller')
    w, node = 'SimpleFiller.bind', ctx.node('SimpleFiller', 'bind')
    if ps is None:
        return
    st = member(ctx, 'TypeCheckStyle', 'check_strict')
    n = 0
    for p in ps:
        if not p.returns:
            continue
        strict = abstract = None
        s = [e for e in p.events if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], 'type_checking_style')]
        val = s[-1].a[2] if s else STYLE
        for k, v in p.facts.items():
            if k.op == 'is' and st in k.a and any(of_style(x, val) for x in k.a):
                strict = v
            if k.op == 'is' and v and any(of_style(x, val) for x in k.a) and any(
                    x.op == 'enum' and x is not st and not x.a[1] == 'default' for x in k.a):
                strict = False
            if contains(k, lambda x: is_call(x) and 'isabstract' in show(x.a[0]) and x.a[1] == (A(SELF, 'origin'),)):
                abstract = v if k.op == 'truthy' else abstract
        if strict is False or abstract is False:
            n += 1
            continue
        ctx.bad(R, w, 'a strict check of an abstract class is accepted', node, p)
        return
    ctx.check(n > 0 or None, R, w, f'{n} accepting paths', node)


@rule('C06', 'bound-once', 'a filler is bound once and takes no token afterwards')
def bound_once(ctx):
    R = 'bound-once'
    for name in ('bind', 'apply'):
        ps = ctx.summ('Filler', name)
        w, node = f'Filler.{name}', ctx.node('Filler', name)
        if ps is None:
            continue
        for p in ps:
            ok = p.raises or p.st.known(T('truthy', A(SELF, 'owner'))) is False or \
                p.st.known(mk_is(NONE, A(SELF, 'owner'))) is True
            if not ok:
                ctx.bad(R, w, f'{name} is accepted although the filler is bound', node, p)
                break
            if p.returns and name == 'bind':
                s = [e for e in p.events if e.kind == 'setattr' and is_k(e.a[1], 'owner') and e.a[2] is sym('owner_cls')]
                if not s:
                    ctx.bad(R, w, 'bind does not mark the filler as bound', node, p)
                    break
        else:
            ctx.ok(R, w, f'{len(ps)} paths')
    # every override reaches the base
    for c, name, nd in fill_defs(ctx, ['bind']):
        short = c.qual.rsplit('.', 1)[-1]
        if short == 'Filler':
            continue
        ps = ctx.summ(c, 'bind', opaque=['apply', 'is_hollow', 'default_type_check_style', 'get_filler',
                                         'get_annotated_filler'])
        if ps is None:
            continue
        for p in ps:
            if p.returns and not any(e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], 'owner') for e in p.events):
                ctx.bad(R, f'{short}.bind', 'does not mark the filler as bound', nd, p)
                break
        else:
            ctx.ok(R, f'{short}.bind', f'{len(ps)} paths')


@rule('C06', 'unknown-type-refused', 'a type that cannot be interpreted takes no token, and no type check')
def unknown_type(ctx):
    R = 'unknown-type-refused'
    ps = ctx.summ('DumbFiller', 'bind', opaque=['default_type_check_style'])
    w, node = 'DumbFiller.bind', ctx.node('DumbFiller', 'bind')
    h = member(ctx, 'TypeCheckStyle', 'hollow')
    for p in ps or ():
        if p.returns:
            t = [v for k, v in p.facts.items() if k.op == 'is' and h in k.a and
                 any('default_type_check_style' in show(x) for x in k.a)]
            if t != [True]:
                ctx.bad(R, w, 'accepts a class with type checking', node, p)
                break
    else:
        ctx.check(bool(ps) or None, R, w, f'{len(ps or ())} paths', node)
    ps = ctx.summ('DumbFiller', 'apply')
    for p in ps or ():
        if p.returns:
            ctx.bad(R, 'DumbFiller.apply', 'accepts a token', ctx.node('DumbFiller', 'apply'), p)
            break
    else:
        ctx.check(bool(ps) or None, R, 'DumbFiller.apply', f'{len(ps or ())} paths raise')


@rule('C05', 'hollow-reported', 'a filler reports itself hollow exactly if its style is hollow')
def hollow_reported(ctx):
    R = 'hollow-reported'
    ps = ctx.summ('AnnotatedFiller', 'is_hollow')
    w, node = 'AnnotatedFiller.is_hollow', ctx.node('AnnotatedFiller', 'is_hollow')
    hol = mk_is(STYLE, member(ctx, 'TypeCheckStyle', 'hollow'))
    if ps is None:
        return

    def observe(p):
        v = p.value if p.returns else None
        if v is None:
            return 'error'
        k = p.st.known(v) if v.op in BOOLISH else (bool(kval(v)) if is_k(v) else None)
        return {True: 'hollow', False: 'not hollow'}.get(k, 'same' if v is hol else
                                                         'same' if v.op == 'bool' and v.a[0] is hol else
                                                         None if murky(v) else show(v))
    ctx.decide(R, w, ps, [('hollow', hol)],
               lambda v: {'hollow', 'same'} if v['hollow'] else ({'not hollow', 'same'} if not v.get('validators') else None),
               observe, node)
