"""Creation of record classes: RecordBase.__init_subclass__ (C05, C06, C10, C12, C16, C20, C21)."""
from .base import *

W = 'RecordBase.__init_subclass__'
OWN_ANN = T('item', A(CLS, '__dict__'), K('__annotations__'))


def subclass_paths(ctx):
    if 'sub' not in ctx._cache:
        ctx._cache['sub'] = ctx.summ('RecordBase', '__init_subclass__',
                                     opaque=['RecordField.from_type_hint', 'get_type_hints', 'RecordBase.pre_bind',
                                             'pre_bind'])
    return ctx._cache['sub']


def snode(ctx):
    return ctx.node('RecordBase', '__init_subclass__')


def cls_sets(p, name):
    return [e for e in p.events if e.kind == 'setattr' and e.a[0] is CLS and is_k(e.a[1], name)]


def final(p, name):
    s = cls_sets(p, name)
    return s[-1].a[2] if s else None


def flag_rule(prop, rname, attr, param, text):
    @rule(prop, rname, text)
    def f(ctx):
        ps = subclass_paths(ctx)
        if ps is None:
            return
        P = sym(param)
        n = 0
        for p in ps:
            if not p.returns:
                continue
            v = final(p, attr)
            if v is None:
                ctx.bad(rname, W, f'a class does not record its own {param!r} (it inherits the one of its parent)', snode(ctx), p)
                return
            if not (v is P or v is T('bool', P) or is_k(v) and p.st.known(T('truthy', P)) is bool(kval(v))):
                ctx.bad(rname, W, f'{param!r} is recorded as {show(v)}', cls_sets(p, attr)[-1].node, p)
                return
            n += 1
        ctx.check(n > 0 or None, rname, W, f'{n} paths record {param!r}', snode(ctx))
    return f


flag_rule('C10', 'frozen-recorded', '_frozen', 'frozen', 'every class records whether it is frozen itself')
flag_rule('C12', 'ordered-recorded', '_ordered', 'ordered', 'every class records whether it is ordered itself')
flag_rule('C05', 'style-recorded', '_default_type_check_style', 'default_type_check',
          'every class records its own default type check style')


def default_of_param(ctx, name):
    a = snode(ctx).args
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg == name:
            return ast.unparse(d) if d is not None else None
    pos = a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if p.arg == name:
            return ast.unparse(d)
    return None


@rule('C10', 'frozen-default', 'classes are not frozen unless they say so')
def frozen_default(ctx):
    d = default_of_param(ctx, 'frozen')
    ctx.check(d == 'False' if d else None, 'frozen-default', W, f'default of frozen is {d}', snode(ctx))


@rule('C12', 'ordered-default', 'classes are not ordered unless they say so')
def ordered_default(ctx):
    d = default_of_param(ctx, 'ordered')
    ctx.check(d == 'False' if d else None, 'ordered-default', W, f'default of ordered is {d}', snode(ctx))


@rule('C05', 'style-default', 'the default type check style of a class is hollow')
def style_default(ctx):
    d = default_of_param(ctx, 'default_type_check')
    ctx.check(d.endswith('hollow') if d else None, 'style-default', W, f'default is {d}', snode(ctx))


@rule('C05', 'style-reported', 'default_type_check_style reports the style of the class itself')
def style_reported(ctx):
    getter(ctx, 'style-reported', 'default_type_check_style', '_default_type_check_style')


@rule('C10', 'frozen-reported', 'is_frozen reports the flag of the class itself')
def frozen_reported(ctx):
    getter(ctx, 'frozen-reported', 'is_frozen', '_frozen')


def getter(ctx, R, method, attr):
    ps = ctx.summ('RecordBase', method)
    w = f'RecordBase.{method}'
    if ps is None:
        return
    for p in ps:
        v = p.value if p.returns else None
        if v is A(CLS, attr) or v is T('bool', A(CLS, attr)) or \
                v is not None and is_k(v, True, False) and p.st.known(T('truthy', A(CLS, attr))) is kval(v):
            continue
        ctx.bad(R, w, f'reports {p.sig}', p.sig.node, p)
        return
    ctx.ok(R, w, f'{len(ps)} paths')


# -- frozen classes ---------------------------------------------------------------------------------------------------
@rule('C10', 'setters-installed', 'a frozen class gets the refusing __setattr__/__delattr__ and a hash, any other class '
      'the plain ones and no hash')
def setters(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    fz = T('truthy', sym('frozen'))
    n = 0
    for p in ps:
        if not p.returns:
            continue
        k = p.st.known(fz)
        got = {a: final(p, a) for a in ('__setattr__', '__delattr__', '__hash__')}
        if k is None:
            # a conditional value the analysis did not split
            ctx.bad('setters-installed', W, 'the setters do not depend on whether the class is frozen', snode(ctx), p)
            return
        for a, v in got.items():
            if v is None:
                ctx.bad('setters-installed', W, f'{a} of a {"frozen" if k else "mutable"} class is whatever it inherits or '
                        f'defines', snode(ctx), p)
                return
            rec = owner_of(ctx, v, a)
            if k:
                good = rec == 'RecordBase'
            elif a == '__hash__':
                good = is_k(v, None)
            else:
                good = rec == 'object'
            if not good:
                if murky(v):
                    ctx.undec('setters-installed', W, f'{a} = {show(v)}')
                    return
                ctx.bad('setters-installed', W, f'{a} of a {"frozen" if k else "mutable"} class is {show(v)}',
                        [e.node for e in cls_sets(p, a)][-1], p)
                return
        n += 1
    ctx.check(n > 0 or None, 'setters-installed', W, f'{n} paths', snode(ctx))


def owner_of(ctx, v, name):
    """'RecordBase' / 'object' if v is that class's own method"""
    if v is A(G('builtins.object'), name):
        return 'object'
    if v.op == 'sm' and v.a[1] == name or v.op == 'sm' and name in [str(x) for x in v.a]:
        return 'RecordBase'
    if v.op == 'fn' or is_attr(v, name):
        return 'RecordBase' if 'RecordBase' in show(v) else None
    if 'RecordBase' in show(v) and name in show(v):
        return 'RecordBase'
    return None


@rule('C10', 'setattr-refuses', 'assignment on a frozen instance raises for every name except the hash cache')
def setattr_refuses(ctx):
    ps = ctx.summ('RecordBase', '__setattr__')
    w, node = 'RecordBase.__setattr__', ctx.node('RecordBase', '__setattr__')
    if ps is None:
        return
    slots = ctx.P.cls_named('RecordBase').attrs.get('__slots__')
    names = None
    if slots is not None:
        try:
            names = ast.literal_eval(slots)
            names = (names,) if isinstance(names, str) else tuple(names)
        except Exception:
            names = None
    ctx.check(names == ('_hash',) if names is not None else None, 'setattr-refuses', 'RecordBase.__slots__',
              f'the only slot is the hash cache ({names})', slots)
    NAME = sym(node.args.args[1].arg)
    for p in ps:
        eff = [e for e in p.events if e.kind in ('setattr', 'delattr', 'dictupdate', 'setitem') or
               e.kind == 'call' and is_attr(e.a[0], '__setattr__')]
        is_cache = None
        for k, v in p.facts.items():
            if k.op == 'in' and k.a[0] is NAME and (show(k.a[1]) == 'RecordBase.__slots__' or is_attr(k.a[1], '__slots__') and
                                                    k.a[1].a[0].op == 'class' or show(k.a[1]) in ("('_hash',)",)):
                is_cache = is_cache or v
            if k.op == 'eq' and NAME in k.a and any(is_k(x, '_hash') for x in k.a):
                is_cache = is_cache or v
        if eff and is_cache is not True:
            ctx.bad('setattr-refuses', w, 'assigns an attribute that is not the hash cache', eff[0].node, p)
            return
        if p.returns and is_cache is not True:
            ctx.bad('setattr-refuses', w, 'returns without an error', p.sig.node or node, p)
            return
    ctx.ok('setattr-refuses', w, f'{len(ps)} paths')


@rule('C10', 'delattr-refuses', 'deleting an attribute of a frozen instance always raises')
def delattr_refuses(ctx):
    c = ctx.P.cls_named('RecordBase')
    w = 'RecordBase.__delattr__'
    if '__delattr__' not in c.attrs:
        ctx.bad('delattr-refuses', w, 'a frozen class has no __delattr__ that refuses', c.node)
        return
    ps = ctx.summ('RecordBase', '__delattr__')
    if ps is None:
        return
    for p in ps:
        if p.returns or any(e.kind in ('delattr', 'setattr') for e in p.events):
            ctx.bad('delattr-refuses', w, 'does not refuse on every path', p.sig.node or c.node, p)
            return
    ctx.ok('delattr-refuses', w, f'{len(ps)} paths raise')


# -- fields -----------------------------------------------------------------------------------------------------------
def hint_loops(p):
    return [e for e in p.events if e.kind == 'loop' and 'get_type_hints' in show(e.a[0].dom)]


def is_fth(t):
    return is_call(t) and is_attr(t.a[0], 'from_type_hint') or is_call(t) and 'from_type_hint' in show(t.a[0])


@rule('C20', 'own-fields', 'the fields a class adds are exactly its own annotated names, except those marked to be skipped')
def own_fields(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    R = 'own-fields'
    n = 0
    for p in ps:
        has_ann = path_fact(p, lambda k: k.op == 'in' and is_k(k.a[0], '__annotations__') and k.a[1] is A(CLS, '__dict__'))
        ls = hint_loops(p)
        if not ls:
            if p.returns and has_ann is not False:
                ctx.bad(R, W, 'type hints are not looked at', snode(ctx), p)
                return
            continue
        for le in ls:
            S = le.a[0]
            for ip in S.paths:
                own = None
                for k, v in ip.facts.items():
                    if k.op == 'in' and '__annotations__' in show(k.a[1]) and unver(k.a[0]).op in ('elem', 'key'):
                        own = v
                adds = [e for e in ip.events if e.kind == 'setitem' and 'FieldDict' in show(e.a[0])]
                adds += [e for e in ip.events if e.kind == 'setitem' and e not in adds and contains(e.a[2], is_fth)]
                sets = [e for e in ip.events if e.kind == 'setattr' and e.a[0] is CLS]
                ops = [o for v in ip.ops.values() for o in v if o[0] == 'set' and contains(o[2], is_fth)]
                added = bool(adds) or bool(ops)
                skip = None
                for k, v in ip.facts.items():
                    if k.op == 'is' and any(x.op == 'sentinel' and 'SKIP_FIELD' in show(x) for x in k.a):
                        skip = v
                calls = [e for e in ip.events if e.kind == 'call' and is_fth(e.a[3])]
                if not ip.goes_on:
                    continue
                if own is not True and (has_ann or own is False):
                    if added:
                        ctx.bad(R, W, 'a name annotated only in a parent becomes a field of the class', S.node, p)
                        return
                    continue
                if own is None and has_ann is False:
                    if added:
                        ctx.bad(R, W, 'a class without annotations of its own gets fields', S.node, p)
                        return
                    continue
                if not calls:
                    ctx.bad(R, W, 'an annotated name is passed over without asking whether it is a field', S.node, p)
                    return
                if skip is None:
                    ctx.bad(R, W, 'whether the name is to be skipped is not looked at', S.node, p)
                    return
                if skip and (added or sets):
                    ctx.bad(R, W, 'a skipped name becomes a field', S.node, p)
                    return
                if not skip and not added:
                    ctx.bad(R, W, 'an annotated name does not become a field', S.node, p)
                    return
                c = calls[0].a[3]
                kw = dict(calls[0].a[2])
                key = T('elem', S.dom, S.L)
                if added:
                    for e in adds:
                        if e.a[1] is not kw.get('name') or e.a[2] is not c:
                            ctx.bad(R, W, 'a field is registered under another name than its own', e.node, p)
                            return
                    if not any(is_k(e.a[1]) is False and e.a[1] is kw.get('name') and e.a[2] is c for e in sets):
                        ctx.bad(R, W, 'the field does not replace the class attribute of its name', S.node, p)
                        return
                if kw.get('owner') is not CLS:
                    ctx.bad(R, W, 'the field is not owned by the class', calls[0].node, p)
                    return
                n += 1
    ctx.check(n > 0 or None, R, W, f'{n} iteration paths over the annotations', snode(ctx))


@rule('C21', 'default-found', 'the default of a field is the class attribute of its name, or none')
def default_found(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    R = 'default-found'
    n = 0
    for p in ps:
        for le in hint_loops(p):
            for ip in le.a[0].paths:
                for e in ip.events:
                    if e.kind == 'call' and is_fth(e.a[3]):
                        kw = dict(e.a[2])
                        d, nm = kw.get('default'), kw.get('name')
                        good = d is not None and is_call(d) and 'getattr_static' in show(d.a[0]) and \
                            d.a[1][:2] == (CLS, nm) and len(d.a[1]) == 3 and 'NO_DEFAULT' in show(d.a[1][2])
                        if not good:
                            d2 = d is not None and contains(d, lambda x: x is A(CLS, '__dict__')) or d is not None and \
                                contains(d, lambda x: x.op == 'getattr')
                            if d2 or murky(d) or d is not None and d.op not in ('call', 'sentinel', 'k'):
                                ctx.undec(R, W, f'default is {show(d)}')
                            else:
                                ctx.bad(R, W, f'the default is {show(d) if d is not None else None}', e.node, p)
                            return
                        n += 1
    ctx.check(n > 0 or None, R, W, f'{n} field constructions', snode(ctx))


def out_of_order(dom):
    """is a loop over the parents, or over the fields of one, in another order than theirs"""
    def turned(x):
        f = x.a[0] if is_call(x) else None
        return x.op in ('reversed', 'sorted') or f in (G('builtins.reversed'), G('builtins.sorted'), G('builtins.set'),
                                                       G('builtins.frozenset')) or \
            x.op == 'slice' and '-1' in show(x)
    return contains(dom, turned) and contains(dom, lambda x: x is A(CLS, '__bases__') or is_attr(x, '_fields'))


@rule('C20', 'inherit-fields', 'every field of every record parent is inherited; a name defined twice is refused')
def inherit(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    R = 'inherit-fields'
    n = 0
    for p in ps:
        if not p.returns:
            continue
        outer = [e for e in p.events if e.kind == 'loop' and unver(e.a[0].dom) is A(CLS, '__bases__')]
        for e in all_loops(p.events):
            turned = out_of_order(e.a[0].dom)
            if turned and any(x.kind == 'setitem' or x.kind == 'loop' for ip in e.a[0].paths for x in ip.events) or \
                    turned and any(o[0] == 'set' for ip in e.a[0].paths for v in ip.ops.values() for o in v):
                ctx.bad(R, W, f'fields are inherited in the order of {show(e.a[0].dom)[:80]}', e.a[0].node, p)
                return
        seen = False
        for le in outer:
            S = le.a[0]
            for ip in S.paths:
                if not ip.goes_on:
                    continue
                inner = [e for e in ip.events if e.kind == 'loop' and is_attr(unver(e.a[0].dom), '_fields')]
                fs = {k: v for k, v in ip.facts.items()}
                isrec = [v for k, v in fs.items() if k.op == 'issubclass' and 'RecordBase' in show(k.a[1])]
                isbase = [v for k, v in fs.items() if k.op == 'is' and any('RecordBase' in show(x) for x in k.a)]
                if inner and isrec == [True] and isbase and isbase[-1] is False:
                    seen = True
                elif inner and (isrec == [False] or isbase and isbase[-1] is True):
                    ctx.bad(R, W, 'fields are taken from something that is no record class', S.node, p)
                    return
                for e in inner:
                    S2 = e.a[0]
                    for ip2 in S2.paths:
                        k = T('elem', S2.dom, S2.L)
                        ins = [(f, v) for f, v in ip2.facts.items() if f.op == 'in' and f.a[0].op == 'elem']
                        if ip2.goes_on:
                            own = any(not v and 'FieldDict' in show(f.a[1]) for f, v in ins)
                            par = any(not v and unver(f.a[1]).op == 'obj' for f, v in ins)
                            ops = [o for v in ip2.ops.values() for o in v if o[0] == 'set']
                            adds = ops or [x for x in ip2.events if x.kind == 'setitem']
                            if not adds:
                                ctx.bad(R, W, 'an inherited field is dropped', S2.node, p)
                                return
                            if not own:
                                ctx.bad(R, W, 'a field may override an inherited one silently', S2.node, p)
                                return
                            if not par and not any(not v and unver(f.a[1]) is not None and 'FieldDict' not in show(f.a[1])
                                                   for f, v in ins):
                                ctx.bad(R, W, 'two parents may define the same field silently', S2.node, p)
                                return
                            for o in ops:
                                if unver(o[1]) is not unver(k) or unver(o[2]) is not unver(T('item', S2.dom, k)):
                                    ctx.bad(R, W, f'inherits {show(o[2])} as {show(o[1])}', S2.node, p)
                                    return
        if not seen and any(e.kind == 'loop' for e in p.events):
            if any(contains(e.a[0].dom, lambda x: x is A(CLS, '__bases__')) or 'mro' in show(e.a[0].dom) for e in all_loops(p.events)):
                allowed = [ip for le in outer for ip in le.a[0].paths]
                if not any(True for le in outer for ip in le.a[0].paths for e in ip.events if e.kind == 'loop'):
                    ctx.undec(R, W, 'how parent fields are collected is not recognised')
                    return
                continue
            ctx.undec(R, W, 'no loop over the parents')
            return
        n += 1
    ctx.check(n > 0 or None, R, W, f'{n} paths inherit', snode(ctx))


@rule('C20', 'fields-merged', 'inherited fields come first, then the class\'s own; the result keeps attribute access')
def merged(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    R = 'fields-merged'
    n = 0
    for p in ps:
        if not p.returns:
            continue
        sets = cls_sets(p, '_fields')
        if not sets:
            ctx.bad(R, W, 'the class does not record fields of its own', snode(ctx), p)
            return
        v = sets[-1].a[2]
        if not is_call(v) or 'FieldDict' not in show(v.a[0]):
            if murky(v):
                ctx.undec(R, W, show(v))
            else:
                ctx.bad(R, W, f'the fields are kept in {show(v)}', sets[-1].node, p)
            return
        par = None
        for k, b in p.facts.items():
            if k.op == 'truthy' and unver(k.a[0]).op == 'obj' and any(o[0] == 'loop' and unver(o[1].dom) is A(CLS, '__bases__')
                                                                     for o in (p.st.h(unver(k.a[0])).log if p.st.h(unver(k.a[0])) else ())):
                par = (unver(k.a[0]), b)
        if len(sets) > 1 or v.a[1] or v.a[2]:
            src = [x for x in v.a[1]] + [x for k, x in v.a[2]]
            objs = []
            for x in src:
                h = p.st.h(unver(x))
                if h is None:
                    continue
                for o in h.log:
                    if o[0] in ('upd', 'ext'):
                        objs.append(unver(o[1]))
                    elif o[0] == 'loop':
                        objs.append(unver(o[1].dom))
            names = [('own' if 'FieldDict' in show(o) else 'parent') for o in objs]
            if 'own' not in names and any(e.kind == 'setitem' and 'FieldDict' in show(e.a[0]) for e in all_events(p.events)):
                ctx.bad(R, W, 'the class\'s own fields are lost when fields are inherited', sets[-1].node, p)
                return
            if 'parent' in names and 'own' in names and names.index('own') < names.index('parent'):
                ctx.bad(R, W, 'own fields come before inherited ones', sets[-1].node, p)
                return
        elif par is not None and par[1]:
            upd = [e for e in p.events if e.kind in ('mut', 'call') and 'FieldDict' in show(e.a[0])]
            if not any(is_attr(e.a[0], 'update') for e in upd if e.kind == 'call'):
                ctx.bad(R, W, 'inherited fields are not kept', sets[-1].node, p)
                return
        n += 1
    ctx.check(n > 0 or None, R, W, f'{n} paths', snode(ctx))


@rule('C20', 'bind-own', 'every own field is bound to the class exactly once, after pre_bind; inherited fields never again')
def bind_own(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    R = 'bind-own'
    n = 0

    def is_bind(e):
        return e.kind == 'call' and is_attr(e.a[0], 'bind') and is_attr(e.a[0].a[0], 'filler')
    for p in ps:
        if not p.returns:
            continue
        ls = [e for e in p.events if e.kind == 'loop' and any(is_bind(x) for ip in e.a[0].paths for x in ip.events)]
        if len(ls) != 1:
            if not ls:
                ctx.bad(R, W, 'the fillers of the class are not bound', snode(ctx), p)
            else:
                ctx.bad(R, W, 'fillers may be bound twice', ls[1].node, p)
            return
        S = ls[0].a[0]
        for ip in S.paths:
            own = None
            for k, v in ip.facts.items():
                if k.op == 'is' and CLS in k.a and any(is_attr(x, 'owner') for x in k.a):
                    own = v
            b = [e for e in ip.events if is_bind(e)]
            if not ip.goes_on:
                ctx.bad(R, W, 'binding stops before all fields are bound', S.node, p)
                return
            if own is None and 'FieldDict' in show(S.dom):
                ctx.bad(R, W, 'inherited fields are bound again (or own ones are not)', S.node, p)
                return
            if own and len(b) != 1 or own is False and b:
                ctx.bad(R, W, f'an {"own" if own else "inherited"} field is bound {len(b)} times', S.node, p)
                return
            for e in b:
                if e.a[1] != (CLS,):
                    ctx.bad(R, W, f'bound to {show(e.a[1])}', e.node, p)
                    return
        evs = list(p.events)
        pre = [i for i, e in enumerate(evs) if e.kind == 'call' and is_attr(e.a[0], 'pre_bind')]
        if len(pre) != 1:
            ctx.bad(R, W, f'pre_bind is called {len(pre)} times', snode(ctx), p)
            return
        if pre[0] > evs.index(ls[0]):
            ctx.bad(R, W, 'pre_bind is called after the fields are bound', evs[pre[0]].node, p)
            return
        reg = [i for i, e in enumerate(evs) if e.kind == 'setattr' and e.a[0] is CLS and is_k(e.a[1], '_fields')]
        if reg and reg[-1] > pre[0]:
            ctx.bad(R, W, 'pre_bind runs before the fields are known', evs[pre[0]].node, p)
            return
        n += 1
    ctx.check(n > 0 or None, R, W, f'{n} paths', snode(ctx))


@rule('C20', 'no-fields-refused', 'a class without any field is refused')
def no_fields(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    n = 0
    for p in ps:
        if not p.returns:
            continue
        last = final(p, '_fields')
        ok = False
        for k, v in p.facts.items():
            if k.op == 'truthy' and 'FieldDict' in show(unver(k.a[0])) and v:
                ok = True
            if k.op == 'truthy' and is_attr(unver(k.a[0]), '_fields', CLS) and v:
                ok = True
        if not ok:
            ctx.bad('no-fields-refused', W, 'a class without fields is accepted', snode(ctx), p)
            return
        n += 1
    ctx.check(n > 0 or None, 'no-fields-refused', W, f'{n} paths', snode(ctx))


@rule('C20', 'only-record-init', 'no initializer of a class or of a mixin ever runs')
def only_init(ctx):
    init_rule(ctx, 'only-record-init')


@rule('C01', 'init-overridden', 'no initializer of a class or of a mixin can change what construction stored')
def only_init1(ctx):
    init_rule(ctx, 'init-overridden')


def init_rule(ctx, R):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    n = 0
    for p in ps:
        if not p.returns:
            continue
        v = final(p, '__init__')
        if v is None or owner_of(ctx, v, '__init__') != 'RecordBase':
            ctx.bad(R, W, f'__init__ of a record class is {show(v) if v is not None else "whatever it inherits"}', snode(ctx), p)
            return
        n += 1
    ctx.check(n > 0 or None, R, W, f'{n} paths install the empty initializer', snode(ctx))


@rule('C21', 'required-optional', 'a field is required exactly if it has no default; every field is required or optional')
def partition(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    R = 'required-optional'
    n = 0
    for p in ps:
        if not p.returns:
            continue
        req, opt = final(p, '_required_keys'), final(p, '_optional_keys')
        if req is None or opt is None:
            ctx.bad(R, W, 'the required or optional names are not recorded per class', snode(ctx), p)
            return
        for nm, t, want in (('required', req, False), ('optional', opt, True)):
            r = set_of_fields(ctx, p, t, want, unver(req))
            if r is None:
                ctx.undec(R, W, f'{nm} = {show(t)}')
                return
            if r is not True:
                ctx.bad(R, W, f'{nm} names: {r}', snode(ctx), p)
                return
        n += 1
    ctx.check(n > 0 or None, R, W, f'{n} paths', snode(ctx))


def has_default_of(facts):
    for k, v in facts.items():
        if k.op == 'truthy' and is_attr(k.a[0], 'has_default') and k.a[0].a[0].op == 'item':
            return v
    return None


def set_of_fields(ctx, p, t, want, req):
    """does the set hold exactly the fields with has_default == want"""
    t = unver(t)
    if t.op == 'call' and t.a[0].op == 'glob' and t.a[0].a[0] in ('builtins.frozenset', 'builtins.set') and len(t.a[1]) == 1:
        t = unver(t.a[1][0])
    if t.op == 'bin' and t.a[0] == '-' and want and unver(t.a[2]) is req:
        return True if 'FieldDict' in show(t.a[1]) or is_attr(unver(t.a[1]), '_fields') else None
    h = p.st.h(t)
    if h is None:
        return None
    lps = [o for o in h.log if o[0] == 'loop']
    if len(lps) != 1 or len(h.log) != 1:
        return None
    S, o = lps[0][1], lps[0][2]
    if 'FieldDict' not in show(S.dom) and not is_attr(unver(S.dom), '_fields'):
        return None
    for ip in S.paths:
        if not ip.goes_on:
            return 'the fields are not all looked at'
        ops = next((list(v) for k, v in ip.ops.items() if k is o), [])
        hd = has_default_of(ip.facts)
        if hd is None:
            inreq = [v for k, v in ip.facts.items() if k.op == 'in' and unver(k.a[1]) is req]
            if inreq:
                hd = not inreq[0]
        if hd is None:
            return 'do not depend on whether the field has a default'
        if bool(ops) != (hd is want):
            return f'a field {"with" if hd else "without"} default is {"counted" if ops else "left out"}'
        for x in ops:
            if unver(x[1]) is not unver(T('elem', S.dom, S.L)):
                return f'{show(x[1])} is counted'
    return True


@rule('C16', 'parsers-collected', 'the parsers of a class are exactly the attributes marked as parsers, bound to the class')
def parsers(ctx):
    ps = subclass_paths(ctx)
    if ps is None:
        return
    R = 'parsers-collected'
    n = 0
    for p in ps:
        if not p.returns:
            continue
        v = final(p, '_parsers')
        if v is None:
            ctx.bad(R, W, 'a class shares the parsers of its parent', snode(ctx), p)
            return
        h = p.st.h(unver(v))
        lps = [o for o in h.log if o[0] == 'loop'] if h else []
        if len(lps) != 1:
            ctx.undec(R, W, f'parsers = {show(v)}')
            return
        S, o = lps[0][1], lps[0][2]
        if 'builtins.dir' not in show(S.dom):
            ctx.undec(R, W, f'parsers are looked up in {show(S.dom)}')
            return
        for ip in S.paths:
            ops = next((list(x) for k, x in ip.ops.items() if k is o), [])
            mark = None
            for k, b in ip.facts.items():
                if k.op == 'truthy' and is_attr(k.a[0], '__parser__'):
                    mark = b
                if k.op == 'raises' and b and is_attr(k.a[0], '__parser__'):
                    mark = False
            if not ip.goes_on:
                ctx.bad(R, W, 'the search for parsers stops early', S.node, p)
                return
            if mark is None or bool(ops) != mark:
                ctx.bad(R, W, 'an attribute is collected although it is not marked as a parser' if ops else
                        'a parser is not collected', S.node, p)
                return
            for x in ops:
                el = T('elem', S.dom, S.L)
                if x[0] != 'one' or not (x[1].op in ('getattr', 'attr') and x[1].a[0] is CLS):
                    ctx.bad(R, W, f'{show(x[1])} is collected', S.node, p)
                    return
        n += 1
    ctx.check(n > 0 or None, R, W, f'{n} paths', snode(ctx))
