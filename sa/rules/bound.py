"""Factories and exporters: what a bound one does when called, and that deriving one leaves the others alone (C15)."""
from .base import *
from .selects import seq_ops

DESC, OWNER, INST = sym('DESC'), sym('OWNER'), sym('INST')
XARGS, XKW, SEL = sym('XARGS'), sym('XKW'), sym('SEL')
A1, K1, SELS, K2 = sym('ARGS'), sym('KWARGS'), sym('SELECTS'), sym('MORE')
FACTORIES = ['SelectableFactory', 'SpecializedSelectableFactory', 'SelectableShortcutFactory', 'SpecializedShortcutFactory']
EXPORTERS = ['Exporter', 'NoArgExporter']


def descriptor_classes(ctx):
    out = []
    roots = [ctx.P.cls_named(n) for n in ('SelectableFactory', 'Exporter')]
    for c in ctx.P.classes.values():
        if c.name in FACTORIES + EXPORTERS and any(r in c.mro() for r in roots):
            out.append(c)
    return out


def stored_as(ctx, c, pred):
    """names of the attributes of a descriptor in which its initializer keeps a value satisfying pred"""
    names = set()
    for p in ctx.summ(c, '__init__') or []:
        for (b, n), v in p.st.over.items():
            if b is SELF and pred(v):
                names.add(n)
    return names


def bound_objects(ctx, c):
    """[(case, bound object, its class, state, interp)]"""
    key = ('bound', c.qual)
    if key in ctx._cache:
        return ctx._cache[key]
    inl = [k.qual for k in ctx.P.classes.values() if k.module == c.module and k is not c and '.' in k.qual[len(
        getattr(k.module, 'name', '')) + 1:]]
    out = []
    for case, inst in (('class', NONE), ('instance', INST)):
        I = ctx.interp(opaque=['Select.merge'], inline_attrs=inl)
        st = I.new_state()
        st.facts = dict(st.facts)
        st = st.assume(mk_is(INST, NONE), False) or st
        st.types[DESC] = ('inst', c)
        try:
            ps = I.run_method(c, '__get__', args=[inst, OWNER], st=st, recv=DESC)
        except Limit:
            continue
        ctx.note(I, ps)
        for p in ps:
            if p.raises:
                continue
            out.append((case, p.value, p, I))
    ctx._cache[key] = out
    return out


def roles(p, o):
    r = {}
    for (b, n), v in p.st.over.items():
        if b is not o:
            continue
        u = unver(v)
        if u is DESC:
            r[n] = 'descriptor'
        elif u is OWNER or u is INST:
            r[n] = 'owner'
        elif is_empty_select(u):
            r[n] = 'select'
        elif u.op == 'tuple' and not u.a[0] or u.op == 'empty':
            r[n] = 'args'
        elif p.st.h(u) is not None and p.st.h(u).kind == 'dict' and not p.st.h(u).log:
            r[n] = 'kwargs'
    return r


def select_ctor(u):
    return is_call(u) and u.a[0].op == 'class' and u.a[0].a[0].endswith('.Select')


def is_empty_select(u):
    if select_ctor(u):
        return not u.a[1] and not u.a[2]
    return u.op == 'attr' and u.a[1] == 'empty' and 'Select' in show(u.a[0]) or u.op == 'glob' and u.a[0].endswith('Select.empty')


ROLE = {'select': SEL, 'args': XARGS, 'kwargs': XKW}


def generic(p, o, rl):
    st = p.st.copy()
    for n, r in rl.items():
        if r in ROLE:
            st.over[(o, n)] = ROLE[r]
    return st


def call_is(t, f, args, kws):
    """t is the call f(*args, **kws) (keyword order does not matter, except among the unpacked mappings)"""
    if not is_call(t):
        return False
    if not (f(t.a[0]) if callable(f) and not isinstance(f, T) else unver(t.a[0]) is f):
        return False
    a = tuple(unver(x) for x in t.a[1])
    if len(a) != len(args) or not all(x is y for x, y in zip(a, args)):
        return False
    named = sorted((k, id(unver(v))) for k, v in t.a[2] if k is not None)
    want = sorted((k, id(v)) for k, v in kws if k is not None)
    st1 = [unver(v) for k, v in t.a[2] if k is None]
    st2 = [v for k, v in kws if k is None]
    return named == want and len(st1) == len(st2) and all(x is y for x, y in zip(st1, st2))


def star(x):
    return T('star', x)


def takes_instance(I, cls, st, o, x):
    try:
        I.run_method(cls, '__call__', args=[x, star(A1)], kwargs=[(None, K1)], st=st, recv=o)
    except (Limit, AnalysisBroken):
        return False
    return True


R1 = 'bound-call'


@rule('C15', R1, 'calling a bound factory gets the mapping from its function, applies its select once and constructs the'
                 ' class from the result; an exporter exports, selects once and hands over; all other arguments are'
                 ' passed on unchanged')
def r_call(ctx):
    for c in descriptor_classes(ctx):
        fac = 'Factory' in c.name
        funcs = stored_as(ctx, c, lambda v: contains(v, lambda x: x is sym('func')))
        scs = stored_as(ctx, c, lambda v: contains(v, lambda x: x is sym('shortcut'))) if 'Shortcut' in c.name else set()
        bs = bound_objects(ctx, c)
        if not bs:
            ctx.undec(R1, c.name, 'bound object not found')
        for case, o, p, I in bs:
            w = f'{c.name}.__get__({case}).__call__'
            cl = I.cls_of(o, p.st)
            if cl is None:
                ctx.undec(R1, w, f'__get__ gives {show(o)}')
                continue
            rl = roles(p, o)
            for (b, n), v in p.st.over.items():
                if b is o and select_ctor(unver(v)) and not is_empty_select(unver(v)):
                    ctx.bad(R1, w, f'{n} starts out as {show(v)}', ctx.node(c, '__get__'), p)
            if 'select' not in rl.values() or 'descriptor' not in rl.values():
                ctx.undec(R1, w, f'parts of the bound object not identified: {rl}')
                continue
            st = generic(p, o, rl)
            n0 = len(st.events)
            x_inst = sym('EXPORTED')
            by_class = not fac and case == 'class'
            args = ([x_inst] if by_class else []) + [star(A1)]
            try:
                ps = I.run_method(cl[1], '__call__', args=args, kwargs=[(None, K1)], st=st, recv=o)
            except (Limit, AnalysisBroken) as e:
                if not fac and case == 'instance' and takes_instance(I, cl[1], st, o, x_inst):
                    ctx.bad(R1, w, 'reached through an instance, the exporter still has to be given one', ctx.node(c, '__get__'), p)
                    continue
                ctx.undec(R1, w, str(e))
                continue
            ctx.note(I, ps)
            node = ctx.node(cl[1], '__call__')

            def is_func(t):
                return is_attr(t, base=DESC) and t.a[1] in funcs

            def is_sc(t):
                return is_attr(t, base=DESC) and t.a[1] in scs

            def outcome(q, fac=fac, c=c, case=case, by_class=by_class):
                if q.raises:
                    return 'raises', None
                v = unver(q.value)
                if fac:
                    if is_call(v) and is_sc(v.a[0]):
                        return ('shortcut' if call_is(v, is_sc, [OWNER, star(A1)], [(None, K1)])
                                else f'the shortcut is called as {show(v)}'), v
                    if not is_call(v):
                        return None if murky(v) else f'returns {show(v)}', v
                    ok = is_call(v) and v.a[0] is OWNER and not v.a[1] and len(v.a[2]) == 1 and v.a[2][0][0] is None
                    if not ok:
                        return (None if murky(v) else f'constructs {show(v)[:200]}'), v
                    m = unver(v.a[2][0][1])
                    if not (is_call(m) and m.a[0] is SEL and len(m.a[1]) == 1):
                        if is_call(m) and is_func(m.a[0]):
                            return ('unselected' if q.st.known(T('truthy', SEL)) is False else 'the select is not applied'), v
                        return (None if murky(m) else f'constructs from {show(m)[:200]}'), v
                    inner = unver(m.a[1][0])
                    kws = [(None, K1)]
                    if 'Specialized' in c.name:
                        kws = [('_select', SEL), (None, K1)]
                    if not call_is(inner, is_func, [OWNER, star(A1)], kws):
                        return (None if murky(inner) else f'the select is applied to {show(inner)[:200]}'), v
                    return 'selected', v
                # exporters
                obj = x_inst if by_class else INST
                base = OWNER if by_class else INST
                if not (is_call(v) and is_func(v.a[0])):
                    return (None if murky(v) else f'returns {show(v)[:200]}'), v
                if not v.a[1]:
                    return 'nothing is exported', v
                m = unver(v.a[1][0])
                rest = call_is(v, is_func, [m] + ([] if 'NoArg' in c.name else [star(A1)]),
                               [] if 'NoArg' in c.name else [(None, K1)])
                if not rest:
                    return (None if murky(v) else f'called as {show(v)[:200]}'), v
                if is_call(m) and m.a[0] is SEL and len(m.a[1]) == 1:
                    inner = unver(m.a[1][0])
                elif q.st.known(T('truthy', SEL)) is False:
                    inner = m
                else:
                    return (None if murky(m) else f'the select is not applied: {show(m)[:200]}'), v
                xa = [obj, star(XARGS)] + ([star(A1)] if 'NoArg' in c.name else [])
                xk = [(None, XKW)] + ([(None, K1)] if 'NoArg' in c.name else [])
                ok = is_call(inner) and is_attr(inner.a[0], base=base) and call_is(flat(q, inner), inner.a[0], xa, xk)
                return ('selected' if ok else None if murky(inner) else f'exports {show(inner)[:200]}'), v
            SC = [n for n in scs]
            sc = A(DESC, SC[0]) if SC else None
            scv = C(sc, OWNER, star(A1)) if sc is not None else None
            if scv is not None:
                scv = T('call', sc, (OWNER, star(A1)), ((None, K1),))
            atoms = [('selecting', T('truthy', SEL))]
            if sc is not None:
                atoms += [('shortcut', T('truthy', sc)), ('none', mk_is(sc, NONE)), ('declined', mk_is(scv, G('builtins.NotImplemented')))]

            def table(v):
                if sc is not None and v['shortcut'] == v['none']:
                    return None
                if v.get('shortcut') and not v['selecting'] and not v['declined']:
                    return {'shortcut'}
                return {'selected'} if v['selecting'] else {'selected', 'unselected'}
            ctx.decide(R1, w, ps, atoms, table, lambda q: outcome(q)[0], node)
            for q in ps:
                calls = [e for e in all_events(q.events[n0:]) if e.kind == 'call']
                for what, pred in (('select', lambda f: unver(f) is SEL), ('function', is_func), ('shortcut', is_sc)):
                    n = sum(1 for e in calls if pred(e.a[0]))
                    if n > 1:
                        ctx.bad(R1, w, f'the {what} is applied {n} times', node, q)
                untouched(ctx, R1, w, q, n0, o, rl, node)


def flat(q, t):
    """unpacked private dictionaries / sequences in a call replaced by what they were built from"""
    args, kws = [], []
    for a in t.a[1]:
        if a.op == 'star' and seq_ops(q, a.a[0]) is not None and unver(a.a[0]).op != 'sym':
            for op in seq_ops(q, a.a[0]):
                args.append(op[1] if op[0] == 'one' else T('star', op[1]))
        else:
            args.append(a)
    for k, v in t.a[2]:
        h = q.st.h(v) if k is None else None
        if h is not None and h.kind == 'dict' and all(o[0] in ('upd', 'set') for o in h.log):
            for op in h.log:
                kws.append((None, op[1]) if op[0] == 'upd' else (kval(op[1]) if is_k(op[1]) else '?', op[2]))
        else:
            kws.append((k, v))
    return T('call', t.a[0], tuple(args), tuple(kws))


def untouched(ctx, R, w, q, n0, o, rl, node):
    """nothing the bound object consists of is changed"""
    roots = {DESC, OWNER, INST, XARGS, XKW, SEL, o}
    for e in all_events(q.events[n0:]):
        if e.kind in ('setattr', 'delattr', 'setitem', 'delitem', 'dictupdate', 'mut', 'iadd'):
            b = unver(e.a[0])
            while b.op in ('attr', 'item') and b not in roots:
                b = unver(b.a[0])
            if b in roots:
                ctx.bad(R, w, f'changes {show(e.a[0])} of the bound object it is called on', e.node or node, q,
                        key=f'{R}@{w}:changes')
                return
        elif e.kind == 'call':
            f = unver(e.a[0])
            if is_attr(f) and f.a[1] in ('update', 'append', 'extend', 'pop', 'setdefault', 'clear', 'add', 'insert', 'remove') \
                    and (f.a[0] in roots or is_attr(f.a[0]) and f.a[0].a[0] in roots):
                ctx.bad(R, w, f'changes {show(f.a[0])} of the bound object it is called on', e.node or node, q,
                        key=f'{R}@{w}:changes')
                return
    for n, r in rl.items():
        want = ROLE.get(r)
        if want is not None and q.st.over.get((o, n)) is not want:
            ctx.bad(R, w, f'changes the {r} of the bound object it is called on', node, q, key=f'{R}@{w}:changes')
            return


R2 = 'derive'


@rule('C15', R2, 'configuring a bound factory or exporter gives a new one that differs only in the merged select or the added'
                 ' export arguments')
def r_derive(ctx):
    done = set()
    for c in descriptor_classes(ctx):
        for case, o, p, I in bound_objects(ctx, c):
            cl = I.cls_of(o, p.st)
            if cl is None:
                continue
            rl = roles(p, o)
            for m in ('select', 'export_with'):
                f = cl[1].lookup(m)
                if f is None or not isinstance(f[1], ast.FunctionDef):
                    if m == 'select' or 'Exporter' in c.name:
                        ctx.undec(R2, f'{cl[1].name}.{m}', 'not found')
                    continue
                w = f'{c.name}.__get__({case}).{m}'
                st = generic(p, o, rl)
                n0 = len(st.events)
                try:
                    ps = I.run_method(cl[1], m, args=[star(SELS)], kwargs=[(None, K2)], st=st, recv=o)
                except (Limit, AnalysisBroken) as e:
                    ctx.undec(R2, w, str(e))
                    continue
                ctx.note(I, ps)
                for q in ps:
                    if any(b and k.op == 'is' and k.a[1] is NONE and is_call(unver(k.a[0])) and
                           is_attr(unver(k.a[0]).a[0], 'merge') for k, b in q.facts.items()):
                        continue      # merging never gives None
                    if q.raises:
                        ctx.bad(R2, w, f'raises {show(q.sig.val)}', f[1], q)
                        continue
                    untouched(ctx, R2, w, q, n0, o, rl, f[1])
                    v = unver(q.value)
                    nothing = q.st.known(T('truthy', SELS)) is False and q.st.known(T('truthy', K2)) is False
                    if v is o:
                        ctx.check(nothing, R2, w, 'a new object is returned', f[1], q)
                        continue
                    c2 = I.cls_of(v, q.st)
                    if c2 is None or q.st.h(v) is None:
                        v2 = rebuild(ctx, I, q, v)
                        if v2 is None:
                            ctx.undec(R2, w, f'returns {show(v)[:200]}')
                            continue
                        q, v = v2
                        c2 = I.cls_of(v, q.st)
                    if c2[1] is not cl[1]:
                        ctx.bad(R2, w, f'returns a {c2[1].name} instead of a {cl[1].name}', f[1], q)
                        continue
                    for n, r in rl.items():
                        x = q.st.over.get((v, n))
                        if x is None:
                            ctx.undec(R2, w, f'{n} of the new object not found')
                            continue
                        x = unver(x)
                        if r == 'select' and m == 'select':
                            good = is_call(x) and is_attr(x.a[0], 'merge', SEL) and call_is(x, x.a[0], [star(SELS)], [(None, K2)])
                            if not good and nothing and x is SEL:
                                good = True
                            if not good:
                                lost = [s for s, t in (('its own select', SEL), ('the selects given', SELS),
                                                       ('the keywords given', K2))
                                        if not contains(x, lambda y, t=t: y is t) and q.st.known(T('truthy', t)) is not False
                                        and not any(contains(z, lambda y, t=t: y is t) for z in walk_heap(q, x))]
                                if lost:
                                    ctx.bad(R2, w, f'the new select {show(x)[:120]} lacks {", ".join(lost)}', f[1], q)
                                else:
                                    ctx.undec(R2, w, f'the new select is {show(x)[:150]}')
                                continue
                            ctx.ok(R2, w, 'the select is merged')
                        elif r == 'args' and m == 'export_with':
                            ops = seq_ops(q, x)
                            ops = [(a[0], unver(a[1])) for a in ops] if ops is not None else None
                            if x is XARGS and q.st.known(T('truthy', SELS)) is False:
                                ctx.ok(R2, w, 'same arguments')
                                continue
                            if x is XARGS or x is SELS and q.st.known(T('truthy', XARGS)) is not False:
                                ctx.bad(R2, w, 'only the {} export arguments are kept'.format('old' if x is XARGS else 'new'), f[1], q)
                                continue
                            if x is SELS:
                                ctx.ok(R2, w, 'there are no others')
                                continue
                            ctx.check(ops == [('ext', XARGS), ('ext', SELS)] if ops is not None else
                                      None if murky(x) or contains(x, lambda y: y is SELS) else False, R2, w,
                                      f'the export arguments are the old and then the new ones (got {ops})', f[1], q)
                        elif r == 'kwargs' and m == 'export_with':
                            h = q.st.h(x)
                            ops = [tuple(unver(y) if isinstance(y, T) else y for y in a) for a in h.log] if h is not None else None
                            if x is XKW and q.st.known(T('truthy', K2)) is False:
                                ctx.ok(R2, w, 'same keywords')
                                continue
                            if x is XKW or x is K2 and q.st.known(T('truthy', XKW)) is not False:
                                ctx.bad(R2, w, 'only the {} export keywords are kept'.format('old' if x is XKW else 'new'), f[1], q)
                                continue
                            if x is K2:
                                ctx.ok(R2, w, 'there are no others')
                                continue
                            ctx.check(ops == [('upd', XKW), ('upd', K2)] if ops is not None else
                                      None if murky(x) or contains(x, lambda y: y is K2) else False, R2, w,
                                      f'the export keywords are the old ones overridden by the new ones (got {ops})', f[1], q)
                        else:
                            orig = ROLE.get(r) or p.st.over.get((o, n))
                            ops = seq_ops(q, x) if r in ('args', 'kwargs') and x is not orig else None
                            same = x is unver(orig) or ops is not None and len(ops) == 1 and unver(ops[0][1]) is unver(orig)
                            ctx.check(same if not murky(x) else None, R2, w, f'{r} unchanged ({show(x)[:80]})', f[1], q)


def walk_heap(q, x):
    for y in walk(x):
        h = q.st.h(y)
        if h is not None:
            for op in h.log:
                yield from (z for z in op[1:] if isinstance(z, T))


def rebuild(ctx, I, q, v):
    """a construction of a known class that was not followed: follow it"""
    if not is_call(v):
        return None
    c = I.cls_of(v, q.st)
    if c is None:
        return None
    st, o = q.st.alloc('inst', cls=c[1])
    st.types[o] = ('inst', c[1])
    try:
        ps = I.run_method(c[1], '__init__', args=list(v.a[1]), kwargs=list(v.a[2]), st=st, recv=o)
    except (Limit, AnalysisBroken):
        return None
    ps = [x for x in ps if not x.raises]
    if len(ps) != 1:
        return None
    return ps[0], o


R3 = 'unwrap'


@rule('C15', R3, 'a factory or exporter wraps the plain function of the class or static method it decorates')
def r_unwrap(ctx):
    for cn, par, kind in (('SelectableFactory', 'func', 'classmethod'), ('SelectableShortcutFactory', 'shortcut', 'classmethod'),
                          ('Exporter', 'func', 'staticmethod')):
        ps = ctx.summ(cn, '__init__')
        if ps is None:
            continue
        F = sym(par)
        names = stored_as(ctx, ctx.P.cls_named(cn), lambda v: contains(v, lambda x: x is F))
        names -= {'__wrapped__'}
        if len(names) != 1:
            ctx.undec(R3, f'{cn}.__init__', f'attribute for {par} not identified ({sorted(names)})')
            continue
        n = next(iter(names))

        def observe(p):
            if p.raises:
                return 'raise'
            v = p.st.over.get((SELF, n))
            u = unver(v) if v is not None else None
            if u is F:
                return 'as is'
            if u is A(F, '__func__'):
                return 'unwrapped'
            if u is NONE:
                return 'as is' if p.st.known(mk_is(F, NONE)) else 'lost'
            return None
        ctx.decide(R3, f'{cn}.__init__', ps, [('wrapped', T('isinstance', F, G('builtins.' + kind)))],
                   lambda v: {'unwrapped'} if v['wrapped'] else {'as is'}, observe, ctx.node(cn, '__init__'))


R4 = 'shortcut-setting'


@rule('C15', R4, 'setting a shortcut gives a new factory of the same kind with the same function')
def r_shortcut(ctx):
    c = ctx.P.cls_named('SelectableShortcutFactory')
    node = ctx.node(c, 'shortcut')
    I = ctx.interp()
    ps = ctx.summ(c, 'shortcut', I=I)
    if ps is None:
        return
    funcs = stored_as(ctx, c, lambda v: contains(v, lambda x: x is sym('func'))) - {'__wrapped__'}
    scs = stored_as(ctx, c, lambda v: contains(v, lambda x: x is sym('shortcut')))
    for p in ps:
        if p.raises:
            continue
        v = unver(p.value)
        if v is SELF:
            ctx.bad(R4, 'SelectableShortcutFactory.shortcut', 'changes the factory instead of making a new one', node, p)
            continue
        ok = None
        if is_call(v):
            good_class = v.a[0] is T('typeof', SELF) or v.a[0].op == 'class' and False
            r = rebuild(ctx, I, p, v)
            if r is not None:
                q, o = r
                got = {n: q.st.over.get((o, n)) for n in funcs | scs}
                f_ok = all(got[n] is not None and unver(got[n]) in (A(SELF, n), A(SELF, n, '__func__')) for n in funcs)
                s_ok = all(got[n] is not None and contains(got[n], lambda x: x is sym(node.args.args[1].arg)) for n in scs)
                ok = f_ok and s_ok and (good_class or None)
                if v.a[0].op == 'class' and f_ok and s_ok:
                    ok = False       # a fixed class forgets that the factory passes on the select
            elif not v.a[1] and not v.a[2]:
                ok = False
        else:
            # several paths through the initializer
            ok = None
        if is_call(v) and ok is None and v.a[0] is T('typeof', SELF):
            a = [unver(x) for x in v.a[1]] + [unver(x) for k, x in v.a[2]]
            ok = any(x in [A(SELF, n) for n in funcs] for x in a) and any(x is sym(node.args.args[1].arg) for x in a)
        if ok is None and is_call(v) and v.a[0].op == 'class':
            ok = False           # a fixed class forgets that the factory passes on the select
        ctx.check(ok, R4, 'SelectableShortcutFactory.shortcut', f'returns {show(v)[:150]}', node, p)
