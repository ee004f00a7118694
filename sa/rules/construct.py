"""Construction of records: RecordBase.__new__, __init__, parse (C01, C16, C17, C23, parts of C11 and C20)."""
from .base import *

FIELDS, REQ, OPT = A(CLS, '_fields'), A(CLS, '_required_keys'), A(CLS, '_optional_keys')
KW = sym('kwargs')
NEW = C(A(G('builtins.object'), '__new__'), CLS)


def new_paths(ctx):
    if 'new' not in ctx._cache:
        ctx._cache['new'] = ctx.summ('RecordBase', '__new__', opaque=['RecordBase.parse', 'RecordField.make_default'])
    return ctx._cache['new']


def fill_of(t):
    """(key, argument) if t is the result of filling a value with the filler of the class's field `key`"""
    t = unver(t)
    if is_attr(t, 'value') and is_call(t.a[0]) and is_attr(t.a[0].a[0], 'fill'):
        f, args = t.a[0].a[0].a[0], t.a[0].a[1]
    elif is_call(t):
        f, args = t.a[0], t.a[1]
    else:
        return None
    if is_attr(f, 'filler') and f.a[0].op == 'item' and f.a[0].a[0] is FIELDS and len(args) == 1:
        return f.a[0].a[1], args[0]
    return None


def default_of(t):
    """key if t is a fresh default of the class's field `key`"""
    t = unver(t)
    if is_call(t) and is_attr(t.a[0], 'make_default') and t.a[0].a[0].op == 'item' and t.a[0].a[0].a[0] is FIELDS \
            and not t.a[1] and not t.a[2]:
        return t.a[0].a[0].a[1]
    return None


def fresh(t):
    """is t an instance made by object.__new__(cls)"""
    return is_call(t) and is_attr(t.a[0], '__new__') and t.a[1] and t.a[1][0] is CLS


def fill_raises(p):
    for k, v in p.facts.items():
        if k.op == 'raises' and v and fill_of(k.a[0]):
            return k.a[0]
    return None


def is_post(t):
    return is_call(t) and is_attr(t.a[0], 'post_new')


def post_raises(p):
    return any(v and k.op == 'raises' and is_post(k.a[0]) for k, v in p.facts.items())


def other_call_raises(p):
    """a call of unknown code other than a filler or post_new raised (e.g. a default factory)"""
    return any(v and k.op == 'raises' and not is_post(k.a[0]) and not fill_of(k.a[0]) and not is_parse(k.a[0]) and
               not is_err_ctor(k.a[0]) for k, v in p.facts.items())


def is_err_ctor(t):
    return is_call(t) and t.a[0].op == 'typeof'


def is_parse(t):
    return is_call(t) and is_attr(t.a[0], 'parse') and t.a[0].a[0] is CLS


PARSE = C(A(CLS, 'parse'), ARG)


def arg_absent(p):
    return path_fact(p, lambda k: k.op == 'is' and ARG in k.a and any(x.op == 'sentinel' for x in k.a))


def absent_term(p):
    for k in p.facts:
        if k.op == 'is' and ARG in k.a and any(x.op == 'sentinel' for x in k.a):
            return k
    return None


def kw_term(p):
    """the mapping of given values as it is when the fields are filled"""
    for e in p.events:
        if e.kind == 'setitem' and unver(e.a[0]) is KW:
            return T('ver', KW, 1)
    return KW


def le_term(p, a_pred, b_pred):
    for k in p.facts:
        if k.op == 'le' and a_pred(unver(k.a[0])) and b_pred(unver(k.a[1])):
            return k
    return None


# ---------------------------------------------------------------------------------------------------------------------
@rule('C01', 'construct-outcome', 'keyword construction: unknown or missing names raise, otherwise an instance results '
      'unless a filler, default factory or post_new raised')
def construct_outcome(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    sel = [p for p in ps if arg_absent(p) is not False]
    lek = T('le', KW, FIELDS)
    ler = T('le', REQ, KW)

    def observe(p):
        if p.raises:
            if fill_raises(p) is not None:
                return 'fill-error'
            if post_raises(p):
                return 'post-error'
            if other_call_raises(p):
                return 'user-error'
            return 'error'
        v = p.value
        if murky(v):
            return None
        if fresh(unver(v)) or is_post(v):
            return 'instance'
        return 'other'

    def table(v):
        if not v['known'] or not v['complete']:
            return {'error', 'fill-error', 'user-error'}
        return {'instance', 'fill-error', 'post-error', 'user-error'}
    ctx.decide('construct-outcome', w, sel, [('known', lek), ('complete', ler)], table, observe, node)


@rule('C01', 'stored-values', 'every given field stores its own filler\'s result for its own value, every other field '
      'its own fresh default, and nothing else is stored')
def stored_values(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    n = 0
    for p in ps:
        if not p.returns or is_parse(p.value):
            continue
        objs = [e for e in p.events if e.kind == 'call' and fresh(e.a[3] if len(e.a) > 3 else e.a[0])]
        if not objs:
            ctx.undec('stored-values', w, 'no fresh instance on a returning path')
            continue
        obj = objs[0].a[3]
        if not (unver(p.value) is obj or is_post(p.value)):
            ctx.bad('stored-values', w, f'returns {show(p.value)} instead of the constructed instance', p.sig.node or node, p)
            continue
        if is_post(p.value):
            good = p.value.a[0].a[0] is obj or unver(p.value.a[0].a[0]) is obj
            isnone = p.st.known(mk_is(NONE, p.value))
            if not good or isnone is not False:
                ctx.bad('stored-values', w, 'post_new result may replace the instance although it is None', node, p)
                continue
        elif any(e.kind == 'call' and is_post(e.a[3]) for e in p.events):
            pn = [e.a[3] for e in p.events if e.kind == 'call' and is_post(e.a[3])][0]
            if p.st.known(mk_is(NONE, pn)) is not True and not post_raises(p):
                ctx.bad('stored-values', w, 'post_new returned an instance, and it is dropped', node, p)
                continue
        else:
            ctx.bad('stored-values', w, 'post_new is not called for a constructed instance', node, p)
            continue
        if not check_store(ctx, p, obj, w, node):
            continue
        n += 1
    if n:
        ctx.ok('stored-values', w, f'{n} constructing paths store exactly one value per field')


def stored_log(ctx, p, log, node):
    """what a store puts into the instance, where that is the whole of a mapping made before or of its items one by one"""
    from .containers import consume
    st = p.st
    for _ in range(4):
        if len(log) != 1:
            break
        op = log[0]
        if op[0] == 'upd':
            src = unver(op[1])
            h = st.h(src)
            if h is not None and h.kind == 'dict':
                log = h.log
                continue
            if src.op in ('gen', 'obj'):
                rs = consume(ctx.interp(), st, src, node)
                if len(rs) == 1 and rs[0][1] is not None and rs[0][1] != log:
                    st, log = rs[0]
                    continue
        if op[0] == 'loop':
            # a loop over the items of a mapping that copies every one of them
            S, o = op[1], op[2]
            h = st.h(unver(S.dom)) if isinstance(S.dom, T) else None
            if h is not None and h.kind == 'dict' and S.paths and all(ip.goes_on and copies_item(ip, o, S.dom) for ip in S.paths):
                log = h.log
                continue
        break
    return st, log


def copies_item(ip, o, dom):
    ops = [y for k, x in ip.ops.items() if k is o for y in x]
    if len(ops) != 1:
        return False
    d = unver(dom)
    if ops[0][0] == 'set':
        k, v = unver(ops[0][1]), unver(ops[0][2])
    elif ops[0][0] == 'one' and unver(ops[0][1]).op == 'tuple' and len(unver(ops[0][1]).a[0]) == 2:
        k, v = (unver(x) for x in unver(ops[0][1]).a[0])
    else:
        return False
    return k.op == 'elem' and unver(k.a[0]) is d and v.op == 'item' and unver(v.a[0]) is d and unver(v.a[1]) is k


def check_store(ctx, p, obj, w, node):
    R = 'stored-values'
    stores = [e for e in p.events if e.kind == 'dictupdate' and unver(e.a[0]) is obj]
    sets = [e for e in all_events(p.events) if e.kind == 'setattr' and unver(e.a[0]) is obj]
    direct = []
    for e in sets:
        if is_k(e.a[1]):
            if kval(e.a[1]) != '_hash':
                ctx.bad(R, w, f'stores an attribute {show(e.a[1])} that is no field', e.node, p)
                return False
        else:
            direct.append(e)
    dels = [e for e in all_events(p.events) if e.kind in ('delattr',) and unver(e.a[0]) is obj]
    if dels:
        ctx.bad(R, w, 'removes an attribute of the new instance', dels[0].node, p)
        return False
    ents = []
    for s in stores:
        st, log = stored_log(ctx, p, s.a[1], s.node)
        es, lps, complete = contents(log)
        if not complete:
            ctx.bad(R, w, 'stores values of an unfinished loop', s.node, p)
            return False
        ents.append((es, lps, {op[2] for op in log if op[0] == 'loop'}))
    if direct:
        for le in all_loops(p.events):
            S = le.a[0]
            per = {}
            es = []
            h = p.st.h(unver(S.dom)) if isinstance(S.dom, T) else None
            if h is not None and h.kind == 'dict' and all(ip.goes_on for ip in S.paths) and all(
                    [(unver(e.a[1]), unver(e.a[2])) for e in ip.events if e.kind == 'setattr' and unver(e.a[0]) is obj
                     and not is_k(e.a[1])] ==
                    [tuple(unver(x) for x in (T('elem', S.dom, S.L), T('item', S.dom, T('elem', S.dom, S.L))))]
                    for ip in S.paths):
                # one by one, but all of a mapping
                xs, lps, complete = contents(h.log)
                if not complete:
                    ctx.bad(R, w, 'stores values of an unfinished loop', S.node, p)
                    return False
                ents.append((xs, lps, {op[2] for op in h.log if op[0] == 'loop'}))
                continue
            for ip in S.paths:
                if not ip.goes_on:
                    continue
                ops = [('set', e.a[1], e.a[2]) for e in ip.events if e.kind == 'setattr' and unver(e.a[0]) is obj
                       and not is_k(e.a[1])]
                per[ip] = ops
                es += [Entry(x, S.dom, ip.facts, ip, S) for x in ops]
            if es:
                ents.append((es, [(S, per)], ()))
    if not ents:
        ctx.bad(R, w, 'the field values are not stored in the new instance', node, p)
        return False
    given_cover = opt_cover = False
    for es, lps, own in ents:
        for e in es:
            if e.op[0] == 'upd' or e.op[0] == 'ext':
                src = e.op[1]
                ctx.undec(R, w, f'values copied from {show(src)}')
                return False
            if e.op[0] != 'set':
                ctx.bad(R, w, f'unexpected {e.op[0]} on the stored values', node, p)
                return False
            k, v = unver(e.op[1]), e.op[2]
            f, d = fill_of(v), default_of(v)
            kw = kw_term(p)
            if f:
                if f[0] is not k:
                    ctx.bad(R, w, f'stores under {show(k)} a value filled by the filler of {show(f[0])}', node, p)
                    return False
                want = {T('item', KW, k)}
                # the single required field may be given positionally
                if f[1] not in want and f[1] is not ARG:
                    ctx.bad(R, w, f'fills {show(k)} with {show(f[1])}, not with the given value', node, p)
                    return False
            elif d:
                if d is not k:
                    ctx.bad(R, w, f'stores under {show(k)} the default of {show(d)}', node, p)
                    return False
            elif murky(v):
                ctx.undec(R, w, f'value of {show(k)} not followed')
                return False
            else:
                ctx.bad(R, w, f'stores {show(v)} for field {show(k)}: neither the filled value nor its default', node, p)
                return False
            # which keys can be concerned
            if e.dom is not None:
                dm = unver(e.dom)
                given = given_case(e, dm, k, p, filled_before(e.S, lps, own))
                if f and given is False:
                    ctx.bad(R, w, 'fills a value that was not given', node, p)
                    return False
                if d and given is True:
                    ctx.bad(R, w, 'a default replaces a given value', node, p)
                    return False
        for S, per in lps:
            dm = unver(S.dom)
            fills = any(o[0] == 'set' and fill_of(o[2]) for ops in per.values() for o in ops)
            for ip, ops in per.items():
                kinds = [('f' if fill_of(o[2]) else 'd') for o in ops if o[0] == 'set']
                k = T('elem', S.dom, S.L) if not isinstance(S.dom, str) else None
                g = given_case(Entry(('set', unver(elem_of(S)), NONE), S.dom, ip.facts, ip, S), dm, unver(elem_of(S)), p,
                               filled_before(S, lps, own))
                if len(kinds) > 1:
                    ctx.bad(R, w, 'a field is stored twice in one iteration', node, p)
                    return False
                if not kinds:
                    # skipping is fine only for names this loop need not care about
                    if dm is KW or g is True and (fills or dm is not OPT):
                        ctx.bad(R, w, 'a given value is skipped', S.node, p)
                        return False
                    if is_opt_rest(dm) or dm is OPT and g is not True and not fills:
                        if any(murky(x) for x in ip.facts):
                            ctx.undec(R, w, 'which defaults are stored is not followed')
                            return None
                        ctx.bad(R, w, 'a default of a field that was not given is skipped', S.node, p)
                        return False
            doms = {k for ip, ops in per.items() for k in ('f' if any(o[0] == 'set' and fill_of(o[2]) for o in ops) else
                                                           'd' if ops else '-')}
            if dm is KW and doms <= {'f'}:
                given_cover = True
            elif is_opt_rest(dm) and 'd' in doms:
                opt_cover = True
            elif dm is FIELDS:
                given_cover = given_cover or 'f' in doms
                opt_cover = opt_cover or 'd' in doms
            elif dm is OPT and 'd' in doms:
                opt_cover = True
    if not given_cover:
        ctx.bad(R, w, 'given values are not stored for every given name', node, p)
        return False
    if not opt_cover:
        ctx.bad(R, w, 'defaults are not stored for every field that was not given', node, p)
        return False
    return True


def elem_of(S):
    for ip in S.paths:
        for ops in ip.ops.values():
            for o in ops:
                if o[0] == 'set':
                    return o[1]
    return T('elem', S.dom, S.L)


def is_opt_rest(dm):
    """the names that have a default and were not given"""
    return dm.op == 'bin' and dm.a[0] == '-' and dm.a[1] in (OPT, FIELDS) and dm.a[2] is KW


def filled_before(S, lps, own):
    """the containers that, while loop S runs, hold exactly the given names and names S itself put in"""
    before = []
    for x, per in lps:
        if x is S:
            break
        before.append((x, per))
    if not before:
        return ()
    for x, per in before:
        if unver(x.dom) is not KW or any(
                not ops or any(o[0] != 'set' or o[1] is not T('elem', x.dom, x.L) for o in ops) for ops in per.values()):
            return ()
    if any(o[0] != 'set' or o[1] is not T('elem', S.dom, S.L) for y, per in lps if y is S for ops in per.values()
           for o in ops):
        return ()
    return own


def given_case(e, dm, k, p, own=()):
    if dm is KW:
        return True
    if is_opt_rest(dm):
        return False
    for f, v in e.facts.items():
        if f.op == 'in' and (unver(f.a[1]) is KW or unver(f.a[1]) in own) and unver(f.a[0]) is k:
            return v
    return None


@rule('C01', 'no-other-init', 'the only initializer a record class runs stores nothing')
def no_other_init(ctx):
    ps = ctx.summ('RecordBase', '__init__')
    w = 'RecordBase.__init__'
    if ps is None:
        return
    for p in ps:
        eff = [e for e in all_events(p.events) if e.kind in ('setattr', 'dictupdate', 'delattr', 'setitem', 'mut', 'call')]
        if p.raises or eff:
            ctx.bad('no-other-init', w, 'running it again changes or rejects an instance', eff[0].node if eff else None, p)
            return
    ctx.ok('no-other-init', w, 'no effect on any path')


@rule('C01', 'param-capture', 'no field name is captured by a named parameter of the constructor')
def param_capture(ctx):
    for name in ('__new__', '__init__'):
        node = ctx.node('RecordBase', name)
        if node is None:
            continue
        names = [a.arg for a in node.args.args] + [a.arg for a in node.args.kwonlyargs]
        for n in names:
            ctx.bad('param-capture', f'RecordBase.{name}', f'a field named {n!r} cannot be given by keyword: the name is a '
                    f'parameter of the constructor', node, key=f'param-capture@RecordBase.{name}:{n}')
        ctx.ok('param-capture', f'RecordBase.{name}', f'{len(names)} named parameters')


# ---------------------------------------------------------------------------------------------------------------------
@rule('C17', 'positional-table', 'decision table of positional construction: trivial field, parsing, both, neither')
def positional_table(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    given = [p for p in ps if arg_absent(p) is False]
    absent = [p for p in ps if arg_absent(p) is True]
    none = [p for p in ps if arg_absent(p) is None]
    for p in none:
        if p.returns:
            ctx.bad('positional-table', w, 'result does not depend on whether a positional argument was given', node, p)
            return
    for p in absent:
        if any(e.kind == 'call' and is_parse(e.a[3]) for e in p.events):
            ctx.bad('positional-table', w, 'parses although no positional argument was given', node, p)
            return
    if not given:
        ctx.undec('positional-table', w, 'no path with a positional argument')
        return
    one = T('leneq', REQ, 1)
    pr = T('raises', PARSE)
    pf = None
    for p in given:
        for k in p.facts:
            if k.op == 'excis' and k.a[0] is T('exc', PARSE) and 'ParseFailure' in show(k.a[1]):
                pf = k
    upt = T('truthy', A(CLS, '_unary_parse'))
    kwt = T('truthy', KW)

    def observe(p):
        calls = [e for e in p.events if e.kind == 'call']
        parsed = any(is_parse(e.a[3]) for e in calls)
        tag = 'P' if parsed else ''
        if p.raises:
            x = p.sig.val
            if x is T('exc', PARSE):
                return tag + 'parse-error'
            if fill_raises(p) is not None:
                return tag + 'fill-error'
            if post_raises(p):
                return tag + 'post-error'
            if other_call_raises(p):
                return tag + 'user-error'
            return tag + 'error'
        v = unver(p.value)
        if is_parse(v):
            if v is not PARSE:
                return 'parse-of-something-else'
            if fill_raises(p) is not None:
                return tag + 'parsed-after-fill-error'
            if post_raises(p):
                return tag + 'parsed-after-post-error'
            if any(fresh(e.a[3]) for e in calls):
                return tag + 'parsed-and-built'
            return tag + 'parsed'
        if fresh(v) or is_post(v):
            if fill_raises(p) is not None:
                return tag + 'instance-after-fill-error'
            return tag + 'instance'
        return None if murky(v) else 'other'

    def dup_term(p):
        for k in p.facts:
            if k.op == 'in' and unver(k.a[1]) is KW and contains(k.a[0], lambda x: x is REQ):
                return k
        return None

    def known_term(p):
        return le_term(p, lambda a: a is KW, lambda b: b is FIELDS)

    def complete_term(p):
        return le_term(p, lambda a: a is REQ, lambda b: b is KW)

    def nonep(p):
        return mk_is(NONE, PARSE)

    atoms = [('kw', kwt), ('up', upt), ('one', one)]

    def full(p):
        return p

    def table_for(p):
        o = observe(p)

        def table(v):
            if v.get('pnone'):
                return None
            dup = v.get('dup')
            try_parse = not v['kw'] and v['up']
            if not try_parse:
                if not v['one']:
                    return {'error'}
                if dup:
                    return {'error'}
                if v.get('known') is False or v.get('complete') is False:
                    return {'error', 'fill-error'}
                return {'instance', 'fill-error', 'post-error', 'user-error'}
            if v['praise']:
                if not v.get('pfail', True):
                    return {'Pparse-error'}
                if not v['one']:
                    return {'Pparse-error', 'Perror'}
                if dup:
                    return None
                if v.get('known') is False or v.get('complete') is False:
                    return {'Perror', 'Pfill-error'}
                return {'Pinstance', 'Pfill-error', 'Ppost-error', 'Puser-error'}
            if not v['one']:
                return {'Pparsed'}
            if dup or v.get('known') is False or v.get('complete') is False:
                return None     # no keyword was given: cannot happen
            return {'Perror', 'Pparsed-after-fill-error', 'Pparsed-after-post-error', 'Puser-error'}
        return table
    for p in given:
        at = list(atoms)
        at += [('praise', pr), ('pnone', nonep), ('dup', dup_term), ('known', known_term), ('complete', complete_term)]
        if pf is not None:
            at.insert(4, ('pfail', pf))
        if not ctx.decide('positional-table', w, [p], at, table_for(p), observe, node):
            return


@rule('C17', 'trivial-argument', 'the positional argument becomes the value of the single required field')
def trivial_argument(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    n = 0
    for p in ps:
        if arg_absent(p) is not False or not p.returns or is_parse(p.value):
            continue
        ok = False
        for e in p.events:
            if e.kind == 'setitem' and unver(e.a[0]) is KW and unver(e.a[2]) is ARG and \
                    unver(e.a[1]).op in ('elem', 'item') and unver(e.a[1].a[0]) is REQ:
                ok = True
            if e.kind == 'dictupdate':
                es, _, _ = contents(e.a[1])
                for x in es:
                    if x.op[0] == 'set' and fill_of(x.op[2]) and fill_of(x.op[2])[1] is ARG:
                        ok = True
        if not ok:
            ctx.bad('trivial-argument', w, 'an instance is built without using the positional argument', node, p)
            return
        n += 1
    ctx.check(n > 0, 'trivial-argument', w, f'{n} paths bind the argument to the single required field', node)


@rule('C17', 'unary-parse-default', 'positional parsing is on unless the class has exactly one required field or says '
      'otherwise')
def unary_default(ctx):
    from .classdef import subclass_paths
    ps = subclass_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__init_subclass__', ctx.node('RecordBase', '__init_subclass__')
    U = sym('unary_parse')
    done = 0
    for p in ps:
        if not p.returns:
            continue
        sets = [e for e in p.events if e.kind == 'setattr' and e.a[0] is CLS and is_k(e.a[1], '_unary_parse')]
        if not sets:
            ctx.bad('unary-parse-default', w, 'the class does not record its own setting', node, p)
            return
        v = sets[-1].a[2]
        none = p.st.known(mk_is(NONE, U))
        if none is None:
            ctx.bad('unary-parse-default', w, 'the setting does not depend on whether one was given', node, p)
            return
        if not none:
            good = v is U or v is T('bool', U)
        else:
            req = [e.a[2] for e in p.events if e.kind == 'setattr' and e.a[0] is CLS and is_k(e.a[1], '_required_keys')]
            good = unary_ok(v, p, req)
        if not good:
            ctx.bad('unary-parse-default', w, f'the setting is {show(v)}', sets[-1].node, p)
            return
        done += 1
    ctx.check(done > 0, 'unary-parse-default', w, f'{done} paths', node)


def unary_ok(v, p, req):
    """v is `number of required fields != 1`"""
    def is_one(t):
        return t.op == 'leneq' and t.a[1] == 1 and (not req or unver(t.a[0]) in [unver(r) for r in req] or
                                                    t.a[0].op in ('obj', 'attr'))
    if v.op == 'not' and is_one(v.a[0]):
        return True
    if v.op == 'not' and v.a[0].op == 'bool' and is_one(v.a[0].a[0]):
        return True
    if is_k(v, True, False):
        for k, b in p.facts.items():
            if is_one(k):
                return kval(v) == (not b)
    return False


# ---------------------------------------------------------------------------------------------------------------------
@rule('C23', 'fill-error-names-field', 'a fill failure raises an error that names the field and chains the original, '
      'whatever the original error is')
def fill_error(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    n = 0
    for p in ps:
        fr = fill_raises(p)
        if fr is None or not p.raises:
            continue
        n += 1
        key, _ = fill_of(fr)
        orig = T('exc', fr)
        val, cause = p.sig.val, p.sig.cause
        if val is orig:
            ctx.bad('fill-error-names-field', w, 'the original error escapes without naming the field', p.sig.node or node, p)
            return
        if val.op == 'exc' and is_err_ctor(val.a[0]):
            ctx.bad('fill-error-names-field', w, 'an error of making the error escapes instead of it', p.sig.node or node, p)
            return
        if not is_call(val):
            ctx.undec('fill-error-names-field', w, f'raised value {show(val)} not recognised')
            return
        if cause is not orig:
            ctx.bad('fill-error-names-field', w, f'the error is chained to {show(cause) if cause is not None else None}, '
                    'not to the original error', p.sig.node or node, p)
            return
        if not any(names(unver(a), key, orig) for a in val.a[1]):
            ctx.bad('fill-error-names-field', w, 'the message does not name the field', p.sig.node or node, p)
            return
        for k, v in p.facts.items():
            if v and k.op == 'raises' and is_err_ctor(k.a[0]) and val is T('exc', k.a[0]):
                ctx.bad('fill-error-names-field', w, 'a failing error class hides the field', node, p)
                return
        f = val.a[0]
        if f.op == 'typeof' and f.a[0] is orig:
            rf = [v for k, v in p.facts.items() if k.op == 'raises' and k.a[0] is val]
            if rf != [False]:
                ctx.bad('fill-error-names-field', w, 'an error class that cannot be built from a message replaces the '
                        'error that names the field', p.sig.node or node, p)
                return
        elif not any(v and k.op == 'raises' and is_err_ctor(k.a[0]) for k, v in p.facts.items()):
            ctx.bad('fill-error-names-field', w, 'the error does not keep the class of the original error', p.sig.node or node, p)
            return
    ctx.check(n > 0 or None, 'fill-error-names-field', w, f'{n} failing paths', node)


def names(t, key, orig):
    """key is a part of t, other than as a part of the original error"""
    if t is key:
        return True
    if t is orig or not isinstance(t, T):
        return False
    return any(names(x, key, orig) for x in parts(t.a))


def parts(xs):
    for x in xs:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, list)):
            yield from parts(x)


@rule('C23', 'fill-error-caught', 'every Exception of a filler is turned into the error that names the field')
def fill_error_caught(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    w, node = 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    n = 0
    for p in ps:
        for e in all_events(p.events):
            if e.kind == 'loop':
                for ip in e.a[0].paths:
                    if not ip.goes_on:
                        continue
                    for x in ip.events:
                        if x.kind == 'call' and len(x.a) > 3 and fill_of(x.a[3]):
                            n += 1
                            if ip.facts.get(T('raises', x.a[3])) is None:
                                ctx.bad('fill-error-caught', w, 'a filler is called outside the handler that names the '
                                        'field', x.node, p)
                                return
                            if ip.facts.get(T('raises', x.a[3])) is True:
                                ctx.bad('fill-error-caught', w, 'a fill error is swallowed', x.node, p)
                                return
    ctx.check(n > 0 or None, 'fill-error-caught', w, f'{n} filler calls', node)


# ---------------------------------------------------------------------------------------------------------------------
@rule('C16', 'parse-exactly-one', 'parse tries every registered parser once with the object, returns the only success, '
      'and raises if none or several succeed')
def parse_exactly_one(ctx):
    ps = ctx.summ('RecordBase', 'parse')
    if ps is None:
        return
    w, node = 'RecordBase.parse', ctx.node('RecordBase', 'parse')
    parse_table(ctx, ps, w, node)


def parser_loops(p):
    """the loops that call the parsers (going over their collected results again is no such loop)"""
    ls = [e for e in p.events if e.kind == 'loop' and unver(e.a[0].dom) is A(CLS, '_parsers')]
    return [e for e in ls if not e.a[0].paths or any(x.kind == 'call' for ip in e.a[0].paths for x in ip.events)]


def parse_table(ctx, ps, w, node):
    R = 'parse-exactly-one'
    V = sym('v')
    PARSERS = A(CLS, '_parsers')
    for p in ps:
        lps = parser_loops(p)
        if not lps:
            ctx.undec(R, w, 'no loop over the parsers on a path') if murky(p.sig.val) else \
                ctx.bad(R, w, 'a path does not try the parsers', p.sig.node or node, p)
            return
        if len(lps) > 1:
            ctx.undec(R, w, 'several loops over the parsers')
            return
        S = lps[0].a[0]
        el = T('elem', S.dom, S.L)
        for ip in S.paths:
            calls = [e for e in ip.events if e.kind == 'call' and contains(e.a[0], lambda x: x.op == 'elem')]
            if len(calls) != 1 or calls[0].a[1] != (V,) or calls[0].a[2]:
                ctx.bad(R, w, 'a parser is not called exactly once with the object', S.node, p)
                return
            call = calls[0].a[3]
            rf = ip.facts.get(T('raises', call))
            if rf is None:
                ctx.bad(R, w, 'an error of a parser is not handled', S.node, p)
                return
            bad = [k for k, v in ip.facts.items() if k.op == 'excis']
            for k in bad:
                if show(k.a[1]) not in ('builtins.Exception', 'builtins.BaseException'):
                    ctx.bad(R, w, f'errors of a parser are only handled if they are {show(k.a[1])}', S.node, p)
                    return
    # outcome: depends on the number of successes
    n0 = n1 = n2 = 0
    for p in ps:
        S = parser_loops(p)[0]
        k = success_count(p, S)
        if k is None:
            ctx.undec(R, w, f'number of successes not recognised on the path to {p.sig}')
            return
        lo, hi = k
        if hi < 0:
            continue
        if p.raises:
            x = p.sig.val
            if lo <= 1 <= hi:
                ctx.bad(R, w, 'raises although exactly one parser may have succeeded', p.sig.node or node, p)
                return
            cl = exc_class(x) or ''
            if hi == 0:
                n0 += 1
                if not cl.endswith('ParseFailure'):
                    ctx.bad(R, w, f'no parser succeeded, and the error is {show(x)} instead of ParseFailure', p.sig.node, p)
                    return
            elif lo >= 2:
                n2 += 1
                if cl.endswith('ParseFailure'):
                    ctx.bad(R, w, 'several parsers succeeded, and the error says that none did', p.sig.node, p)
                    return
        else:
            if (lo, hi) != (1, 1):
                ctx.bad(R, w, f'returns a result although {lo}..{"many" if hi > 5 else hi} parsers may have succeeded',
                        p.sig.node or node, p)
                return
            n1 += 1
            if not is_success_value(p, S, p.value):
                if murky(p.value):
                    ctx.undec(R, w, f'returned value {show(p.value)} not recognised')
                else:
                    ctx.bad(R, w, f'returns {show(p.value)} instead of the successful parser\'s result', p.sig.node, p)
                return
    ctx.check((n0 > 0 and n1 > 0 and n2 > 0) or None, R, w, f'{len(ps)} paths: none/one/several successes '
              f'{n0}/{n1}/{n2}', node)


MANY = 10 ** 6


def success_count(p, ev):
    """(lo, hi) number of parsers that may have succeeded on the path: the loop is run as an automaton over its flags, the
    lengths of the lists it fills, its counters and the number of successes so far (all capped at CAP)"""
    S, how = ev.a[0], ev.a[1]
    CAP = 3
    lists, counters = {}, {}
    for o, h in p.st.heap.items():
        obj = T('obj', o)
        if any(op[0] in ('loop', 'prefix') and op[1] is S for op in h.log):
            if h.log[0][0] not in ('loop', 'prefix'):
                return None
            lists[obj] = len(lists)
    for l in sorted(S.phi, key=str):
        init = S.init.get(l)
        if init is not None and is_k(init) and type(kval(init)) is int and all(
                step_of(ip.steps.get(l), T('phi', S.L, l)) is not None for ip in S.paths if ip.goes_on):
            counters[l] = len(lists) + len(counters)
    start = (0,) * len(lists) + tuple(min(kval(S.init[l]), CAP) for l in counters)

    def number(t, vals):
        """the value of a length or counter, None if the term is none"""
        if is_k(t) and type(kval(t)) is int:
            return kval(t), False
        if t.op == 'bin' and t.a[0] in ('+', '-') and is_k(t.a[2]) and type(kval(t.a[2])) is int:
            c = number(t.a[1], vals)
            return None if c is None else (c[0] + kval(t.a[2]) * (1 if t.a[0] == '+' else -1), c[1])
        for l, i in counters.items():
            if t is T('phi', S.L, l) or t.op == 'phiout' and t.a[0] is S.L and t.a[1] is T('loc', str(l[-1])):
                return vals[i], vals[i] >= CAP
        return None

    def holds(k, vals, skip=()):
        """the truth of a fact in a state, None if it says nothing"""
        if k.op in ('truthy', 'len_ge', 'leneq') and unver(k.a[0]) in lists:
            if k.a[0] in skip:
                return None
            v = vals[lists[unver(k.a[0])]]
            l, r = (v, v >= CAP), (1 if k.op == 'truthy' else k.a[1], False)
            op = 'eq' if k.op == 'leneq' else 'ge'
        elif k.op == 'truthy':
            l, r, op = number(k.a[0], vals), (0, False), 'ne'
        elif k.op in ('eq', 'lt', 'le'):
            l, r, op = number(k.a[0], vals), number(k.a[1], vals), k.op
        else:
            return None
        if l is None or r is None:
            return None
        res = {{'ge': x >= y, 'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y}[op]
               for x in ([l[0]] if not l[1] else range(l[0], max(l[0], r[0]) + 3))
               for y in ([r[0]] if not r[1] else range(r[0], max(l[0], r[0]) + 3))}
        return None if len(res) > 1 else next(iter(res))

    def possible(ip, vals):
        skip = [ip.st.versioned(o) for o in lists if ip.ops.get(o)]
        return all(holds(k, vals, skip) in (None, v) for k, v in ip.facts.items())

    def after(ip, n, vals):
        out = list(vals)
        for o, i in lists.items():
            for op in ip.ops.get(o, ()):
                if op[0] == 'reset':
                    out[i] = 0
                elif op[0] == 'one':
                    out[i] = min(CAP, out[i] + 1)
                else:
                    return None
        for l, i in counters.items():
            step = step_of(ip.steps.get(l), T('phi', S.L, l))
            out[i] = max(-CAP, min(CAP, step[1] + (vals[i] if step[0] else 0)))
        s = success_of(ip)
        return None if s is None else (min(2, n + (1 if s else 0)), tuple(out))
    first = (head_key(S.init_head), 0, start)
    reach, work, ends = {first}, [first], {}
    while work:
        h, n, vals = work.pop()
        for ip in S.paths:
            if head_key(ip.head) != h or not possible(ip, vals):
                continue
            x = after(ip, n, vals)
            if x is None:
                return None
            ends.setdefault(ip.idx, set()).add(x)
            y = (head_key(ip.nhead),) + x
            if ip.goes_on and y not in reach:
                reach.add(y)
                work.append(y)
    if how[0] == 'exit':
        ns = {n for n, vals in ends.get(how[1], ())}
        if ns and not p.raises and not any(k.op == 'last' and v for k, v in S.paths[how[1]].facts.items()):
            ns |= {2}       # the parsers after it are not tried
    else:
        fin = set()
        for i in how[1]:
            fin |= ends.get(i, set())
        if len(how) > 2 and how[2]:
            fin.add((0, start))
        ns = {n for n, vals in fin if all(holds(k, vals) in (None, v) for k, v in p.facts.items())}
    if not ns:
        return (MANY, -1)
    # a test of something the loop computed that says nothing here
    sample = (0,) * len(start)
    if any(k.op not in ('raises', 'is') and holds(k, sample) is None and holds(k, (1,) * len(start)) is None and
           contains(k, lambda x: x.op in ('phi', 'phiout') and x.a[0] is S.L or x.op == 'obj' and x in lists)
           for k in p.facts):
        return None
    return min(ns), (max(ns) if max(ns) < 2 else MANY)


def step_of(t, ph):
    """how a counter changes: (relative, amount)"""
    if t is None or t is ph:
        return True, 0
    if is_k(t) and type(kval(t)) is int:
        return False, kval(t)
    if t.op == 'bin' and t.a[0] in ('+', '-') and t.a[1] is ph and is_k(t.a[2]) and type(kval(t.a[2])) is int:
        return True, kval(t.a[2]) * (1 if t.a[0] == '+' else -1)
    return None


def success_of(ip):
    for k, v in ip.facts.items():
        if k.op == 'raises' and contains(k.a[0], lambda x: x.op == 'elem'):
            return not v
    return None


def head_key(h):
    if h is None:
        return ()
    items = h.items() if isinstance(h, dict) else h
    return tuple(sorted((str(k), show(v) if isinstance(v, T) else str(v)) for k, v in items))


def is_success_value(p, ev, v):
    S = ev.a[0]
    v = unver(v)
    want = lambda t: is_call(t) and t.a[1] == (sym('v'),) and contains(t.a[0], lambda x: x.op == 'elem')
    if want(v):
        return True
    # an element of the list of successes
    def from_list(t):
        return t.op in ('elem', 'item', 'last_of', 'pop') and t.a[0].op == 'obj'
    if from_list(v):
        return True
    if v.op == 'call' and is_attr(v.a[0], 'pop') and v.a[0].a[0].op == 'obj':
        return True
    if v.op in ('phiout', 'elem') :
        # a variable that is only ever assigned the result of a parser
        for loc in var_steps(S):
            if v.op == 'phiout' and v.a[1] is T('loc', loc[-1]) and all(
                    success_of(ip) and loc in ip.steps and want(unver(ip.steps[loc])) or
                    success_of(ip) is False and loc not in ip.steps for ip in S.paths if ip.goes_on):
                return True
    return False


def var_steps(S):
    out = {}
    for ip in S.paths:
        for loc, v in ip.steps.items():
            out.setdefault(loc, []).append(v)
    return out


@rule('C21', 'default-stored', 'what a field that was not given gets is its default itself, not something made of it')
def default_stored(ctx):
    ps = new_paths(ctx)
    if ps is None:
        return
    R, w, node = 'default-stored', 'RecordBase.__new__', ctx.node('RecordBase', '__new__')
    n = 0
    done = set()
    for p in ps:
        for le in all_loops(p.events):
            S = le.a[0]
            if id(S) in done:
                continue
            done.add(id(S))
            for ip in S.paths:
                for ops in ip.ops.values():
                    for o in ops:
                        if o[0] not in ('set', 'setdefault') or len(o) < 3:
                            continue
                        v = unver(o[2])
                        if not contains(v, lambda x: default_of(x) is not None):
                            continue
                        n += 1
                        good = default_of(v) is not None
                        ctx.check(True if good else None if murky(v) else False, R, w,
                                  'the default is stored as it is' if good else f'stores {show(v)[:120]}', S.node, p)
    ctx.check(n > 0 or None, R, w, f'{n} places store a default', node)
