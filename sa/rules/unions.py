"""Unions: the best alternative, ties, failure of all (C09, C04)."""
from .base import *
from .base import rule
from .containers import all_inert, mcall, Seq, Z, END, variadic, consistent

SF = A(SELF, 'sub_fillers')


def fill_call(t):
    """t is the fill of one alternative with the argument -> the alternative"""
    t = unver(t)
    if is_call(t) and len(t.a[1]) == 1 and not t.a[2] and unver(t.a[1][0]) is ARG:
        f = unver(t.a[0])
        if is_attr(f, 'fill') and unver(f.a[0]).op == 'elem' and unver(unver(f.a[0]).a[0]) is SF:
            return unver(f.a[0])
    return None


def kind_of(t):
    t = unver(t)
    if is_attr(t, 'type_pass_kind') and fill_call(t.a[0]) is not None or \
            t.op == 'item' and is_k(t.a[1], 1) and fill_call(t.a[0]) is not None:
        return True
    return False


def value_of(t):
    t = unver(t)
    return is_attr(t, 'value') and fill_call(t.a[0]) is not None or \
        t.op == 'item' and is_k(t.a[1], 0) and fill_call(t.a[0]) is not None


def union_paths(ctx):
    if 'union' not in ctx._cache:
        c = ctx.P.cls_named('UnionFiller')
        ctx._cache['union'] = ctx.summ(c, 'fill', args=[ARG])
    return ctx._cache['union']


def filling(S):
    """loop that fills the alternatives"""
    return any(e.kind == 'call' and fill_call(T('call', e.a[0], tuple(e.a[1]), tuple(e.a[2]))) is not None
               for ip in S.paths for e in ip.events)


def struct_fields(t):
    t = unver(t)
    if t.op == 'struct' and t.a[0].endswith('FillingSuccess'):
        return dict(t.a[1])
    if is_call(t) and 'FillingSuccess' in show(t.a[0]):
        d = dict(zip(('value', 'type_pass_kind'), t.a[1]))
        d.update(dict(t.a[2]))
        return d
    return None


@rule('C09', 'best-match', 'the alternatives are filled one by one, the results of the best kind of match so far are kept, better '
                           'ones replace and equal ones join them')
def r_best(ctx):
    ps = union_paths(ctx)
    if ps is None:
        return
    R, w, node = 'best-match', 'UnionFiller.fill', ctx.node('UnionFiller', 'fill')
    seen = set()
    n = 0
    for p in ps:
        for e in p.events:
            if e.kind != 'loop' or id(e.a[0]) in seen or not filling(e.a[0]):
                continue
            S = e.a[0]
            seen.add(id(S))
            n += 1
            check_loop(ctx, R, w, S, node, p)
    ctx.check(n > 0 or None, R, w, f'{n} loops over the alternatives', node)


def is_head(t, S):
    return t.op == 'phi' and t.a[0] is S.L


def roles(S):
    """loop variables that hold the best kind and the results"""
    best, res = set(), set()
    for ip in S.paths:
        for l, v in ip.steps.items():
            if isinstance(v, T) and kind_of(v) and l in S.init:
                best.add(l)
        for o, ops in ip.ops.items():
            if any(x[0] == 'one' and value_of(x[1]) for x in ops):
                res.add(o)
    return best, res


def check_loop(ctx, R, w, S, node, p):
    b = Seq(ARG).bounds(S.dom)
    if b is None or not any(x[0] is SF for x in b):
        ctx.undec(R, w, 'the alternatives are not gone through directly')
        return
    if any(x[0] is SF and (x[1], x[2]) != (Z, END) for x in b):
        ctx.bad(R, w, 'not every alternative is tried', S.node, p)
        return
    best, res = roles(S)
    if len(best) != 1:
        # every success collected, the best chosen afterwards: not followed
        ctx.undec(R, w, 'how the best kind is kept is not followed')
        return
    bk = next(iter(best))
    lst = [l for l, v in S.init.items() if isinstance(v, T) and v.op == 'obj' and p.st.h(v) is not None and p.st.h(v).kind == 'list']

    def best_head(k):
        """comparison of a kind with the best so far: ('lt'|'eq'|..., term)"""
        return [x for x in k.a if isinstance(x, T) and unver(x).op == 'phi' and unver(x).a[1] == bk] and \
            [x for x in k.a if isinstance(x, T) and kind_of(x)]
    ends_itself = any(ip.sig.kind == 'raise' and any(v and k.op == 'raises' for k, v in ip.facts.items()) for ip in S.paths)
    for ip in S.paths:
        fills = [e for e in ip.events if e.kind == 'call' and
                 fill_call(T('call', e.a[0], tuple(e.a[1]), tuple(e.a[2]))) is not None]
        if len(fills) != 1:
            ctx.check(None if any(murky(k) for k in ip.facts) else False, R, w, f'each alternative is tried once, not {len(fills)} times',
                      S.node, p)
            continue
        raised = None
        lt = eq = gt = first = None
        empty = None
        other = []
        for k, v in ip.facts.items():
            if k.op == 'raises':
                if fill_call(k.a[0]) is not None:
                    raised = v
                else:
                    other.append(k)
            elif k.op in ('lt', 'eq', 'le') and best_head(k):
                if k.op == 'eq':
                    eq = v
                else:
                    left = kind_of(k.a[0])
                    if k.op == 'lt':
                        if left:
                            lt = v
                        else:
                            gt = v
                    elif left:
                        gt = not v
                    else:
                        lt = not v
            elif k.op == 'is' and any(is_k(x, None) for x in k.a) and any(unver(x).op == 'phi' and unver(x).a[1] == bk for x in k.a):
                first = v
            elif k.op == 'truthy' and (unver(k.a[0]).op == 'phi' or unver(k.a[0]) in res):
                empty = not v
            elif k.op == 'len_ge' or k.op == 'last':
                pass
            else:
                other.append(k)
        if any(murky(k) for k in other):
            ctx.undec(R, w, f'depends on {show(other[0])[:100]}')
            continue
        # the order of the match and the best so far: sets of possibilities
        poss = {'lt', 'eq', 'gt'}
        for nm, v in (('lt', lt), ('eq', eq), ('gt', gt)):
            if v is True:
                poss &= {nm}
            elif v is False:
                poss -= {nm}
        if first is True or empty is True and raised is not True and lt is None and eq is None:
            poss = {'lt'}
        step = ip.steps.get(bk)
        newbest = step is not None and kind_of(step)
        kept = step is None or unver(step).op == 'phi'
        replaced = [tuple(ops[1:]) for o, ops in ip.ops.items() if o in res and ops and ops[0][0] == 'reset']
        adds = [x for o, ops in ip.ops.items() for x in ops if x[0] == 'one' and value_of(x[1]) and not replaced]
        wrong = [x for o, ops in ip.ops.items() for x in ops if not (x[0] == 'one' and value_of(x[1]))]
        calls = [e for e in ip.events if e.kind == 'call' and is_attr(unver(e.a[0]), 'append') and unver(unver(e.a[0]).a[0]).op == 'phi']
        appended = [e for e in calls if len(e.a[1]) == 1 and value_of(e.a[1][0])]
        fresh = None
        for l, v in ip.steps.items():
            if l == bk or not isinstance(v, T):
                continue
            h = ip.st.h(v)
            if v.op == 'obj' and h is not None and h.kind in ('list', 'tuple'):
                fresh = tuple(h.log)
            elif v.op == 'tuple' and len(v.a[0]) == 1 and value_of(v.a[0][0]):
                fresh = (('one', v.a[0][0]),)
        if replaced:
            fresh = replaced[0] if len(replaced) == 1 and fresh is None else (('one', NONE), ('one', NONE))
        if raised is True:
            out = 'raise' if ip.sig.kind == 'raise' else 'keep' if kept and not appended and fresh is None else 'other'
            caught = [e for e in ip.events if e.kind == 'caught']
            if any(show(e.a[0]).startswith('builtins.') and 'Exception(' not in show(e.a[0]) for e in caught):
                ctx.bad(R, w, 'only some errors of an alternative are left aside', ip.sig.node or S.node, p)
                continue
            if out == 'raise':
                last = [v for k, v in ip.facts.items() if k.op == 'last']
                good = last == [True] and empty is True
                ctx.check(True if good else False, R, w, 'an error of an alternative is raised only if it is the last and none matched',
                          ip.sig.node or S.node, p)
            else:
                ctx.check(out == 'keep', R, w, 'an alternative that fails changes nothing', ip.sig.node or S.node, p)
                if ends_itself and ip.goes_on and empty is not False and \
                        [v for k, v in ip.facts.items() if k.op == 'last'] == [True]:
                    ctx.check(None if any(map(murky, ip.facts)) else False, R, w, 'if all alternatives fail, the last error is raised',
                              S.node, p)
            continue
        if ip.sig.kind == 'raise':
            ctx.bad(R, w, 'raises although an alternative matched', ip.sig.node or S.node, p)
            continue
        if not ip.goes_on:
            strict = any(k.op in ('is', 'eq') and v and any(isinstance(x, T) and kind_of(x) for x in k.a) for k, v in ip.facts.items())
            ctx.check(None if any(map(murky, ip.facts)) else False, R, w, 'alternatives are left untried after a match', ip.sig.node or S.node, p)
            continue
        if newbest and fresh is not None and len(fresh) == 1 and fresh[0][0] == 'one' and value_of(fresh[0][1]) and not appended:
            out = 'lt'
        elif newbest and (appended or adds) and fresh is None:
            cl = [e for e in ip.events if e.kind == 'call' and is_attr(unver(e.a[0]), 'clear')]
            out = 'lt' if cl else 'joins a worse one'
        elif newbest and fresh is not None and len(fresh) == 0 and (appended or adds):
            out = 'lt'
        elif kept and fresh is None and (len(appended) == 1 or len(adds) == 1):
            out = 'eq'
        elif kept and fresh is None and not appended and not adds:
            out = 'gt'
        elif newbest and fresh is None:
            out = 'forgotten'
        else:
            out = None
        if out == 'gt' and newbest is False and any(isinstance(v, T) and v.op == 'phi' for v in ip.steps.values()) and wrong:
            out = None
        if out is None:
            ctx.undec(R, w, 'what is kept of a match is not followed')
            continue
        good = poss <= {out}
        what = {'lt': 'replaces the results', 'eq': 'joins the results', 'gt': 'is dropped'}.get(out, out)
        ctx.check(good, R, w, f'a match that is {"/".join(sorted({"lt": "better than", "eq": "as good as", "gt": "worse than"}[x] for x in poss))}'
                  f' the best so far {what}', ip.sig.node or S.node, p)


def same_all(p, res):
    """is every result known to be the very first one; 'eq' if they are only compared by value"""
    out = None
    for e in p.events:
        if e.kind != 'loop':
            continue
        S, how = e.a
        d = unver(S.dom)
        src = unver(d.a[0]) if d.op == 'slice' else d
        if src is not res or how[0] != 'done':
            continue
        if d.op == 'slice' and not (is_k(d.a[1]) and kval(d.a[1]) in (None, 0, 1) and is_k(d.a[2], None)):
            return False
        ips = allowed_paths(S, how)
        for op in ('is', 'eq'):
            def ok(ip):
                return any(k.op == op and v and any(unver(x).op == 'elem' for x in k.a) and
                           any(unver(x) is T('item', res, K(0)) for x in k.a) for k, v in ip.facts.items())
            if ips and all(ok(ip) for ip in ips):
                return op
    return out


def results_term(p):
    """what holds the results after the loop"""
    return None


@rule('C09', 'ties', 'a union succeeds with its only best result or with results that are one and the same object, reports the '
                     'kind of that match, and fails otherwise')
def r_ties(ctx):
    ps = union_paths(ctx)
    if ps is None:
        return
    R, w, node = 'ties', 'UnionFiller.fill', ctx.node('UnionFiller', 'fill')
    inraise = False
    for p in ps:
        for e in p.events:
            if e.kind == 'loop' and filling(e.a[0]):
                for ip in e.a[0].paths:
                    if ip.sig.kind == 'raise' and [v for k, v in ip.facts.items() if k.op == 'last'] == [True]:
                        inraise = True
    for p in ps:
        lp = [e for e in p.events if e.kind == 'loop' and filling(e.a[0])]
        if not lp:
            if not p.returns:
                ctx.bad(R, w, 'raises without trying the alternatives', p.sig.node or node, p)
                continue
            f = struct_fields(p.value)
            good = all_inert(p, SF) and f is not None and unver(f.get('value')) is ARG
            ctx.check(True if good else None if any(map(murky, p.facts)) else False, R, w,
                      'the value is taken unfilled only if no alternative does anything', p.sig.node or node, p)
            continue
        S, how = lp[-1].a
        if how[0] != 'done':
            continue
        best, res = roles(S)
        if len(best) != 1:
            ctx.undec(R, w, 'the results are not followed')
            continue
        bk = next(iter(best))
        if p.returns:
            f = struct_fields(p.value)
            if f is None or 'value' not in f or 'type_pass_kind' not in f:
                ctx.check(None if murky(p.value) else False, R, w, f'returns {show(p.value)[:100]}', p.sig.node or node, p)
                continue
            v, k = unver(f['value']), unver(f['type_pass_kind'])
            kept = lambda t: t.op == 'phiout' or t in res
            if not (k.op == 'phiout' and k.a[0] is S.L and bk[-1] in show(k.a[1])):
                ctx.check(None if murky(k) else False, R, w, 'the kind of the best match is reported', p.sig.node or node, p)
            else:
                ctx.ok(R, w, 'the kind of the best match is reported')
            if v.op != 'item' or not is_k(v.a[1]) or kval(v.a[1]) not in (0, -1) or not kept(unver(v.a[0])):
                fol = not contains(v, lambda x: x.op in UNKNOWN_OPS or x.op in ('phiout', 'loopres', 'obj', 'call'))
                ctx.check(False if fol else None, R, w, f'a result of an alternative is returned, not {show(v)[:60]}',
                          p.sig.node or node, p)
                continue
            res_t = unver(v.a[0])
            many = next((b for k, b in p.facts.items() if unver(k) is len_ge(res_t, 2)), None)
            same = same_all(p, res_t)
            if many is False or same == 'is':
                ctx.ok(R, w, 'one result, or the same one')
            else:
                ctx.check(None if any(map(murky, p.facts)) else False, R, w,
                          'results of several alternatives are taken although they are ' +
                          ('only equal' if same == 'eq' else 'not the same object'), p.sig.node or node, p)
            if not inraise:
                nonempty = any(b and unver(k) in (T('truthy', res_t), len_ge(res_t, 2)) for k, b in p.facts.items())
                ctx.check(True if nonempty else False, R, w, 'a result is taken only if there is one', p.sig.node or node, p)
        else:
            # raising after all alternatives were tried: a tie, or nothing matched
            v = unver(p.sig.val)
            tie = [k for k, b in p.facts.items() if k.op in ('len_ge', 'leneq', 'is', 'truthy') and 'phiout' in show(k)]
            differ = [k for k, b in p.facts.items() if k.op == 'is' and b is False and any(unver(x).op in ('elem', 'item') for x in k.a)]
            eqdif = [k for k, b in p.facts.items() if k.op == 'eq' and b is False and any(unver(x).op in ('elem', 'item') for x in k.a)]
            lasterr = isinstance(v, T) and v.op == 'phiout' or 'exc(' in show(v)
            none = any(k.op == 'truthy' and b is False and unver(k.a[0]).op == 'phiout' for k, b in p.facts.items())
            if differ or eqdif:
                ctx.check(True if differ else None, R, w, 'results that differ are refused', p.sig.node or node, p)
            elif none:
                ctx.check(True if lasterr else False, R, w, 'if every alternative fails the last error is raised', p.sig.node or node, p)
            elif lasterr and any(k.op in ('is', 'truthy') for k in p.facts):
                ctx.undec(R, w, 'when the last error is raised is not followed')
            else:
                many = [k for k, b in p.facts.items() if k.op == 'len_ge' and b and k.a[1] == 2]
                ctx.check(None if any(map(murky, p.facts)) or not many else False, R, w,
                          'results that are the same object are refused', p.sig.node or node, p)


@rule('C04', 'union-shortcut', 'a union takes a value without asking its alternatives only if none of them does anything with it')
def r_union_shortcut(ctx):
    ps = union_paths(ctx)
    if ps is None:
        return
    R, w, node = 'union-shortcut', 'UnionFiller.fill', ctx.node('UnionFiller', 'fill')
    n = 0
    for p in ps:
        if any(e.kind == 'loop' and filling(e.a[0]) for e in p.events):
            n += 1
            continue
        if not p.returns:
            continue
        f = struct_fields(p.value)
        asked = isinstance(p.value, T) and contains(p.value, lambda x: fill_call(x) is not None)
        if asked:
            n += 1
            continue
        if f is None:
            ctx.check(None, R, w, f'returns {show(p.value)[:100]}', p.sig.node or node, p)
            continue
        ctx.check(True if all_inert(p, SF) else None if any(map(murky, p.facts)) else False, R, w,
                  'the value is taken unfilled only if no alternative does anything', p.sig.node or node, p)
    ctx.check(n > 0 or None, R, w, f'{n} paths ask the alternatives', node)


@rule('C09', 'start', 'before any alternative was tried there is no result, and anything is better')
def r_start(ctx):
    ps = union_paths(ctx)
    R, w, node = 'start', 'UnionFiller.fill', ctx.node('UnionFiller', 'fill')
    seen = set()
    for p in ps or []:
        for e in p.events:
            if e.kind != 'loop' or id(e.a[0]) in seen or not filling(e.a[0]):
                continue
            S = e.a[0]
            seen.add(id(S))
            best, _ = roles(S)
            if len(best) != 1:
                ctx.undec(R, w, 'the best kind is not followed')
                continue
            v = S.init.get(next(iter(best)))
            inf = is_call(v) and show(v.a[0]).endswith('float') and len(v.a[1]) == 1 and is_k(v.a[1][0]) and \
                str(kval(v.a[1][0])).lstrip('+') in ('inf', 'infinity') or is_k(v, float('inf')) or 'math.inf' in show(v)
            big = is_k(v) and isinstance(kval(v), (int, float)) and kval(v) > 3
            none = is_k(v, None)
            ctx.check(True if inf or big or none else None if murky(v) or not is_k(v) and v.op != 'enum' else False, R, w,
                      f'the first match is better than {show(v)}', node, p)


@rule('C09', 'kinds-ordered', 'exact matches come before inexact ones, those before coerced ones, and those before unchecked ones')
def r_kinds(ctx):
    R = 'kinds-ordered'
    c = ctx.P.cls_named('TypePassKind')
    vals = {}
    for n, v in c.attrs.items():
        x = v[1] if isinstance(v, tuple) else v
        if isinstance(x, ast.Assign):
            x = x.value
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
            vals[n] = x.value
    order = ['no_coerce_strict', 'no_coerce', 'coerce', 'hollow']
    if not all(o in vals for o in order):
        auto = [n for n in c.attrs if n in order]
        ctx.check(True if auto == order else None, R, 'TypePassKind', 'kinds are in order of their definition', None)
        return
    for a, b in zip(order, order[1:]):
        ctx.check(vals[a] < vals[b], R, 'TypePassKind', f'{a} is better than {b}', getattr(c, 'node', None))


def applied_tokens(e, bound):
    """(the sequences of which a loop hands every token to every alternative, whether alternatives are bound after it,
    whether no token comes after the binding)"""
    S, how = e.a[0], e.a[1]
    good = True
    common = None
    was = bound
    for ip in S.paths:
        here, now = [], was
        for x in ip.events:
            if x.kind == 'loop':
                srcs, now, g = applied_tokens(x, now)
                here += srcs
                good = g if good is True else good
            elif is_alternative(mcall(x, 'apply')):
                if len(x.a[1]) == 1 and unver(x.a[1][0]).op == 'elem':
                    here.append(unver(unver(x.a[1][0]).a[0]))
                else:
                    good = None
                if now:
                    good = False
            elif is_alternative(mcall(x, 'bind')):
                now = True
        if ip.goes_on:
            common = here if common is None else [s for s in common if any(s is t for t in here)]
            bound = bound or now
            if any(murky(k) for k in ip.facts) and not here:
                good = None if good is True else good
        elif ip.sig.kind != 'raise':
            good = False
    if how[0] != 'done':
        return [], bound, good
    return common or [], bound, good


def is_alternative(t):
    return t is not None and t.op == 'elem' and unver(t.a[0]) is SF


def values_log(st, t):
    """the loop that filled the dict whose values t is made of -> (loop, dict)"""
    t = unver(t)
    while t.op == 'seqt' and len(t.a[0]) == 1 and t.a[0][0][0] == 'ext':
        t = unver(t.a[0][0][1])
    if t.op != 'values':
        return None
    h = st.h(t.a[0])
    if h is None or h.kind != 'dict' or len(h.log) != 1 or h.log[0][0] != 'loop':
        return None
    return h.log[0][1], h.log[0][2]


@rule('C09', 'alternatives', 'there is one alternative for each type of the union')
def r_alternatives(ctx):
    from .containers import init_paths, got_filler, hint_args, consume
    R = 'alternatives'
    c = ctx.P.cls_named('UnionFiller')
    w, node = 'UnionFiller.__init__', ctx.node(c, '__init__')
    I, ps = init_paths(ctx, c)
    for p in ps or []:
        sf = None
        for e in p.events:
            if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], 'sub_fillers'):
                sf = e.a[2]
        if sf is None:
            ctx.bad(R, w, 'no alternatives are made', node, p)
            continue
        merged = values_log(p.st, sf)
        if merged is not None:
            # alternatives kept by key: two members with one key become one
            keys = [(k, v) for ip in merged[0].paths for o, ops in ip.ops.items() if o is merged[1] for op, k, v in ops if op == 'set']
            bad = next((k for k, v in keys if unver(k).op != 'elem' and not murky(k) and got_filler(v)), None)
            ctx.check(False if bad is not None else None, R, w, 'one filler for each type of the union', node, p)
            continue
        for s, log in consume(I, p.st, sf, node):
            good = None
            if log is not None and len(log) == 1 and log[0][0] == 'loop':
                S, o = log[0][1], log[0][2]
                good = hint_args(unver(S.dom))
                for ip in S.paths:
                    ops = [y for k, x in ip.ops.items() if k is o for y in x]
                    if len(ops) != 1 or not ip.goes_on:
                        good = None if any(map(murky, ip.facts)) else False
                        break
                    g = ops[0][0] == 'one' and got_filler(ops[0][1])
                    good = good and bool(g) and g[0].op == 'elem'
            ctx.check(good, R, w, 'one filler for each type of the union', node, p)
