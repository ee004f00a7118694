"""Select: normalisation of its instructions, application, merging, truth (C14)."""
from .base import *

KINDS = ['keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename', 'keys_to_add',
         'keys_to_maybe_add']
PAIRS = {k for k in KINDS if 'remove' not in k}
STRICT = {k for k in KINDS if 'maybe' not in k}


def init_paths(ctx):
    if 'select-init' not in ctx._cache:
        ctx._cache['select-init'] = ctx.summ('Select', '__init__')
    return ctx._cache['select-init']


def final_attr(p, base, name):
    return p.st.over.get((base, name))


def attr_of(ctx):
    """instruction keyword -> attribute that holds it, read off the initializer"""
    if 'select-attrs' in ctx._cache:
        return ctx._cache['select-attrs']
    out = {}
    for p in init_paths(ctx) or []:
        if p.raises:
            continue
        for (b, n), v in p.st.over.items():
            if b is not SELF:
                continue
            for k in KINDS:
                if contains(v, lambda x, k=k: x is sym(k)) or any(
                        contains(y, lambda x, k=k: x is sym(k)) for y in heap_parts(p, v)):
                    out.setdefault(k, set()).add(n)
    res = {}
    for k in KINDS:
        s = out.get(k, set())
        if k in s:
            res[k] = k
        elif len(s) == 1:
            res[k] = next(iter(s))
    ctx._cache['select-attrs'] = res
    return res


def heap_parts(p, v):
    h = p.st.h(v) if isinstance(v, T) else None
    if h is None:
        return []
    return [x for op in h.log for x in op[1:] if isinstance(x, T)]


def seq_ops(p, v):
    """operations that built a private sequence, or None"""
    h = p.st.h(v)
    if h is not None:
        return list(h.log)
    if v.op == 'seqt':
        return list(v.a[0])
    if v.op == 'tuple':
        return [('one', x) for x in v.a[0]]
    if v.op == 'bin' and v.a[0] == '+':
        l, r = (seq_ops(p, unver(x)) or ([('ext', x)] if unver(x).op == 'attr' else None) for x in v.a[1:3])
        return None if l is None or r is None else l + r
    if v.op in ('empty',):
        return []
    return None


@rule('C14', 'instruction-snapshot', 'a select keeps its own copy of each instruction list: the items of a mapping, a single'
                                     ' key given as a string as one key, and otherwise the elements in order')
def r_snapshot(ctx):
    ps = init_paths(ctx)
    if ps is None:
        return
    node, w = ctx.node('Select', '__init__'), 'Select.__init__'
    attrs = attr_of(ctx)
    for k in KINDS:
        a = attrs.get(k)
        if a is None:
            ctx.undec('instruction-snapshot', w, f'no attribute found that holds {k}')
            continue
        K0 = sym(k)

        def observe(p, a=a, K0=K0):
            if p.raises:
                return 'raise'
            v = final_attr(p, SELF, a)
            if v is None:
                return 'unset'
            if unver(v) is K0:
                return 'the caller\'s own object'
            ops = seq_ops(p, v)
            if ops is None:
                return None if v.op in UNKNOWN_OPS or v.op not in ('items', 'values', 'keys', 'iter1', 'map', 'gen') \
                    else 'a one-shot or live view'
            ops = [tuple(unver(x) if isinstance(x, T) else x for x in o) for o in ops]
            if ops == [('one', K0)]:
                return 'single'
            if ops == [('ext', K0)] or ops == [('upd', K0)]:
                return 'elements'
            if ops == [('ext', T('items', K0))]:
                return 'items'
            if not ops:
                return 'elements' if p.st.known(T('truthy', K0)) is False else 'nothing'
            return None if any(murky(x) for o in ops for x in o if isinstance(x, T)) else f'{ops}'[:200]
        MAP = lambda p, K0=K0: mapping_test(p, K0)
        if k in PAIRS:
            ctx.decide('instruction-snapshot', f'{w}:{k}', ps, [('mapping', MAP)],
                       lambda v: ({'items'} if v['mapping'] else {'elements'}) if 'mapping' in v else {'elements', 'items'},
                       observe, node)
        else:
            ctx.decide('instruction-snapshot', f'{w}:{k}', ps, [('string', T('isinstance', K0, G('builtins.str')))],
                       lambda v: {'single'} if v['string'] else {'elements'}, observe, node)


def mapping_test(p, K0):
    for f in p.facts:
        if f.op == 'isinstance' and f.a[0] is K0 and 'Mapping' in show(f.a[1]):
            return f
    return T('isinstance', K0, G('typing.Mapping'))


# -- application ------------------------------------------------------------------------------------------------------
class Absent(Exception):
    pass


def run_iteration(ip, M, keys, present):
    """
    follow one iteration path with the given keys present in the mapping
    -> None (path not taken) | 'unknown' | 'raise' | dict of key name -> value tag
    """
    state = {k: ('old', k) for k in present}
    ops = []
    heap = [o for o in ip.ops if o is M]
    if heap:
        for op in ip.ops[M]:
            ops.append(op)
    else:
        for e in ip.events:
            if e.kind == 'setitem' and unver(e.a[0]) is M:
                ops.append(('set', e.a[1], e.a[2]))
            elif e.kind == 'delitem' and unver(e.a[0]) is M:
                ops.append(('del', e.a[1]))
            elif e.kind == 'call' and is_attr(unver(e.a[0])) and unver(e.a[0]).a[0] is M:
                n = unver(e.a[0]).a[1]
                if n == 'pop':
                    ops.append(('pop', *e.a[1]))
                elif n == 'setdefault' and len(e.a[1]) == 2:
                    ops.append(('setdefault', *e.a[1]))
                elif n in ('get', 'keys', 'items', 'values', '__contains__'):
                    pass
                else:
                    return 'unknown'
            elif e.kind in ('loop', 'unknown', 'dictupdate', 'mut', 'iadd') and contains_any(e.a, M):
                return 'unknown'
    base = ip.st.ver.get(M, 0) - len(ops)

    def name(t):
        return keys.get(unver(t))
    facts = {}
    for k, v in ip.facts.items():
        if k.op == 'in' and unver(k.a[1]) is M:
            n = (k.a[1].a[1] if k.a[1].op == 'ver' else 0) - base
            if not 0 <= n <= len(ops) or name(k.a[0]) is None:
                return 'unknown'
            facts.setdefault(n, []).append(('in', name(k.a[0]), v))
        elif k.op == 'eq' and name(k.a[0]) and name(k.a[1]):
            if v != (name(k.a[0]) == name(k.a[1])):
                return None       # the keys of a scenario are one, or distinct
        elif k.op == 'raises':
            continue
        elif contains(k, lambda x: x is M):
            it = value_test(k, M)
            if it is None:
                return 'unknown'
            n = (it.a[0].a[1] if it.a[0].op == 'ver' else 0) - base
            if not 0 <= n <= len(ops) or name(it.a[1]) is None:
                return 'unknown'
            if any(x.op == 'sentinel' for x in parts_of(k)) and v:
                return None           # no value is an object that only the module has
            # the value of a key that exists can be anything: either outcome happens
            facts.setdefault(n, []).append(('has', name(it.a[1]), v))
    caught = [unver(k.a[0]) for k, v in ip.facts.items() if k.op == 'raises' and v]
    fine = [unver(k.a[0]) for k, v in ip.facts.items() if k.op == 'raises' and not v]

    def val(t):
        """tag of the value stored"""
        u = unver(t)
        if u.op == 'item' and u.a[0] is M and name(u.a[1]):
            return before.get(name(u.a[1]), ('absent',))
        if is_call(u) and is_attr(u.a[0], base=M) and u.a[0].a[1] in ('pop', 'get', '__getitem__') and name(u.a[1][0]):
            return before.get(name(u.a[1][0]), ('absent',))
        return ('term', u)
    if caught or fine:
        # a lookup or removal that is caught: it fails exactly if the key is missing
        for t in caught:
            k = lookup_key(t, M, keys)
            if k is None:
                return 'unknown'
            if k in present:
                return None
        for t in fine:
            k = lookup_key(t, M, keys)
            if k is not None and k not in present and not (is_call(t) and len(t.a[1]) > 1):
                return None
    before = dict(state)
    for i in range(len(ops) + 1):
        for what, k, v in facts.get(i, []):
            if what == 'has':
                if k not in state:
                    return 'unknown'
                if state[k][0] != 'old':
                    return 'unknown'
            elif (k in state) != v:
                return None
        if i == len(ops):
            break
        op = ops[i]
        k = name(op[1]) if len(op) > 1 and isinstance(op[1], T) else None
        if k is None:
            return 'unknown'
        if op[0] == 'pop':
            if k not in state and len(op) < 3 and not (len(op) == 3):
                return 'raise'
            before[k] = state.get(k, ('absent',))
            state.pop(k, None)
        elif op[0] == 'del':
            if k not in state:
                return 'raise'
            before[k] = state[k]
            del state[k]
        elif op[0] == 'set':
            state[k] = val(op[2])
            if state[k] == ('absent',):
                return 'raise'
            before.setdefault(k, state[k])
        elif op[0] == 'setdefault':
            if k not in state:
                state[k] = val(op[2])
        else:
            return 'unknown'
    if ip.sig.kind == 'raise':
        return 'raise'
    if not ip.goes_on:
        return f'{ip.sig.kind}: the rest of the instructions are not applied'
    return state


def parts_of(k):
    return [x for x in k.a if isinstance(x, T)]


def value_test(k, M):
    """the lookup of M whose value the fact compares with a constant (or tests), if it is nothing else"""
    its = [x for x in parts_of(k) if x.op == 'item' and unver(x.a[0]) is M]
    if k.op == 'truthy' and len(k.a) == 1 and len(its) == 1:
        return its[0]
    if k.op == 'item' and unver(k.a[0]) is M:
        return k
    if k.op in ('is', 'eq') and len(its) == 1 and all(
            x is its[0] or is_k(x) or x.op == "sentinel" for x in parts_of(k)):
        return its[0]
    return None


def lookup_key(t, M, keys):
    if t.op == 'item' and t.a[0] is M:
        return keys.get(t.a[1])
    if is_call(t) and is_attr(t.a[0], base=M) and t.a[1]:
        return keys.get(unver(t.a[1][0]))
    return None


def contains_any(xs, M):
    return any(isinstance(x, T) and contains(x, lambda y: y is M) for x in xs)


def expected(kind, present):
    st = {k: ('old', k) for k in present}
    if 'remove' in kind:
        if 's' not in st:
            return 'raise' if kind in STRICT else st
        del st['s']
        return st
    if 'rename' in kind:
        if 's' not in st:
            return 'raise' if kind in STRICT else st
        if 'd' in st:
            return 'raise'
        st['d'] = st.pop('s')
        return st
    if 's' in st:
        return 'raise' if kind in STRICT else st
    st['s'] = ('value',)
    return st


@rule('C14', 'application', 'applying a select runs its instructions, removals before renamings before additions and the'
                            ' strict ones of each first, each with its effect on the keys, and returns that mapping')
def r_apply(ctx):
    R, w, node = 'application', 'Select.__call__', ctx.node('Select', '__call__')
    ps = ctx.summ('Select', '__call__')
    if ps is None or node is None:
        return
    M0 = sym(node.args.args[1].arg)
    attrs = attr_of(ctx)
    by_attr = {unver(A(SELF, a)): k for k, a in attrs.items()}
    if len(by_attr) != 6:
        ctx.undec(R, w, 'instruction attributes not identified')
        return
    done_iters = set()
    for p in ps:
        lps = [e for e in loops(p)]
        seq = []
        M = None
        if p.st.known(T('truthy', SELF)) is False:
            touched = [e for e in all_events(p.events) if e.kind in ('setitem', 'delitem', 'mut') or e.kind == 'call']
            ctx.check(not p.raises and unver(p.value) is M0 or fresh_copy(p, p.value, M0) if not murky(p.value) else None, R,
                      f'{w}:empty', 'an empty select returns the mapping as it is', node, p)
            continue
        unk = False
        # the mapping worked on
        targets = set()
        for e in lps:
            for ip in e.a[0].paths:
                for o in ip.ops:
                    if ip.ops[o]:
                        targets.add(o)
                for ev in all_events(ip.events):
                    if ev.kind in ('setitem', 'delitem'):
                        targets.add(unver(ev.a[0]))
                    elif ev.kind == 'call' and is_attr(unver(ev.a[0])) and unver(ev.a[0]).a[1] in ('pop', 'setdefault',
                                                                                                 'update'):
                        targets.add(unver(ev.a[0]).a[0])
        good = [t for t in targets if t is M0 or fresh_copy(p, t, M0)]
        M = good[0] if len(good) == 1 else None
        if len(targets) > 1 or targets and M is None:
            ctx.undec(R, w, f'the mapping the select works on was not identified ({", ".join(map(show, targets))})')
            continue
        if M is None:
            M = M0 if p.raises else unver(p.value)
        for e in lps:
            S = e.a[0]
            kind = by_attr.get(unver(S.dom))
            if kind is None:
                ctx.undec(R, w, f'loop over {show(S.dom)} not recognised')
                unk = True
                break
            seq.append(kind)
            if (kind, id(S)) in done_iters:
                continue
            done_iters.add((kind, id(S)))
            check_iterations(ctx, R, w, kind, S, M, node)
        if unk:
            continue
        for k in seq:
            if seq.count(k) > 1:
                ctx.bad(R, f'{w}:order', f'{k} are applied twice', node, p)
        order = [KINDS.index(k) for k in seq]
        if order != sorted(order):
            ctx.bad(R, f'{w}:order', f'instructions are applied in the order {seq}', node, p)
        else:
            ctx.ok(R, f'{w}:order', f'{len(seq)} kinds in order')
        if p.raises:
            continue
        for k in KINDS:
            if k not in seq and p.st.known(T('truthy', A(SELF, attrs[k]))) is not False:
                ctx.bad(R, f'{w}:{k}', f'{k} are not applied on a path', node, p, key=f'{R}@{w}:{k}:skipped')
        v = unver(p.value)
        ctx.check(v is M if not murky(v) else None, R, f'{w}:result', 'the mapping that was modified is returned', node, p)


def fresh_copy(p, t, M0):
    h = p.st.h(t)
    if h is None or not h.log:
        return False
    op = h.log[0]
    return op[0] in ('upd', 'ext') and unver(op[1]) is M0 or op[0] == 'upd' and unver(op[1]) is T('items', M0)


def check_iterations(ctx, R, w, kind, S, M, node):
    elem = None
    for e in (T('elem', S.dom, S.L), T('elem', S.dom)):
        for ip in S.paths:
            if any(contains(x, lambda y, e=e: y is e) for x in parts(ip)):
                elem = e
                break
        if elem is not None:
            break
    if elem is None:
        # the body does not look at its element
        elem = T('elem', S.dom, S.L)
    if kind in PAIRS:
        keys = {T('item', elem, K(0)): 's', T('item', elem, K(1)): 'd'}
        if 'rename' not in kind:
            keys = {T('item', elem, K(0)): 's'}
    else:
        keys = {elem: 's'}
    names = sorted(set(keys.values()))
    scen = [()]
    for n in names:
        scen = [s + x for s in scen for x in ((), (n,))]
    for present in scen:
        exp = expected(kind, set(present))
        outs = []
        for ip in S.paths:
            r = run_iteration(ip, M, keys, set(present))
            if r is None:
                continue
            if isinstance(r, dict):
                r = {k: (('value',) if v[0] == 'term' and v[1] is T('item', elem, K(1)) else v) for k, v in r.items()}
            outs.append((r, ip))
        what = f'{kind} with ' + (', '.join({'s': 'the key', 'd': 'the new key'}[x] + ' present' for x in present)
                                  or 'no such key')
        if not outs:
            ctx.undec(R, f'{w}:{kind}', f'{what}: no path')
            continue
        for r, ip in outs:
            if r == 'unknown':
                ctx.undec(R, f'{w}:{kind}', f'{what}: not followed')
                continue
            if r == exp:
                ctx.ok(R, f'{w}:{kind}', what)
            elif isinstance(r, dict) and any(v[0] == 'term' and murky(v[1]) for v in r.values()):
                ctx.undec(R, f'{w}:{kind}', f'{what}: stores {r}')
            else:
                ctx.bad(R, f'{w}:{kind}', f'{what}: the outcome is {fmt(r)}, expected {fmt(exp)}', S.node or node)


    if 'rename' not in kind:
        return
    # a key renamed to itself, where the code looks at whether it is
    same = {k: 's' for k in keys}
    asked = [ip for ip in S.paths if any(k.op in ('eq', 'is') and {unver(x) for x in k.a} == set(keys) and v for k, v in ip.facts.items())]
    for present in ((), ('s',)):
        exp = expected(kind, set(present) | ({'d'} if present else set()))
        for ip in asked:
            r = run_iteration(ip, M, same, set(present))
            if r is None or r == 'unknown':
                continue
            ctx.check(r == exp, R, f'{w}:{kind}', f'{kind} of a key to itself, {"present" if present else "missing"}: the outcome is {fmt(r)}, '
                      f'expected {fmt(exp)}', S.node or node)


def fmt(r):
    if isinstance(r, str):
        return r
    return '{' + ', '.join(f'{k}: {v[0] if v[0] != "term" else show(v[1])}' for k, v in r.items()) + '}'


def parts(ip):
    for k in ip.facts:
        yield k
    for e in ip.events:
        for x in e.a:
            if isinstance(x, T):
                yield x
            elif isinstance(x, (tuple, list)):
                yield from (y for y in x if isinstance(y, T))
    for o in ip.ops.values():
        for op in o:
            yield from (y for y in op[1:] if isinstance(y, T))


# -- truth ------------------------------------------------------------------------------------------------------------
@rule('C14', 'truth', 'a select is true exactly if one of its instruction lists is not empty; the cached answer is the same')
def r_truth(ctx):
    R, w, node = 'truth', 'Select.__bool__', ctx.node('Select', '__bool__')
    if node is None:
        ctx.undec(R, w, 'no __bool__')
        return
    ps = ctx.summ('Select', '__bool__')
    if ps is None:
        return
    attrs = attr_of(ctx)
    doms = [A(SELF, attrs[k]) for k in KINDS if k in attrs]
    caches = set()
    for p in ps:
        for (b, n), v in p.st.over.items():
            if b is SELF:
                caches.add(n)
    # the cache starts out unknown
    for n in caches:
        for p in init_paths(ctx) or []:
            if not p.raises:
                v = final_attr(p, SELF, n)
                ctx.check(v is NONE if v is not None else None, R, f'Select.__init__:{n}',
                          f'{n} starts as None', ctx.node('Select', '__init__'), p)

    def kind(p):
        if p.raises:
            return 'raise'
        v = p.value
        for n in caches:
            if unver(v) is A(SELF, n):
                return 'cached'
        elems = [e for e in walk(v) if e.op == 'elem']
        v2 = subst(v, lambda x: FALSE if x.op == 'is' and x.a[0].op == 'elem' and x.a[1] is NONE else None)
        if v2.op == 'not' and v2.a[0] is FALSE:
            v2 = TRUE
        for val in (True, False):
            if v2 is (TRUE if val else FALSE):
                return val
        t = v2 if v2.op in ('truthy',) else T('truthy', v2)
        known = p.st.known(t)
        if known is None and v2.op in ('eq', 'lt', 'le', 'is', 'in', 'not'):
            known = p.st.known(v2)
        if known is not None:
            return known
        u = unver(v2)
        for d in doms:
            if u is d or u is T('truthy', d):
                return ('of', d)
        return None

    def observe(p):
        k = kind(p)
        if k == 'cached' and p.st.known(T('truthy', A(SELF, next(iter(caches))))) is None and False:
            return None
        return k
    ats = [(show(d), T('truthy', d)) for d in doms]
    if caches:
        c = sorted(caches)[0]
        ats.append(('cached', mk_not(mk_is(A(SELF, c), NONE))))

    def table(v):
        if v.get('cached'):
            return {'cached', True, False}
        truth = any(v[show(d)] for d in doms)
        acc = {truth}
        for d in doms:
            if v[show(d)] == truth:
                acc.add(('of', d))
        return acc
    ctx.decide(R, w, ps, ats, table, observe, node)
    for p in ps:
        for n in caches:
            x = p.st.over.get((SELF, n))
            if x is not None and not p.raises:
                ctx.check(x is p.value or unver(p.value) is A(SELF, n), R, f'{w}:cache', 'the answer remembered is the answer given',
                          node, p)


# -- merging ----------------------------------------------------------------------------------------------------------
def den(p, t, kw, attrs):
    """the list of sources whose instructions of one kind a select term holds, in order; None if not understood"""
    u = unver(t)
    if u.op == 'sym':
        if p.st.known(T('truthy', u)) is False:
            return []
        return [u]
    if u.op == 'fold' and u.a[0].op == 'L':
        L, init, step = u.a[0], u.a[1], u.a[2]
        d0 = den(p, init, kw, attrs)
        if d0 is None or not is_call(step) or not is_attr(step.a[0]):
            return None
        el = [e for e in walk(step) if e.op == 'elem' and unver(e.a[0]) is unver(L.a[0])]
        if not el:
            return ('drops',)
        d1 = merge_den(p, step, kw, attrs, {T('acc', L): ['ACC'], el[0]: [T('all', unver(L.a[0]))]})
        if d1 is None:
            return None
        if d1 and d1[0] == 'ACC' and 'ACC' not in d1[1:]:
            return d0 + d1[1:]
        return ['reordered'] + d1
    if u.op == 'item' and unver(u.a[0]).op == 'sym' and is_k(u.a[1]) and isinstance(kval(u.a[1]), int):
        return [u]
    if u.op == 'phiout' and u.a[0].op == 'L' and not any(
            contains(x, lambda y: y.op in ('acc', 'phi') and y.a[0] is u.a[0]) for x in u.a[3]):
        return ['only the last of', unver(u.a[0].a[0])]
    if is_call(u):
        return merge_den(p, u, kw, attrs, {})
    return None


def merge_den(p, u, kw, attrs, env):
    def sub(x):
        x = unver(x)
        if x in env:
            return env[x]
        return den(p, x, kw, attrs)
    f, args, kws = u.a
    f = unver(f)
    if p.st.known(T('truthy', u)) is False:
        return []
    if is_attr(f) and f.a[1] in ('_merge', 'merge') and not kws:
        if f.a[0].op in ('class', 'glob') and args:
            out, args = sub(args[0]), args[1:]
        else:
            out = sub(f.a[0])
        for a in args:
            d = sub(a)
            if out is None or d is None:
                return None
            out = list(out) + list(d)
        return out
    if (f.op == 'typeof' or f.op == 'class' or f.op == 'glob' and f.a[0].endswith('Select')) and not args:
        out = []
        for k, v in kws:
            if k is None:
                out.append(unver(v))
            elif k == kw:
                ops = seq_ops(p, v)
                if ops is None and unver(v).op == 'attr':
                    ops = [('ext', v)]
                if ops is None and unver(v).op in ('chain',):
                    ops = list(unver(v).a[0])
                if ops is None:
                    return None
                for o in ops:
                    if o[0] not in ('ext', 'upd'):
                        return None
                    x = unver(o[1])
                    if x.op == 'sorted' or x.op == 'reversed':
                        return ['reordered']
                    y = unver(x.a[0]) if x.op in ('items', 'keys') else x
                    h = p.st.h(y)
                    if h is not None and h.kind in ('dict', 'set') and h.log and kw != 'keys_to_maybe_remove' and \
                            all(op[0] in ('upd', 'ext') and is_attr(unver(op[1]), attrs.get(kw)) for op in h.log):
                        return ['the same key collapsed to one']
                    if x.op != 'attr':
                        return None
                    if x.a[1] != attrs.get(kw):
                        out.append(x)
                        continue
                    d = sub(x.a[0])
                    if d is None:
                        return None
                    out += d
        return out
    return None


@rule('C14', 'merge', 'merging selects concatenates the instructions of every kind, in order, dropping and repeating none')
def r_merge(ctx):
    R = 'merge'
    attrs = attr_of(ctx)
    for m in ('_merge', 'merge'):
        node = ctx.node('Select', m)
        if node is None:
            if m == 'merge':
                ctx.undec(R, 'Select.merge', 'not found')
            continue
        ps = ctx.summ('Select', m, opaque=['Select._merge'] if m == 'merge' else [])
        if ps is None:
            continue
        w = f'Select.{m}'
        va, kwa = node.args.vararg, node.args.kwarg
        held = set(attrs.values()) if isinstance(attrs, dict) else set()
        for p in ps:
            if any(v and k.op == 'isinstance' and k.a[0].op == 'bin' and k.a[0].a[0] == '+' and
                   all(is_attr(x) and x.a[1] in held for x in k.a[0].a[1:]) for k, v in p.facts.items()):
                # two tuples together are no string
                continue
            if p.raises:
                # only merging nothing may fail
                emp = m == 'merge' and va and kwa and p.st.known(T('truthy', sym(va.arg))) is False \
                    and p.st.known(T('truthy', sym(kwa.arg))) is False
                ctx.check(emp or None if murky(p.sig.val) else emp, R, w, 'merging fails only without arguments', node, p)
                continue
            exp = [SELF]
            for a in node.args.args[1:]:
                exp.append(sym(a.arg))
            if va:
                exp.append(T('all', sym(va.arg)))
            if kwa:
                exp.append(sym(kwa.arg))

            def norm(xs):
                out = []
                for x in xs:
                    if isinstance(x, T):
                        y = x.a[0] if x.op == 'all' else x
                        if p.st.known(T('truthy', y)) is False:
                            continue
                        if kwa and y is sym(kwa.arg) and ctor_empty(p):
                            continue
                    out.append(x)
                return out
            for kw in KINDS:
                d = den(p, p.value, kw, attrs)
                if d is None:
                    ctx.undec(R, w, f'{kw}: result {show(p.value)[:150]} not understood')
                    continue
                a, b = norm(d), norm(exp)
                same = len(a) == len(b) and all(x is y for x, y in zip(a, b))
                ctx.check(same, R, f'{w}:{kw}', f'the {kw} of the result are those of '
                          f'[{", ".join(x if isinstance(x, str) else show(x) for x in d)}]', node, p)


def ctor_empty(p):
    return any(k.op == 'truthy' and is_call(k.a[0]) and k.a[0].a[2] and k.a[0].a[2][0][0] is None and v is False
               for k, v in p.facts.items())
