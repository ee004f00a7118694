"""Equality, hashing, ordering, copying and pickling hooks of records (C11, C12, C22)."""
from .base import *

OTHER = sym('other')


def typeof(x):
    return T('typeof', x)


def rec_fields(t):
    """the receiver whose class's fields this is, or None"""
    t = unver(t)
    if t.op in ('values', 'items', 'keys'):
        t = t.a[0]
    if is_attr(t, '_fields'):
        b = t.a[0]
        return b.a[0] if b.op == 'typeof' else b
    return None


def elem_name(t, S):
    """is the term the name of the field of this iteration"""
    t = unver(t)
    if t.op == 'elem' and t.a[1] is S.L:
        return True
    return is_attr(t, 'name') and elem_field(t.a[0], S)


def elem_field(t, S):
    t = unver(t)
    return t.op == 'item' and rec_fields(t.a[0]) is not None and elem_name(t.a[1], S) or \
        t.op == 'item' and t.a[0].op == 'elem' and is_k(t.a[1], 1)


def field_value(t, S):
    """receiver whose field value this is"""
    t = unver(t)
    if t.op == 'getattr' and elem_name(t.a[1], S):
        return t.a[0]
    if t.op == 'item' and is_attr(t.a[0], '__dict__') and elem_name(t.a[1], S):
        return t.a[0].a[0]
    return None


# -- equality ---------------------------------------------------------------------------------------------------------
def pair_of(t, S):
    a, b = t.a
    x, y = field_value(a, S), field_value(b, S)
    return {x, y} == {SELF, OTHER}


def seq_of_fields(p, t):
    """receiver if the value is the sequence of all field values of one record, in field order"""
    h = p.st.h(unver(t))
    if h is None or len(h.log) != 1 or h.log[0][0] != 'loop':
        return None
    S, o = h.log[0][1], h.log[0][2]
    if rec_fields(S.dom) is None:
        return None
    r = set()
    for ip in S.paths:
        if not ip.goes_on:
            return None
        ops = ip.ops.get(o, ())
        if len(ops) != 1:
            return None
        v = ops[0][1] if ops[0][0] == 'one' else ops[0][2] if ops[0][0] == 'set' and elem_name(ops[0][1], S) else None
        if v is None:
            return None
        if v.op == 'tuple' and len(v.a[0]) == 2 and elem_name(v.a[0][0], S):
            v = v.a[0][1]
        r.add(field_value(v, S))
    return r.pop() if len(r) == 1 else None


@rule('C11', 'equality', 'two records are equal exactly if their types are the same and every field compares equal; known'
                         ' hashes can only rule equality out')
def r_eq(ctx):
    ps = ctx.summ('RecordBase', '__eq__')
    if ps is None:
        return
    w, node = 'RecordBase.__eq__', ctx.node('RecordBase', '__eq__')
    same = mk_is(typeof(SELF), typeof(OTHER))
    split = []
    for p in ps:
        v = unver(p.value) if p.returns else None
        if v is not None and v.op in ('eq', 'is', 'truthy') and p.st.known(v) is None and \
                None in (seq_of_fields(p, v.a[0]), seq_of_fields(p, v.a[-1])):
            split += [Path(s, Sig('return', K(b))) for b in (True, False) for s in [p.st.assume(v, b)] if s is not None]
        else:
            split.append(p)
    for p in split:
        if p.raises:
            v = p.sig.val
            ctx.check(None if murky(v) else False, 'equality', w, f'comparing raises {show(v)}', p.sig.node or node, p)
            continue
        if not p.returns:
            continue
        r = verdict(p)
        if r is None:
            ctx.undec('equality', w, f'result {show(p.value)}')
            continue
        k = p.st.known(same)
        if r == 'NotImplemented':
            ctx.check(k is False, 'equality', w, 'only records of different types are left to the other operand', node, p)
            continue
        if k is False:
            ctx.check(r is False, 'equality', w, 'records of different types are not equal', p.sig.node or node, p)
            continue
        diff, agree, odd = evidence(p)
        if r is True:
            if agree is None and odd and any(map(looks_inside, p.facts)):
                ctx.undec('equality', w, f'equal because of {odd[:2]}')
                continue
            ctx.check(k is True and bool(agree), 'equality', w,
                      'records are equal only if they have the same type and every field was compared and found equal'
                      + ('' if k is True else ' (the types were not compared)'), p.sig.node or node, p)
        elif r is False:
            if k is None and not diff:
                ctx.undec('equality', w, 'types not compared')
                continue
            if not diff and odd:
                ctx.undec('equality', w, f'different because of {odd[:2]}')
                continue
            ctx.check(bool(diff), 'equality', w, 'records of one type differ only if a field differs or their known hashes do',
                      p.sig.node or node, p)
        else:
            # the value of one comparison of all fields
            ctx.check(k is True, 'equality', w, 'the types are compared first', p.sig.node or node, p)


def verdict(p):
    v = unver(p.value)
    if is_k(v, True, False):
        return kval(v)
    if v is G('builtins.NotImplemented'):
        return 'NotImplemented'
    b = p.st.known(v)
    if b is not None:
        return b
    while v.op in ('bool',):
        v = v.a[0]
    if v.op == 'eq' and {seq_of_fields(p, v.a[0]), seq_of_fields(p, v.a[1])} == {SELF, OTHER}:
        return 'all fields'
    return None


def hash_of(t):
    t = unver(t)
    return t.a[0] if is_attr(t, '_hash') else None


def looks_inside(k):
    """whether the condition is about more of the other record than its class, its known hash and which object it is"""
    if k is OTHER or not isinstance(k, T):
        return k is OTHER
    if hash_of(k) is OTHER or k.op == 'typeof':
        return False
    if k.op in ('is', 'truthy', 'isinstance') and OTHER in k.a:
        return k.op == 'truthy'
    return any(looks_inside(y) for x in k.a for y in (x if isinstance(x, tuple) else (x,)))


def some_fields(d):
    return is_attr(unver(d)) and unver(d).a[1] in ('_required_keys', '_optional_keys')


def evidence(p):
    """(a reason for inequality, whether all fields were compared equal (None: not seen), other conditions)"""
    diff, agree, odd = False, None, []
    for k, v in p.facts.items():
        if k.op == 'eq':
            hs = {hash_of(x) for x in k.a}
            if hs == {SELF, OTHER}:
                if not v and all(p.st.known(mk_is(A(x, '_hash'), NONE)) is False for x in (SELF, OTHER)) and \
                        (p.st.known(T('truthy', A(typeof(SELF), '_frozen'))) is not False):
                    diff = True
                continue
            rs = {seq_of_fields(p, x) for x in k.a}
            if rs == {SELF, OTHER}:
                if v:
                    agree = True
                else:
                    diff = True
                continue
            done = False
            for e in loops(p):
                S = e.a[0]
                if e.a[1][0] == 'exit' and (rec_fields(S.dom) is not None or some_fields(S.dom)) and pair_of(k, S):
                    done = True
                    if not v:
                        diff = True
            if not done:
                odd.append(show(k)[:100])
        elif k.op in ('is', 'truthy', 'isinstance', 'raises', 'excis'):
            if k.op == 'is' and v and set(k.a) == {SELF, OTHER}:
                agree = True if agree is None else agree
            if murky(k):
                odd.append(show(k)[:100])
        else:
            odd.append(show(k)[:100])
    for e in loops(p):
        S, how = e.a
        if rec_fields(S.dom) is None and some_fields(S.dom):
            agree = bool(agree)
            continue
        if rec_fields(S.dom) is None:
            odd.append(f'loop over {show(S.dom)}'[:100])
            continue
        if how[0] == 'done':
            good = True
            for ip in allowed_paths(S, how):
                cmp = [(k, v) for k, v in ip.facts.items() if k.op == 'eq' and pair_of(k, S)]
                ident = [(k, v) for k, v in ip.facts.items() if k.op == 'is' and pair_of(k, S) and v]
                if not (cmp and all(v for k, v in cmp)) and not ident:
                    ex = [k for k in ip.facts if murky(k)]
                    if ex:
                        odd.append(show(ex[0])[:100])
                    good = False
            if len(how) > 2 and good:
                agree = True
            elif not good:
                agree = False
    return diff, agree, odd


# -- hashing ----------------------------------------------------------------------------------------------------------
IDENTITY = {'id', 'repr', 'str', 'format', 'ascii', 'type'}


BY_KEYWORDS = 'the order in which the keywords were given'


def hash_source(ctx, p, t, free=False):
    """None if the value depends on field values and the class only; else what else it depends on ('?...' if not followed)"""
    t = unver(t)
    if is_k(t) or t.op in ('class', 'typeof') and (t.op == 'class' or t.a[0] is SELF):
        return None
    if t.op == 'sym':
        return f'{show(t)} itself' if t is SELF else '?' + show(t)
    h = p.st.h(t)
    if h is not None:
        free = free or h.kind == 'set'
        for op in h.log:
            if op[0] == 'loop':
                S, o = op[1], op[2]
                if rec_fields(S.dom) is None:
                    r = hash_source(ctx, p, S.dom, free)
                    if r:
                        return r
                for ip in S.paths:
                    for x in ip.ops.get(o, ()):
                        for y in x[1:]:
                            if isinstance(y, T) and not elem_name(y, S) and field_value(y, S) is not SELF:
                                parts = y.a[0] if y.op == 'tuple' else (y,)
                                for z in parts:
                                    if not elem_name(z, S) and field_value(z, S) is not SELF:
                                        r = hash_source(ctx, p, z, free)
                                        if r:
                                            return r
                    for k in ip.facts:
                        if contains(k, lambda x: x.op == 'typeof' and x.a[0] is not SELF):
                            return 'types of values'
            else:
                for y in op[1:]:
                    if isinstance(y, T):
                        r = hash_source(ctx, p, y, free)
                        if r:
                            return r
        return None
    if t.op == 'typeof':
        return 'the type of a value'
    free = free or t.op in ('sorted', 'set')
    if t is A(SELF, '__dict__'):
        return None if free else BY_KEYWORDS
    if t.op in ('seqt', 'tuple', 'values', 'items', 'keys', 'ext', 'sorted', 'bin', 'elem', 'set', 'item'):
        for y in walk_args(t):
            r = hash_source(ctx, p, y, free)
            if r:
                return r
        return None
    if t.op == 'call':
        f = t.a[0]
        if is_attr(f, 'to_dict', SELF) or is_attr(f, 'to_dict') and f.a[0].op in ('class', 'typeof'):
            return None
        if is_attr(f) and f.a[1] in ('values', 'items', 'keys'):
            return hash_source(ctx, p, f.a[0], free)
        n = f.a[0].rsplit('.', 1)[-1] if f.op == 'glob' else None
        free = free or n in ('frozenset', 'set', 'sorted')
        if n == 'vars' and t.a[1] == (SELF,):
            return None if free else BY_KEYWORDS
        if n in ('hash', 'tuple', 'frozenset', 'list', 'sorted'):
            for y in t.a[1]:
                r = hash_source(ctx, p, y, free)
                if r:
                    return r
            return None
        if n in IDENTITY or n and f.a[0].split('.')[0] in ('random', 'time', 'os', 'uuid'):
            return f'{n}() of something'
        if is_attr(f, '__hash__') and f.a[0].op in ('super', 'glob'):
            return 'identity'
        return '?' + show(f)
    if is_attr(t) and t.a[0] is SELF:
        return '?' + show(t)
    if is_attr(t) and t.a[0].op == 'typeof' and t.a[0].a[0] is SELF:
        return None
    return '?' + show(t)


def walk_args(t):
    st = list(t.a)
    while st:
        x = st.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st.extend(x)


@rule('C11', 'hash-value', 'the hash of a record is computed from its field values alone, kept once computed, and the kept one'
                           ' is returned')
def r_hash(ctx):
    ps = ctx.summ('RecordBase', '__hash__')
    if ps is None:
        return
    w, node = 'RecordBase.__hash__', ctx.node('RecordBase', '__hash__')
    HASH = A(SELF, '_hash')
    for p in ps:
        if not p.returns:
            continue
        v = unver(p.value)
        sets = [e for e in p.events if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], '_hash')]
        if v is HASH and not sets:
            ctx.check(p.st.known(mk_is(HASH, NONE)) is False or p.st.known(T('truthy', HASH)) is True, 'hash-value', w,
                      'the kept hash is returned only once there is one', p.sig.node or node, p)
            continue
        if sets:
            sv = unver(sets[-1].a[2])
            ctx.check(sv is v or v is HASH, 'hash-value', w, 'the hash that is kept is the one returned', sets[-1].node, p)
            v = sv if v is HASH else v
        r = hash_source(ctx, p, v)
        if r is None:
            ctx.ok('hash-value', w, f'computed from {show(v)}'[:160])
        elif r.startswith('?'):
            ctx.undec('hash-value', w, f'depends on {r[1:]}')
        else:
            ctx.bad('hash-value', w, f'the hash depends on {r}', p.sig.node or node, p)


@rule('C11', 'hash-not-pickled', 'a pickled record does not carry the hash of this process')
def r_state(ctx):
    w = 'RecordBase.__getstate__'
    c = ctx.P.cls_named('RecordBase')
    hooks = [n for n in ('__getstate__', '__reduce__', '__reduce_ex__') if n in c.attrs]
    slots = c.attrs.get('__slots__')
    if slots is None or '_hash' not in ast.unparse(slots):
        ctx.undec('hash-not-pickled', w, 'the hash is not kept in a slot')
        return
    if not hooks:
        ctx.bad('hash-not-pickled', w, 'no pickling hook: the slot of the cached hash is pickled with the record', c.node)
        return
    for n in hooks:
        ps = ctx.summ('RecordBase', n)
        for p in ps or []:
            if not p.returns:
                continue
            v = p.value
            res = leaks(p, v)
            if res is None:
                ctx.undec('hash-not-pickled', f'RecordBase.{n}', f'state {show(v)}')
            else:
                ctx.check(not res, 'hash-not-pickled', f'RecordBase.{n}', 'the pickled state does not contain the cached hash',
                          p.sig.node or ctx.node('RecordBase', n), p)


def leaks(p, v, depth=0):
    v = unver(v)
    if contains(v, lambda x: is_attr(x, '_hash', SELF)):
        return True
    if contains(v, lambda x: x.op == 'call' and x.a[0].op in ('attr', 'super') and 'getstate' in show(x.a[0])
                or x.op == 'call' and 'reduce' in show(x.a[0])):
        return True
    if contains(v, lambda x: is_call(x) and is_attr(x.a[0], '__getattribute__') or x.op == 'getattr'):
        return None
    for x in walk(v):
        h = p.st.h(x)
        if h is not None and depth < 4:
            for op in h.log:
                if op[0] == 'loop':
                    for ip in op[1].paths:
                        for q in ip.ops.get(op[2], ()):
                            for y in q[1:]:
                                if isinstance(y, T) and y.op == 'getattr':
                                    return None
                for y in op[1:]:
                    if isinstance(y, T) and y is not x and leaks(p, y, depth + 1):
                        return True
    return False


@rule('C11', 'hash-installed', 'a frozen class gets the record hash and any other class is not hashable')
def r_installed(ctx):
    from .classdef import subclass_paths, final, owner_of, W
    ps = subclass_paths(ctx)
    if ps is None:
        return
    frozen = T('truthy', sym('frozen'))
    fr = T('truthy', A(CLS, '_frozen'))
    seen = set()
    for p in ps:
        if not p.returns:
            continue
        v = final(p, '__hash__')
        b = p.st.known(frozen)
        if b is None:
            b = p.st.known(fr)
        key = (v, b)
        if key in seen:
            continue
        seen.add(key)
        if b is None:
            ctx.undec('hash-installed', W, 'the frozen flag is not tested')
        elif b:
            o = owner_of(ctx, v, '__hash__') if v is not None else None
            ctx.check(None if v is not None and murky(v) else v is not None and o is not None, 'hash-installed', W,
                      f'a frozen class gets the record hash ({show(v) if v is not None else "nothing is installed"})',
                      ctx.node('RecordBase', '__init_subclass__'), p if not v else None)
        else:
            ctx.check(None if v is not None and murky(v) else v is not None and is_k(v, None), 'hash-installed', W,
                      'a class that is not frozen is made unhashable', ctx.node('RecordBase', '__init_subclass__'),
                      p if v is None else None)


@rule('C11', 'hash-writers', 'nothing but construction and hashing ever writes the kept hash')
def r_writers(ctx):
    n = 0
    for q, (node, m, c) in sorted(ctx.P.functions.items()):
        for x in ast.walk(node):
            tgt = None
            if isinstance(x, ast.Attribute) and x.attr == '_hash' and isinstance(x.ctx, ast.Store):
                tgt = x
            if tgt is None:
                continue
            n += 1
            par = next((a for a in ast.walk(node) if isinstance(a, (ast.Assign, ast.AnnAssign)) and
                        tgt in (a.targets if isinstance(a, ast.Assign) else [a.target])), None)
            none = par is not None and isinstance(par.value, ast.Constant) and par.value.value is None
            where = q
            if none:
                ctx.ok('hash-writers', where, 'resets the kept hash')
            elif q.endswith('.__hash__') or not (isinstance(x.value, ast.Name) and c is not None and
                                                 'RecordBase' in [getattr(k, 'name', k) for k in c.mro()]):
                ctx.ok('hash-writers', where, 'keeps the computed hash')
            else:
                called = called_from_hash(ctx, q)
                ctx.check(True if called else None, 'hash-writers', where, 'writes the kept hash outside of hashing')
    ctx.check(n > 0 or None, 'hash-writers', 'package', f'{n} writes of the kept hash')


def called_from_hash(ctx, q):
    node = ctx.node('RecordBase', '__hash__')
    name = q.rsplit('.', 1)[-1]
    return any(isinstance(x, ast.Attribute) and x.attr.endswith(name) for x in ast.walk(node))


# -- ordering ---------------------------------------------------------------------------------------------------------
class Odd(Exception):
    pass


class Wrong(Exception):
    pass


def ordering_key(ctx, p, t):
    """receiver of a value that is the sequence of the ordered fields' values in definition order"""
    u = unver(t)
    h = p.st.h(u)
    if h is None:
        raise (Odd if murky(u) or u.op in ('call', 'seqt') else Wrong)(f'compares {show(u)}')
    if h.kind not in ('list', 'tuple'):
        raise Wrong(f'compares {h.kind}s of values')
    log = [op for op in h.log]
    if len(log) == 1 and log[0][0] == 'ext' and p.st.h(log[0][1]) is not None:
        return ordering_key(ctx, p, log[0][1])
    if len(log) != 1 or log[0][0] != 'loop':
        if log and log[0][0] == 'sorted' or any(op[0] == 'mut' for op in log):
            raise Wrong(f'the values are rearranged ({log[-1][0]} {log[-1][1] if log[-1][0] == "mut" else ""})')
        raise Odd(f'a sequence built by {[op[0] for op in log]}')
    S, o = log[0][1], log[0][2]
    r = rec_fields(S.dom)
    if r is None or r not in (SELF, OTHER):
        raise (Wrong if S.dom.op in ('sorted', 'reversed') else Odd)(f'loop over {show(S.dom)}')
    recs = set()
    for ip in S.paths:
        excl = None
        odd = []
        for k, v in ip.facts.items():
            if k.op == 'in' and elem_tags(k.a[1], S) and is_exclude(k.a[0]):
                excl = v
            elif elem_tags_disjoint(k, S):
                excl = not v
            elif k.op == 'truthy' and elem_tags(k.a[0], S):
                if not v:
                    excl = False
            else:
                odd.append(k)
        ops = list(ip.ops.get(o, ()))
        if not ip.goes_on:
            if ip.sig.kind == 'raise':
                continue
            raise Wrong('stops before the last field')
        if len(ops) == 1 and ops[0][0] == 'one':
            v = ops[0][1]
            rr = field_value(v, S)
            if rr is None:
                raise (Odd if murky(v) else Wrong)(f'a field contributes {show(v)}')
            recs.add(rr)
            if excl is True:
                raise Wrong('an excluded field is compared')
            if excl is None:
                if odd:
                    raise Odd(f'compares if {[show(x) for x in odd]}')
                raise Wrong('fields excluded from ordering are compared')
        elif not ops:
            if excl is not True:
                if any(murky(x) for x in odd) or excl is None and any(contains(x, is_exclude) for x in odd):
                    raise Odd(f'skips if {[show(x) for x in odd]}')
                raise Wrong(f'a field that is not excluded is skipped (if {[show(x) for x in odd]})')
        else:
            raise Odd(f'a field contributes {ops}'[:120])
    if len(recs) != 1:
        raise Wrong('values of both records are mixed' if recs else 'no values are compared')
    return recs.pop()


def elem_tags(t, S):
    return is_attr(unver(t), 'tags') and elem_field(unver(t).a[0], S)


def is_exclude(t):
    return 'exclude_from_ordering' in show(unver(t))


def elem_tags_disjoint(k, S):
    return False


OPS = {'__lt__': ('lt', SELF, OTHER), '__le__': ('le', SELF, OTHER), '__gt__': ('lt', OTHER, SELF), '__ge__': ('le', OTHER, SELF)}


@rule('C12', 'operators', 'each operator refuses on classes not declared ordered, leaves foreign operands to the other side and'
                          ' otherwise compares the field values in definition order without the excluded fields')
def r_ops(ctx):
    for name, want in OPS.items():
        w = f'RecordBase.{name}'
        node = ctx.node('RecordBase', name)
        if node is None:
            ctx.undec('operators', w, 'no such method')
            continue
        ps = ctx.summ('RecordBase', name)
        if ps is None:
            continue

        def observe(p):
            if p.raises:
                return 'refuses' if exc_class(p.sig.val) == 'builtins.TypeError' else None if murky(p.sig.val) else \
                    f'raises {show(p.sig.val)}'[:80]
            v = unver(p.value)
            if v is G('builtins.NotImplemented'):
                return 'left to the other'
            neg = False
            while v.op in ('not', 'bool'):
                neg ^= v.op == 'not'
                v = v.a[0]
            facts = [(v, True)] if v.op in ('lt', 'le', 'eq') else \
                [(k, b == kval(v)) for k, b in p.facts.items() if k.op in ('lt', 'le')] if is_k(v, True, False) else []
            if len(facts) == 1 and (neg or not facts[0][1]) and facts[0][0].op in ('lt', 'le'):
                try:
                    a, b = (ordering_key(ctx, p, x) for x in facts[0][0].a)
                except (Odd, Wrong):
                    return None
                # not the same for values that are not totally ordered (sets, NaN)
                return f'is the opposite of {show(a)} {facts[0][0].op} {show(b)}'
            if len(facts) != 1 or neg or not facts[0][1]:
                return None if not is_k(v, True, False) or facts else f'is always {show(v)}'
            t = facts[0][0]
            try:
                a, b = (ordering_key(ctx, p, x) for x in t.a)
            except Odd:
                return None
            except Wrong as e:
                return str(e)
            if (t.op, a, b) == want:
                return 'compares'
            return f'compares {show(a)} {t.op} {show(b)}'

        ordered = T('truthy', A(typeof(SELF), '_ordered'))
        inst = T('isinstance', OTHER, typeof(SELF))
        ctx.decide('operators', w, ps, [('ordered', ordered), ('instance', inst)],
                   lambda v: 'refuses' if not v['ordered'] else 'compares' if v['instance'] else 'left to the other',
                   observe, node)


# -- copying ----------------------------------------------------------------------------------------------------------
FROM = ('from_mapping', 'from_instance')


def built_from(p, v):
    """(class is that of self, what the record is built from, how) of a constructed record"""
    v = unver(v)
    if not is_call(v):
        return None
    f, args, kws = v.a
    if is_attr(f) and f.a[1] in FROM and len(args) == 1 and not kws:
        own = f.a[0] is SELF or f.a[0] is typeof(SELF)
        return own, args[0], f.a[1]
    if (f is typeof(SELF) or f.op == 'class') and not args and len(kws) == 1 and kws[0][0] is None:
        return f is typeof(SELF), kws[0][1], 'constructor'
    return None


def values_of(p, t, deep, memo):
    """classify a mapping of field values -> 'all' | 'substituted defaults' | 'copied' ... or None"""
    t = unver(t)
    if is_call(t) and t.a[0] is G('copy.deepcopy') or is_call(t) and 'deepcopy' in show(t.a[0]):
        args = list(t.a[1]) + [v for k, v in t.a[2] if k == 'memo']
        inner = values_of(p, args[0], False, memo)
        if inner is None or inner.startswith('deep'):
            return inner and 'deep copied twice'
        m = unver(args[1]) if len(args) > 1 else None
        return f'deep {memo_kind(p, m, memo)} {inner}'
    if is_call(t) and is_attr(t.a[0], 'to_dict') and (t.a[0].a[0] in (SELF, typeof(SELF))):
        kw = dict(t.a[2])
        if None in kw or [x for x in t.a[1] if unver(x) is not SELF]:
            return None
        extra = set(kw) - {'include_defaults', 'whitelist_keys', 'sort'}
        if extra:
            return f'the export with {sorted(extra)}'
        if is_k(kw.get('include_defaults', FALSE), True):
            return 'all'
        w = kw.get('whitelist_keys')
        if w is None:
            return 'without values equal to the default'
        return kept(p, w)
    h = p.st.h(t)
    if h is not None and h.kind == 'dict' and len(h.log) == 1:
        op = h.log[0]
        if op[0] == 'upd':
            return values_of(p, op[1], deep, memo)
        if op[0] == 'loop':
            S, o = op[1], op[2]
            kinds = set()
            d = S.dom.a[0] if S.dom.op in ('items',) else S.dom
            src = None
            if rec_fields(S.dom) is None:
                src = values_of(p, d, False, memo)
                if src is None:
                    return None
            for ip in S.paths:
                if not ip.goes_on:
                    continue
                ops = ip.ops.get(o, ())
                if not ops:
                    if any(k.op == 'is' and v and any(is_attr(x, 'default') for x in k.a) for k, v in ip.facts.items()) or \
                            any(k.op == 'raises' and v for k, v in ip.facts.items()):
                        continue
                    if any(k.op in ('eq', 'truthy') and v and 'default' in show(k) for k, v in ip.facts.items()):
                        kinds.add('without values equal to the default')
                        continue
                    if ip.facts and all(is_k(x) or unver(x).op == 'item' and unver(unver(x).a[0]) is unver(d) or
                                        field_value(x, S) is SELF
                                        for k, v in ip.facts.items() for x in k.a if k.op in ('is', 'eq', 'truthy', 'isinstance')) \
                            and all(k.op in ('is', 'eq', 'truthy') for k in ip.facts):
                        return 'the record without some values'
                    return None
                if len(ops) != 1 or ops[0][0] != 'set':
                    return None
                v = unver(ops[0][2])
                if field_value(v, S) is SELF or src is not None and v.op == 'item' and unver(v.a[0]) is unver(d):
                    kinds.add(src or 'all')
                elif is_call(v) and 'deepcopy' in show(v.a[0]) and v.a[1] and (
                        field_value(v.a[1][0], S) is SELF or src is not None and unver(v.a[1][0]).op == 'item'):
                    args = list(v.a[1]) + [x for k, x in v.a[2] if k == 'memo']
                    kinds.add(f'deep {memo_kind(p, unver(args[1]) if len(args) > 1 else None, memo)} {src or "all"}')
                else:
                    return None if murky(v) or v.op == 'call' else f'a field becomes {show(v)}'
            return kinds.pop() if len(kinds) == 1 else None
    return None


def memo_kind(p, m, memo):
    if m is memo or m is not None and p.st.h(m) is not None and p.st.known(mk_is(memo, NONE)) is True:
        return 'under the memo'
    if m is None or is_k(m, None):
        return 'under the memo' if p.st.known(mk_is(memo, NONE)) is True else 'without the memo'
    if m.op == 'obj':
        return 'without the memo'
    return 'with another memo'


def kept(p, w):
    h = p.st.h(unver(w))
    if h is None:
        return 'all' if rec_fields(w) is not None else None
    if len(h.log) != 1:
        return None
    if h.log[0][0] in ('ext', 'upd'):
        return 'all' if rec_fields(h.log[0][1]) is not None else None
    if h.log[0][0] != 'loop' or rec_fields(h.log[0][1].dom) is None:
        return None
    S, o = h.log[0][1], h.log[0][2]
    for ip in S.paths:
        ops = ip.ops.get(o, ())
        if not ops:
            f = [(k, v) for k, v in ip.facts.items()]
            if any(k.op == 'is' and v and any(is_attr(x, 'default') for x in k.a) for k, v in f) or \
                    any(k.op == 'raises' and v for k, v in f):
                continue
            return 'without values equal to the default'
        if not (len(ops) == 1 and elem_name(ops[0][1], S)):
            return None
    return 'all'


@rule('C22', 'copy', 'copying returns the record itself only if its class is frozen, and otherwise a record of the same class'
                     ' built from the same values')
def r_copy(ctx):
    ps = ctx.summ('RecordBase', '__copy__')
    if ps is None:
        return
    w, node = 'RecordBase.__copy__', ctx.node('RecordBase', '__copy__')

    def observe(p):
        if p.raises:
            return None
        v = unver(p.value)
        if v is SELF:
            return 'itself'
        b = built_from(p, v)
        if b is None:
            return None
        own, src, how = b
        if not own:
            return f'a record of class {show(v.a[0])}'
        if unver(src) is SELF:
            return 'new' if how == 'from_instance' and False else 'values equal to the default are replaced by it' \
                if how == 'from_instance' else None
        k = values_of(p, src, False, None)
        if k == 'all':
            return 'new'
        if k == 'without values equal to the default':
            return 'values equal to the default are replaced by it'
        return k
    frozen = T('truthy', A(typeof(SELF), '_frozen'))
    ctx.decide('copy', w, ps, [('frozen', frozen)], lambda v: {'itself', 'new'} if v['frozen'] else {'new'}, observe, node)


@rule('C22', 'deepcopy', 'a deep copy is a record of the same class built from the field values, deep-copied once under the'
                         ' caller\'s memo')
def r_deepcopy(ctx):
    ps = ctx.summ('RecordBase', '__deepcopy__')
    if ps is None:
        return
    w, node = 'RecordBase.__deepcopy__', ctx.node('RecordBase', '__deepcopy__')
    memo = sym(node.args.args[1].arg) if len(node.args.args) > 1 else sym('memo')

    def observe(p):
        if p.raises:
            return None
        v = unver(p.value)
        if v is SELF:
            return 'itself'
        b = built_from(p, v)
        if b is None:
            return None
        own, src, how = b
        if not own:
            return f'a record of class {show(v.a[0])}'
        k = values_of(p, src, True, memo)
        if k == 'all' or unver(src) is SELF:
            return 'shares the field values'
        return k
    ctx.decide('deepcopy', w, ps, [], lambda v: 'deep under the memo all', observe, node)


# -- converting an instance -------------------------------------------------------------------------------------------
@rule('C22', 'instance-shortcut', 'converting an instance returns it unchanged only if it is of that frozen class and nothing'
                                  ' else was asked for')
def r_shortcut(ctx):
    c = ctx.P.cls_named('RecordBase')
    node = c.attrs.get('from_instance')
    w = 'RecordBase.from_instance'
    if not isinstance(node, ast.FunctionDef):
        ctx.undec('instance-shortcut', w, 'not a plain definition')
        return
    decs = [ast.unparse(d) for d in node.decorator_list]
    if not any('shortcut' in d for d in decs):
        ctx.undec('instance-shortcut', w, f'no shortcut is defined (decorators {decs})')
        return
    ps = ctx.summ('RecordBase', 'from_instance')
    if ps is None:
        return
    V = sym('v') if any(a.arg == 'v' for a in node.args.args) else sym(node.args.args[1].arg)
    va = sym(node.args.vararg.arg) if node.args.vararg else None
    kw = sym(node.args.kwarg.arg) if node.args.kwarg else None

    def observe(p):
        if p.raises:
            return None
        v = unver(p.value)
        if v is V:
            return 'itself'
        if v is G('builtins.NotImplemented'):
            return 'new record'
        if is_k(v, None) or is_k(v):
            return f'returns {show(v)}'
        return None
    atoms = [('frozen', T('truthy', A(CLS, '_frozen'))), ('instance', T('isinstance', V, CLS))]
    if va is not None:
        atoms.append(('maps', T('truthy', va)))
    if kw is not None:
        atoms.append(('keywords', T('truthy', kw)))

    def table(v):
        if v['frozen'] and v['instance'] and not v.get('maps') and not v.get('keywords'):
            return {'itself', 'new record'}
        return 'new record'
    ctx.decide('instance-shortcut', w, ps, atoms, table, observe, node)
