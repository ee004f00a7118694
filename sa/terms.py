"""
Abstract values of the value-flow analysis.

A value is a hash-consed provenance term: it says where a value comes from (parameter, attribute of, element of, result
of a call of, ...), never what it is at run time.  Terms are canonicalised on construction so that equivalent spellings
of one value (``f.__call__(x)``/``f(x)``, ``a > b``/``b < a``, ``len(x) == 0``/``not x``, ``m.items()`` loops/``m[k]``
lookups) become the same term.
"""


class T:
    __slots__ = ('op', 'a', 'h')
    table = {}

    def __new__(cls, op, *a):
        key = (op, a)
        r = cls.table.get(key)
        if r is None:
            r = object.__new__(cls)
            r.op, r.a, r.h = op, a, hash(key)
            cls.table[key] = r
        return r

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __getitem__(self, i):
        return self.a[i]

    def __repr__(self):
        return show(self)


class _Const:
    """wrapper that keeps 1, True and 1.0 apart"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash((type(self.v).__name__, repr(self.v)))

    def __eq__(self, o):
        return isinstance(o, _Const) and type(o.v) is type(self.v) and repr(o.v) == repr(self.v)

    def __repr__(self):
        return repr(self.v)


def K(v):
    return T('k', _Const(v))


def kval(t):
    return t.a[0].v


def is_k(t, *vals):
    if not isinstance(t, T) or t.op != 'k':
        return False
    return not vals or any(type(kval(t)) is type(v) and kval(t) == v for v in vals)


NONE, TRUE, FALSE = K(None), K(True), K(False)


def kbool(b):
    return TRUE if b else FALSE


def sym(name):
    return T('sym', name)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
        return str(t)
    if depth > 8:
        return '..'
    d = depth + 1
    op, a = t.op, t.a
    if op == 'k':
        return repr(a[0])
    if op == 'sym':
        return a[0]
    if op in ('glob', 'class'):
        return a[0].rsplit('.', 1)[-1] if op == 'class' else a[0]
    if op == 'enum':
        return a[0].rsplit('.', 1)[-1] + '.' + a[1]
    if op == 'attr':
        return f'{show(a[0], d)}.{a[1]}'
    if op == 'getattr':
        return f'getattr({show(a[0], d)}, {show(a[1], d)})'
    if op == 'item':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if op == 'call':
        return f'{show(a[0], d)}(' + ', '.join([show(x, d) for x in a[1]] + [f'{k}={show(v, d)}' for k, v in a[2]]) + ')'
    if op == 'tuple':
        return '(' + ', '.join(show(x, d) for x in a[0]) + ',)'
    if op == 'elem':
        return f'elem({show(a[0], d)})'
    if op == 'key':
        return f'key({show(a[0], d)})'
    if op == 'fn':
        return f'<fn {a[0]}>'
    return f'{op}(' + ', '.join(show(x, d) for x in a) + ')'


def walk(t):
    """all sub-terms of a term (including itself)"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def subst(t, m):
    """replace sub-terms; m is a dict or a function T -> T | None"""
    get = m.get if isinstance(m, dict) else m
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = get(x)
        if r is None:
            r = T(x.op, *(go(y) for y in x.a)) if x.a else x
        memo[x] = r
        return r
    return go(t)


BOOL_OPS = {'is', 'eq', 'lt', 'le', 'in', 'isinstance', 'issubclass', 'hasattr', 'callable', 'len_ge', 'last', 'first',
            'truthy', 'raises', 'excis', 'not', 'bool', 'leneq'}


def is_singleton(t):
    """values compared by identity: None, booleans' identity excluded, enum members, classes, sentinels, types"""
    return t.op in ('enum', 'class', 'sentinel', 'typeof', 'fn') or is_k(t, None) or is_k(t, Ellipsis) or \
        (t.op == 'glob' and t.a[0].split('.')[0] in ('builtins', 'typing', 'collections', 'types'))


def is_fixed(t):
    """singletons whose identity is known statically, so two different ones are known to be distinct"""
    return t.op in ('enum', 'class', 'sentinel') or t.op == 'k' or t.op == 'glob'


def linear(t):
    """term as ({base: coef}, const) if it is an integer-linear expression"""
    if is_k(t) and type(kval(t)) is int:
        return {}, kval(t)
    if t.op == 'bin' and t.a[0] in ('+', '-'):
        l, r = linear(t.a[1]), linear(t.a[2])
        if l is None or r is None:
            return None
        s = 1 if t.a[0] == '+' else -1
        d = dict(l[0])
        for k, v in r[0].items():
            d[k] = d.get(k, 0) + s * v
        return {k: v for k, v in d.items() if v}, l[1] + s * r[1]
    return {t: 1}, 0


def mk_is(a, b):
    if a is b:
        return TRUE
    if is_fixed(a) and is_fixed(b):
        return FALSE
    if a.op in ('tuple', 'fn', 'obj') and is_fixed(b) or b.op in ('tuple', 'fn', 'obj') and is_fixed(a):
        return FALSE
    if is_fixed(a) and not is_fixed(b) or (is_fixed(a) == is_fixed(b) and show(a) > show(b)):
        a, b = b, a
    return T('is', a, b)


def int_cmp(op, a, b):
    """comparisons of lengths and loop positions; None if not of that kind"""
    if not any(contains(x, lambda y: y.op in ('len', 'idx')) for x in (a, b)):
        return None
    l, r = linear(a), linear(b)
    if l is None or r is None:
        return None
    d = dict(l[0])
    for k, v in r[0].items():
        d[k] = d.get(k, 0) - v
    d = {k: v for k, v in d.items() if v}
    c = l[1] - r[1]  # sum(d) + c  op  0
    if len(d) == 1:
        (x, k), = d.items()
        if k == -1:
            k, c = 1, -c
            op = {'lt': 'gt', 'le': 'ge', 'eq': 'eq'}[op]
        if k != 1:
            return None
        n = -c  # x op n
        if x.op == 'len':
            s = x.a[0]
            if op == 'lt':
                return mk_not(len_ge(s, n))
            if op == 'le':
                return mk_not(len_ge(s, n + 1))
            if op == 'gt':
                return len_ge(s, n + 1)
            if op == 'ge':
                return len_ge(s, n)
            if n < 0:
                return FALSE
            if n == 0:
                return mk_not(len_ge(s, 1))
            return T('leneq', s, n)
        if x.op == 'idx':
            first = T('first', x.a[0])
            if (op, n) in (('eq', 0), ('le', 0), ('lt', 1)):
                return first
            if (op, n) in (('gt', 0), ('ge', 1)):
                return mk_not(first)
        return None
    if len(d) == 2:
        idx = [x for x in d if x.op == 'idx']
        ln = [x for x in d if x.op == 'len']
        if len(idx) == 1 and len(ln) == 1 and idx[0].a[1] is ln[0].a[0] and d[idx[0]] == -d[ln[0]]:
            if d[idx[0]] == -1:
                c = -c
                op = {'lt': 'gt', 'le': 'ge', 'eq': 'eq'}[op]
            # idx - len + c op 0 ; idx - len in [-n .. -1]
            last = T('last', idx[0].a[0])
            if op == 'eq' and c == 1:
                return last
            if op == 'eq' and c < 1:
                return FALSE
            if op == 'ge' and c == 1 or op == 'gt' and c == 2:
                return last
            if op == 'lt' and c == 1 or op == 'le' and c == 2:
                return mk_not(last)
            if op == 'lt' and c <= 0 or op == 'le' and c <= 1:
                return TRUE
    return None


def len_ge(s, n):
    if n <= 0:
        return TRUE
    if s.op == 'tuple':
        return kbool(len(s.a[0]) >= n)
    if n == 1:
        return T('truthy', s)
    return T('len_ge', s, n)


def mk_not(t):
    if is_k(t):
        return kbool(not kval(t))
    if t.op == 'not':
        return t.a[0]
    return T('not', t)


def mk_cmp(op, a, b):
    """op in eq lt le (others are rewritten by the caller)"""
    if is_k(a) and is_k(b):
        try:
            va, vb = kval(a), kval(b)
            return kbool(va == vb if op == 'eq' else va < vb if op == 'lt' else va <= vb)
        except TypeError:
            pass
    ea, eb = enum_int(a), enum_int(b)
    if ea is not None and eb is not None:
        return kbool(ea == eb if op == 'eq' else ea < eb if op == 'lt' else ea <= eb)
    r = int_cmp(op, a, b)
    if r is not None:
        return r
    if op == 'eq':
        if is_singleton(a) or is_singleton(b):
            return mk_is(a, b)
        if a is b and a.op in ('obj', 'fn', 'tuple'):
            return TRUE
        if (is_k(a) and not is_k(b)) or (is_k(a) == is_k(b) and show(a) > show(b)):
            a, b = b, a
    return T(op, a, b)


def enum_int(t):
    if t.op == 'enum' and t.a[2] is not None:
        return t.a[2]
    if is_k(t) and type(kval(t)) in (int, float) :
        return kval(t)
    return None
