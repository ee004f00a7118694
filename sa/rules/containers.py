"""Containers: tuples, iterables, mappings and what their element fillers must do (C07, C04, C06)."""
from .base import *
from .base import rule

V, OWN = sym('v'), sym('owner_cls')
INNER = A(SELF, 'inner_filler')
VALIDATORS = A(INNER, 'validators')
END = 'end'
DEQUE, DDICT, STR = G('collections.deque'), G('collections.defaultdict'), G('builtins.str')


# -- positions and segments -------------------------------------------------------------------------------------------
def lin(t):
    """index term -> (loop or None, constant)"""
    t = unver(t)
    if is_k(t, None):
        return None
    if is_k(t) and isinstance(kval(t), int):
        return (None, kval(t))
    if t.op == 'idx':
        return (t.a[0], 0)
    if t.op == 'bin' and t.a[0] in '+-' and len(t.a) == 3:
        a, b = lin(t.a[1]), lin(t.a[2])
        if a and b and b[0] is None:
            return (a[0], a[1] + (b[1] if t.a[0] == '+' else -b[1]))
        if a and b and a[0] is None and t.a[0] == '+':
            return (b[0], a[1] + b[1])
    return 'unknown'


def plus(a, b):
    if a == END or b == END:
        return END
    if a == 'unknown' or b == 'unknown':
        return 'unknown'
    if a[0] is not None and b[0] is not None:
        return 'unknown'
    return (a[0] or b[0], a[1] + b[1])


Z = (None, 0)


class Seq:
    """reads what a domain ranges over, tracking shared iterators"""

    def __init__(self, src):
        self.src = src
        self.pos = {}

    def bounds(self, D, consume=True):
        """-> [(source, lo, hi)] (one per zipped part) or None"""
        D = unver(D)
        if D.op == 'zip':
            out = []
            for x in D.a[0]:
                b = self.bounds(x, consume)
                if b is None:
                    return None
                out += b
            return out
        if D.op == 'iter1':
            p = self.pos.get(D, Z)
            if consume:
                self.pos[D] = END
            b = self.bounds(D.a[0], False)
            return None if b is None or len(b) != 1 or b[0][1] != Z else [(b[0][0], p, b[0][2])]
        if D.op == 'slice':
            if len(D.a) > 3 and not is_k(D.a[3], None):
                return None
            return self.cut(D.a[0], lin(D.a[1]) or Z, lin(D.a[2]) or END, consume)
        if is_call(D, G('itertools.islice')) and len(D.a[1]) in (2, 3):
            a = D.a[1]
            lo, hi = (Z, lin(a[1]) or END) if len(a) == 2 else (lin(a[1]) or Z, lin(a[2]) or END)
            return self.cut(a[0], lo, hi, consume)
        if D.op in ('items', 'keys', 'values') and unver(D.a[0]) is self.src:
            return [(self.src, Z, END)]
        return [(D, Z, END)]

    def cut(self, X, lo, hi, consume):
        X = unver(X)
        it = X if X.op == 'iter1' else None
        b = self.bounds(X, False)
        if b is None or len(b) != 1 or 'unknown' in (lo, hi):
            return None
        s, l0, h0 = b[0]
        if h0 != END or l0 == END:
            return None
        r = (s, plus(l0, lo), plus(l0, hi))
        if it is not None and consume:
            self.pos[it] = r[2]
        return [r]


class Elements:
    """what one value of a container filler does with the elements of the value"""

    def __init__(self, kind, fill, keys_inert=False, values_inert=False):
        self.kind, self.fill = kind, fill
        self.inert = (keys_inert, values_inert)

    def called(self, t):
        """t as one filling call -> (filler, argument)"""
        t = unver(t)
        if is_attr(t, 'value') and is_call(unver(t.a[0])):
            c = unver(t.a[0])
            f = unver(c.a[0])
            if is_attr(f, 'fill') and len(c.a[1]) == 1 and not c.a[2]:
                return unver(f.a[0]), unver(c.a[1][0])
            return None
        if not is_call(t) or len(t.a[1]) != 1 or t.a[2]:
            return None
        f = unver(t.a[0])
        if is_attr(f, '__call__'):
            f = unver(f.a[0])
        return f, unver(t.a[1][0])

    def elem(self, e):
        """e as an element of the container -> its loop"""
        if e.op == 'elem':
            return e
        return None

    def filled(self, t):
        """t as the right filling of one element -> ('fill'|'id'|'wrong', element term) or None"""
        t = unver(t)
        if self.kind == 'map':
            if t.op == 'tuple' and len(t.a[0]) == 2:
                r = [self.part(x, i) for i, x in enumerate(t.a[0])]
                if None in r or r[0][1] is not r[1][1]:
                    return None
                ks = {x[0] for x in r}
                return ('wrong' if 'wrong' in ks else 'fill' if 'fill' in ks or ks == {'inert'} else 'id'), r[0][1]
            return None
        c = self.called(t)
        if c is None:
            return ('id', t) if t.op == 'elem' else None
        f, e = c
        if e.op != 'elem':
            return None
        if self.kind == 'iter':
            return ('fill' if f is self.fill else 'wrong'), e
        sf = self.fill
        if f.op == 'elem' and f.a[1] is e.a[1]:
            bf, be = Seq(V).bounds(f.a[0]), Seq(V).bounds(e.a[0])
            good = bf and be and bf[0][0] is sf and bf[0][1] == be[0][1]
            return ('fill' if good else 'wrong'), e
        if f.op == 'item' and unver(f.a[0]) is sf:
            be = Seq(V).bounds(e.a[0])
            i = lin(f.a[1])
            good = be and i != 'unknown' and i == plus(be[0][1], (e.a[1], 0))
            return ('fill' if good else 'wrong'), e
        return 'wrong', e

    def part(self, x, i):
        c = self.called(x)
        f, e = c if c else (None, unver(x))
        if i == 1:
            if e.op != 'item' or unver(e.a[0]) is not V or unver(e.a[1]).op != 'elem':
                return None
            k = unver(e.a[1])
        else:
            k = e
        if k.op != 'elem' or unver(k.a[0]) is not V:
            return None
        if f is None:
            return ('inert' if self.inert[i] else 'id'), k
        return ('fill' if f is self.fill[i] else 'wrong'), k

    def unchanged(self, facts, L):
        """do the facts of one iteration say that filling its element gave the element itself"""
        if self.kind == 'map':
            got = [self.inert[0], self.inert[1]]
            for k, b in facts.items():
                if k.op == 'is' and b:
                    for x, y in (k.a, k.a[::-1]):
                        for i in (0, 1):
                            r = self.part(x, i)
                            if r and r[0] == 'fill' and r[1].a[1] is L and self.called(x)[1] is unver(y):
                                got[i] = True
            return all(got)
        for k, b in facts.items():
            if k.op == 'is' and b:
                for x, y in (k.a, k.a[::-1]):
                    r = self.filled(x)
                    if r and r[0] == 'fill' and r[1].a[1] is L and r[1] is unver(y):
                        return True
        return False

    def fills(self, ip):
        for e in ip.events:
            if e.kind == 'call':
                c = self.called(T('call', e.a[0], tuple(e.a[1]), tuple(e.a[2])))
                if c and c[1].op in ('elem', 'item') and contains(c[1], lambda x: x.op == 'elem'):
                    return True
        return False


def consume(I, st, X, node):
    """the elements of X as a log -> [(state, log)]"""
    out = []
    h = st.h(unver(X))
    if h is not None and h.kind == 'dict':
        pairs = []
        for op in h.log:
            if op[0] == 'upd':
                r = consume(I, st, op[1], node)
                if len(r) != 1 or len(h.log) != 1:
                    return [(st, None)]
                return r
            pairs.append(op)
        return [(st, tuple(pairs))]
    for s, o in I.call(G('builtins.list'), [X], [], st, node):
        if isinstance(o, Sig):
            out.append((s, None))
            continue
        h = s.h(o)
        out.append((s, tuple(h.log) if h is not None else None))
    return out


def segments(E, log, obj_of=None):
    """-> [(lo, hi, 'fill'|'id'|'wrong')] or an error text, or None (not followed)"""
    sq = Seq(V)
    out = []
    for op in log:
        if op[0] == 'one':
            r = E.filled(op[1])
            if r is None:
                return None if murky(op[1]) else f'an element is replaced by {show(op[1])}'
            b = [x for x in sq.bounds(r[1].a[0], False) or () if x[0] is V]
            if not b:
                return None
            lo = plus(b[0][1], (r[1].a[1], 0))
            out.append((lo, plus(lo, (None, 1)), r[0]))
        elif op[0] == 'loop':
            S, o = op[1], op[2]
            kinds = set()
            for ip in S.paths:
                if not ip.goes_on:
                    continue
                ops = [y for k, x in ip.ops.items() if k is o for y in x]
                if len(ops) != 1 or ops[0][0] not in ('one', 'set'):
                    if any(murky(k) for k in ip.facts):
                        return None
                    return 'elements are dropped' if not ops else 'not one element for each'
                x = ops[0][1] if ops[0][0] == 'one' else T('tuple', (ops[0][1], ops[0][2]))
                r = E.filled(x)
                if r is None:
                    return None if murky(x) else f'an element is replaced by {show(x)}'
                k = r[0]
                if k == 'id' and E.unchanged(ip.facts, r[1].a[1]):
                    k = 'fill'
                kinds.add(k)
            b = sq.bounds(S.dom)
            if b is None:
                return None
            bv = [x for x in b if x[0] is V]
            if not bv:
                return None
            if E.kind == 'tuple' and len(b) > 1 and any(x[1] != bv[0][1] for x in b):
                return 'elements and fillers are paired with an offset'
            out.append((bv[0][1], bv[0][2], 'wrong' if 'wrong' in kinds else 'id' if 'id' in kinds else 'fill'))
        elif op[0] == 'ext':
            b = sq.bounds(op[1])
            if b is None or len(b) != 1 or b[0][0] is not V:
                return None
            out.append((b[0][1], b[0][2], 'id'))
        else:
            return None
    return out


def skip_ok(E, p, hi):
    """were all elements up to hi found unchanged by their filler, on this path"""
    for e in p.st.events if hasattr(p, 'st') else p:
        if e.kind != 'loop':
            continue
        S, how = e.a
        b = Seq(V).bounds(S.dom)
        bv = [x for x in b or () if x[0] is V]
        if not bv or bv[0][1] != Z:
            continue
        if E.kind == 'tuple' and len(b) > 1 and any(x[1] != Z for x in b):
            continue
        if hi == END and (how[0] != 'done' or bv[0][2] != END):
            continue
        if hi != END and not (hi[0] is S.L and hi[1] <= 0):
            continue
        ips = allowed_paths(S, how) if how[0] == 'done' else [ip for ip in S.paths if ip.goes_on]
        if ips and all(E.unchanged(ip.facts, S.L) for ip in ips):
            return True
    return False


def twice(E, st):
    """are elements filled more than once on this path"""
    whole = 0
    for e in st.events:
        if e.kind != 'loop':
            continue
        S, how = e.a
        b = [x for x in Seq(V).bounds(S.dom) or () if x[0] is V]
        if b and b[0][1] == Z and any(E.fills(ip) for ip in S.paths):
            whole += 1
    return whole > 1


def covers(segs, E, p):
    cur = Z
    for lo, hi, k in segs:
        if lo != cur:
            if 'unknown' in (lo, cur):
                return None
            return 'elements are dropped, repeated or out of order'
        if k == 'wrong':
            return 'an element is filled by something else than its own filler'
        if k == 'id' and lo != hi:
            if lo != Z or not skip_ok(E, p, hi):
                return 'elements are taken unfilled'
        cur = hi
    if cur != END:
        return 'the last elements are dropped'
    return ''


# -- the validators a container appends -------------------------------------------------------------------------------
def appended(p):
    """values appended to the validators of the inner filler, in order; None if the list is changed in another way"""
    out = []
    for e in p.events:
        evs = [e]
        if e.kind == 'loop':
            evs = [x for ip in e.a[0].paths for x in all_events(ip.events)]
            if any(x.kind == 'call' and is_attr(unver(x.a[0])) and unver(unver(x.a[0]).a[0]) is VALIDATORS for x in evs):
                return None
            continue
        if e.kind == 'call' and is_attr(unver(e.a[0])) and unver(unver(e.a[0]).a[0]) is VALIDATORS:
            m = unver(e.a[0]).a[1]
            if m == 'append' and len(e.a[1]) == 1:
                out.append(e.a[1][0])
            elif m in ('extend', 'insert', 'clear', 'pop', 'remove', 'reverse', 'sort', '__iadd__'):
                return None
        if e.kind == 'setattr' and e.a[0] is INNER and is_k(e.a[1], 'validators'):
            return None
    return out


def queries(p):
    """answers of is_inert/is_hollow on this path: {(receiver, name): set of answers}"""
    out = {}
    for k, b in p.facts.items():
        if k.op == 'truthy' and is_call(unver(k.a[0])):
            f = unver(unver(k.a[0]).a[0])
            if is_attr(f) and f.a[1] in ('is_inert', 'is_hollow'):
                out.setdefault((unver(f.a[0]), f.a[1]), set()).add(b)
    return out


def consistent(p):
    return all(len(s) == 1 for s in queries(p).values())


def answer(p, recv, name):
    s = queries(p).get((recv, name))
    return next(iter(s)) if s and len(s) == 1 else None


def all_inert(p, seq, name='is_inert'):
    """is every filler of seq known inert on this path (True/False/None)"""
    for e in p.events:
        if e.kind != 'loop':
            continue
        S, how = e.a
        b = Seq(V).bounds(S.dom)
        if not b or b[0][0] is not seq or b[0][1] != Z or b[0][2] != END:
            continue
        ips = allowed_paths(S, how)

        def says(ip):
            for k, v in ip.facts.items():
                if k.op == 'truthy' and is_call(unver(k.a[0])):
                    f = unver(unver(k.a[0]).a[0])
                    if is_attr(f, name) and unver(f.a[0]).op == 'elem':
                        return v
            return None
        vs = [says(ip) for ip in S.paths]
        if not any(v is not None for v in vs):
            continue
        if how[0] == 'done' and ips and all(says(ip) is True for ip in ips):
            return True
    if p.st.known(T('truthy', seq)) is False:
        return True
    return None


def bind_paths(ctx, c):
    key = ('cbind', c.qual)
    if key not in ctx._cache:
        I = ctx.interp()
        ps = ctx.summ(c, 'bind', args=[OWN], I=I)
        ctx._cache[key] = (I, None if ps is None else [p for p in ps if consistent(p)])
    return ctx._cache[key]


def kinds(ctx):
    out = []
    for base, kind in (('TupleFiller', 'tuple'), ('GenericIterableFiller', 'iter'), ('GenericMappingFiller', 'map')):
        b = ctx.P.cls_named(base)
        for c in ctx.P.classes.values():
            if c.is_sub(b):
                out.append((c, base, kind))
    return out


ELLIPSIS = ('is', 'Ellipsis')


def variadic(p):
    """does the path treat the tuple as one of any length"""
    for k, b in p.facts.items():
        if k.op == 'is' and any(is_k(x, ...) or 'Ellipsis' in show(x) for x in k.a):
            return b
    return False


def compose(ctx, I, p, fs, node):
    cur = [(Path(p.st, Sig('return', V)))]
    for f in fs:
        nxt = []
        for q in cur:
            if not q.returns:
                nxt.append(q)
                continue
            r = ctx.call(I, f, [q.value], [], q.st, node)
            if r is None:
                return None
            nxt += r
        cur = nxt
    return cur


def pre(st, c, base, ctx):
    """what is known of the value a filler of this class gets"""
    n = c.qual.rsplit('.', 1)[-1]
    if n == 'GenericDequeFiller':
        st = st.assume(T('isinstance', V, DEQUE), True)
        st = st and st.assume(T('isinstance', V, STR), False)
    elif n == 'DefaultDictFiller':
        st = st.assume(T('isinstance', V, DDICT), True)
    return st


def rebuilt(v, kind, st):
    """how a container is rebuilt -> (form, iterable) or None"""
    v = unver(v)
    if not is_call(v) or unver(v.a[0]) is not T('typeof', V) or v.a[2] and len(v.a[2]) > 1:
        return None
    args = list(v.a[1])
    for k, x in v.a[2]:
        if k == 'maxlen' and len(args) == 1:
            args.append(x)
        else:
            return None
    if len(args) == 1:
        x = unver(args[0])
        if is_call(x) and is_attr(unver(x.a[0]), 'join') and is_k(unver(x.a[0]).a[0], '') and len(x.a[1]) == 1:
            return 'str', x.a[1][0]
        h = st.h(x)
        if kind == 'map' and (h is None or h.kind != 'dict'):
            return 'pairs', args[0]
        return 'plain', args[0]
    if len(args) == 2:
        if unver(args[1]) is A(V, 'maxlen'):
            return 'deque', args[0]
        if unver(args[0]) is A(V, 'default_factory'):
            return 'defaultdict', args[1]
    return None


def check_container(ctx, R, aspects):
    for c, base, kind in kinds(ctx):
        name = c.qual.rsplit('.', 1)[-1]
        w, node = f'{name}.bind', ctx.node(c, 'bind')
        I, ps = bind_paths(ctx, c)
        if ps is None:
            continue
        n = 0
        for p in ps:
            if not p.returns:
                continue
            fs = appended(p)
            if fs is None:
                ctx.undec(R, w, 'the validators of the inner filler are changed in a way that is not followed')
                continue
            var = kind == 'tuple' and variadic(p)
            k = 'iter' if var else kind
            if kind == 'tuple':
                fill = T('item', A(SELF, 'sub_fillers'), K(0)) if var else A(SELF, 'sub_fillers')
                inert = answer(p, fill, 'is_inert') is True if var else all_inert(p, fill)
                E = Elements(k, fill)
            elif kind == 'iter':
                fill = A(SELF, 'element_filler')
                inert = answer(p, fill, 'is_inert') is True
                E = Elements(k, fill)
            else:
                fill = (A(SELF, 'key_filler'), A(SELF, 'value_filler'))
                ki, vi = (answer(p, f, 'is_inert') is True for f in fill)
                inert = ki and vi
                E = Elements(k, fill, ki, vi)
            st = pre(p.st, c, base, ctx)
            if st is None:
                continue
            rs = compose(ctx, I, Path(st, p.sig), fs, node)
            if rs is None:
                continue
            # a tuple of fixed length
            if 'length' in aspects and kind == 'tuple' and not var:
                hollow = answer(p, INNER, 'is_hollow')
                leq = mk_cmp('eq', T('len', V), T('len', A(SELF, 'sub_fillers')))
                if hollow is not True:
                    for r in rs:
                        known = r.st.known(leq)
                        if r.returns:
                            ctx.check(True if known is True else None if any(murky(x) for x in r.facts) else False, R, w,
                                      'a tuple is accepted only with as many elements as there are types', r.sig.node or node, r)
                        elif known is True:
                            ctx.bad(R, w, 'a tuple of the right length is refused', r.sig.node or node, r)
            if 'elements' not in aspects:
                continue
            for r in rs:
                n += 1
                mut = [e for e in all_events(r.events) if e.kind in ('setitem', 'delitem') and unver(e.a[0]) is V or
                       e.kind == 'mut' and unver(e.a[0]) is V]
                if mut:
                    ctx.bad(R, w, 'the given container is changed', mut[0].node, r)
                    continue
                if r.raises:
                    if kind == 'tuple' and not var:
                        continue
                    if any(murky(x) for x in r.facts):
                        ctx.undec(R, w, 'a raise is not followed')
                    else:
                        ctx.bad(R, w, 'a container is refused by something else than the fillers of its elements',
                                r.sig.node or node, r)
                    continue
                v = unver(r.value)
                if v is V:
                    good = inert or skip_ok(E, r, END) or r.st.known(T('truthy', V)) is False
                    if not good:
                        if any(murky(x) for x in r.facts):
                            good = None
                        ctx.check(good, R, w, 'the container is kept although an element may have been filled to something else',
                                  r.sig.node or node, r)
                        continue
                    ctx.ok(R, w, 'the container itself is kept if filling changes no element')
                    if twice(E, r.st):
                        ctx.bad(R, w, 'elements are filled twice', r.sig.node or node, r)
                    continue
                rb = rebuilt(v, kind, r.st)
                if rb is None:
                    ctx.check(None if murky(v) else False, R, w, f'the result is a container of the same kind, not {show(v)[:120]}',
                              r.sig.node or node, r)
                    continue
                form, X = rb
                # the kind is kept, with what belongs to it besides the elements
                forms(ctx, R, w, c, kind, form, r, node)
                for s, log in consume(I, r.st, X, node):
                    if log is None:
                        ctx.undec(R, w, f'the new elements {show(X)[:100]} are not followed')
                        continue
                    q = Path(s, r.sig)
                    segs = segments(E, log)
                    if segs is None:
                        ctx.undec(R, w, f'the new elements {show(X)[:100]} are not followed')
                        continue
                    msg = segs if isinstance(segs, str) else covers(segs, E, q)
                    if msg is None:
                        ctx.undec(R, w, 'the order of the new elements is not followed')
                    elif msg:
                        ctx.bad(R, w, msg, r.sig.node or node, r)
                    elif twice(E, s):
                        ctx.bad(R, w, 'elements are filled twice', r.sig.node or node, r)
                    else:
                        ctx.ok(R, w, 'every element is filled by its own filler, in order')
            if not fs and not inert and not (kind == 'tuple' and not var):
                pass
        ctx.check(n > 0 or None if 'elements' in aspects else True, R, w, f'{n} outcomes of the element validators', node)


def forms(ctx, R, w, c, kind, form, r, node):
    name = c.qual.rsplit('.', 1)[-1]
    vals = [('', r.st)]
    if kind == 'iter':
        vals = []
        for nm, t in (('str', STR), ('deque', DEQUE), ('plain', None)):
            s = r.st
            for m, u in (('str', STR), ('deque', DEQUE)):
                s = s and s.assume(T('isinstance', V, u), m == nm)
            if s is not None:
                vals.append((nm, s))
    elif kind == 'map':
        vals = []
        for nm, b in (('defaultdict', True), ('plain', False)):
            s = r.st.assume(T('isinstance', V, DDICT), b)
            if s is not None:
                vals.append((nm, s))
    else:
        vals = [('plain', r.st)]
    for want, s in vals:
        if want == form:
            ctx.ok(R, w, f'a {want} is rebuilt as one')
            continue
        if form == 'pairs' and want == 'plain':
            ctx.bad(R, w, 'a mapping is rebuilt from item pairs, which a counter takes for its elements', r.sig.node or node, r)
        else:
            ctx.bad(R, w, f'a {want} container is rebuilt as if it were a {form} one', r.sig.node or node, r)
        return


@rule('C07', 'elements-filled', 'the value stored for a container is the container itself if filling changes none of its elements,'
                                ' and otherwise one of the same kind made of every element filled once, in order')
def r_elements(ctx):
    check_container(ctx, 'elements-filled', {'elements'})


@rule('C04', 'elements-validated', 'every validator of a container filler is given a container whose elements were all filled')
def r_elements4(ctx):
    check_container(ctx, 'elements-validated', {'elements'})


@rule('C07', 'tuple-length', 'a tuple of fixed length is accepted exactly if it has that length, before its elements are filled')
def r_length(ctx):
    check_container(ctx, 'tuple-length', {'length'})


# -- how containers are put together ----------------------------------------------------------------------------------
OR, ARGS = sym('origin'), sym('args')


def hint_args(t):
    return is_call(t) and 'get_args' in show(t.a[0]) and t.a[1] == (OR,)


def hint_origin(t):
    return is_call(t) and 'get_origin' in show(t.a[0]) and t.a[1] == (OR,)


def got_filler(t, annotated=False):
    """the arguments of a get_filler / get_annotated_filler call"""
    t = unver(t)
    n = 'get_annotated_filler' if annotated else 'get_filler'
    if is_call(t) and show(t.a[0]).rsplit('.', 1)[-1] == n:
        return tuple(unver(x) for x in t.a[1])
    return None


def last_set(p, name):
    v = None
    for e in p.events:
        if e.kind == 'setattr' and e.a[0] is SELF and is_k(e.a[1], name):
            v = e.a[2]
    return v


def hint_item(t, i):
    return isinstance(t, T) and t.op == 'item' and hint_args(unver(t.a[0])) and is_k(t.a[1], i)


def init_paths(ctx, c):
    I = ctx.interp(opaque=['get_filler', 'get_annotated_filler'])
    return I, ctx.summ(c, '__init__', args=[OR, ARGS], I=I)


@rule('C07', 'parts', 'a container gets one filler for each type it was given, in their order, and its own type and tokens go to'
                      ' the filler of the container itself')
def r_parts(ctx):
    R = 'parts'
    for c, base, kind in kinds(ctx) + [(x, 'TypeFiller', 'type') for x in [ctx.P.cls_named('TypeFiller')]] + \
            [(x, 'GenericFillerN', 'n') for x in [ctx.P.cls_named('GenericFillerN')]]:
        name = c.qual.rsplit('.', 1)[-1]
        w, node = f'{name}.__init__', ctx.node(c, '__init__')
        I, ps = init_paths(ctx, c)
        for p in ps or []:
            if p.raises:
                continue
            g = last_set(p, 'inner_filler')
            g = g is not None and got_filler(g, True)
            ctx.check(bool(g) and len(g) == 2 and hint_origin(g[0]) and g[1] is ARGS, R, w,
                      'the container itself gets the filler of its bare type with its tokens', node, p)

            def one(attr, i):
                g = last_set(p, attr)
                x = g is not None and got_filler(g)
                ctx.check(True if x and len(x) == 1 and hint_item(x[0], i) else None if g is not None and murky(g) else False, R, w,
                          f'{attr} is made for type {i}', node, p)
            if kind == 'iter':
                one('element_filler', 0)
            elif kind == 'map':
                one('key_filler', 0)
                one('value_filler', 1)
            elif kind == 'type':
                b = last_set(p, 'base_type')
                ctx.check(b is not None and hint_item(unver(b), 0), R, w, 'the base class is type 0', node, p)
            elif kind == 'n':
                b = last_set(p, 'inner_types')
                ctx.check(b is not None and hint_args(unver(b)), R, w, 'the types are kept', node, p)
            elif kind == 'tuple':
                sf = last_set(p, 'sub_fillers')
                ia = last_set(p, 'inner_args')
                if sf is None:
                    ctx.bad(R, w, 'no fillers are made', node, p)
                    continue
                var = variadic(p)
                for s, log in consume(I, p.st, sf, node):
                    good = None
                    if log is not None and var and len(log) == 1 and log[0][0] == 'loop':
                        S, o = log[0][1], log[0][2]
                        dom = unver(S.dom)
                        good = dom.op == 'slice' and hint_args(dom.a[0]) and (is_k(dom.a[1], None, 0)) and is_k(dom.a[2], 1)
                        for ip in S.paths:
                            ops = [y for k, x in ip.ops.items() if k is o for y in x]
                            good = good and ip.goes_on and len(ops) == 1 and ops[0][0] == 'one' and \
                                bool(got_filler(ops[0][1])) and got_filler(ops[0][1])[0].op == 'elem'
                    elif log is not None and var:
                        good = len(log) == 1 and log[0][0] == 'one' and bool(got_filler(log[0][1])) and \
                            hint_item(got_filler(log[0][1])[0], 0)
                    elif log is not None and len(log) == 1 and log[0][0] == 'loop':
                        S, o = log[0][1], log[0][2]
                        dom = unver(S.dom)
                        good = hint_args(dom)
                        for ip in S.paths:
                            ops = [y for k, x in ip.ops.items() if k is o for y in x]
                            good = good and ip.goes_on and len(ops) == 1 and ops[0][0] == 'one' and \
                                bool(got_filler(ops[0][1])) and got_filler(ops[0][1])[0].op == 'elem'
                    ctx.check(good, R, w, 'one filler for each type of a tuple, or a single one for a tuple of any length', node, p)
                ctx.check(ia is not None and hint_args(unver(ia)), R, w, 'the types are kept', node, p)


def ellipsis_of(ctx, base):
    """(has two types, the last is ...) as conditions on the types of a tuple"""
    def f(p):
        for k in p.facts:
            if k.op == 'is' and any('Ellipsis' in show(x) for x in k.a):
                return k
        return None
    return f


@rule('C07', 'any-length', 'a tuple type stands for tuples of any length exactly if it is one type followed by an ellipsis')
def r_variadic(ctx):
    R = 'any-length'
    c = ctx.P.cls_named('TupleFiller')
    for m, ps in (('__init__', init_paths(ctx, c)[1]), ('bind', bind_paths(ctx, c)[1])):
        w, node = f'TupleFiller.{m}', ctx.node(c, m)
        for p in ps or []:
            if m == 'bind' and p.raises:
                continue
            eight = [k for k in p.facts if k.op == 'is' and any('Ellipsis' in show(x) for x in k.a)]
            two = [(k, b) for k, b in p.facts.items() if k.op in ('leneq', 'eq', 'lenge', 'lt', 'le') and
                   ('inner_args' in show(k) or 'get_args' in show(k))]
            other = [k for k in p.facts if murky(k)]
            if eight:
                x = next(x for x in eight[0].a if 'Ellipsis' not in show(x))
                good = x.op == 'item' and is_k(x.a[1]) and kval(x.a[1]) in (-1, 1) and \
                    any(k.op == 'leneq' and b and k.a[1] == 2 for k, b in two)
                ctx.check(True if good else None if other else False, R, w,
                          'the last of two types is looked at', p.sig.node or node, p)
            else:
                good = any(k.op == 'leneq' and not b and k.a[1] == 2 for k, b in two)
                ctx.check(True if good else None if other or not two else False, R, w, 'otherwise the length is fixed',
                          p.sig.node or node, p)


def parts_of(c, kind, p):
    if kind == 'iter':
        return [A(SELF, 'element_filler')]
    if kind == 'map':
        return [A(SELF, 'key_filler'), A(SELF, 'value_filler')]
    if kind == 'tuple':
        return [T('item', A(SELF, 'sub_fillers'), K(0))] if variadic(p) else []
    return []


def events_flat(p):
    """(index, event, loop summary or None) in order of the path"""
    for i, e in enumerate(p.events):
        if e.kind == 'loop':
            for ip in e.a[0].paths:
                for x in all_events(ip.events):
                    yield i, x, e
        else:
            yield i, e, None


def mcall(e, name):
    """e calls method `name`: its receiver"""
    if e.kind == 'call':
        f = unver(e.a[0])
        if is_attr(f, name):
            return unver(f.a[0])
    return None


def bound_rule(prop):
    def f(ctx):
        R = 'parts-bound'
        for c, base, kind in kinds(ctx) + [(ctx.P.cls_named(n), n, 'n') for n in ('WrapperFiller', 'TypeFiller')]:
            name = c.qual.rsplit('.', 1)[-1]
            w, node = f'{name}.bind', ctx.node(c, 'bind')
            I, ps = bind_paths(ctx, c)
            for p in ps or []:
                if not p.returns:
                    continue
                need = [INNER] + parts_of(c, kind, p)
                for x in need:
                    bs = [(i, e) for i, e, le in events_flat(p) if mcall(e, 'bind') is x]
                    good = len(bs) == 1 and tuple(unver(a) for a in bs[0][1].a[1]) == (OWN,)
                    if not good:
                        ctx.check(None if any(e.kind == 'call' and murky(e.a[0]) for _, e, _ in events_flat(p)) else False, R, w,
                                  f'{show(x)} is bound once, to the class (not {len(bs)} times)', node, p)
                        continue
                    ctx.ok(R, w, f'{show(x)} is bound once')
                    asked = [i for i, e, le in events_flat(p) for q in ('is_inert', 'is_hollow') if mcall(e, q) is x]
                    ctx.check(all(i > bs[0][0] for i in asked), R, w, f'{show(x)} is asked only after it was bound', node, p)
                    if x is INNER:
                        app = [i for i, e, le in events_flat(p) if mcall(e, 'append') is VALIDATORS]
                        ctx.check(all(i > bs[0][0] for i in app), R, w, 'validators of elements come after those of the tokens',
                                  node, p)
                if kind == 'tuple' and not variadic(p):
                    SF = A(SELF, 'sub_fillers')
                    got = []
                    for e in p.events:
                        if e.kind != 'loop' or unver(e.a[0].dom) is not SF:
                            continue
                        S, how = e.a
                        n = [[x for x in all_events(ip.events) if mcall(x, 'bind') is not None and
                              mcall(x, 'bind').op == 'elem' and tuple(unver(a) for a in x.a[1]) == (OWN,)] for ip in S.paths]
                        if any(n):
                            got.append(how[0] == 'done' and all(len(x) == 1 for x in n))
                    good = got == [True] or not got and p.st.known(T('truthy', SF)) is False
                    ctx.check(True if good else False, R, w, 'every filler of a fixed tuple is bound once', node, p)
        # unions are a kind of their own
        c = ctx.P.cls_named('UnionFiller')
        w, node = 'UnionFiller.bind', ctx.node(c, 'bind')
        ps = ctx.summ(c, 'bind', args=[OWN])
        for p in ps or []:
            if p.returns:
                got = []
                for e in p.events:
                    if e.kind == 'loop' and unver(e.a[0].dom) is A(SELF, 'sub_fillers'):
                        S, how = e.a
                        n = [[x for x in ip.events if mcall(x, 'bind') is not None and mcall(x, 'bind').op == 'elem' and
                              tuple(unver(a) for a in x.a[1]) == (OWN,)] for ip in S.paths]
                        if any(n):
                            got.append(how[0] == 'done' and all(len(x) == 1 for x in n))
                ctx.check(got == [True] or (None if not got and any(e.kind == 'loop' for e in p.events) else False), R, w,
                          'every alternative is bound once', node, p)
    return f


rule('C07', 'parts-bound', 'every filler of a container is bound once to the class before anything is asked of it')(bound_rule('C07'))
rule('C05', 'parts-bound', 'every filler of a container or union is bound once to the class that defines the field')(bound_rule('C05'))


def refused(prop, what):
    def f(ctx):
        R = 'hollow-container-refused'
        for c, base, kind in kinds(ctx):
            name = c.qual.rsplit('.', 1)[-1]
            w, node = f'{name}.bind', ctx.node(c, 'bind')
            I, ps = bind_paths(ctx, c)
            for p in ps or []:
                if kind == 'tuple' and not variadic(p):
                    inert = all_inert(p, A(SELF, 'sub_fillers'))
                else:
                    a = [answer(p, x, 'is_inert') for x in parts_of(c, kind, p)]
                    inert = True if all(x is True for x in a) else False if False in a else None
                hollow = answer(p, INNER, 'is_hollow')
                if p.returns:
                    good = inert is True or hollow is False
                    if not good and hollow is None and appended(p) and kind != 'tuple':
                        good = False
                    ctx.check(True if good else None if any(murky(x) for x in p.facts) else False, R, w,
                              'a container without checks whose elements need filling is refused', node, p)
                elif p.st.known(T('truthy', A(SELF, 'owner'))) is not True:
                    good = hollow is True and inert is not True
                    ctx.check(True if good else None if any(murky(x) for x in p.facts) else False, R, w,
                              'only such containers are refused', p.sig.node or node, p)
    return f


rule('C06', 'hollow-container-refused', 'a container that is not checked but whose elements need filling is refused when the class '
                                        'is made')(refused('C06', ''))
rule('C04', 'hollow-container-refused', 'a container that is not checked but whose elements have validators is refused when the '
                                        'class is made')(refused('C04', ''))


@rule('C06', 'unenforced-parameters-refused', 'a generic type whose parameters cannot be checked is refused if a parameter asks for'
                                              ' a check, coercion or validation')
def r_generic_n(ctx):
    R = 'unenforced-parameters-refused'
    TYPES = A(SELF, 'inner_types')
    for c in ctx.P.classes.values():
        if c.is_sub(ctx.P.cls_named('GenericFillerN')):
            asks_parameters(ctx, R, c, [], lambda d: d is TYPES)
    # a generic type without a filler of its own

    def params(d):
        return is_call(d) and show(d.a[0]).rsplit('.', 1)[-1] in ('get_args', '_args') and \
            [unver(x) for x in d.a[1]] == [A(SELF, 'origin')] or d is A(SELF, 'origin', '__args__')
    asks_parameters(ctx, R, ctx.P.cls_named('DumbFiller'), ['get_args', 'default_type_check_style'], params)


def asks_parameters(ctx, R, c, opaque, is_types):
    w, node = f'{c.qual.rsplit(".", 1)[-1]}.bind', ctx.node(c, 'bind')
    I = ctx.interp(opaque=['get_filler', 'get_annotated_filler'] + opaque)
    ps = ctx.summ(c, 'bind', args=[OWN], I=I)
    for p in ps or []:
        if p.raises:
            if p.st.known(T('truthy', A(SELF, 'owner'))) is True:
                continue
            bad = [b for k, b in p.facts.items() if k.op == 'truthy' and is_call(unver(k.a[0])) and
                   is_attr(unver(unver(k.a[0]).a[0]), 'is_inert') and b is False]
            style = opaque and any('default_type_check_style' in show(k) for k in p.facts)
            ctx.check(bool(bad) or (None if style or any(map(murky, p.facts)) else False), R, w,
                      'only such parameters are refused', p.sig.node or node, p) if bad or not style else None
            continue
        asked = False
        for e in p.events:
            if e.kind != 'loop':
                continue
            S, how = e.a
            vs = []
            for ip in allowed_paths(S, how):
                r = None
                for k, b in ip.facts.items():
                    if k.op == 'truthy' and is_call(unver(k.a[0])) and is_attr(unver(unver(k.a[0]).a[0]), 'is_inert'):
                        x = got_filler(unver(unver(k.a[0]).a[0]).a[0])
                        if x and x[0].op == 'elem' and is_types(unver(x[0].a[0])):
                            r = b
                vs.append(r)
            asked = asked or how[0] == 'done' and bool(vs) and all(x is True for x in vs)
        none = any(v is False and k.op == 'truthy' and is_types(unver(k.a[0])) for k, v in p.facts.items())
        ctx.check(True if asked or none else None if any(murky(k) for e in all_loops(p.events) for ip in e.a[0].paths
                                                         for k in ip.facts) else False, R, w,
                  'the class is accepted only if every parameter needs no filling', node, p)


@rule('C04', 'inert', 'a filler calls itself inert exactly if it has neither check nor validator, and a union or wrapper only if all'
                      ' its parts do')
def r_inert(ctx):
    R = 'inert'
    from .fields import truth_paths, boolean
    P = ctx.P
    ann, wrap, uni, fil = (P.cls_named(n) for n in ('AnnotatedFiller', 'WrapperFiller', 'UnionFiller', 'Filler'))
    done = set()
    for c in P.classes.values():
        if not c.is_sub(fil) or c is fil:
            continue
        d = c.lookup('is_inert')
        if d is None:
            continue
        kind = 'a' if c.is_sub(ann) else 'w' if c.is_sub(wrap) else 'u' if c.is_sub(uni) else 'x'
        if (id(d[1]), kind) in done and 'is_hollow' not in c.attrs:
            continue
        done.add((id(d[1]), kind))
        name = c.qual.rsplit('.', 1)[-1]
        w, node = f'{name}.is_inert', d[1]
        ps = ctx.summ(c, 'is_inert')
        if ps is None:
            continue
        if kind == 'a':
            st = A(SELF, 'type_checking_style')
            ps = truth_paths(ps)
            hol = next((k for p in ps for k in p.facts if k.op in ('is', 'eq') and 'hollow' in show(k)), None)
            if hol is None:
                hol = mk_is(st, T('enum', 'TypeCheckStyle', 'hollow'))
            ctx.decide(R, w, ps, [('hollow', hol), ('validators', T('truthy', A(SELF, 'validators')))],
                       lambda v: v['hollow'] and not v['validators'], boolean, node)
        elif kind == 'w':
            for p in ps:
                v = unver(p.value) if p.returns else None
                ans = answer(p, INNER, 'is_inert')
                good = v is C(A(INNER, 'is_inert')) or ans is not None and is_k(v, ans)
                ctx.check(True if good else None if v is None or murky(v) else False, R, w, 'a wrapper is as inert as what it wraps',
                          node, p)
        elif kind == 'u':
            SF = A(SELF, 'sub_fillers')
            for p in truth_paths(ps):
                v = boolean(p)
                good = all_inert(p, SF)
                if v is True:
                    ctx.check(True if good else None if any(map(murky, p.facts)) else False, R, w,
                              'a union is inert only if all its alternatives are', node, p)
                elif v is False:
                    no = [b for k, b in p.facts.items() if k.op == 'truthy' and is_call(unver(k.a[0])) and
                          is_attr(unver(unver(k.a[0]).a[0]), 'is_inert') and b is False]
                    ctx.check(bool(no) or (None if any(map(murky, p.facts)) else False), R, w,
                              'a union is inert if all its alternatives are', node, p)
                else:
                    ctx.undec(R, w, f'result {v} not followed')
        else:
            fs = ctx.summ(c, 'fill', args=[ARG])
            for p in truth_paths(ps):
                if boolean(p) is not True:
                    continue
                for q in fs or []:
                    v = unver(q.value) if q.returns else None
                    same = v is not None and ARG in (list(v.a[1]) if v.op == 'call' else list(v.a[0]) if v.op == 'tuple' else
                                                     [x for x in v.a if isinstance(x, T)])
                    h = q.st.h(v) if v is not None else None
                    same = same or 'arg' in show(v) if v is not None else same
                    ctx.check(True if same else None, R, w, 'a filler that calls itself inert returns what it gets', node, q)


@rule('C07', 'wrapped', 'a container fills, takes tokens and answers through the filler of the container itself')
def r_wrapped(ctx):
    R = 'wrapped'
    c = ctx.P.cls_named('WrapperFiller')
    for sub in [x for x in ctx.P.classes.values() if x.is_sub(c)]:
        name = sub.qual.rsplit('.', 1)[-1]
        for m, arg in (('fill', ARG), ('apply', sym('token')), ('is_hollow', None)):
            if sub is not c and m not in sub.attrs:
                continue
            ps = ctx.summ(sub, m, args=[arg] if arg is not None else [])
            t = C(A(INNER, m), *([arg] if arg is not None else []))
            for p in ps or []:
                if p.raises:
                    ctx.bad(R, f'{name}.{m}', 'refuses', p.sig.node, p)
                    continue
                n = [e for e in p.events if e.kind == 'call' and mcall(e, m) is INNER]
                v = unver(p.value)
                good = len(n) == 1 and tuple(unver(x) for x in n[0].a[1]) == t.a[1] and \
                    (m == 'apply' or v is t or m == 'is_hollow' and is_k(v, answer(p, INNER, 'is_hollow')))
                if m == 'fill' and not good and len(n) == 1:
                    h = show(v)
                    good = None if murky(v) else False
                ctx.check(good, R, f'{name}.{m}', 'goes to the inner filler', p.sig.node, p)
