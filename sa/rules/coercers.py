"""
What the callbacks made by the built-in coercion tokens do (C24).

Every token is analysed from end to end: the token class is called with symbolic arguments, the token with a symbolic type
and filler, and the callback it returns with a symbolic value, so it does not matter how the parts are divided.
"""
from .base import *

AR, KW, V, O, F = sym('ARGS'), sym('KW'), sym('V'), sym('ORIGIN'), sym('FILLER')
ITEM, ITEMS = sym('ITEM'), sym('ITEMS')
STAR, MORE = T('star', AR), (None, KW)


def is_arg_seq(p, t):
    """is t the sequence of the token's positional arguments (or a copy of it)"""
    t = unver(t)
    if t is AR:
        return True
    if t.op == 'seqt':
        return len(t.a[0]) == 1 and t.a[0][0][0] == 'ext' and is_arg_seq(p, t.a[0][0][1])
    h = p.st.h(t)
    return h is not None and len(h.log) == 1 and h.log[0][0] == 'ext' and is_arg_seq(p, h.log[0][1])


def is_kw_map(p, t):
    t = unver(t)
    if t is KW:
        return True
    h = p.st.h(t)
    return h is not None and len(h.log) == 1 and h.log[0][0] == 'upd' and is_kw_map(p, h.log[0][1])


class Tok:
    """the callbacks of one kind of token: [(path of making the callback, [paths of the callback])]"""

    def __init__(self, ctx, name, args=None, kws=None, maker=None, v=V, origin=O):
        self.ctx, self.name = ctx, name
        self.cls = ctx.P.cls_named(name)
        self.I = ctx.interp(inline_attrs=[self.cls.qual])
        self.w = name
        self.node = ctx.node(self.cls, 'func_args') or ctx.node(self.cls, '__call__')
        st = self.I.new_state()
        for t in (ITEM, ITEMS, O, F):
            st = st.assume(mk_is(t, NONE), False) or st
        st.types = dict(st.types)
        args = [STAR] if args is None else args
        kws = [MORE] if kws is None else kws
        cterm = T('class', self.cls.qual)
        self.refused = []          # paths on which making the token or the callback raises
        self.made = []
        self.ok = True
        if maker is None:
            tokens = ctx.call(self.I, cterm, args, kws, st, self.node)
        else:
            tokens = None
            fs = ctx.summ(self.cls, maker[0], args=maker[1], kwargs=maker[2], recv=cterm, I=self.I, st=st)
            if fs is not None:
                tokens = []
                for f in fs:
                    if f.returns:
                        tokens += ctx.call(self.I, f.value, args, kws, f.st, self.node) or []
        if tokens is None:
            self.ok = False
            return
        for p in tokens:
            if p.raises:
                self.refused.append(p)
                continue
            qs = ctx.call(self.I, p.value, [origin, F], [], p.st, self.node)
            if qs is None:
                self.ok = False
                continue
            for q in qs:
                if q.raises:
                    self.refused.append(q)
                    continue
                rs = ctx.call(self.I, q.value, [v], [], q.st, self.node)
                if rs is None:
                    self.ok = False
                    continue
                self.made.append((q, rs))

    def paths(self):
        return [r for _, rs in self.made for r in rs]


def tok(ctx, rule, name, **kw):
    t = Tok(ctx, name, **kw)
    if not t.ok or not t.made:
        ctx.undec(rule, name, 'the callbacks of the token could not be followed')
        return None
    return t


def call_shape(p, t, f, pos, star=True):
    """is t the call f(*pos, *ARGS, **KW)?  True / False / None"""
    t = unver(t)
    if not is_call(t):
        return None if murky(t) else False
    if t.a[0] is not f:
        return None if murky(t) else False
    args, kws = list(t.a[1]), list(t.a[2])
    if len(args) < len(pos):
        return False
    for a, b in zip(args, pos):
        if a.op == 'star' and b.op == 'star':
            if unver(a.a[0]) is not b.a[0] and not copy_of(p, a.a[0], b.a[0]):
                return None if murky(a) else False
        elif unver(a) is not b:
            return None if murky(a) else False
    rest = args[len(pos):]
    if star:
        if len(rest) != 1 or rest[0].op != 'star' or not is_arg_seq(p, rest[0].a[0]):
            return None if any(murky(x) for x in rest) else False
        if len(kws) != 1 or kws[0][0] is not None or not is_kw_map(p, kws[0][1]):
            return None if any(murky(x) for _, x in kws) else False
        return True
    return not rest and not kws


def copy_of(p, t, src):
    """is t a list or tuple of exactly the elements of src"""
    t = unver(t)
    if t.op == 'seqt':
        return len(t.a[0]) == 1 and t.a[0][0][0] == 'ext' and (unver(t.a[0][0][1]) is src or copy_of(p, t.a[0][0][1], src))
    h = p.st.h(t)
    if h is None or h.kind not in ('list', 'tuple') or len(h.log) != 1:
        return False
    o = h.log[0]
    if o[0] == 'ext':
        return unver(o[1]) is src or copy_of(p, o[1], src)
    if o[0] == 'loop' and unver(o[1].dom) is src:
        for ip in o[1].paths:
            ops = next((v for k, v in ip.ops.items() if k is o[2]), ())
            if not ip.goes_on or len(ops) != 1 or ops[0][0] != 'one' or not is_elem(ops[0][1], o[1]):
                return False
        return True
    return False


def is_elem(t, S):
    t = unver(t)
    return t.op == 'elem' and (t.a[1] is S.L if len(t.a) > 1 else True)


def raised_by(p):
    """the call whose own error is behind this raise, if any"""
    return [k.a[0] for k, v in p.facts.items() if k.op == 'raises' and v is True]


def known_any(p, ts):
    r = [p.st.known(t) for t in ts]
    return True if True in r else False if False in r else None


def judge(ctx, rule, t, p, ok, why_ok, why_bad):
    """ok: True/False/None whether the path's return is justified"""
    return ctx.check(ok, rule, t.w, why_ok if ok else why_bad, p.sig.node or t.node, p)


# -- Loose and its relatives --------------------------------------------------------------------------------------------
@rule('C24', 'loose', 'the loose coercer calls the type with the value and the arguments of the token, and, if constrained,'
                      ' only with a value of a constraint type')
def r_loose(ctx):
    t = tok(ctx, 'loose', 'Loose')
    if t is not None:
        for p in t.paths():
            if p.returns:
                judge(ctx, 'loose', t, p, call_shape(p, p.value, O, [V]), 'the type is called with the value and the arguments',
                      f'converts to {show(p.value)} instead of the type called with the value and the arguments of the token')
            elif p.raises and not raised_by(p):
                judge(ctx, 'loose', t, p, None if murky_facts(p) else False, '', 'refuses a value although no type was demanded')
    t = tok(ctx, 'loose', 'Loose', maker=('constrain', [ITEM], []))
    if t is not None:
        fact = T('isinstance', V, ITEM)
        ctx.decide('loose', 'Loose.constrain', t.paths(), [('of a constraint type', fact)],
                   lambda v: 'converts' if v['of a constraint type'] else 'raises', conv_outcome(O, [V]), t.node)


def murky_facts(p):
    return any(murky(k) for k in p.facts)


def conv_outcome(f, pos, star=True):
    def observe(p):
        if p.raises:
            return 'raises'
        r = call_shape(p, p.value, f, pos, star)
        return 'converts' if r else None if r is None else f'returns {show(p.value)}'
    return observe


@rule('C06', 'loose-target-refused', 'a loose coercer is refused for a target that is no concrete class')
def r_loose_target(ctx):
    for n in ('Loose', 'LooseUnpack', 'LooseUnpackMap'):
        t = tok(ctx, 'loose-target-refused', n)
        if t is None:
            continue
        ty = T('isinstance', O, G('builtins.type'))
        ab = T('truthy', C(G('inspect.isabstract'), O))
        ps = [Path(q.st, Sig('return', NONE)) for q, _ in t.made] + [Path(q.st, Sig('raise', q.sig.val, q.sig.node)) for q in t.refused]
        ctx.decide('loose-target-refused', n, ps, [('a class', ty), ('abstract', ab)],
                   lambda v: 'accepted' if v['a class'] and not v['abstract'] else 'refused',
                   lambda p: 'accepted' if p.returns else 'refused', t.node)


@rule('C06', 'literal-target-refused', 'the literal coercer is refused for a target no literal can have')
def r_literal_target(ctx):
    t = tok(ctx, 'literal-target-refused', 'LiteralEval', args=[], kws=[])
    if t is None:
        return
    def member(p):
        return any(k.op == 'in' and k.a[0] is O and unver(k.a[1]).op != 'tuple' for k in p.facts)
    lits = ['int', 'str', 'float', 'complex', 'set', 'tuple', 'dict', 'list', 'bool']
    ids = [mk_is(O, G('builtins.' + n)) for n in lits]
    for q, _ in t.made:
        k = known_any(q, ids)
        judge(ctx, 'literal-target-refused', t, q, True if k else None if murky_facts(q) or member(q) else False,
              'accepted for a literal type', 'accepted for any target')
    ctx.check(bool(t.refused) or None, 'literal-target-refused', t.w, 'other targets are refused', t.node)


def quantified(p, doms, test, S_ok):
    """
    did a loop over one of `doms` end normally with `test(iteration path)` true of every element -> True, or was it left with
    a false one -> False; None if no such loop was met
    """
    r = None
    for e in p.events:
        if e.kind != 'loop':
            continue
        S, how = e.a[0], e.a[1]
        if not S_ok(S):
            continue
        if how and how[0] == 'done':
            if all(test(ip, S) is True for ip in allowed_paths(S, how)):
                r = True
        elif how and how[0] == 'exit':
            ip = next((x for x in S.paths if x.idx == how[1]), None)
            if ip is not None and test(ip, S) is False:
                r = False
    return r


def fact_of(ip, pred):
    for k, v in ip.facts.items():
        if pred(k):
            return v
    return None


def seq_src(t):
    """what sequence a domain ranges over, copies looked through"""
    t = unver(t)
    while t.op == 'seqt' and len(t.a[0]) == 1 and t.a[0][0][0] == 'ext' or t.op == 'iter1':
        t = unver(t.a[0] if t.op == 'iter1' else t.a[0][0][1])
    return t


def elem_src(t):
    t = unver(t)
    if t.op == 'item':
        return seq_src(t.a[0])
    if t.op != 'elem':
        return None
    return seq_src(t.a[0])


@rule('C24', 'unpack', 'the unpacking coercer calls the type with the elements of the value and the arguments of the token, and,'
                       ' if constrained, only with as many elements as constraints, each of its own type')
def r_unpack(ctx):
    R = 'unpack'
    star_v = T('star', V)
    t = tok(ctx, R, 'LooseUnpack')
    if t is not None:
        for p in t.paths():
            if p.returns:
                judge(ctx, R, t, p, call_shape(p, p.value, O, [star_v]), 'the type is called with the elements and the arguments',
                      f'converts to {show(p.value)}')
            elif p.raises and not raised_by(p):
                judge(ctx, R, t, p, None if murky_facts(p) else False, '', 'refuses elements although no types were demanded')
    t = tok(ctx, R, 'LooseUnpack', maker=('constrain', [T('star', ITEMS)], []))
    if t is not None:
        two, more = T('leneq', ITEMS, 2), mk_is(T('item', ITEMS, K(1)), G('Ellipsis'))
        same_len = T('eq', T('len', ITEMS), T('len', V))
        for p in t.paths():
            two = next((k for k in p.facts if k.op == 'leneq' and k.a[0] is ITEMS), two)
            more = next((k for k in p.facts if k.op == 'is' and show(k).startswith('is(ITEMS[1]')), more)
            a, b = p.st.known(two), p.st.known(more)
            mode = 'any' if a and b else 'fixed' if a is False or b is False else None
            if p.returns:
                c = call_shape(p, p.value, O, [star_v])
                judge(ctx, R, t, p, c, 'the type is called with the elements and the arguments', f'converts to {show(p.value)}')
            elif raised_by(p):
                continue
            if mode is None:
                ctx.undec(R, 'LooseUnpack.constrain', 'which form of constraint this is was not decided')
                continue
            if mode == 'any':
                item0 = T('item', ITEMS, K(0))
                q = quantified(p, None, lambda ip, S: fact_of(ip, lambda k: k.op == 'isinstance' and elem_src(k.a[0]) is V and
                                                              unver(k.a[1]) is item0), lambda S: seq_src(S.dom) is V)
                n = True
            else:
                def pairs(S):
                    d = unver(S.dom)
                    return d.op == 'zip' and [seq_src(x) for x in d.a[0]] in ([V, ITEMS], [ITEMS, V])
                q = quantified(p, None, lambda ip, S: fact_of(ip, lambda k: k.op == 'isinstance' and elem_src(k.a[0]) is V and
                                                              elem_src(k.a[1]) is ITEMS), pairs)
                n = next((v for k, v in p.facts.items() if k.op == 'eq' and {len_src(x) for x in k.a} == {V, ITEMS}), None)
                ctx.sites += 1
            odd = [k for k in p.facts if murky(k)] or [e for e in p.events if e.kind == 'loop' and not (
                seq_src(e.a[0].dom) in (V, ITEMS) or unver(e.a[0].dom).op in ('zip', 'slice'))]
            if p.returns:
                ok = bool(q and n)
                judge(ctx, R, t, p, True if ok else None if odd else False, 'only elements of the constraint types',
                      'converts elements ' + ('that were not all of the constraint type' if mode == 'any' or n else
                                              'without comparing their number with that of the constraints'))
            elif p.raises:
                ok = q is False or n is False
                judge(ctx, R, t, p, True if ok else None if odd else False, 'refuses other elements',
                      'refuses elements that are as constrained')
    # the elements of an iterator are there only once
    it = T('iter1', V)
    for mk in (None, ('constrain', [T('star', ITEMS)], [])):
        t = tok(ctx, R, 'LooseUnpack', maker=mk, v=it)
        if t is None:
            continue
        for p in t.paths():
            if p.returns and is_call(p.value):
                raw = any(a.op == 'star' and unver(a.a[0]) is it for a in p.value.a[1])
                used = any(e.kind == 'loop' and drives(e.a[0].dom) for e in p.events)
                judge(ctx, R, t, p, not (raw and used), 'the elements are kept when they are checked',
                      'checking the elements of an iterator uses them up, the type is called without them')


def drives(d):
    d = unver(d)
    return d.op == 'zip' and any(drives(x) for x in d.a[0]) or seq_src(d) is V


def len_src(t):
    t = unver(t)
    return seq_src(t.a[0]) if t.op == 'len' else None


@rule('C24', 'unpack-map', 'the mapping coercer calls the type with the entries of the value and the arguments of the token, and,'
                           ' if constrained, only with known keys and values of their types')
def r_unpack_map(ctx):
    R = 'unpack-map'

    def shape(p, t):
        t = unver(t)
        if not is_call(t) or t.a[0] is not O:
            return None if murky(t) else False
        a, k = t.a[1], t.a[2]
        if len(a) != 1 or a[0].op != 'star' or not is_arg_seq(p, a[0].a[0]):
            return None if any(murky(x) for x in a) else False
        if any(n is not None for n, _ in k) or len(k) != 2:
            return None if any(murky(x) for _, x in k) else False
        return [is_kw_map(p, x) for _, x in k].count(True) == 1 and any(map_of(p, x, V) for _, x in k)
    t = tok(ctx, R, 'LooseUnpackMap')
    if t is not None:
        for p in t.paths():
            if p.returns:
                judge(ctx, R, t, p, shape(p, p.value), 'the type is called with the entries and the arguments',
                      f'converts to {show(p.value)}')
            elif p.raises and not raised_by(p):
                judge(ctx, R, t, p, None if murky_facts(p) else False, '', 'refuses entries although no types were demanded')
    t = tok(ctx, R, 'LooseUnpackMap', maker=('constrain', [], [(None, ITEMS)]))
    if t is None:
        return

    def entry_ok(ip, S):
        known = ty = None
        for k, v in ip.facts.items():
            if k.op == 'in' and unver(k.a[1]) is ITEMS and elem_src(k.a[0]) is V:
                known = v
            if k.op == 'isinstance' and unver(k.a[0]).op == 'item' and unver(k.a[0]).a[0] is V and \
                    unver(k.a[1]).op == 'item' and unver(k.a[1]).a[0] is ITEMS and k.a[1].a[1] is k.a[0].a[1]:
                ty = v
            if k.op == 'is' and NONE in k.a and v is True and any(
                    unver(x).op == 'item' and unver(x).a[0] is ITEMS for x in k.a):
                return False
        return False if known is False or ty is False else True if ty else None
    for p in t.paths():
        if p.returns:
            judge(ctx, R, t, p, shape(p, p.value), 'the type is called with the entries and the arguments',
                  f'converts to {show(p.value)}')
        elif raised_by(p):
            continue
        q = quantified(p, None, entry_ok, lambda S: map_dom(S.dom))
        odd = [k for k in p.facts if murky(k)] or [e for e in p.events if e.kind == 'loop' and not map_dom(e.a[0].dom)
                                                   and seq_src(e.a[0].dom) is not ITEMS]
        if p.returns:
            judge(ctx, R, t, p, True if q else None if odd else False, 'only known keys with values of their types',
                  'converts entries that were not all as constrained')
        elif p.raises:
            judge(ctx, R, t, p, True if q is False else None if odd else False, 'refuses other entries',
                  'refuses entries that are as constrained')


def map_dom(d):
    d = unver(d)
    return d is V or d.op in ('items', 'keys', 'values') and unver(d.a[0]) is V


def map_of(p, t, src):
    t = unver(t)
    if t is src:
        return True
    h = p.st.h(t)
    return h is not None and len(h.log) == 1 and h.log[0][0] == 'upd' and map_of(p, h.log[0][1], src)


# -- numbers ----------------------------------------------------------------------------------------------------------
NUM = {n: T('isinstance', V, G('numbers.' + n)) for n in ('Rational', 'Real', 'Complex', 'Integral')}


def whole_facts(p):
    """facts on a path that say that the value is (nearly) whole: (near an integer from above or below, exactly)"""
    near = exact = None
    for k, v in p.facts.items():
        k0 = k
        if k.op == 'truthy':
            k0 = k.a[0]
        if is_call(k0, G('math.isclose')) and len(k0.a[1]) == 2 and not k0.a[2]:
            x = next((y for y in k0.a[1] if y.op == 'bin'), None)
            n = next((y for y in k0.a[1] if is_k(y)), None)
            if x is not None and x.a[0] == '%' and x.a[1] is V and is_k(x.a[2], 1) and n is not None and kval(n) in (0, 1):
                near = near or (v if v else near)
                if v and kval(n) == 0:
                    exact = True
                if not v:
                    near = near or False
        if k.op == 'eq':
            a, b = k.a
            if any(x.op == 'bin' and x.a[0] == '%' and x.a[1] is V and is_k(x.a[2], 1) for x in k.a) and any(
                    is_k(x, 0) for x in k.a):
                near, exact = (True, True) if v else (near or False, exact)
            if V in k.a and any(is_call(x) and x.a[0] in (G('builtins.round'), G('builtins.int'), G('math.floor'), G('math.trunc'),
                                                         G('math.ceil')) and x.a[1][:1] == (V,) for x in k.a):
                near, exact = (True, True) if v else (near or False, exact)
        if is_call(k0) and is_attr(k0.a[0], 'is_integer', V):
            near, exact = (True, True) if v else (near or False, exact)
    return near, exact


@rule('C24', 'whole', 'the whole-number coercer converts whole numbers only, to the whole number they are')
def r_whole(ctx):
    R = 'whole'
    t = tok(ctx, R, 'Whole')
    if t is None:
        return
    den1 = T('eq', T('attr', V, 'denominator'), K(1))
    im0 = T('eq', T('attr', V, 'imag'), K(0))

    def k(p, x):
        r = p.st.known(x)
        if r is None:
            r = next((v for f, v in p.facts.items() if f is x or f.op == 'eq' and set(f.a) == set(x.a if isinstance(x, T) else ())), None)
        return r
    made_up = lambda x: is_call(x) and x.a[0] in (G('builtins.round'), G('builtins.int')) or x is T('attr', V, 'numerator')
    for p in t.paths():
        if any(k_.op == 'is' and b and NONE in k_.a and any(made_up(x) for x in k_.a) for k_, b in p.facts.items()):
            continue
        rat, real, cpx = (k(p, NUM[n]) for n in ('Rational', 'Real', 'Complex'))
        integral = k(p, NUM['Integral'])
        near, exact = whole_facts(p)
        d1, i0 = k(p, den1), k(p, im0)
        if p.returns:
            v = unver(p.value)
            arg = None
            if is_call(v, O) and v.a[1]:
                arg = unver(v.a[1][0])
                c = call_shape(p, v, O, [v.a[1][0]])
                if not judge(ctx, R, t, p, c, 'the type is called with the whole number and the arguments', f'converts to {show(v)}'):
                    continue
            elif is_call(v) and v.a[1] and any(unver(x) is T('attr', V, 'real') for x in v.a[1]):
                # the same for the real part
                judge(ctx, R, t, p, True if i0 else None if murky_facts(p) else False, 'the real part of a complex number that is real',
                      'takes the real part of a number that may have an imaginary one')
                continue
            else:
                judge(ctx, R, t, p, None if murky(v) else False, '', f'converts to {show(v)}, which is not the type called with a whole number')
                continue
            num = T('attr', V, 'numerator')
            if arg is num:
                judge(ctx, R, t, p, True if d1 or integral else None if murky_facts(p) else False, 'the numerator of a whole fraction',
                      'takes the numerator of a fraction that may not be whole')
            elif is_call(arg, G('builtins.round')) and arg.a[1] == (V,):
                judge(ctx, R, t, p, True if near or d1 or integral else None if murky_facts(p) else False, 'a (nearly) whole number is rounded',
                      'rounds a number that may not be whole')
            elif is_call(arg) and arg.a[0] in (G('builtins.int'), G('math.floor'), G('math.trunc')) and arg.a[1] == (V,) or arg is V:
                judge(ctx, R, t, p, True if exact or d1 or integral else None if murky_facts(p) else False, 'exactly whole',
                      f'converts {show(arg)}, which may not be the whole number nearest to the value')
            else:
                judge(ctx, R, t, p, None, '', f'converts {show(arg)}')
        elif p.raises and not raised_by(p):
            bad = (rat and d1) or (real and rat is False and near) or integral or \
                (cpx and real is False and rat is False and i0)
            undecided = not bad and ((rat and d1 is None) or (rat is not True and real and near is None) or
                                     (cpx and real is False and i0 is None))
            judge(ctx, R, t, p, None if undecided else not bad, 'only numbers that are not whole are refused', 'refuses a whole number')


@rule('C24', 'to-bytes', 'the bytes coercer converts whole numbers only, with the arguments of the token or just enough bytes')
def r_to_bytes(ctx):
    R = 'to-bytes'
    t = tok(ctx, R, 'ToBytes')
    if t is None:
        return
    for p in t.paths():
        integral = p.st.known(NUM['Integral'])
        if p.raises:
            if not raised_by(p):
                judge(ctx, R, t, p, integral is False, 'refuses what is no whole number', 'refuses a whole number')
            continue
        judge(ctx, R, t, p, True if integral else None if murky_facts(p) else False, 'only whole numbers', 'converts a value that may not be a whole number')
        v = unver(p.value)
        if not is_call(v, O) or len(v.a[1]) != 1 or v.a[2]:
            judge(ctx, R, t, p, None if murky(v) else False, '', f'converts to {show(v)}')
            continue
        c = unver(v.a[1][0])
        if not is_call(c, T('attr', V, 'to_bytes')):
            judge(ctx, R, t, p, None if murky(c) else False, '', f'converts to {show(c)}')
            continue
        a, k = c.a[1], c.a[2]
        if len(k) != 1 or k[0][0] is not None or not is_kw_map(p, k[0][1]):
            judge(ctx, R, t, p, None if any(murky(x) or p.st.h(unver(x)) is not None for _, x in k) else False, '',
                  'the keyword arguments of the token are not passed on')
            continue
        given = (path_fact(p, lambda k: k.op == 'truthy' and is_arg_seq(p, k.a[0])),
                 path_fact(p, lambda k: k.op == 'in' and k.a[0] is K('length') and is_kw_map(p, k.a[1])))
        if len(a) == 1 and a[0].op == 'star' and is_arg_seq(p, a[0].a[0]):
            judge(ctx, R, t, p, True if given[0] or given[1] else None if murky_facts(p) else False, 'the arguments of the token are used',
                  'no number of bytes is given when the token has none')
        elif len(a) == 1:
            if not (given[0] is False and given[1] is False):
                judge(ctx, R, t, p, None if murky_facts(p) else False, '', 'the number of bytes given to the token is ignored')
                continue
            sg = path_fact(p, lambda k: k.op == 'in' and k.a[0] is K('signed') and is_kw_map(p, k.a[1]))
            on = path_fact(p, lambda k: k.op == 'truthy' and is_flag(p, k.a[0]))
            judge(ctx, R, t, p, enough(p, a[0], True if on else False if False in (on, sg) else None), 'just enough bytes', f'uses {show(a[0])} bytes, which may be too few or more than needed')
        else:
            judge(ctx, R, t, p, None if any(murky(x) for x in a) else False, '', 'the arguments of the token are not passed on')


def summands(t):
    t = unver(t)
    if t.op == 'bin' and t.a[0] == '+':
        return summands(t.a[1]) + summands(t.a[2])
    return [t]


def is_flag(p, t):
    t = unver(t)
    if t.op in ('bool', 'truthy'):
        t = t.a[0]
    return t.op == 'item' and is_k(t.a[1], 'signed') and is_kw_map(p, t.a[0])


def enough(p, t, sg):
    """is t (bit_length + 7 + signed) // 8"""
    t = unver(t)
    if t.op != 'bin' or not (t.a[0] == '//' and is_k(t.a[2], 8) or t.a[0] == '>>' and is_k(t.a[2], 3)):
        return None
    s = summands(t.a[1])
    bits = [x for x in s if is_call(x, T('attr', V, 'bit_length'))]
    cs = [kval(x) for x in s if is_k(x)]
    rest = [x for x in s if x not in bits and not is_k(x)]
    if len(bits) != 1:
        return None
    n = sum(int(c) for c in cs)
    if len(rest) == 1 and is_flag(p, rest[0]):
        return n == 7
    if not rest:
        return n == 7 if sg is False else n == 8 if sg is True else None if murky_facts(p) else False
    return None


@rule('C24', 'from-integer', 'only 0 and 1 become booleans')
def r_from_integer(ctx):
    R, w = 'from-integer', 'BoolFiller.get_coercer'
    I = ctx.interp()
    TK = sym('TOKEN')
    ps = ctx.summ('BoolFiller', 'get_coercer', args=[TK], I=I)
    if ps is None:
        return
    node = ctx.node('BoolFiller', 'get_coercer')
    fi = T('isinstance', TK, T('class', ctx.P.cls_named('FromInteger').qual))
    zero, one = T('eq', V, K(0)), T('eq', V, K(1))
    n = 0
    for p in ps:
        if p.st.known(fi) is not True:
            continue
        if p.raises:
            ctx.bad(R, w, 'the token is refused', p.sig.node or node, p)
            continue
        rs = ctx.call(I, p.value, [V], [], p.st, node)
        if not rs:
            ctx.undec(R, w, 'the callback was not followed')
            continue
        n += 1
        for f in (zero, one):
            rs = [Path(s, q.sig) for q in rs for b in (True, False) for s in [q.st.assume(f, b)] if s is not None]

        def observe(q):
            if q.raises:
                return 'raises'
            x = unver(q.value)
            if is_k(x, True, False):
                return kval(x)
            b = q.st.known(x if x.op not in ('bool', 'not') else x)
            if b is not None:
                return b
            if x.op in ('bool', 'truthy') and x.a[0] is V:
                z, o = q.st.known(zero), q.st.known(one)
                return False if z else True if o else f'returns {show(x)}'
            return None if x.op != 'eq' else f'returns {show(x)}'
        ctx.decide(R, w, rs, [('0', zero), ('1', one)],
                   lambda v: None if v['0'] and v['1'] else {False} if v['0'] else {True} if v['1'] else 'raises', observe, node)
    ctx.check(n > 0 or None, R, w, 'the callback for the token', node)


@rule('C24', 'falsish', 'the falsish coercer makes an empty object out of false input only')
def r_falsish(ctx):
    t = tok(ctx, 'falsish', 'Falsish')
    if t is not None:
        ctx.decide('falsish', 'Falsish', t.paths(), [('true', T('truthy', V))],
                   lambda v: 'raises' if v['true'] else 'converts', conv_outcome(O, []), t.node)


# -- mapped, called, composed -------------------------------------------------------------------------------------------
@rule('C24', 'mapped', 'a value is mapped only if it is a key: to its value, or to what its factory makes now')
def r_mapped(ctx):
    R = 'mapped'
    vm, fm = sym('VALUES'), sym('FACTORIES')
    for args, kws, has in (([vm, fm], [], (1, 1)), ([vm], [], (1, 0)), ([], [('factory_map', fm)], (0, 1))):
        t = tok(ctx, R, 'MapCoercion', args=args, kws=kws)
        if t is None:
            continue

        def observe(p):
            if p.raises:
                return 'raises'
            v = unver(p.value)
            if v.op == 'item' and is_map(p, v.a[0], vm) and unver(v.a[1]) is V:
                return 'value'
            if is_call(v) and not v.a[1] and not v.a[2] and v.a[0].op == 'item' and is_map(p, v.a[0].a[0], fm) and unver(v.a[0].a[1]) is V:
                return 'made'
            return None if murky(v) else f'returns {show(v)}'

        def table(v):
            if v.get('a value'):
                return 'value'
            if v.get('a factory'):
                return 'made'
            return 'raises'
        atoms = [('a value', T('in', V, vm))] * has[0] + [('a factory', T('in', V, fm))] * has[1]
        # a map that is false has no keys
        paths = []
        for p in t.paths():
            st = p.st
            for m in (vm, fm):
                if st.known(T('truthy', m)) is False or st.known(mk_is(m, NONE)):
                    st = st.assume(T('in', V, m), False) or st
                for k, b in p.facts.items():
                    if k.op == 'in' and k.a[0] is V and unver(k.a[1]) is not m and is_map(p, k.a[1], m):
                        st = st.assume(T('in', V, m), b) or st
            paths.append(Path(st, p.sig))
        ctx.decide(R, 'MapCoercion', paths, atoms, table, observe, t.node)


def is_map(p, t, src):
    t = unver(t)
    if t is src:
        return True
    h = p.st.h(t)
    return h is not None and len(h.log) == 1 and h.log[0][0] == 'upd' and is_map(p, h.log[0][1], src)


@rule('C24', 'called', 'the calling coercers call their function with the value and then the arguments of the token, unchanged')
def r_called(ctx):
    called(ctx, 'called', 'CallCoercion', sym('FUNC'), sym('FUNC'))
    m = sym('METHOD')
    called(ctx, 'called', 'ClassMethodCoercion', m, T('getattr', O, m))


@rule('C04', 'called', 'the calling validator calls its function with the value and then the arguments of the token, unchanged')
def r_called_v(ctx):
    called(ctx, 'called', 'CallValidation', sym('FUNC'), sym('FUNC'))


def called(ctx, R, name, arg, f):
    t = tok(ctx, R, name, args=[arg, STAR])
    if t is None:
        return
    for p in t.paths():
        if p.returns:
            judge(ctx, R, t, p, call_shape(p, p.value, f, [V]), 'the function is called with the value and the arguments',
                  f'returns {show(p.value)}')
        elif not raised_by(p):
            judge(ctx, R, t, p, None if murky_facts(p) else False, '', 'refuses a value itself')


@rule('C24', 'composed', 'a composed coercer applies the callbacks of its coercers from the last to the first, each to the result of'
                         ' the one before')
def r_composed(ctx):
    R = 'composed'
    t = tok(ctx, R, 'ComposeCoercer', kws=[])
    if t is None:
        return
    for p in t.paths():
        if p.raises:
            if not raised_by(p):
                judge(ctx, R, t, p, None if murky_facts(p) else False, '', 'refuses a value itself')
            continue
        v = unver(p.value)
        if v.op != 'phiout':
            if p.st.known(T('truthy', AR)) is False:
                judge(ctx, R, t, p, v is V, 'nothing to apply', f'returns {show(v)}')
            else:
                judge(ctx, R, t, p, None if murky(v) or v.op == 'call' else False, '', f'returns {show(v)}, not the folded value')
            continue
        S = next((e.a[0] for e in p.events if e.kind == 'loop' and e.a[0].L is v.a[0]), None)
        if S is None:
            judge(ctx, R, t, p, None, '', 'the loop was not found')
            continue
        d = unver(S.dom)
        back = d.op == 'reversed' and unver(d.a[0]) is AR
        judge(ctx, R, t, p, True if back else False if d is AR else None, 'from the last to the first', 'applies the coercers from the first to the last')
        l = next((k for k, x in S.init.items() if unver(x) is V), None)
        for ip in S.paths:
            if ip.sig.kind == 'raise':
                continue
            x = ip.steps.get(l)
            ok = ip.goes_on and x is not None and is_call(x) and len(x.a[1]) == 1 and not x.a[2] and \
                x.a[1][0].op == 'phi' and x.a[1][0].a[1] == l and is_call(x.a[0]) and is_attr(x.a[0].a[0], 'get_coercer', F)
            judge(ctx, R, t, p, True if ok else None if x is not None and murky(x) else False,
                  "each coercer's callback is applied to the result so far", f'the next value is {show(x) if x is not None else "unchanged"}')


@rule('C24', 'evaluated', 'the evaluation coercers convert text only, and return what it evaluates to')
def r_evaluated(ctx):
    R = 'evaluated'
    t = tok(ctx, R, 'Eval')
    if t is None:
        return
    st = T('isinstance', V, G('builtins.str'))
    for p in t.paths():
        k = p.st.known(st)
        if p.returns:
            v = unver(p.value)
            judge(ctx, R, t, p, True if is_call(v, G('builtins.eval')) and v.a[1][:1] == (V,) else None if murky(v) else False,
                  'returns what the text evaluates to', f'returns {show(v)}')
            judge(ctx, R, t, p, True if k else None if murky_facts(p) else False, 'only text is evaluated', 'evaluates what may not be text')
        elif p.raises:
            judge(ctx, R, t, p, True if k is False or raised_by(p) else None if murky_facts(p) else False, 'only what is no text is refused',
                  'refuses text that can be evaluated')


@rule('C24', 'evaluated-names', 'the names an evaluation sees are those the token was given, and the type\'s exactly if it was asked for')
def r_eval_names(ctx):
    R = 'evaluated-names'
    X1, X2, KV = sym('X1'), sym('X2'), sym('KEYWORDVALUE')
    BUILT = K('__builtins__')

    def names(p, t, out, depth=0):
        """adds the names of a namespace; False if it is not known"""
        t = unver(t)
        h = p.st.h(t)
        if t.op == 'empty' or is_k(t, None):
            return True
        if h is None or h.kind != 'dict' or depth > 8:
            return False
        for op in h.log:
            if op[0] == 'set' and op[1] is BUILT:
                if not names(p, op[2], out, depth + 1):
                    return False
            elif op[0] == 'set':
                out[op[1]] = op[2]
            elif op[0] not in ('upd', 'update', 'dupdate', 'ext') or not names(p, op[1], out, depth + 1):
                return False
        return True
    for args in ([X1, X2], []):
        t = tok(ctx, R, 'Eval', args=args, kws=[('keyword', KV)])
        if t is None:
            continue
        for p in t.paths():
            for e in p.events:
                if e.kind != 'call' or e.a[0] is not G('builtins.eval'):
                    continue
                got, known = {}, True
                for x in list(e.a[1][1:3]) + [v for k, v in e.a[2] if k in ('globals', 'locals')]:
                    known = known and names(p, x, got)
                k = next((b for f, b in p.facts.items() if f.op == 'is' and X1 in f.a and 'Ellipsis' in map(show, f.a)), None) \
                    if args else False
                if not known or any(murky(x) for x in got) or k is None and any(contains(f, lambda x: x is X1) for f in p.facts):
                    ctx.undec(R, 'Eval', 'the names an evaluation sees could not be followed')
                    continue
                for a in (k,) if k is not None else (True, False):
                    want = {K('keyword'): KV}
                    if args:
                        want[A(X2, '__name__')] = X2
                        x = O if a else X1
                        want[A(x, '__name__')] = x
                    judge(ctx, R, t, p, {x: unver(y) for x, y in got.items()} == want,
                          'the evaluation sees the names it was given',
                          f'the evaluation sees {", ".join(sorted(show(x) for x in got)) or "no names"} instead of '
                          f'{", ".join(sorted(show(x) for x in want))}')


# -- tokens -> callbacks --------------------------------------------------------------------------------------------------
@rule('C06', 'token-callback', 'a token is turned into a callback by calling it with the type and the filler, or refused')
def r_callback(ctx):
    TK = sym('TOKEN')
    for m in ('get_coercer', 'get_validator'):
        w, node = f'AnnotatedFiller.{m}', ctx.node('AnnotatedFiller', m)
        ps = ctx.summ('AnnotatedFiller', m, args=[TK])
        for p in ps or []:
            if p.returns:
                v = unver(p.value)
                ok = is_call(v, TK) and len(v.a[1]) == 2 and is_attr(v.a[1][0], 'origin', SELF) and v.a[1][1] is SELF and not v.a[2]
                ctx.check(True if ok else None if murky(v) else False, 'token-callback', w, f'the callback is {show(v)}', p.sig.node or node, p)
            else:
                k = next((x for f, x in p.facts.items() if is_call(f.a[0] if f.op == 'truthy' else f, G('builtins.callable')) or f.op == 'callable'), None)
                ctx.check(True if k is False or raised_by(p) else None if murky_facts(p) else False, 'token-callback', w,
                          'only a token that cannot be called is refused', p.sig.node or node, p)


@rule('C06', 'token-instance', 'a token is recognised as an instance, a subclass or a wrapped factory of its kind, and of no other kind')
def r_as_instance(ctx):
    R, w = 'token-instance', '_as_instance'
    f = ctx.P.fn('records.fillers.util._as_instance')[0]
    OBJ, C_ = sym('OBJ'), sym('CLS')
    ps = ctx.run(f, [OBJ, C_])
    if ps is None:
        return
    inst, cl = T('isinstance', OBJ, C_), T('isinstance', OBJ, G('builtins.type'))

    def unwrapped(x):
        return is_call(x, G('inspect.unwrap')) and x.a[1][:1] == (OBJ,) or x.op == 'attr' and x.a[1] == '__wrapped__' and \
            contains(x, lambda y: y is OBJ) or x.op == 'getattr' and x.a[0] is OBJ and is_k(x.a[1], '__wrapped__')
    for p in ps:
        subs = [(k.a[0], v) for k, v in p.facts.items() if k.op == 'issubclass' and k.a[1] is C_]
        node = p.sig.node or f
        if p.raises:
            ctx.check(True if raised_by(p) else None if murky_facts(p) else False, R, w, 'recognising a token does not fail by itself', node, p)
            continue
        v = unver(p.value)
        i = p.st.known(inst)
        if v is OBJ:
            ctx.check(True if i else None if murky_facts(p) else False, R, w, 'an instance of the kind is the token itself', node, p)
        elif is_call(v, OBJ) and not v.a[1] and not v.a[2]:
            ok = i is False and any(b is True and (x is OBJ or unwrapped(x)) for x, b in subs)
            ctx.check(True if ok else None if murky_facts(p) else False, R, w,
                      'only a class of the kind, or what wraps one, is called to make the token', node, p)
        elif is_k(v, None):
            ok = i is False and not any(b for _, b in subs)
            seen = [x for x, b in subs if b is False]
            no_type = p.st.known(cl) is False or any(
                b is False and k.op == 'isinstance' and is_call(k.a[0], G('inspect.unwrap')) for k, b in p.facts.items())
            direct = no_type or OBJ in seen or any(is_call(x, G('inspect.unwrap')) for x in seen)
            wrapped = any(unwrapped(x) for x in seen) or any(
                unwrapped(y) for k, _ in p.facts.items() for y in walk(k) if isinstance(y, T))
            ctx.check(True if ok and direct and wrapped else None if ok and murky_facts(p) else False, R, w,
                      'only what is no instance, subclass or wrapped class of the kind is no token', node, p)
        else:
            ctx.check(None if murky(v) else False, R, w, f'makes {show(v)} of a token', node, p)
