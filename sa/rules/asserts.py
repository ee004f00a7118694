"""
Bounds validators (C25) and assertion validators (C26).

The validators are analysed from end to end (see coercers.Tok).  The conditions of a path are comparisons of the value with the
bounds; they are evaluated for every order in which the value and the bounds can be, including a value that cannot be compared
(a NaN, or sets): no path whose conditions hold in such an order may give another result than the property demands.
"""
from .base import *
from .coercers import tok, Tok, V, O, F

GE, LE, GQ, LQ = sym('GE'), sym('LE'), sym('GQ'), sym('LQ')
LOW, HIGH = 'low', 'high'          # the bounds, by role
NO = object()                      # a position that cannot be compared with the bounds


def exception(t):
    """the class an error is made from, and its arguments"""
    t = unver(t)
    if is_call(t):
        return t.a[0], t.a[1]
    return t, None


# -- sentinels ----------------------------------------------------------------------------------------------------------
class Sentinels:
    """objects below or above everything: what comparing them with another object gives, from their own methods"""
    OPS = {'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__'}

    def __init__(self, ctx):
        self.ctx, self.P, self.seen = ctx, ctx.P, {}

    def of(self, t):
        """class of the module-level object the term stands for, if it is one of the program's classes"""
        if t.op == 'glob':
            m, _, n = t.a[0].rpartition('.')
            mod = self.P.modules.get(m)
            if mod is None:
                return None
            for s in mod.tree.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                    if any(isinstance(x, ast.Name) and x.id == n for x in tg) and isinstance(s.value, ast.Call):
                        c = self.P.resolve_expr(s.value.func, mod)
                        return self.P.cls(c.a[0]) if isinstance(c, T) and c.op == 'class' else c if isinstance(c, Cls) else None
        return None

    def result(self, c, op):
        """what  <sentinel> op <other>  gives: True, False or None (not decided)"""
        k = (c.qual, op)
        if k not in self.seen:
            self.seen[k] = self._result(c, op)
        return self.seen[k]

    def _result(self, c, op):
        if op == 'eq':
            if not (c.lookup('__eq__') or (None, None))[1]:
                return False
            name = '__eq__'
        else:
            name = self.OPS[op]
            if not (c.lookup(name) or (None, None))[1]:
                return None
        ps = self.ctx.summ(c, name, args=[V], st=None)
        if ps is None:
            return None
        out = set()
        for p in ps:
            st = p.st.assume(mk_is(SELF, V), False)
            if st is not None:
                st = st.assume(T('eq', SELF, V), False)
            if st is not None:
                st = st.assume(T('eq', V, SELF), False)
            if st is None:
                continue
            v = p.value if p.returns else None
            if v is None:
                out.add(None)
            elif is_k(v):
                out.add(bool(kval(v)))
            else:
                out.add(st.known(v) if st.known(v) is not None else st.known(T('truthy', v)))
        return out.pop() if len(out) == 1 else None

    def kind(self, t):
        """LOW: below everything, HIGH: above everything, None otherwise"""
        c = self.of(unver(t))
        if c is None:
            return None
        r = tuple(self.result(c, o) for o in ('lt', 'le', 'gt', 'ge', 'eq'))
        return {(True, True, False, False, False): LOW, (False, False, True, True, False): HIGH}.get(r)


def cmp_fact(S, t, pos):
    """the truth of a comparison, given the positions of the terms; None if the positions do not tell"""
    if t.op not in ('lt', 'le', 'eq'):
        return None
    x, y = (unver(a) for a in t.a[:2])
    ks = [pos.get(z, S.kind(z)) for z in (x, y)]
    if None in ks:
        return None
    if x is y:
        return t.op != 'lt'

    def rank(k):
        return -1 if k is LOW else 99 if k is HIGH else k
    if any(isinstance(k, tuple) for k in ks):
        # a position that cannot be compared with some of the bounds: (rank, names it cannot be compared with)
        a, b = ks
        if isinstance(a, tuple) and y in a[1] or isinstance(b, tuple) and x in b[1]:
            return False
        ks = [k[0] if isinstance(k, tuple) else k for k in ks]
    a, b = (rank(k) for k in ks)
    return a < b if t.op == 'lt' else a <= b if t.op == 'le' else a == b


def feasible(S, p, pos, truths):
    for k, v in p.facts.items():
        r = truths.get(unver(k.a[0])) if k.op == 'truthy' else cmp_fact(S, k, pos)
        if r is None and k.op == 'is' and len(k.a) == 2:
            for x, y in (k.a, k.a[::-1]):
                if unver(x) in pos or unver(x) in truths:
                    if is_k(y) and unver(x) in truths and kval(y) in (True, False):
                        r = truths[unver(x)] is kval(y)
                    elif S.kind(y) is not None or is_k(y) and kval(y) is None or unver(y) in pos:
                        r = False        # a bound that was given is another object than a sentinel, or than the value
        if r is None and k.op == 'in' and len(k.a) == 2:
            r = None
        if r is not None and r is not v:
            return False
    return True


def odd_facts(S, p, pos, truths):
    return [k for k in p.facts if murky(k)]


def bounds_variants(low, high):
    """(arguments, which bounds are given): both, one or none of them, by keyword and by position"""
    return [([], [(low, GE), (high, LE)], True, True), ([GE, LE], [], True, True), ([], [(low, GE)], True, False),
            ([], [(high, LE)], False, True), ([GE], [], True, False), ([], [], False, False)]


def orders(has_low, has_high):
    """positions of the bounds: low at 2, high at 1 (below it), 2 or 4"""
    for hi in (1, 2, 4) if has_low and has_high else (4,):
        pos = {}
        if has_low:
            pos[GE] = 2
        if has_high:
            pos[LE] = hi
        yield pos


def positions(pos):
    """where the value can be"""
    have = [b for b in (GE, LE) if b in pos]
    for r in (0, 1, 2, 3, 4, 5):
        yield r
    for r in ((0, 3, 5) if have else ()):
        yield (r, frozenset(have))
    if len(have) == 2:
        for b in have:
            for r in (1, 3, 5):
                yield (r, frozenset([b]))


def text(pos):
    names = {GE: 'the lower bound', LE: 'the upper bound', V: 'the value'}
    return ', '.join(f'{names[k]} at {v[0] if isinstance(v, tuple) else v}'
                     + (' but not comparable with ' + ' and '.join(sorted(names[b] for b in v[1])) if isinstance(v, tuple) else '')
                     for k, v in pos.items())


def run_table(ctx, R, name, variants, truth_vals, init_exp, exp, observe):
    S = Sentinels(ctx)
    n = 0
    okay = True
    for args, kws, has_low, has_high, flags in variants:
        label = f'{name}({", ".join([show(a) for a in args] + [f"{k}={show(v)}" for k, v in kws])})'
        t = Tok(ctx, name, args=args, kws=kws)
        if not t.ok or not (t.made or t.refused):
            ctx.undec(R, label, 'the validator could not be followed')
            okay = False
            continue
        for pos in orders(has_low, has_high):
            for truths in truth_vals(flags):
                tr = {GQ: truths[0], LQ: truths[1]} if flags else {}
                gq, lq = truths
                want = init_exp(pos, gq, lq)
                inits = [(q, 'made') for q, _ in t.made] + [(q, 'refused') for q in t.refused]
                for q, got in inits:
                    if not feasible(S, q, pos, tr):
                        continue
                    n += 1
                    if got != want:
                        okay = False
                        m = 'these bounds are ' + ('refused' if got == 'refused' else 'accepted') + f' ({text(pos)}' + \
                            (f', lower inclusive {gq}, upper inclusive {lq}' if flags or lq is not None else '') + ')'
                        ctx.check(None if odd_facts(S, q, pos, tr) else False, R, label, m, q.sig.node or t.node, q)
                        break
                    if got == 'refused':
                        err = exception(q.sig.val)[0]
                        if not (err.op == 'glob' and err.a[0] == 'builtins.ValueError'):
                            okay = False
                            ctx.check(None if murky(err) else False, R, label, f'contradictory bounds raise {show(err)}', q.sig.node, q)
                if want == 'refused':
                    continue
                for q, rs in t.made:
                    if not feasible(S, q, pos, tr):
                        continue
                    for v in positions(pos):
                        pv = dict(pos)
                        pv[V] = v
                        w = exp(pos, v, gq, lq)
                        if w is None:
                            continue
                        hit = False
                        for r in rs:
                            if not feasible(S, r, pv, tr):
                                continue
                            hit = True
                            n += 1
                            o = observe(r)
                            if o not in w:
                                okay = False
                                ctx.check(None if o is None or odd_facts(S, r, pv, tr) else False, R, label,
                                          f'with {text(pv)}' + (f', lower inclusive {gq}, upper inclusive {lq}' if lq is not None else '')
                                          + f' the value is {o}, expected {" or ".join(sorted(w))}', r.sig.node or t.node, r)
                                break
                        if not hit:
                            ctx.undec(R, label, f'no path for {text(pv)}')
                            okay = False
                        if not okay:
                            break
                    if not okay:
                        break
                if not okay:
                    break
            if not okay:
                break
        ctx.valuations += n
        if okay:
            ctx.ok(R, label, f'{len(t.paths())} paths agree with the property in every order of value and bounds')


def low_ok(pos, v, incl, b):
    if b not in pos:
        return True
    r, non = v if isinstance(v, tuple) else (v, ())
    if b in non:
        return False
    if b is GE:
        return r >= pos[b] if incl else r > pos[b]
    return r <= pos[b] if incl else r < pos[b]


@rule('C25', 'within', 'a range validator accepts exactly the values above the lower and below the upper bound, inclusive as'
                       ' configured, and contradictory bounds are refused')
def r_within(ctx):
    variants = []
    for a, k, lo, hi in bounds_variants('ge', 'lt'):
        if not a or len(a) == 2:
            variants.append((a, k + [('g_eq', GQ), ('l_eq', LQ)], lo, hi, True))
        variants.append((a, k, lo, hi, False))
    variants.append(([GE, LE, GQ, LQ], [], True, True, True))

    def init_exp(pos, gq, lq):
        if len(pos) < 2 or pos[LE] > pos[GE]:
            return 'made'
        return 'made' if pos[LE] == pos[GE] and gq and lq else 'refused'

    def exp(pos, v, gq, lq):
        return {'accepted'} if low_ok(pos, v, gq, GE) and low_ok(pos, v, lq, LE) else {'refused'}

    def observe(r):
        if r.raises:
            return 'refused' if not raised_call(r) else None
        return 'accepted' if unver(r.value) is V else None if murky(r.value) else f'returned as {show(r.value)}'
    run_table(ctx, 'within', 'Within', variants,
              lambda flags: [(a, b) for a in (True, False) for b in (True, False)] if flags else [(True, False)],
              init_exp, exp, observe)


def raised_call(p):
    return any(k.op == 'raises' and v is True for k, v in p.facts.items())


@rule('C25', 'clamp', 'a clamp returns a value inside its bounds as it is and otherwise the nearest bound, and refuses'
                      ' contradictory bounds')
def r_clamp(ctx):
    variants = [v + (False,) for v in bounds_variants('ge', 'le')]

    def init_exp(pos, gq, lq):
        return 'refused' if len(pos) == 2 and pos[LE] < pos[GE] else 'made'

    def exp(pos, v, gq, lq):
        if isinstance(v, tuple):
            return None              # which bound is the nearest to a value that cannot be compared is not defined
        if low_ok(pos, v, True, GE) and low_ok(pos, v, True, LE):
            # a bound the value is equal to is as good as the value
            return {'returned'} | {n for n, b in (('the lower bound', GE), ('the upper bound', LE)) if pos.get(b) == v}
        r = set()
        if not low_ok(pos, v, True, GE):
            r.add('the lower bound')
        if not low_ok(pos, v, True, LE):
            r.add('the upper bound')
        if len(pos) == 2 and pos[LE] == pos[GE]:
            r = {'the lower bound', 'the upper bound'}
        return r

    def observe(r):
        if r.raises:
            return 'refused'
        x = unver(r.value)
        return {V: 'returned', GE: 'the lower bound', LE: 'the upper bound'}.get(x, None if murky(x) else f'replaced by {show(x)}')
    run_table(ctx, 'clamp', 'Clamp', variants, lambda flags: [(True, None)], init_exp, exp, observe)


# -- C26 ----------------------------------------------------------------------------------------------------------------
ERR, WARN, FUNC, PAT = sym('ERR'), sym('WARN'), sym('FUNC'), sym('PAT')


def channel(p):
    """the warnings a path issues: [(channel, error term)]"""
    out = []
    for e in p.events:
        if e.kind != 'call':
            continue
        f, args = e.a[0], e.a[1]
        if f is G('warnings.warn'):
            out.append(('warnings', args[0] if args else None))
        elif is_attr(f, 'warning') and unver(f.a[0]) is WARN:
            out.append(('logger', args[0] if args else None))
        elif is_attr(f) and unver(f.a[0]) is WARN:
            out.append(('other use of the logger', args[0] if args else None))
    return out


def the_error(t, cls):
    """is t the configured error: ERR itself, or cls(ERR)"""
    t = unver(t)
    if t is ERR:
        return 'itself'
    if is_call(t) and t.a[0] is G('builtins.' + cls) and len(t.a[1]) == 1 and unver(t.a[1][0]) is ERR and not t.a[2]:
        return 'wrapped'
    return None if murky(t) else 'other'


def check_assert(ctx, R, name, args, cond, label):
    """the whole decision table of an assertion validator whose condition is the term `cond`"""
    t = tok(ctx, R, name, args=args, kws=[('err', ERR), ('warn', WARN)])
    if t is None:
        return
    if t.refused:
        for q in t.refused:
            if not raised_call(q):
                ctx.check(None if any(murky(k) for k in q.facts) else False, R, label, 'the validator is refused', q.sig.node, q)
    isexc = T('isinstance', ERR, G('builtins.Exception'))
    wtrue, wis = T('truthy', WARN), mk_is(WARN, K(True))

    def outcome(p):
        ch = channel(p)
        if p.returns:
            if unver(p.value) is not V:
                return None if murky(p.value) else f'returns {show(p.value)}'
            if not ch:
                return 'returned'
            if len(ch) > 1:
                return 'warned twice'
            how = the_error(ch[0][1], 'UserWarning') if ch[0][1] is not None else 'other'
            return how and f'warned through {ch[0][0]} with the error {how}'
        if raised_call(p):
            return 'own error'
        if ch:
            return 'warned and raised'
        how = the_error(p.sig.val, 'ValueError')
        return how and f'raised the error {how}'

    def table(v):
        if v['condition']:
            return {'returned'}
        form = ['itself'] if v['an exception'] else ['wrapped']
        if v['warn']:
            ch = 'warnings' if v['warn is True'] else 'logger'
            # warning with a text and with a UserWarning of that text is the same
            return {f'warned through {ch} with the error {f}' for f in ('itself', 'wrapped') if f == 'itself' or not v['an exception']}
        return {f'raised the error {f}' for f in form}
    paths = [p for p in t.paths() if outcome(p) != 'own error']
    ctx.decide(R, label, paths, [('condition', cond), ('warn', wtrue), ('warn is True', wis), ('an exception', isexc)],
               table, outcome, t.node)


@rule('C26', 'call', 'an assertion returns the very value if the function says so, and otherwise raises or warns as configured')
def r_call(ctx):
    check_assert(ctx, 'call', 'AssertCallValidation', [FUNC], T('truthy', C(FUNC, V)), 'AssertCallValidation')


@rule('C26', 'truth', 'a truth assertion tests the truth of the value')
def r_truth(ctx):
    check_assert(ctx, 'truth', 'Truth', [], T('truthy', V), 'Truth')


@rule('C26', 'pattern', 'a pattern assertion demands that the pattern, compiled by the chosen re implementation, matches the'
                        ' whole value')
def r_pattern(ctx):
    t = tok(ctx, 'pattern', 'FullMatch', args=[PAT], kws=[('err', ERR), ('warn', WARN)])
    if t is None:
        return
    # the match object is always true, so a test for truth and one for None are the same
    m = None
    for p in t.paths():
        for k in p.facts:
            x = k.a[0] if k.op == 'truthy' else next((y for y in k.a if is_call(y)), None) if k.op == 'is' else None
            if x is not None and is_call(x) and is_attr(x.a[0], 'fullmatch') and [unver(y) for y in x.a[1]] == [V]:
                c = unver(x.a[0].a[0])
                if is_call(c) and is_attr(c.a[0], 'compile') and show(c.a[0]).endswith('.re.compile') and \
                        [unver(y) for y in c.a[1]] == [PAT] and not c.a[2] and not x.a[2]:
                    m = k
    if m is None:
        murk = any(murky(k) for p in t.paths() for k in p.facts)
        ctx.check(None if murk else False, 'pattern', 'FullMatch', 'no path tests whether the compiled pattern matches the whole value',
                  t.node, t.paths()[0] if t.paths() else None)
        return
    cond = m if m.op == 'truthy' else mk_not(m)
    check_assert(ctx, 'pattern', 'FullMatch', [PAT], cond, 'FullMatch')


@rule('C26', 'bounds', 'a range assertion raises or warns as configured too')
def r_bounds(ctx):
    t = tok(ctx, 'bounds', 'Within', args=[], kws=[('ge', GE), ('lt', LE), ('err', ERR), ('warn', WARN)])
    if t is None:
        return
    S = Sentinels(ctx)
    # a value between the bounds satisfies, one above or below does not
    for r, ok in ((3, True), (1, False), (5, False)):
        pos = {GE: 2, LE: 4, V: r}
        ps = [p for p in t.paths() if feasible(S, p, pos, {})]
        table_bounds(ctx, ps, ok, t)


def table_bounds(ctx, ps, ok, t):
    isexc = T('isinstance', ERR, G('builtins.Exception'))

    def outcome(p):
        ch = channel(p)
        if p.raises:
            return None if murky(p.sig.val) else 'raises' if not ch else 'warns and raises'
        if unver(p.value) is not V:
            return None if murky(p.value) else f'returns {show(p.value)}'
        return 'returned' if not ch else f'warns through {ch[0][0]}' if len(ch) == 1 else 'warns twice'

    def table(v):
        if ok:
            return {'returned'}
        if v['warn']:
            return {'warns through warnings' if v['warn is True'] else 'warns through logger'}
        return {'raises'}
    ctx.decide('bounds', 'Within', ps, [('warn', T('truthy', WARN)), ('warn is True', mk_is(WARN, K(True)))], table, outcome, t.node)


@rule('C26', 'subclass', 'any assertion token, a user\'s own included, returns the value its condition accepts')
def r_subclass(ctx):
    c = ctx.P.cls_named('AssertValidation')
    I = ctx.interp(opaque=[c.qual + '.assert_', 'assert_'])
    st = I.new_state()
    ps = ctx.summ(c, '__call__', args=[O, F], I=I, st=st)
    if ps is None:
        return
    out = []
    for q in ps:
        if q.returns:
            r = ctx.call(I, q.value, [V], [], q.st, ctx.node(c, '__call__'))
            if r is None:
                ctx.undec('subclass', 'AssertValidation', 'the callback could not be followed')
                return
            out += r
    found = [k for p in out for k in p.facts if k.op == 'truthy' and is_call(k.a[0]) and is_attr(k.a[0].a[0], 'assert_')
             and [unver(x) for x in k.a[0].a[1]] == [V]]
    if not found:
        ctx.undec('subclass', 'AssertValidation', 'no test of the condition found')
        return
    cond = found[0]

    def outcome(p):
        if p.raises:
            return 'raised' if not raised_call(p) else 'own error'
        return 'returned' if unver(p.value) is V else None if murky(p.value) else f'returns {show(p.value)}'
    ctx.decide('subclass', 'AssertValidation', [p for p in out if outcome(p) != 'own error'], [('condition', cond)],
               lambda v: {'returned'} if v['condition'] else {'returned', 'raised'}, outcome, ctx.node(c, '__call__'))
