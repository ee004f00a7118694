"""
What tokens do to a filler of each kind (C03, C04, C05, C06).

Like the acceptance rule (accept.py), an annotation of a known kind is followed through its dispatch, the tokens it is given -
in the annotation, or by apply before the filler is bound - the binding and the filling of a value.  The tokens are symbols of
which only the class is known: what a validator or a coercer made from one does is an assumption of the scene, and the trace
of the calls they get is compared with what the field's tokens ask for.
"""
from .accept import *

V1, V2, C1, VC, CW = sym('VALIDATION1'), sym('VALIDATION2'), sym('COERCION1'), sym('VALIDATIONCLASS'), sym('COERCIONCLASS')
VW = sym('WRAPPEDVALIDATION')
FV1, FV2, FC1 = sym('VALIDATOR1'), sym('VALIDATOR2'), sym('COERCER1')
MADE = {V1: FV1, V2: FV2, C1: FC1}
GOOD = sym('COERCED')


class Tokens(Accept):
    """the engine, with knowledge of tokens and of what they make"""

    def __init__(self, prog, kinds, types, equals, subs, does):
        super().__init__(prog, kinds, types, equals, subs)
        self.does, self.trace = does, None
        self.vtok, self.ctok = (T('class', prog.cls_named(n).qual) for n in ('ValidationToken', 'CoercionToken'))
        self.wants = {V1: self.vtok, V2: self.vtok, C1: self.ctok}
        self.classes = {VC: (self.vtok, V1), CW: (self.ctok, C1)}

    def known(self, t):
        return t in self.wants or t in self.classes or t in (FV1, FV2, FC1, GOOD, OWN, VW) or super().known(t)

    def type_of(self, v, st):
        if v in self.wants:
            return self.wants[v]
        if v in self.classes:
            return TYPE
        return super().type_of(v, st)

    def class_test1(self, op, x, c, st):
        cc = canon(c)
        if op == 'isinstance' and x is VW:
            return [(st, K(cc is G('builtins.object')))]
        if op == 'isinstance' and x in self.wants:
            return [(st, K(cc is self.wants[x] or cc is G('builtins.object')))]
        if x in self.classes:
            if op == 'isinstance':
                return [(st, K(cc in (TYPE, G('builtins.object'))))]
            return [(st, K(cc is self.classes[x][0]))]
        if op == 'isinstance' and x.op == 'enum' and cc.op == 'class':
            return [(st, K(cc.a[0] == x.a[0] if isinstance(x.a[0], str) else cc is x.a[0]))]
        return super().class_test1(op, x, c, st)

    def call(self, f, args, kws, st, node):
        if f is G('builtins.callable') and len(args) == 1 and self.known(args[0]) and args[0] not in (A_, B_, O_, S_, GOOD, OWN):
            return [(st, TRUE)]
        if f is G('inspect.unwrap') and len(args) == 1 and not kws and (self.known(args[0]) or is_k(args[0]) or args[0].op == 'enum'):
            return [(st, VC if args[0] is VW else args[0])]
        if f is VW:
            return [(st, V1)]
        if f in self.classes:
            return [(st, self.classes[f][1])]
        if f in MADE:
            return [(st, MADE[f])]
        if f in self.does and len(args) == 1 and not kws:
            st = st.log(self.trace, ('one', f))
            r = self.does[f]
            if r == 'raise':
                return [(st, Sig('raise', C(G('builtins.ValueError'), K('refused')), node=node))]
            return [(st, args[0] if r == 'same' else r)]
        return super().call(f, args, kws, st, node)


def forms(toks):
    """-> (text, tokens of the annotation, tokens applied): the ways tokens come to a filler"""
    r = [('in the annotation', toks, ()), ('applied', (), toks)]
    if len(toks) > 1:
        r.append(('one in the annotation, one applied', toks[:1], toks[1:]))
    return r


def mixed(style):
    return forms((style,)) + [('in the annotation, with a validator applied', (style,), (V1,)),
                              ('applied, with a validator in the annotation', (V1,), (style,))]


def token_kinds():
    for name, want, of, term, kw in kinds():
        if want == 'DumbFiller':
            continue
        swap = {X: INT, Y: STR} if want not in ('TypeFiller', 'LiteralFiller') else {}
        if want == 'LiteralFiller':
            kw = dict(kw, args=(P1, P2, P3))
        kw = dict(kw, args=tuple(swap.get(x, x) for x in kw.get('args', ())))
        base = Kind(name, term if term is not None else HINT, want, **kw)
        org = of if isinstance(of, T) else kw.get('origin') or base.term
        sc = scenes(want, org, kw['args'])
        if sc:
            yield name, want, base, org, sc


def run_scene(ctx, R, label, base, org, s, default, ann, app, does, node):
    """-> (interpreter, [(what happened, path, trace)]) or None; what: 'unbound', 'refused' or 'filled'"""
    equals = {frozenset((VAL, p)) for p in s.equals} | {frozenset(p) for p in s.also}
    types = {P1: A_, P2: A_, P3: B_}
    if s.value is VAL:
        types[VAL] = s.vtype
    elif s.value is X:
        types[X] = TYPE
    good = next((r for r in does.values() if isinstance(r, T)), None)
    if good is GOOD:
        types[GOOD] = org
    elif good is X:
        types[X] = TYPE
    subs = {(S_, A_), (S_, org)} | {(S_, a) for a in base.args}
    ks = [base, Kind('class', sym('USERGENERIC'), None, is_class=True)]
    hint = base.term
    if ann:
        ks.append(Kind('Annotated', sym('ANNOTATED1'), None, annotated=(hint,) + ann))
        hint = ks[-1].term
    I = Tokens(ctx.P, ks, types, equals, subs, does)
    I.style = member(ctx, 'TypeCheckStyle', default)
    out = []

    def end(what, q):
        h = q.st.h(I.trace)
        out.append((what, q, tuple(o[1] for o in h.log)))

    def fill(p, st):
        for q in outcomes(ctx, I, node, [OWN], T('attr', p.value, 'bind'), st):
            if q.raises:
                end('unbound', q)
                continue
            st = q.st
            for f, v in s.facts:
                st = st and st.assume(f, v)
            if st is None:
                continue
            val = s.value
            if not isinstance(val, T):
                st, val = val(I, st)
            for r in outcomes(ctx, I, node, [val], p.value, st):
                r.given = val
                end('refused' if r.raises else 'filled', r)

    def apply(p, st, left):
        if not left:
            fill(p, st)
            return
        for q in outcomes(ctx, I, node, [left[0]], T('attr', p.value, 'apply'), st):
            if q.raises:
                end('unbound', q)
            else:
                apply(p, q.st, left[1:])
    try:
        st, I.trace = I.new_state().alloc('list')
        for p in outcomes(ctx, I, node, [hint], T('fn', id(node), 0), st):
            if p.raises:
                end('unbound', p)
            else:
                apply(p, p.st, app)
    except (Limit, RecursionError) as e:
        ctx.undec(R, label, f'{type(e).__name__}: {e}')
        return None
    return I, out


def decide(ctx, R, label, I, out, good, text, node):
    """one obligation: every outcome has to be good(what, path, trace)"""
    bad = [o for o in out if not good(*o)]
    if not bad:
        ctx.check(bool(out) or None, R, label, text)
        return
    what, p, trace = bad[0]
    if DEBUG:
        for w, q, t in out:
            print(label, w, q.sig, t, q.facts)
    sure = len(bad) == len(out) and not I.unknown and not any(murky(k) for _, q, _ in bad for k in q.facts)
    said = {'unbound': 'the filler cannot be made or bound: ', 'refused': 'the value is refused: ', 'filled': 'the value is stored as '}[what]
    ran = ', '.join(show(t).lower() for t in trace) or 'nothing'
    ctx.check(False if sure else None, R, label, f'instead of "{text}", {said}{show(p.sig.val)[:80]}, and {ran} ran', p.sig.node or node, p)


def start(ctx, R):
    fn = next((q for q in ctx.P.functions if q.endswith('.get_filler') and q.count('.') == 3), None)
    ctx.check(fn is not None or None, R, 'get_filler', 'the dispatch function exists')
    return ctx.P.functions[fn][0] if fn else None


@rule('C04', 'token-validators', 'validator tokens given to a filler of any kind, in the annotation or applied, each run once on an '
                                 'accepted value, in order, and one that raises refuses it')
def r_token_validators(ctx):
    R = 'token-validators'
    node = start(ctx, R)
    if node is None:
        return
    for name, want, base, org, sc in token_kinds():
        s = next((s for s in sc if s.accept is True), None)
        if s is None:
            continue
        for toks, fns in (((V1, V2), (FV1, FV2)), ((VC, V2), (FV1, FV2)), ((VW,), (FV1,))):
            for text, ann, app in forms(toks):
                if toks[0] is VC and (ann and app):
                    continue
                label = f'{name}: {" and ".join(show(t) for t in toks)} {text}'
                r = run_scene(ctx, R, label, base, org, s, 'check', ann, app, {FV1: 'same', FV2: 'same'}, node)
                if r is not None:
                    ok = (lambda w, p, t: w == 'filled' and (t == fns or bool(ann and app) and t == fns[::-1]))
                    decide(ctx, R, label, r[0], r[1], ok, 'every validator runs once, in order, and the value is stored', node)
        for text, ann, app in forms((V1,)):
            label = f'{name}: a validator that raises, {text}'
            r = run_scene(ctx, R, label, base, org, s, 'check', ann, app, {FV1: 'raise'}, node)
            if r is not None:
                decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'refused' and FV1 in t, 'the validator refuses the value', node)
            if name.startswith(('Union[a, Any]', 'Optional')) or want == 'GenericFillerN':
                continue
            label = f'{name}: a validator on a field without checks, {text}'
            r = run_scene(ctx, R, label, base, org, s, 'hollow', ann, app, {FV1: 'raise'}, node)
            if r is not None:
                decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'unbound' or w == 'refused' and FV1 in t,
                       'the validator refuses the value, or the field is refused', node)


@rule('C09', 'alternative-tokens', 'every alternative of a union gets every token of the field, from the annotation and applied')
def r_alternative_tokens(ctx):
    R = 'alternative-tokens'
    node = start(ctx, R)
    if node is None:
        return
    for name, want, base, org, sc in token_kinds():
        if want != 'UnionFiller':
            continue
        for s in sc:
            if s.accept is not True:
                continue
            for text, ann, app in forms((V1, V2)):
                label = f'{name}: two validators {text}, {s.text}'
                r = run_scene(ctx, R, label, base, org, s, 'check', ann, app, {FV1: 'same', FV2: 'same'}, node)
                if r is not None:
                    decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'filled' and len(t) == 2 and set(t) == {FV1, FV2},
                           'the alternative runs every validator once', node)
            for text, ann, app in mixed(member(ctx, 'TypeCheckStyle', 'check')):
                no = next(x for x in sc if x.accept is False and x.vtype is O_)
                label = f'{name}: the checking style {text}, {no.text}'
                r = run_scene(ctx, R, label, base, org, no, 'hollow', ann, app, {FV1: 'same'}, node)
                if r is not None:
                    decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'refused', 'every alternative refuses the value', node)


@rule('C28', 'acceptance-validated', 'a validator that returns what it gets does not change which values a checked annotation accepts')
def r_acceptance_validated(ctx):
    validated(ctx, 'acceptance-validated', [FV1], 'same')


@rule('C02', 'acceptance-validated', 'a value that a checked annotation refuses is also refused when the field has validators')
def r_refused_validated(ctx):
    validated(ctx, 'acceptance-validated', [FV1], 'same', only=False)


def validated(ctx, R, fns, does, only=None):
    node = start(ctx, R)
    if node is None:
        return
    for name, want, base, org, sc in token_kinds():
        for s in sc:
            for style in s.styles:
                ok = s.accept is True or s.accept == style
                if style == 'check_strict' and org.op != 'glob' or only is not None and ok != only:
                    continue
                for text, ann, app in forms((V1,)):
                    label = f'{name} ({style}), a validator {text}: {s.text}'
                    r = run_scene(ctx, R, label, base, org, s, style, ann, app, {f: does for f in fns}, node)
                    if r is not None and any(w != 'unbound' for w, _, _ in r[1]):
                        out = [o for o in r[1] if o[0] != 'unbound']
                        decide(ctx, R, label, r[0], out, lambda w, p, t: w == ('filled' if ok else 'refused'),
                               'the value is accepted' if ok else 'the value is refused', node)


@rule('C05', 'token-styles', 'a style token given to a filler of any kind, in the annotation or applied, replaces the default style')
def r_token_styles(ctx):
    token_styles(ctx, 'token-styles', True)


@rule('C06', 'token-styles', 'a checking style given to a filler of any kind, in the annotation or applied, is enforced or refused')
def r_token_styles_enforced(ctx):
    token_styles(ctx, 'token-styles', False)


def token_styles(ctx, R, both):
    node = start(ctx, R)
    if node is None:
        return
    for name, want, base, org, sc in token_kinds():
        no = next((s for s in sc if s.accept is False and s.value is VAL and s.vtype is O_), None)
        yes = next((s for s in sc if s.accept is True), None)
        check, strict, hollow = (member(ctx, 'TypeCheckStyle', n) for n in ('check', 'check_strict', 'hollow'))
        for text, ann, app in mixed(check):
            if no is not None:
                label = f'{name}: the checking style {text}, {no.text}'
                r = run_scene(ctx, R, label, base, org, no, 'hollow', ann, app, {FV1: 'same'}, node)
                if r is not None:
                    decide(ctx, R, label, r[0], r[1], lambda w, p, t: w in ('unbound', 'refused'), 'the value is refused', node)
            if yes is not None and both and name not in ('Union[a, b]', 'Optional[TypeVar]', 'Union[a, Any]'):
                label = f'{name}: the checking style {text}, {yes.text}'
                r = run_scene(ctx, R, label, base, org, yes, 'hollow', ann, app, {FV1: 'same'}, node)
                if r is not None:
                    decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'filled', 'the value is stored', node)
        if not both or no is None:
            continue
        for text, ann, app in mixed(hollow):
            label = f'{name}: the hollow style {text}, {no.text}'
            r = run_scene(ctx, R, label, base, org, no, 'check', ann, app, {FV1: 'same'}, node)
            if r is not None:
                decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'unbound' or w == 'filled' and p.value is p.given,
                       'the value is stored as it is', node)


@rule('C06', 'late-tokens', 'a token given to a filler of any kind that is bound already is refused')
def r_late(ctx):
    R = 'late-tokens'
    node = start(ctx, R)
    if node is None:
        return
    check = member(ctx, 'TypeCheckStyle', 'check')
    for name, want, base, org, sc in token_kinds():
        for tok in (V1, C1, check):
            label = f'{name}: {show(tok)}'
            I = Tokens(ctx.P, [base, Kind('class', sym('USERGENERIC'), None, is_class=True)], {}, set(), set(), {})
            I.style = member(ctx, 'TypeCheckStyle', 'check')
            out = []
            try:
                st, I.trace = I.new_state().alloc('list')
                for p in outcomes(ctx, I, node, [base.term], T('fn', id(node), 0), st):
                    for q in outcomes(ctx, I, node, [OWN], T('attr', p.value, 'bind'), p.st) if not p.raises else ():
                        for r in outcomes(ctx, I, node, [tok], T('attr', p.value, 'apply'), q.st) if not q.raises else ():
                            out.append(('refused' if r.raises else 'filled', r, ()))
            except (Limit, RecursionError) as e:
                ctx.undec(R, label, f'{type(e).__name__}: {e}')
                continue
            if out:
                decide(ctx, R, label, I, out, lambda w, p, t: w == 'refused', 'the token is refused', node)


@rule('C03', 'token-coercers', 'a coercer token given to a filler of any kind, in the annotation or applied, coerces a value that '
                               'fails the check, and only such a value')
def r_token_coercers(ctx):
    R = 'token-coercers'
    node = start(ctx, R)
    if node is None:
        return
    for name, want, base, org, sc in token_kinds():
        no = next((s for s in sc if s.accept is False and s.value is VAL and s.vtype is O_), None)
        yes = next((s for s in sc if s.accept is True and s.value is VAL), None)
        results = {'UnionFiller': (K(1),) if base.args == (INT, STR) else (), 'CallableFiller': (), 'TypeFiller': (X,),
                   'NoneFiller': (NONE,), 'EllipsisFiller': (K(...),), 'BoolFiller': (TRUE,), 'LiteralFiller': (P1,),
                   'TupleFiller': (T('tuple', (K(1), K('a'))),) if base.args == (INT, STR) else ()}.get(want, (GOOD,))
        for tok in (C1, CW):
            for text, ann, app in forms((tok,)):
                if yes is not None:
                    label = f'{name}: {show(tok)} {text}, {yes.text}'
                    r = run_scene(ctx, R, label, base, org, yes, 'check', ann, app, {FC1: 'raise'}, node)
                    if r is not None:
                        decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'filled' and t == (), 'the value is stored, not coerced', node)
                if no is not None:
                    label = f'{name}: {show(tok)} {text}, {no.text}, the coercer fails'
                    r = run_scene(ctx, R, label, base, org, no, 'check', ann, app, {FC1: 'raise'}, node)
                    if r is not None:
                        decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'refused' and FC1 in t, 'the coercer is tried, and the value refused', node)
                    label = f'{name}: {show(tok)} {text}, {no.text}, the coercer returns it'
                    r = run_scene(ctx, R, label, base, org, no, 'check', ann, app, {FC1: 'same'}, node)
                    if r is not None:
                        decide(ctx, R, label, r[0], r[1], lambda w, p, t: w == 'refused' and FC1 in t, 'the coercer is tried, and the value refused', node)
                for g in results if no is not None else ():
                    label = f'{name}: {show(tok)} {text}, {no.text}, the coercer succeeds'
                    r = run_scene(ctx, R, label, base, org, no, 'check', ann, app, {FC1: g}, node)
                    fails = g is GOOD and want not in ('SimpleFiller', 'BoolFiller')    # its elements are not known
                    runs = ((FC1,),) if want != 'UnionFiller' else ((FC1,), (FC1, FC1))
                    if r is not None:
                        decide(ctx, R, label, r[0], r[1], lambda w, p, t: t in runs and (
                            fails or w == 'filled' and unver(p.value) is g), 'the coercer runs once, and its result is stored', node)
