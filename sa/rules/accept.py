"""
Which values a checked annotation accepts (C28).

get_filler is followed on an annotation of a known kind, its filler is bound with a checking style, and called on a value of
which only its type, and its relation to the values the annotation names, are known.  What comes out - the value or an
error - is compared with what the annotation denotes.  Nothing in between is prescribed.
"""
import math
import operator

from .dispatch import *
from .fill import member

DEBUG = False
OWN, VAL = sym('OWNER'), sym('VALUE')
P1, P2, P3 = sym('P1'), sym('P2'), sym('P3')
A_, B_, O_, S_ = sym('CLASSA'), sym('CLASSB'), sym('OTHERCLASS'), sym('SUBCLASSA')
BASE = sym('BASE')


class Scene:
    """what is known of the value: its type, the named values it equals, and truths about it"""

    def __init__(self, text, vtype, accept, equals=(), facts=(), value=VAL, styles=('check', 'check_strict'), also=()):
        self.text, self.vtype, self.accept, self.equals, self.facts = text, vtype, accept, equals, facts
        self.value, self.styles, self.also = value, styles, also


ORDER = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge, 'Eq': operator.eq, 'NotEq': operator.ne}


def number(t):
    """the number a term stands for, if it is known"""
    if is_k(t) and isinstance(kval(t), (int, float)) and not isinstance(kval(t), bool):
        return kval(t)
    if t.op == 'enum' and len(t.a) > 2 and isinstance(t.a[2], int):
        return t.a[2]
    if t is G('math.inf'):
        return math.inf
    if t.op == 'call' and t.a[0] is G('builtins.float') and len(t.a[1]) == 1 and is_k(t.a[1][0]) and not t.a[2]:
        try:
            return float(kval(t.a[1][0]))
        except (TypeError, ValueError):
            return None
    if t.op == 'un' and t.a[0] == '-' and number(t.a[1]) is not None:
        return -number(t.a[1])
    return None


class Accept(Dispatch):
    """the engine, following an annotation from its dispatch to the filling of a value"""

    def __init__(self, prog, kinds, types, equals, subs):
        super().__init__(prog, kinds)
        self.types, self.equals, self.subs, self.factory = types, equals, subs, {}
        self.filler = None
        root = prog.cls_named('Filler')
        self.inline_attrs = [c.qual for c in prog.classes.values() if c.is_sub(root)]

    def known(self, t):
        return t in (A_, B_, O_, S_, BASE) or super().known(t)

    def call_attr(self, f, args, kws, st, node):
        if f is T('attr', OWN, 'default_type_check_style'):
            return [(st, self.style)]
        return super().call_attr(f, args, kws, st, node)

    def type_of(self, v, st):
        return self.types.get(v) or canon(super().type_of(v, st))

    def eq_term(self, l, r, st):
        if l in self.types and r in self.types:
            return K(l is r or frozenset((l, r)) in self.equals)
        return super().eq_term(l, r, st)

    def is_term(self, l, r, st):
        if l in self.types and r in self.types and l is not r and frozenset((l, r)) not in self.equals:
            return FALSE
        if l in self.types and is_k(r) or r in self.types and is_k(l):
            return FALSE
        return super().is_term(l, r, st)

    def same(self, a, b):
        if a in self.types and b in self.types:
            return a is b or frozenset((a, b)) in self.equals
        return super().same(a, b)

    def class_test(self, op, x, c, st, node):
        if c.op != 'tuple':
            its = self.static_items(c, st)
            if its is not None:
                c = T('tuple', its)
        return super().class_test(op, x, c, st, node)

    def class_test1(self, op, x, c, st):
        if op == 'isinstance' and x in self.types:
            x, op = self.types[x], 'issubclass'
        elif op == 'isinstance' and (is_k(x) or x.op == 'tuple' or st.h(x) is not None and st.h(x).kind in ('list', 'set', 'dict')):
            x, op = self.type_of(x, st), 'issubclass'
        if op == 'issubclass':
            xx, cc = canon(x), canon(c)
            if cc is G('builtins.object') or xx is cc and xx.op != 'call':
                return [(st, TRUE)]
            if real(xx) is not None and cc.op == 'class':
                return [(st, FALSE)]
            known = (A_, B_, O_, S_)
            if xx in known and (cc in known or cc in self.kinds or self.fixed(cc)) or \
                    (cc in known or cc in self.kinds and self.kinds[cc].is_class) and (self.fixed(xx) or xx in self.kinds):
                return [(st, K((xx, cc) in self.subs))]
        return super().class_test1(op, x, c, st)

    def compare_r(self, op, l, r, st, node=None):
        n = type(op).__name__ if not isinstance(op, str) else op
        a, b = number(l), number(r)
        if a is not None and b is not None and n in ORDER:
            return [(st, K(ORDER[n](a, b)))]
        return super().compare_r(op, l, r, st, node)

    # -- dictionaries made along the way
    def b_collections_defaultdict(self, args, kws, st, node):
        r = super().b_collections_defaultdict(args, kws, st, node)
        if r is not None:
            for _, o in r:
                self.factory[o] = args[0]
        return r

    def get_item(self, b, k, st, node):
        h = st.h(b)
        if h is not None and h.kind in ('dict', 'defaultdict') and self.heap_get(h, k) == 'absent':
            if h.kind == 'dict' or b not in self.factory:
                return [(st, Sig('raise', C(G('builtins.KeyError'), k), node=node))]
            return [(x, v) if isinstance(v, Sig) else (x.log(b, ('set', k, v)), v)
                    for x, v in self.call(self.factory[b], [], [], st, node)]
        return super().get_item(b, k, st, node)

    def among(self, x, xs):
        ss = [self.same(x, y) for y in xs]
        return True if True in ss else None if None in ss else False

    def dict_pairs(self, v, st):
        h = st.h(v)
        if h is None or h.kind not in ('dict', 'defaultdict') or any(o[0] != 'set' for o in h.log):
            return None
        out = {}
        for o in h.log:
            for k in out:
                s = self.same(k, o[1])
                if s is None:
                    return None
                if s:
                    out[k] = o[2]
                    break
            else:
                out[o[1]] = o[2]
        return list(out.items())

    def static_items(self, v, st):
        if v.op == 'ver':
            b = unver(v)
            return self.static_items(b, st) if st.versioned(b) is v else None
        if v.op == 'bin' and v.a[0] in ('|', '&', '-') and len(v.a) == 3:
            a, b = self.static_items(v.a[1], st), self.static_items(v.a[2], st)
            if a is None or b is None:
                return None
            ins = [self.among(x, a) for x in b] if v.a[0] == '|' else [self.among(x, b) for x in a]
            if None in ins:
                return None
            if v.a[0] == '|':
                return tuple(a) + tuple(x for x, i in zip(b, ins) if not i)
            return tuple(x for x, i in zip(a, ins) if i == (v.a[0] == '&'))
        if v.op == 'seqt':
            out = []
            for o in v.a[0]:
                its = (o[1],) if o[0] == 'one' else self.static_items(o[1], st) if o[0] == 'ext' else None
                if its is None:
                    return None
                out.extend(its)
            return tuple(out)
        kind, d = (v.op, v.a[0]) if v.op in ('items', 'keys', 'values') else ('keys', v)
        ps = self.dict_pairs(d, st)
        if ps is not None:
            return tuple(T('tuple', p) if kind == 'items' else p[kind == 'values'] for p in ps)
        h = st.h(v)
        if h is not None and h.kind == 'set' and all(o[0] == 'one' for o in h.log):
            out = []
            for o in h.log:
                ss = [self.same(x, o[1]) for x in out]
                if True in ss:
                    continue
                if None in ss:
                    return None
                out.append(o[1])
            return tuple(out)
        return super().static_items(v, st)


INT, STR, BOOL, TYPE, TUP, LIST, DICT = (G('builtins.' + n) for n in ('int', 'str', 'bool', 'type', 'tuple', 'list', 'dict'))


def mk(kind, *items):
    """a builder of a fresh list, set or dictionary, or of a tuple"""
    def build(I, st):
        if kind == 'tuple':
            return st, T('tuple', tuple(items))
        return st.alloc(kind, tuple(('set',) + i if kind == 'dict' else ('one', i) for i in items))
    return build


def scenes(want, of, args):
    """the values to try on an annotation of this kind"""
    one, a = K(1), K('a')
    if want == 'LiteralFiller':
        return [
            Scene('a value equal to the first literal, of its type', A_, True, [P1]),
            Scene('a value equal to the second literal, of its type', A_, True, [P2]),
            Scene('a value equal to the third literal, of its type', B_, True, [P3]),
            Scene('a value equal to two literals of different types, of the type of the last', B_, True, [P1, P3],
                  also=[(P1, P3)]),
            Scene('a value equal to two literals of different types, of the type of the first', A_, True, [P1, P3],
                  also=[(P1, P3)]),
            Scene('a value equal to no literal, of the type of one', A_, False),
            Scene('a value equal to a literal, of the type of another literal only', B_, False, [P1]),
            Scene('a value equal to a literal, of another type', O_, False, [P1]),
            Scene('a value equal to a literal, of a subclass of its type', S_, False, [P1]),
            Scene('a value of another type', O_, False),
        ]
    if want == 'NoneFiller':
        return [Scene('None', None, True, value=NONE), Scene('a value that is not None', O_, False),
                Scene('false', None, False, value=FALSE), Scene('...', None, False, value=K(...))]
    if want == 'EllipsisFiller':
        return [Scene('...', None, True, value=K(...)), Scene('a value that is not ...', O_, False),
                Scene('None', None, False, value=NONE)]
    if want == 'CallableFiller':
        return [Scene('a callable', O_, True, facts=[(T('callable', VAL), True)]),
                Scene('an object that cannot be called', O_, False, facts=[(T('callable', VAL), False)]),
                Scene('None', None, False, value=NONE, facts=[(T('callable', NONE), False)])]
    if want == 'TypeFiller':
        sub, sup = T('issubclass', VAL, X), T('issubclass', X, VAL)
        return [Scene('a subclass of the base', TYPE, True, facts=[(sub, True), (sup, False)]),
                Scene('the base itself', None, True, value=X),
                Scene('a class that is no subclass of the base', TYPE, False, facts=[(sub, False), (sup, False)]),
                Scene('a superclass of the base', TYPE, False, facts=[(sub, False), (sup, True)]),
                Scene('an object that is no class', O_, False),
                Scene('None', None, False, value=NONE)]
    if want in ('SimpleFiller', 'BoolFiller'):
        if of is G('builtins.object'):
            return [Scene('a plain object', of, True), Scene('an object of any class', O_, 'check'),
                    Scene('None', None, 'check', value=NONE)]
        r = [Scene('an instance of exactly the type', of, True), Scene('an instance of another type', O_, False)]
        if of is not BOOL:
            r.append(Scene('an instance of a subclass', S_, 'check'))
        if of is INT:
            r += [Scene('a bool', None, 'check', value=TRUE), Scene('a string', None, False, value=a)]
        if of is BOOL:
            r += [Scene('true', None, True, value=TRUE), Scene('1', None, False, value=one)]
        if of is not NONETYPE:
            r.append(Scene('None', None, False, value=NONE))
        return r
    if want == 'UnionFiller' and args == (INT, STR):
        return [Scene('an integer', None, True, value=one), Scene('a string', None, True, value=a),
                Scene('a bool', None, 'check', value=TRUE), Scene('None', None, False, value=NONE),
                Scene('an instance of another type', O_, False), Scene('an instance of a subclass of one of them', S_, 'check')]
    if want == 'TupleFiller' and args == (INT, STR):
        return [Scene('a tuple of the two types', TUP, True, value=mk('tuple', one, a)),
                Scene('a tuple of the types the wrong way round', TUP, False, value=mk('tuple', a, one)),
                Scene('a tuple whose second element is of a wrong type', TUP, False, value=mk('tuple', one, one)),
                Scene('a tuple whose first element is of a wrong type', TUP, False, value=mk('tuple', a, a)),
                Scene('a tuple with a subclass element', TUP, 'check', value=mk('tuple', TRUE, a)),
                Scene('a tuple that is too short', TUP, False, value=mk('tuple', one)),
                Scene('a tuple that is too long', TUP, False, value=mk('tuple', one, a, a)),
                Scene('the empty tuple', TUP, False, value=mk('tuple')),
                Scene('a list', LIST, False, value=mk('list', one, a)),
                Scene('an instance of another type', O_, False)]
    if want == 'TupleFiller' and args == (INT, K(...)):
        return [Scene('a tuple of the type', TUP, True, value=mk('tuple', one, K(2), K(3))),
                Scene('the empty tuple', TUP, True, value=mk('tuple')),
                Scene('a tuple whose first element is wrong', TUP, False, value=mk('tuple', a, one)),
                Scene('a tuple whose last element is wrong', TUP, False, value=mk('tuple', one, one, a)),
                Scene('a tuple whose middle element is wrong', TUP, False, value=mk('tuple', one, a, one)),
                Scene('a tuple with an ellipsis', TUP, False, value=mk('tuple', one, K(...))),
                Scene('a list', LIST, False, value=mk('list', one)),
                Scene('an instance of another type', O_, False)]
    if want == 'TupleFiller' and args == ():
        return [Scene('the empty tuple', TUP, True, value=mk('tuple')),
                Scene('a tuple of one element', TUP, False, value=mk('tuple', one)),
                Scene('an instance of another type', O_, False)]
    if want == 'GenericIterableFiller' and args == (INT,):
        r = [Scene('an instance of another type', O_, False), Scene('None', None, False, value=NONE)]
        kind = {'builtins.list': 'list', 'builtins.set': 'set'}.get(of.a[0])
        if kind:
            r += [Scene('elements of the type', of, True, value=mk(kind, one, K(2), K(3))),
                  Scene('no elements', of, True, value=mk(kind)),
                  Scene('the first element is wrong', of, False, value=mk(kind, a, one)),
                  Scene('the last element is wrong', of, False, value=mk(kind, one, K(2), a)),
                  Scene('an element of a subclass', of, 'check', value=mk(kind, K(2), TRUE)),
                  Scene('elements of the type in a tuple', TUP, False, value=mk('tuple', one))]
        return r
    if want == 'GenericMappingFiller' and args == (INT, STR):
        r = [Scene('an instance of another type', O_, False), Scene('None', None, False, value=NONE)]
        if of is DICT:
            r += [Scene('keys and values of the types', of, True, value=mk('dict', (one, a), (K(2), K('b')))),
                  Scene('no keys', of, True, value=mk('dict')),
                  Scene('keys and values the wrong way round', of, False, value=mk('dict', (a, one))),
                  Scene('the last value is wrong', of, False, value=mk('dict', (one, a), (K(2), K(3)))),
                  Scene('the last key is wrong', of, False, value=mk('dict', (one, a), (a, a))),
                  Scene('a list', LIST, False, value=mk('list', one))]
        return r
    return None


@rule('C28', 'acceptance', 'a value is accepted by a checked annotation of each kind exactly if it is what the annotation denotes')
def r_acceptance(ctx):
    R = 'acceptance'
    fn = next((q for q in ctx.P.functions if q.endswith('.get_filler') and q.count('.') == 3), None)
    ctx.check(fn is not None or None, R, 'get_filler', 'the dispatch function exists')
    if fn is None:
        return
    node = ctx.P.functions[fn][0]
    for name, want, of, term, kw in kinds():
        swap = {X: INT, Y: STR} if want not in ('TypeFiller', 'LiteralFiller') else {}
        if want == 'LiteralFiller':
            kw = dict(kw, args=(P1, P2, P3))
        kw = dict(kw, args=tuple(swap.get(x, x) for x in kw.get('args', ())))
        base = Kind(name, term if term is not None else HINT, want, **kw)
        org = of if isinstance(of, T) else kw.get('origin') or base.term
        sc = scenes(want, org, kw['args'])
        for s in sc or ():
            for style in s.styles:
                try_scene(ctx, R, name, base, org, s, style, node)


def try_scene(ctx, R, name, base, org, s, style, node):
    label = f'{name} ({style}): {s.text}'
    equals = {frozenset((VAL, p)) for p in s.equals} | {frozenset(p) for p in s.also}
    types = {P1: A_, P2: A_, P3: B_}
    if s.value is VAL:
        types[VAL] = s.vtype
    elif s.value is X:
        types[X] = TYPE
    subs = {(S_, A_), (S_, org)} | {(S_, a) for a in base.args}
    I = Accept(ctx.P, [base, Kind('class', sym('USERGENERIC'), None, is_class=True)], types, equals, subs)
    I.style = member(ctx, 'TypeCheckStyle', style)
    want = s.accept is True or s.accept == style
    n = 0
    try:
        for p in outcomes(ctx, I, node, [base.term], T('fn', id(node), 0), I.new_state()):
            if p.raises:
                continue           # judged by the dispatch rule
            for q in outcomes(ctx, I, node, [OWN], T('attr', p.value, 'bind'), p.st):
                if q.raises:
                    continue
                st = q.st
                for f, v in s.facts:
                    st = st and st.assume(f, v)
                if st is None:
                    continue
                val = s.value
                if not isinstance(val, T):
                    st, val = val(I, st)
                n += 1
                judge_value(ctx, R, label, I, outcomes(ctx, I, node, [val], p.value, st), want, node)
    except (Limit, RecursionError) as e:
        ctx.undec(R, label, f'{type(e).__name__}: {e}')
        return
    if not n and not (style == 'check_strict' and org.op != 'glob'):
        ctx.undec(R, label, 'no filler is made and bound')


def outcomes(ctx, I, node, args, f, st):
    fs = I.get_attr(f.a[0], f.a[1], st, node) if f.op == 'attr' else [(st, f)]
    ps = [Path(s, v if isinstance(v, Sig) else Sig('return', v)) for x, g in fs for s, v in
          ([(x, g)] if isinstance(g, Sig) else I.call(g, args, [], x, node))]
    ctx.note(I, ps)
    return ps


def judge_value(ctx, R, label, I, ps, want, node):
    good = [p for p in ps if p.returns == want and (p.returns or p.raises)]
    bad = [p for p in ps if p not in good]
    if not bad:
        ctx.check(bool(ps) or None, R, label, 'accepted' if want else 'refused')
        return
    p = bad[0]
    if DEBUG:
        for q in ps:
            print(q.sig, q.facts)
    sure = not good and not I.unknown and not any(murky(k) for q in bad for k in q.facts)
    msg = f'is refused: {show(p.sig.val)[:120]}' if want else f'is accepted, as {show(p.sig.val)[:80]}'
    ctx.check(False if sure else None, R, label, f'{s_text(label)} {msg}', p.sig.node or node, p)


def s_text(label):
    return label.split(': ', 1)[1]
