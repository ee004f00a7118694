"""
Which filler an annotation gets (C28).

The dispatch is analysed for every kind of annotation: an annotation is a symbol of which only its kind is known (its origin,
its arguments, whether it is a class, ...), and get_filler is followed on it, through the contents of the registries (see
registry.py), until it makes a filler.  The filler made has to be one that enforces annotations of that kind, for the right
type and with the annotation's tokens.
"""
import importlib

from .base import *
from .. import registry

TOKS = (sym('TOKEN1'), sym('TOKEN2'))
X, Y, TV = sym('PARAM1'), sym('PARAM2'), sym('TYPEVAR')
ANN = ('__supertype__', '__origin__', '__args__', '__metadata__')
NONETYPE, ELLTYPE = G('types.NoneType'), G('types.EllipsisType')
STDLIB = {'builtins', 'collections', 'typing', 'contextlib', 'types', 'numbers', 'abc', 'enum', 'functools', 'decimal'}


def canon(t):
    """one term for one object"""
    if t.op == 'typeof' and is_k(t.a[0], None):
        return NONETYPE
    if t.op == 'typeof' and (is_k(t.a[0]) and kval(t.a[0]) is ... or t.a[0] is G('Ellipsis') or t.a[0] is G('builtins.Ellipsis')):
        return ELLTYPE
    if t.op == 'glob' and t.a[0].startswith('typing.') and t.a[0][7:] in ('Text',):
        return G('builtins.str')
    return t


def real(t):
    """the class of the standard library a term names"""
    t = canon(t)
    if t.op != 'glob':
        return None
    m, _, n = t.a[0].rpartition('.')
    if m.split('.')[0] not in STDLIB:
        return None
    try:
        o = getattr(importlib.import_module(m), n)
    except Exception:
        return None
    return o if isinstance(o, type) else None


class Kind:
    """what is known of one annotation"""

    def __init__(self, name, term, want, origin=None, args=(), is_class=False, supertype=None, annotated=None):
        self.name, self.term, self.want = name, term, want
        self.origin, self.args, self.is_class, self.supertype, self.annotated = origin, args, is_class, supertype, annotated


class Oracle(Interp):
    """the engine, with knowledge of which terms stand for the same object, and of the contents of the registries"""
    max_recursion = 6

    def __init__(self, prog):
        super().__init__(prog, max_depth=40)
        if not hasattr(prog, 'registries'):
            prog.registries = registry.Registries(prog), {}
        self.reg, self.objs = prog.registries
        self.unknown = set()

    def fixed(self, t):
        t = canon(t)
        return t.op in ('glob', 'class', 'fn', 'enum', 'mod') or is_k(t)

    def known(self, t):
        """an object of its own, equal to no other known object"""
        return False

    def same(self, a, b):
        a, b = canon(a), canon(b)
        if a is b:
            return True
        if a.op == b.op == 'tuple':
            if len(a.a[0]) != len(b.a[0]):
                return False
            r = [self.same(x, y) for x, y in zip(a.a[0], b.a[0])]
            return False if False in r else None if None in r else True
        if (self.fixed(a) or self.known(a)) and (self.fixed(b) or self.known(b)):
            if is_k(a) and is_k(b):
                return kval(a) == kval(b) and type(kval(a)) is type(kval(b))
            return False
        return None

    # -- registries
    def registered(self, r, st):
        if r is None or r.op != 'glob' or not r.a[0].startswith(self.prog.pkg + '.'):
            return r, st
        q = r.a[0]
        if q not in self.objs:
            try:
                self.objs[q] = self.reg.contents(q)
            except registry.Unknown:
                self.objs[q] = None
        if self.objs[q] is None:
            self.unknown.add(q)
            return r, st
        return T('registry', q), st

    def lookup_name(self, name, st):
        r = super().lookup_name(name, st)
        return self.registered(r, st)[0]

    def get_attr(self, b, name, st, node):
        return [(x, v if isinstance(v, Sig) else self.registered(v, x)[0]) for x, v in super().get_attr(b, name, st, node)]

    def content(self, t):
        return self.objs[t.a[0]]

    def static_items(self, v, st):
        if v.op == 'registry':
            k, items = self.content(v)
            return tuple(items) if k == 'list' else tuple(a for a, _ in items)
        if v.op in ('items', 'keys', 'values') and v.a[0].op == 'registry':
            k, items = self.content(v.a[0])
            return tuple(T('tuple', (a, b)) if v.op == 'items' else a if v.op == 'keys' else b for a, b in items)
        return super().static_items(v, st)

    def truth_term(self, v, st):
        if v.op == 'registry':
            return K(bool(self.content(v)[1]))
        if not is_k(v) and (self.known(v) or self.fixed(v) and v.op != 'enum'):
            return TRUE
        return super().truth_term(v, st)

    def heap_get(self, h, k):
        for o in reversed(h.log):
            if o[0] != 'set':
                return None
            s = self.same(o[1], k)
            if s is None:
                return None
            if s:
                return o[2]
        return 'absent'

    def iterate(self, v, st, body, node, *a, **k):
        its = self.static_items(v, st) if v.op == 'registry' or v.op in ('items', 'keys', 'values') and v.a[0].op == 'registry' \
            else None
        if its is not None:
            v = T('tuple', its)
        return super().iterate(v, st, body, node, *a, **k)

    def lookup(self, reg, key):
        """-> value, 'absent' or None"""
        for k, v in self.content(reg)[1]:
            s = self.same(k, key)
            if s:
                return v
            if s is None:
                return None
        return 'absent'

    def call_attr(self, f, args, kws, st, node):
        if f.a[0].op == 'registry':
            k, items = self.content(f.a[0])
            n = f.a[1]
            if k == 'dict' and n == 'get' and args:
                v = self.lookup(f.a[0], args[0])
                if v is not None:
                    return [(st, (args[1] if len(args) > 1 else NONE) if isinstance(v, str) else v)]
            if k == 'dict' and n in ('items', 'keys', 'values') and not args:
                return [(st, T(n, f.a[0]))]
        return super().call_attr(f, args, kws, st, node)

    def get_item(self, b, k, st, node):
        if b.op == 'registry' and self.content(b)[0] == 'dict':
            v = self.lookup(b, k)
            if isinstance(v, T):
                return [(st, v)]
            if v == 'absent':
                return [(st, Sig('raise', C(G('builtins.KeyError'), k), node=node))]
        return super().get_item(b, k, st, node)

    def compare_r(self, op, l, r, st, node=None):
        n = type(op).__name__ if not isinstance(op, str) else op
        if n in ('In', 'NotIn') and (r.op in ('registry', 'keys', 'tuple', 'bin', 'ver', 'seqt') or st.h(r) is not None):
            its = None
            if r.op == 'registry' or r.op == 'keys' and r.a[0].op == 'registry':
                reg = r if r.op == 'registry' else r.a[0]
                k, items = self.content(reg)
                its = [a for a, _ in items] if k == 'dict' else items
            else:
                its = self.static_items(r, st)
                if its is None and st.h(r) is not None and st.h(r).kind == 'set' and all(o[0] == 'one' for o in st.h(r).log):
                    its = [o[1] for o in st.h(r).log]
            if its is not None:
                ss = [self.same(a, l) for a in its]
                if None not in ss or True in ss:
                    return [(st, K((True in ss) == (n == 'In')))]
        return super().compare_r(op, l, r, st, node)

    def eq_term(self, l, r, st):
        s = self.same(l, r)
        return K(s) if s is not None else super().eq_term(l, r, st)

    def is_term(self, l, r, st):
        s = self.same(l, r)
        return K(s) if s is not None else super().is_term(l, r, st)


class Dispatch(Oracle):
    """the engine, with knowledge of annotations"""

    def __init__(self, prog, kinds):
        super().__init__(prog)
        self.kinds = {k.term: k for k in kinds}
        self.filler = T('class', prog.cls_named('Filler').qual)

    def known(self, t):
        """an annotation of a known kind that is an object of its own, equal to no other known object"""
        return t in self.kinds or t in (X, Y, TV) or t in TOKS

    def get_attr(self, b, name, st, node):
        k = self.kinds.get(b) or (Kind('', b, None) if self.fixed(b) and (real(b) is not None or b.op == 'class' or is_k(b)
                                  or b.op == 'glob' and b.a[0].startswith('typing.')) or self.known(b) else None)
        if k is not None and name in ANN:
            if name == '__supertype__' and k.supertype is not None:
                return [(st, k.supertype)]
            return [(st, Sig('raise', C(G('builtins.AttributeError')), node=node))]
        return super().get_attr(b, name, st, node)

    def b_builtins_getattr(self, args, kws, st, node):
        if len(args) == 3 and is_k(args[1]) and isinstance(kval(args[1]), str) and kval(args[1]) in ANN:
            r = self.get_attr(args[0], kval(args[1]), st, node)
            return [(x, args[2] if isinstance(v, Sig) else v) for x, v in r]
        return super().b_builtins_getattr(args, kws, st, node)

    def b_builtins_hasattr(self, args, kws, st, node):
        if is_k(args[1]) and kval(args[1]) in ANN:
            r = self.get_attr(args[0], kval(args[1]), st, node)
            return [(x, K(not isinstance(v, Sig))) for x, v in r]
        return super().b_builtins_hasattr(args, kws, st, node)

    # -- annotations
    def call(self, f, args, kws, st, node):
        if f.op == 'glob' and len(args) == 1 and not kws:
            k = self.kinds.get(args[0])
            if f.a[0] in ('typing.get_origin', 'typing.get_args'):
                orig = f.a[0].endswith('origin')
                if k is not None:
                    if k.annotated is not None:
                        return [(st, G('typing.Annotated') if orig else T('tuple', k.annotated))]
                    return [(st, (k.origin or NONE) if orig else T('tuple', tuple(k.args)))]
                if self.fixed(args[0]) or self.known(args[0]):
                    return [(st, NONE if orig else T('tuple', ()))]
        if f.op == 'class' and self.filler and self.subclass(f, self.filler):
            return [(st, T('call', f, tuple(args), tuple(kws)))]
        return super().call(f, args, kws, st, node)

    def class_test1(self, op, x, c, st):
        cc, xx = canon(c), canon(x)
        if op == 'isinstance':
            k = self.kinds.get(x)
            if k is not None or self.known(x):
                if cc is G('builtins.type'):
                    return [(st, K(bool(k and (k.is_class or real(x) is not None))))]
                if cc is G('typing._AnnotatedAlias'):
                    return [(st, K(bool(k and k.annotated)))]
                if cc is G('typing.TypeVar'):
                    return [(st, K(x is TV))]
                if cc is G('typing.NewType'):
                    return [(st, K(bool(k and k.supertype)))]
                if cc.op == 'class':
                    return [(st, FALSE)]
            elif xx.op == 'class' and cc.op == 'class':
                return [(st, FALSE)]
            elif cc is G('builtins.type') and (real(xx) is not None or xx.op == 'class'):
                return [(st, TRUE)]
            elif self.fixed(xx) and cc in (G('builtins.type'), G('typing._AnnotatedAlias'), G('typing.TypeVar'),
                                           G('typing.NewType')):
                return [(st, FALSE)]
        else:
            a, b = real(xx), real(cc)
            if a is not None and b is not None:
                return [(st, K(issubclass(a, b)))]
            if cc is G('builtins.object') and (x in self.kinds and self.kinds[x].is_class):
                return [(st, TRUE)]
            if x in self.kinds and self.kinds[x].is_class and b in (bool, type(None), type(...)):
                return [(st, FALSE)]       # these classes have no subclasses
        return super().class_test1(op, x, c, st)


# -- the kinds of annotations -------------------------------------------------------------------------------------------
ABC = 'collections.abc.'
ITERABLES = ['builtins.list', 'builtins.set', 'builtins.frozenset', ABC + 'Sequence', ABC + 'MutableSequence', ABC + 'Set',
             ABC + 'MutableSet', 'collections.deque']
MAPPINGS = ['builtins.dict', 'collections.defaultdict', ABC + 'Mapping', ABC + 'MutableMapping']
OTHERS = [ABC + n for n in ('Iterable', 'Iterator', 'Reversible', 'Collection', 'Container', 'AsyncIterator', 'AsyncIterable',
                            'AsyncGenerator', 'Generator')] + ['contextlib.AbstractContextManager',
                                                               'contextlib.AbstractAsyncContextManager']


def kinds():
    """(name, kind fields, expected class name, expected origin: None = the annotation itself)"""
    out = []

    def add(name, want, of=None, term=None, **kw):
        out.append((name, want, of, term, kw))
    add('Union[a, b]', 'UnionFiller', origin=G('typing.Union'), args=(X, Y))
    add('Optional[TypeVar]', 'UnionFiller', origin=G('typing.Union'), args=(TV, NONETYPE))
    add('Union[a, Any]', 'UnionFiller', origin=G('typing.Union'), args=(X, G('typing.Any')))
    add('Literal[a, b]', 'LiteralFiller', origin=G('typing.Literal'), args=(X, Y))
    add('Type[a]', 'TypeFiller', origin=G('builtins.type'), args=(X,))
    add('Type[Any]', 'SimpleFiller', G('builtins.type'), origin=G('builtins.type'), args=(G('typing.Any'),))
    add('Type', 'SimpleFiller', G('builtins.type'), origin=G('builtins.type'), args=())
    add('Callable[..., a]', 'CallableFiller', False, origin=G(ABC + 'Callable'), args=(K(...), X))
    add('Callable', 'CallableFiller', False, origin=G(ABC + 'Callable'), args=())
    add('callable', 'CallableFiller', False, term=G('builtins.callable'))
    add('Tuple[a, b]', 'TupleFiller', origin=G('builtins.tuple'), args=(X, Y))
    add('Tuple[a, ...]', 'TupleFiller', origin=G('builtins.tuple'), args=(X, K(...)))
    add('Tuple[TypeVar, a]', 'TupleFiller', origin=G('builtins.tuple'), args=(TV, X))
    add('Tuple[()]', 'TupleFiller', origin=G('builtins.tuple'), args=())
    add('Tuple', 'SimpleFiller', G('builtins.tuple'), term=G('typing.Tuple'), origin=G('builtins.tuple'), args=())
    for o in ITERABLES:
        n = o.rsplit('.', 1)[-1]
        add(n + '[a]', 'GenericIterableFiller', origin=G(o), args=(X,))
        add(n + '[TypeVar]', 'SimpleFiller', G(o), origin=G(o), args=(TV,))
    for o in MAPPINGS:
        n = o.rsplit('.', 1)[-1]
        add(n + '[a, b]', 'GenericMappingFiller', origin=G(o), args=(X, Y))
        add(n + '[TypeVar, a]', 'GenericMappingFiller', origin=G(o), args=(TV, X))
        add(n + '[a, TypeVar]', 'GenericMappingFiller', origin=G(o), args=(X, TV))
        add(n + '[TypeVar, TypeVar]', 'SimpleFiller', G(o), origin=G(o), args=(TV, TV))
    for o in OTHERS:
        add(o.rsplit('.', 1)[-1] + '[a]', 'GenericFillerN', origin=G(o), args=(X,))
        add(o.rsplit('.', 1)[-1] + '[TypeVar]', 'SimpleFiller', G(o), origin=G(o), args=(TV,))
    add('None', 'NoneFiller', NONETYPE, term=NONE)
    add('NoneType', 'NoneFiller', term=NONETYPE)
    add('ellipsis', 'EllipsisFiller', term=ELLTYPE)
    add('bool', 'BoolFiller', term=G('builtins.bool'))
    add('object', 'SimpleFiller', term=G('builtins.object'))
    add('Any', 'SimpleFiller', G('builtins.object'), term=G('typing.Any'))
    for n in ('int', 'str', 'list', 'tuple', 'type', 'dict', 'float'):
        add(n, 'SimpleFiller', term=G('builtins.' + n))
    add('a class', 'SimpleFiller', is_class=True)
    add('another generic type[a]', 'DumbFiller', origin=G('collections.Counter'), args=(X,))
    add('a user\'s generic type[a]', 'DumbFiller', origin=sym('USERGENERIC'), args=(X,))
    add('a user\'s generic type[TypeVar]', 'SimpleFiller', sym('USERGENERIC'), origin=sym('USERGENERIC'), args=(TV,))
    add('a TypeVar', 'DumbFiller', term=TV)
    add('an object that is no type', 'DumbFiller')
    return out


HINT = sym('HINT')
FORMS = ('plain', 'annotated', 'new type', 'annotated new type', 'new type of annotated', 'annotated new type of annotated',
         'new type of new type')


def setup(form, name, want, of, term, kw):
    """-> (annotation term, kinds, expected tokens)"""
    base = Kind(name, term if term is not None else HINT, want, **kw)
    ks = [base]
    USER = Kind('class', sym('USERGENERIC'), None, is_class=True)
    ks.append(USER)
    cur, toks = base.term, ()

    def annotate(t, ts, n):
        k = Kind('Annotated', sym(f'ANNOTATED{n}'), None, annotated=(t,) + ts)
        ks.append(k)
        return k.term

    def newtype(t, n):
        k = Kind('NewType', sym(f'NEWTYPE{n}'), None, supertype=t)
        ks.append(k)
        return k.term
    if form == 'plain':
        pass
    elif form == 'annotated':
        cur, toks = annotate(cur, TOKS, 1), TOKS
    elif form == 'new type':
        cur = newtype(cur, 1)
    elif form == 'new type of new type':
        cur = newtype(newtype(cur, 1), 2)
    elif form == 'annotated new type':
        cur, toks = annotate(newtype(cur, 1), TOKS, 1), TOKS
    elif form == 'new type of annotated':
        cur, toks = newtype(annotate(cur, TOKS, 1), 1), TOKS
    else:
        cur, toks = annotate(newtype(annotate(cur, TOKS[:1], 1), 1), TOKS[1:], 2), TOKS
    return base, cur, ks, toks


def token_seq(p, t, I):
    """the elements of the token argument"""
    t = unver(t)
    r = I.static_items(t, p.st)
    if r is not None:
        return tuple(unver(x) for x in r)
    if t.op == 'seqt' and all(o[0] == 'one' for o in t.a[0]):
        return tuple(unver(o[1]) for o in t.a[0])
    if t.op == 'seqt' and not t.a[0]:
        return ()
    return None


@rule('C28', 'dispatch', 'every kind of annotation, plain, annotated or behind a new type, gets the filler that enforces it, for the '
                         'right type and with its tokens in order')
def r_dispatch(ctx):
    dispatch(ctx, 'dispatch')


@rule('C06', 'dispatch-tokens', 'no form of an annotation loses a token on the way to the filler that must apply or refuse it')
def r_tokens(ctx):
    dispatch(ctx, 'dispatch-tokens', True)


def dispatch(ctx, R, tokens_only=False):
    fn = next((q for q in ctx.P.functions if q.endswith('.get_filler') and q.count('.') == 3), None)
    node = ctx.P.functions[fn][0] if fn else None
    ctx.check(fn is not None or None, R, 'get_filler', 'the dispatch function exists')
    if fn is None:
        return
    forms = [f for f in FORMS if f != 'plain'] if tokens_only else FORMS
    for name, want, of, term, kw in kinds():
        for form in forms:
            base, cur, ks, toks = setup(form, name, want, of, term, kw)
            I = Dispatch(ctx.P, ks)
            label = name if form == 'plain' else f'{form}: {name}'
            try:
                ps = [Path(s, v if isinstance(v, Sig) else Sig('return', v))
                      for s, v in I.call(T('fn', id(node), 0), [cur], [], I.new_state(), node)]
            except (Limit, RecursionError) as e:
                ctx.undec(R, label, f'{type(e).__name__}: {e}')
                continue
            ctx.note(I, ps)
            for q in I.unknown:
                pass
            judge_kind(ctx, R, label, I, ps, ctx.P.cls_named(want), base.term if of is None else of, toks, node, tokens_only)


def judge_kind(ctx, R, label, I, ps, want, origin, toks, node, tokens_only=False):
    refuse = want.qual.rsplit('.', 1)[-1] == 'DumbFiller'
    ok = bool(ps)
    for p in ps:
        odd = [k for k in p.facts if murky(k) or contains(k, lambda x: I.known(x) or x.op == 'registry')]
        if p.raises:
            if refuse and toks or tokens_only:
                continue
            ctx.check(None if odd or I.unknown else False, R, label, f'the annotation is refused: {show(p.sig.val)[:100]}', p.sig.node or node, p)
            ok = False
            continue
        v = unver(p.value)
        if not (is_call(v) and v.a[0].op == 'class'):
            if tokens_only:
                ok = False
                continue
            ctx.check(None if odd or murky(v) or I.unknown or v.op not in ('k', 'obj', 'struct') else False, R, label,
                      f'gets {show(v)[:120]}', p.sig.node or node, p)
            ok = False
            continue
        c = ctx.P.cls(v.a[0].a[0])
        args = list(v.a[1])
        if tokens_only:
            if not c.is_sub(want) and not c.is_sub(ctx.P.cls_named('DumbFiller')):
                ok = False
                continue
            refuse = refuse or c.is_sub(ctx.P.cls_named('DumbFiller'))
            origin = False
        elif not c.is_sub(want) or not refuse and c.is_sub(ctx.P.cls_named('DumbFiller')) or \
                want.qual.endswith('.SimpleFiller') and c is not want and not same_check(ctx, c, want):
            ctx.check(None if odd or I.unknown else False, R, label, f'gets a {c.qual.rsplit(".", 1)[-1]} instead of a '
                      f'{want.qual.rsplit(".", 1)[-1]}', p.sig.node or node, p)
            ok = False
            continue
        if refuse and toks:
            ts = token_seq(p, args[1], I) if len(args) > 1 else ()
            if ts is None or tuple(ts) != tuple(toks):
                ctx.check(None if odd or I.unknown else False, R, label, 'the tokens are ignored instead of refused', p.sig.node or node, p)
                ok = False
            continue
        if origin is not False and (not args or canon(unver(args[0])) is not canon(origin)):
            ctx.check(None if odd or not args or murky(args[0]) else False, R, label,
                      f'the filler is made for {show(args[0])[:80] if args else "nothing"} instead of {show(origin)}', p.sig.node or node, p)
            ok = False
            continue
        if not refuse:
            ts = token_seq(p, args[1], I) if len(args) == 2 and not v.a[2] else None
            if ts is None or tuple(ts) != tuple(toks):
                ctx.check(None if ts is None else False, R, label, f'the filler gets the tokens {[show(x) for x in ts or ()]} instead of '
                          f'{[show(x) for x in toks]}', p.sig.node or node, p)
                ok = False
    if ok:
        ctx.ok(R, label, f'{len(ps)} paths give a {want.qual.rsplit(".", 1)[-1]}')


def same_check(ctx, c, want):
    """does a subclass keep the type check of the filler it is derived from"""
    a, b = c.lookup('type_check'), want.lookup('type_check')
    return a and b and a[1] is b[1]
