"""Calls: resolution of callees, inlining, and models of the builtins and library functions the package uses."""
import ast

from .terms import (T, K, kval, is_k, mk_not, mk_is, mk_cmp, kbool, TRUE, FALSE, NONE, BOOL_OPS, sym, show, subst,
                    contains, walk, is_fixed, len_ge)
from .state import St, Sig, NEXT, BREAK, Ev, Limit
from .exprs import seq, strip_keys, DUNDER_BIN
from .program import Cls, is_exc_name

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'setdefault', 'remove', 'discard', 'clear',
            'sort', 'reverse', 'appendleft', 'popleft', 'extendleft', 'rotate', 'intersection_update',
            'difference_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__setattr__',
            '__delattr__', '__ior__', '__iadd__', 'move_to_end'}

PURE_BUILTINS = {'repr', 'str', 'format', 'id', 'abs', 'round', 'divmod', 'ord', 'chr', 'float', 'int', 'bytes',
                 'complex'}

CONTAINER_TYPES = {'builtins.list', 'builtins.dict', 'builtins.set', 'builtins.tuple', 'builtins.frozenset',
                   'builtins.str'}


class BuiltinMixin:
    # -- call expressions -------------------------------------------------------------------------------------------
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and self.lookup_name('super', st) is \
                T('glob', 'builtins.super'):
            return self.super_term(e, st)

        def go(x, f):
            def with_args(y, args):
                def with_kw(z, vals):
                    kws = [(k.arg, v) for k, v in zip(e.keywords, vals)]
                    args2, kws2 = self.expand(args, kws, z)
                    return self.call(f, args2, kws2, z, e)
                return seq(self.ev_many([k.value for k in e.keywords], y), with_kw)
            return seq(self.ev_many(e.args, x), with_args)
        return seq(self.ev(e.func, st), go)

    def expand(self, args, kws, st):
        """unpack * and ** of containers with known contents"""
        a2 = []
        for a in args:
            if a.op == 'star':
                items = self.static_items(a.a[0], st)
                if items is not None:
                    a2.extend(items)
                    continue
                v = a.a[0]
                h = st.h(v)
                if v.op in ('seqt', 'chain') or h is not None and h.kind == 'list':
                    ops = self.flat_ops([('ext', v)], st)
                    if all(o[0] in ('one', 'ext') for o in ops):
                        a2.extend(o[1] if o[0] == 'one' else T('star', o[1]) for o in ops)
                        continue
            a2.append(a)
        k2 = []
        for k, v in kws:
            if k is None:
                h = st.h(v)
                if v.op == 'empty':
                    continue
                if h is not None and h.kind == 'dict' and all(
                        o[0] == 'upd' or o[0] == 'set' and is_k(o[1]) and isinstance(kval(o[1]), str) for o in h.log):
                    for o in h.log:
                        if o[0] == 'upd':
                            k2.append((None, o[1]))
                        else:
                            k2 = [(a, b) for a, b in k2 if a != kval(o[1])]
                            k2.append((kval(o[1]), o[2]))
                    continue
            k2.append((k, v))
        return a2, k2

    def super_term(self, e, st):
        fid, info = self.frame(st)
        if e.args:
            return seq(self.ev_many(e.args, st), lambda x, vs: [(x, T('super', vs[0].a[0], vs[1]))]
                       if len(vs) == 2 and vs[0].op == 'class' else [(x, T('opaque', 'super'))])
        f = info
        while f.cls is None or f.first is None or f.first not in st.frames[fid][0]:
            if not f.parent or f.parent not in st.frames:
                break
            fid = f.parent
            f = st.frames[fid][1]
        if f.cls is None or f.first is None:
            return [(st, T('opaque', 'super'))]
        return [(st, T('super', f.cls.qual, st.frames[fid][0].get(f.first)))]

    def is_opaque(self, node):
        info = self.prog.node_info.get(id(node))
        q = info[0] if info else ''
        if q in self.opaque or any(q.endswith('.' + o) for o in self.opaque):
            return True
        return False

    # -- calling ----------------------------------------------------------------------------------------------------
    def call(self, f, args, kws, st, node):
        """-> [(st, value | Sig)]"""
        self.sites += 1
        op = f.op
        args, kws = list(args), list(kws)
        if op == 'fn':
            return self.call_fn(f, f.a[0], f.a[1], None, args, kws, st, node, None)
        if op in ('bm', 'sm'):
            d = self.fn_node(f)
            recv = f.a[1]
            a = ([recv] if op == 'bm' else []) + args
            return self.call_fn(f, f.a[0], 0, recv, a, kws, st, node, f.a[2])
        if op == 'partial':
            return self.call(f.a[0], list(f.a[1]) + args, list(f.a[2]) + kws, st, node)
        if op == 'class':
            return self.construct(f, args, kws, st, node)
        if op == 'glob':
            m = getattr(self, 'b_' + f.a[0].replace('.', '_'), None)
            if m is not None:
                r = m(args, kws, st, node)
                if r is not None:
                    return r
            if f.a[0].startswith('builtins.') and is_exc_name(f.a[0][9:]):
                return [(st, T('call', f, tuple(args), tuple(kws)))]
            if f.a[0].startswith('builtins.') and f.a[0][9:] in PURE_BUILTINS:
                return self.opaque_call(f, args, kws, st, node)
            return self.opaque_call(f, args, kws, st, node)
        if op == 'attr':
            return self.call_attr(f, args, kws, st, node)
        if op == 'extm':
            base, name, recv = f.a
            a = args if name == '__new__' else [recv] + args
            g = T('attr', base, name)
            if name == '__init_subclass__' or name == '__init__' and not args and not kws:
                return [(st, NONE)] if name == '__init__' else self.opaque_call(g, a, kws, st, node)
            return self.call_attr(g, a, kws, st, node)
        if op == 'wrapsdec':
            return [(st, args[0])] if len(args) == 1 else self.opaque_call(f, args, kws, st, node)
        if op == 'opget':
            kind, names = f.a
            if kind == 'itemgetter' and len(names) == 1:
                return self.get_item(args[0], names[0], st, node)
            if kind == 'attrgetter' and len(names) == 1 and is_k(names[0]):
                return self.get_attr(args[0], kval(names[0]), st, node)
            if kind == 'methodcaller' and is_k(names[0]):
                return seq(self.get_attr(args[0], kval(names[0]), st, node),
                           lambda x, m: self.call(m, list(names[1:]), [], x, node))
        if op == 'boundop' and True:
            return self.call(f.a[0], list(f.a[1]) + args, kws, st, node)
        c = self.cls_of(f, st)
        if c is not None and c[0] == 'inst' and isinstance(c[1], Cls):
            g = c[1].lookup('__call__')
            if g is not None and isinstance(g[1], ast.FunctionDef):
                self._keep(g[1])
                return self.call(T('bm', id(g[1]), f, '__call__'), args, kws, st, node)
        if op == 'typeof':
            c = self.cls_of(f.a[0], st)
        return self.opaque_call(f, args, kws, st, node)

    def call_fn(self, f, nid, fid, recv, args, kws, st, node, name):
        d = self.fn_node(f)
        if d is None:
            return self.opaque_call(f, args, kws, st, node)
        from .interp import opaque_decos
        od = [] if isinstance(d, ast.Lambda) or fid else opaque_decos(d)
        if od == ['decorator_kw_method']:
            # add_validator(f=None, **kw): called with the function it registers it, otherwise it returns a decorator
            real = args[1:] if recv is not None else args
            if not real:
                return [(st, T('opaque', 'kwdeco'))]
            od = []
        if not self.is_opaque(d) and not od:
            r = self.call_node(d, fid, args, kws, st, node)
            if r is not None:
                return r
        # opaque package function: arguments in the order of its parameters
        if recv is not None and name is not None:
            g = T('attr', recv, name)
            own = args[1:] if f.op == 'bm' else args
        else:
            info = self.prog.node_info.get(id(d))
            g = T('glob', info[0]) if info and not fid else f
            own = args
        own, kws = self.normal_args(d, own, kws, st, skip=1 if f.op == 'bm' else 0)
        return self.opaque_call(g, own, kws, st, node)

    def normal_args(self, d, args, kws, st, skip=0):
        a = d.args
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        if any(x.op == 'star' for x in args):
            return args, kws
        kw = dict((k, v) for k, v in kws if k is not None)
        args = list(args)
        for p in pos[len(args):]:
            if p in kw:
                args.append(kw.pop(p))
            else:
                break
        return args, [(k, v) for k, v in kws if k is None or k in kw]

    def opaque_call(self, f, args, kws, st, node, quiet=False):
        named = sorted([(k, v) for k, v in kws if k is not None], key=lambda t: t[0])
        kws = tuple(named + [(k, v) for k, v in kws if k is None])
        term = T('call', f, tuple(args), kws)
        n = st.counts.get(term, 0)
        st = st.copy()
        st.counts[term] = n + 1
        res = term if n == 0 else T('call', f, tuple(args), kws, n)
        st = st.emit('call', f, tuple(args), kws, res, node=node)
        if f.op == 'attr' and f.a[1] in MUTATORS:
            st = st.bump(f.a[0])
        if not st.tries or quiet:
            return [(st, res)]
        out = []
        a = T('raises', res)
        x = st.assume(a, False)
        if x is not None:
            out.append((x, res))
        x = st.assume(a, True)
        if x is not None:
            out.append((x, Sig('raise', T('exc', res), node=node)))
        return out

    # -- method calls -----------------------------------------------------------------------------------------------
    def call_attr(self, f, args, kws, st, node):
        b, name = f.a[0], f.a[1]
        # unbound methods of builtin containers: dict.update(d, x)
        if b.op == 'glob' and b.a[0] in CONTAINER_TYPES and args and not (b.a[0] == 'builtins.dict' and
                                                                        name == 'fromkeys') and name[:2] != '__':
            return self.call_attr(T('attr', args[0], name), args[1:], kws, st, node)
        if b.op == 'glob' and b.a[0] == 'builtins.object' and name == '__setattr__' and len(args) == 3:
            k = args[1]
            st = st.emit('setattr', args[0], k, args[2], node=node)
            st = st.copy()
            if is_k(k):
                st.over[(args[0], kval(k))] = args[2]
            return [(st, NONE)]
        if b.op == 'glob' and b.a[0] == 'builtins.object' and name in ('__eq__', '__hash__', '__repr__') and False:
            pass
        if name == '__call__':
            return self.call(b, args, kws, st, node)
        h = st.h(b)
        if h is not None and h.kind in ('list', 'dict', 'set', 'copy', 'defaultdict', 'tuple'):
            r = self.heap_method(b, h, name, args, kws, st, node)
            if r is not None:
                return r
        if b.op == 'attr' and b.a[1] == '__dict__' and name == 'update':
            ops = []
            for a in args:
                ops.extend(self.dict_ops(a, st))
            for k, v in kws:
                ops.append(('upd', v) if k is None else ('set', K(k), v))
            st = st.emit('dictupdate', b.a[0], tuple(ops), node=node)
            return [(st, NONE)]
        n = len(args)
        star = any(a.op == 'star' for a in args) or any(k is None for k, v in kws)
        if not star and not kws:
            if name in ('items', 'keys', 'values') and n == 0:
                if h is not None and h.kind == 'copy':
                    pass
                return [(st, T(name, b))]
            if name in ('get',) and n in (1, 2) and not self.cls_of(b, st):
                d = args[1] if n == 2 else NONE
                out = []
                for x, v in self.truth(T('in', args[0], self.vers(strip_keys(b), st)), st):
                    if v:
                        out.extend(self.get_item(b, args[0], x, node))
                    else:
                        out.append((x, d))
                return out
            if name == '__getitem__' and n == 1:
                return self.get_item(b, args[0], st, node)
            if name == '__contains__' and n == 1:
                return self.compare_r(ast.In(), args[0], b, st, node)
            if name == '__setitem__' and n == 2:
                return self.set_item(b, args[0], args[1], st, node)
            if name == '__delitem__' and n == 1:
                return self.del_item(b, args[0], st, node)
            if name == '__len__' and n == 0:
                return self.b_builtins_len([b], [], st, node)
            if name == '__bool__' and n == 0:
                return self.b_builtins_bool([b], [], st, node)
            if name == '__iter__' and n == 0:
                return self.b_builtins_iter([b], [], st, node)
            if name in ('__hash__',) and n == 0 and not self.cls_of(b, st):
                return self.opaque_call(T('glob', 'builtins.hash'), [b], [], st, node)
            if name in DUNDER_BIN and n == 1 and self.cls_of(b, st) is None and b.op != 'glob':
                return self.compare_r(getattr(ast, DUNDER_BIN[name])(), b, args[0], st, node)
            if name in ('difference', 'union', 'intersection', 'symmetric_difference') and n >= 1:
                cur = b
                for a in args:
                    (st, cur), = self.binop({'difference': ast.Sub, 'union': ast.BitOr, 'intersection': ast.BitAnd,
                                             'symmetric_difference': ast.BitXor}[name](), cur, a, st, node)[:1]
                return [(st, cur)]
            if name == 'issubset' and n == 1:
                return [(st, T('le', self.keyset(strip_keys(b), st), self.keyset(strip_keys(args[0]), st)))]
            if name == 'issuperset' and n == 1:
                return [(st, T('le', self.keyset(strip_keys(args[0]), st), self.keyset(strip_keys(b), st)))]
            if name == 'isdisjoint' and n == 1:
                x, y = sorted([strip_keys(b), strip_keys(args[0])], key=show)
                return [(st, mk_not(T('truthy', T('bin', '&', x, y))))]
            if name in ('copy', '__copy__') and n == 0 and self.cls_of(b, st) is None:
                return [st.alloc('copy', (('ext', st.versioned(b)),), node=node)]
        if name == 'format' and is_k(b) and isinstance(kval(b), str):
            return [(st, T('fstr', (b,) + tuple(args) + tuple(v for _, v in kws)))]
        return self.opaque_call(f, args, kws, st, node)

    def heap_method(self, b, h, name, args, kws, st, node):
        n = len(args)
        if any(a.op == 'star' for a in args):
            return self.opaque_call(T('attr', b, name), args, kws, st, node)
        if name in ('append', 'add') and n == 1:
            return [(st.log(b, ('one', args[0])), NONE)]
        if name == 'extend' and n == 1 or name == 'update' and h.kind in ('set',) and n >= 1:
            return self.extend(b, args, st, node)
        if name == 'insert' and n == 2:
            if is_k(args[0], 0):
                st = st.copy()
                st.heap[b.a[0]] = type(h)(h.kind, (('one', args[1]),) + h.log, h.cls, h.node)
                st.ver[b] = st.ver.get(b, 0) + 1
                return [(st, NONE)]
            return [(st.log(b, ('mut', name, tuple(args))), NONE)]
        if name == 'update' and h.kind in ('dict', 'copy', 'defaultdict'):
            if h.kind == 'copy' and len(h.log) == 1 and h.log[0][0] == 'ext':
                st = st.copy()
                st.heap[b.a[0]] = type(h)('dict', (('upd', h.log[0][1]),), h.cls, h.node, h.src)
            res = [(st, None)]
            if n == 1:
                res = self.dict_from(b, args[0], st, node)
            out = []
            for x, sg in res:
                if isinstance(sg, Sig):
                    out.append((x, sg))
                    continue
                for k, v in kws:
                    if k is None:
                        x = x.log(b, *self.dict_ops(v, x))
                    else:
                        x = x.log(b, ('set', K(k), v))
                out.append((x, NONE))
            return out
        if h.kind in ('dict', 'defaultdict', 'copy'):
            if name == 'get' and n in (1, 2):
                d = args[1] if n == 2 else NONE
                v = self.heap_get(h, args[0])
                if v == 'absent':
                    return [(st, d)]
                if v is not None:
                    return [(st, v)]
                out = []
                for x, t in self.truth(T('in', args[0], self.vers(b, st)), st):
                    out.append((x, T('item', x.versioned(b), args[0]) if t else d))
                return out
            if name == 'pop' and n in (1, 2):
                res = T('item', st.versioned(b), args[0])
                v = self.heap_get(h, args[0])
                st2 = st.log(b, ('pop', args[0]) + ((args[1],) if n == 2 else ()))
                if v is not None and v != 'absent':
                    return [(st2, v)]
                if n == 2:
                    return [(st2, T('popd', st.versioned(b), args[0], args[1]))]
                return self.may_raise(st2, res, ('builtins.KeyError', 'builtins.LookupError'))
            if name == 'setdefault' and n == 2:
                out = []
                v = self.heap_get(h, args[0])
                if v == 'absent':
                    return [(st.log(b, ('set', args[0], args[1])), args[1])]
                if v is not None:
                    return [(st, v)]
                for x, t in self.truth(T('in', args[0], self.vers(b, st)), st):
                    if t:
                        out.append((x, T('item', x.versioned(b), args[0])))
                    else:
                        out.append((x.log(b, ('set', args[0], args[1])), args[1]))
                return out
            if name == 'copy' and n == 0:
                return [st.alloc(h.kind, h.log, node=node)]
            if name == '__getitem__':
                return self.get_item(b, args[0], st, node)
            if name == '__setitem__':
                return self.set_item(b, args[0], args[1], st, node)
        if name == 'copy' and n == 0:
            return [st.alloc(h.kind, h.log, node=node)]
        if name in ('reverse', 'clear', 'sort', 'remove', 'discard', 'pop', 'popitem', 'popleft', 'appendleft',
                    'extendleft', 'rotate') or name.endswith('_update'):
            if name == 'clear':
                st = st.copy()
                st.heap[b.a[0]] = type(h)(h.kind, (), h.cls, h.node)
                st.ver[b] = st.ver.get(b, 0) + 1
                return [(st, NONE)]
            res = T('popped', st.versioned(b), tuple(args))
            st = st.log(b, ('mut', name, tuple(args)))
            return [(st, res)]
        return None

    def extend(self, b, args, st, node):
        res = [(st, None)]
        for a in args:
            def one(x, _, a=a):
                if self.lazy(a, x):
                    r = self.iterate(a, x, lambda y, e, p: [(y.log(b, ('one', e)), NEXT)], node)
                    return [(y, NONE if sg.kind == 'next' else sg) for y, sg in r]
                return [(x.log(b, *self.flat_ops([('ext', a)], x)), NONE)]
            res = seq(res, one)
        return res

    def lazy(self, v, st):
        """iterables that have to be driven to know what they yield"""
        return v.op in ('gen', 'map', 'filter', 'filterfalse', 'zip', 'enumerate', 'iter1') or \
            v.op == 'chain' and any(o[0] == 'ext' and self.lazy(o[1], st) for o in v.a[0])

    def fill_from(self, kind, v, st, node):
        """a fresh list/set/tuple made of the elements of v -> [(st, obj)]"""
        st, o = st.alloc(kind, node=node)
        if v is None:
            return [(st, o)]
        return [(x, w if isinstance(w, Sig) else o) for x, w in self.extend(o, [v], st, node)]

    def dict_from(self, b, v, st, node):
        """feed mapping or pair iterable v into heap dict b -> [(st, None | Sig)]"""
        h = st.h(v)
        if v.op == 'items':
            return [(st.log(b, *self.dict_ops(v.a[0], st)), None)]
        if self.lazy(v, st) or h is not None and h.kind in ('list', 'tuple') or v.op in ('tuple', 'seqt', 'chain'):
            def body(y, e, p):
                it = self.static_items(e, y)
                if it is not None and len(it) == 2:
                    k, x = it
                else:
                    k, x = T('item', e, K(0)), T('item', e, K(1))
                return [(y.log(b, ('set', k, x)), NEXT)]
            return [(x, None if sg.kind == 'next' else sg) for x, sg in self.iterate(v, st, body, node)]
        return [(st.log(b, *self.dict_ops(v, st)), None)]

    # -- constructing -----------------------------------------------------------------------------------------------
    def construct(self, f, args, kws, st, node):
        c = self.prog.classes[f.a[0]]
        if c.is_namedtuple:
            fields = [n for n in c.annotated if n not in c.classvars]
            vals = {}
            if not any(a.op == 'star' for a in args) and not any(k is None for k, _ in kws):
                for n, a in zip(fields, args):
                    vals[n] = a
                for k, v in kws:
                    vals[k] = v
                for n in fields:
                    if n not in vals and n in c.attrs and isinstance(c.attrs[n], ast.expr):
                        vals[n] = self.static_expr(c.attrs[n], c.module, None) or T('default', ast.unparse(c.attrs[n]))
                if set(vals) == set(fields):
                    return [(st, T('struct', c.qual, tuple((n, vals[n]) for n in fields)))]
        if c.is_exception:
            return [(st, T('call', f, tuple(args), tuple(kws)))]
        if c.is_enum and len(args) == 1:
            return self.opaque_call(f, args, kws, st, node)
        if c.name in self.inline_attrs or c.qual in self.inline_attrs:
            st, o = st.alloc('inst', cls=c, node=node)
            st.types[o] = ('inst', c)
            i = c.lookup('__init__')
            if i is not None and isinstance(i[1], ast.FunctionDef):
                r = self.call_node(i[1], 0, [o] + args, kws, st, node)
                if r is not None:
                    return [(x, v if isinstance(v, Sig) else o) for x, v in r]
            return [(st, o)]
        i = c.lookup('__init__')
        if i is not None and isinstance(i[1], ast.FunctionDef):
            args, kws = self.normal_args(i[1], args, kws, st, skip=1)
        return self.opaque_call(f, args, kws, st, node)

    # -- builtins ---------------------------------------------------------------------------------------------------
    def b_builtins_isinstance(self, args, kws, st, node):
        if len(args) != 2:
            return None
        return self.class_test('isinstance', args[0], args[1], st, node)

    def b_builtins_issubclass(self, args, kws, st, node):
        if len(args) != 2:
            return None
        return self.class_test('issubclass', args[0], args[1], st, node)

    def class_test(self, op, x, c, st, node):
        items = self.static_items(c, st) if c.op in ('tuple',) else None
        st = st.emit('typetest', op, x, c, node=node)
        if items is not None:
            out, cur = [], [st]
            for it in items:
                nxt = []
                for y in cur:
                    for z, v in self.class_test1(op, x, it, y):
                        for w, b in self.truth(v, z):
                            if b:
                                out.append((w, TRUE))
                            else:
                                nxt.append(w)
                cur = nxt
            return out + [(y, FALSE) for y in cur]
        return self.class_test1(op, x, c, st)

    def class_test1(self, op, x, c, st):
        if c.op in ('tupleof',):
            c = c
        if op == 'isinstance':
            k = self.cls_of(x, st) if x.op in ('struct', 'enum', 'obj', 'sym') or x.op == 'call' else None
            if k is not None and k[0] == 'inst' and isinstance(k[1], Cls):
                ct = T('class', k[1].qual)
                if self.subclass(ct, c):
                    return [(st, TRUE)]
                if x.op in ('struct', 'enum') and c.op in ('class', 'glob'):
                    return [(st, kbool(self.subclass(ct, c)))]
            h = st.h(x)
            if h is not None and h.kind in ('list', 'dict', 'set') and c.op == 'glob':
                if c.a[0] in ('builtins.list', 'builtins.dict', 'builtins.set'):
                    return [(st, kbool(c.a[0] == f'builtins.{h.kind}'))]
                if c.a[0] in ('builtins.str', 'builtins.int', 'builtins.type', 'builtins.tuple'):
                    return [(st, FALSE)]
            if x.op == 'tuple' and c.op == 'glob' and c.a[0] in ('builtins.tuple', 'builtins.str', 'builtins.dict',
                                                                   'builtins.list', 'builtins.type'):
                return [(st, kbool(c.a[0] == 'builtins.tuple'))]
            if is_k(x) and c.op == 'glob' and c.a[0].startswith('builtins.'):
                import builtins
                t = getattr(builtins, c.a[0][9:], None)
                if isinstance(t, type):
                    return [(st, kbool(isinstance(kval(x), t)))]
            if is_k(x) and c.op == 'class':
                return [(st, FALSE)]
            if x.op in ('fn', 'bm', 'sm') and c.op == 'class':
                return [(st, FALSE)]
            if x.op in ('class',) and c.op == 'glob' and c.a[0] == 'builtins.type':
                return [(st, TRUE)]
        return [(st, T(op, x, c))]

    def b_builtins_type(self, args, kws, st, node):
        if len(args) == 1 and not kws:
            return [(st, self.type_of(args[0], st))]
        return None

    def b_builtins_callable(self, args, kws, st, node):
        if args and args[0].op in ('fn', 'bm', 'sm', 'class', 'partial'):
            return [(st, TRUE)]
        if args:
            c = self.cls_of(args[0], st)
            return [(st, T('callable', args[0]))]
        return None

    def b_builtins_hasattr(self, args, kws, st, node):
        if len(args) == 2 and is_k(args[1]):
            b, nm = args[0], kval(args[1])
            return [(st, mk_not(T('raises', T('attr', b, nm))))]
        return [(st, mk_not(T('raises', T('getattr', *args))))]

    def b_builtins_getattr(self, args, kws, st, node):
        if len(args) == 2 and is_k(args[1]) and isinstance(kval(args[1]), str):
            return self.get_attr(args[0], kval(args[1]), st, node)
        if len(args) == 2:
            b, k = args
            res = T('getattr', b, k)
            st = st.emit('getattr', b, k, node=node)
            if not st.tries:
                return [(st, res)]
            out = []
            a = T('raises', res)
            x = st.assume(a, False)
            if x is not None:
                out.append((x, res))
            x = st.assume(a, True)
            if x is not None:
                out.append((x, Sig('raise', T('exc', res), node=node)))
            return out
        if len(args) == 3:
            b, k, d = args
            if is_k(k) and (b, kval(k)) in st.over:
                return [(st, st.over[(b, kval(k))])]
            res = T('attr', b, kval(k)) if is_k(k) else T('getattr', b, k)
            st = st.emit('getattr', b, k, node=node)
            out = []
            x = st.assume(T('raises', res), False)
            if x is not None:
                out.append((x, res))
            x = st.assume(T('raises', res), True)
            if x is not None:
                x = x.assume(T('excis', T('exc', res), T('glob', 'builtins.AttributeError')), True)
                if x is not None:
                    out.append((x, d))
            return out
        return None

    def b_builtins_setattr(self, args, kws, st, node):
        if len(args) != 3:
            return None
        b, k, v = args
        if is_k(k) and isinstance(kval(k), str):
            return self.set_attr(b, kval(k), v, st, node)
        return [(st.emit('setattr', b, k, v, node=node), NONE)]

    def b_builtins_delattr(self, args, kws, st, node):
        return [(st.emit('delattr', args[0], args[1], node=node), NONE)]

    def b_builtins_len(self, args, kws, st, node):
        v = args[0]
        items = self.static_items(v, st)
        if items is not None:
            return [(st, K(len(items)))]
        if v.op == 'empty':
            return [(st, K(0))]
        if v.op == 'repeat' and v.a[1] is not None:
            return [(st, v.a[1])]
        if v.op in ('keys', 'items', 'values'):
            v = v.a[0]
        h = st.h(v)
        if h is not None and len(h.log) == 1 and h.log[0][0] in ('ext', 'upd') and h.kind in ('list', 'dict', 'copy'):
            return [(st, T('len', h.log[0][1]))]
        if v.op == 'seqt' and len(v.a[0]) == 1 and v.a[0][0][0] == 'ext':
            return [(st, T('len', v.a[0][0][1]))]
        return [(st, T('len', st.versioned(v)))]

    def b_itertools_repeat(self, args, kws, st, node):
        if len(args) not in (1, 2) or kws or any(a.op == 'star' for a in args):
            return None
        return [(st, T('repeat', args[0], args[1] if len(args) == 2 else None))]

    def b_builtins_bool(self, args, kws, st, node):
        if not args:
            return [(st, FALSE)]
        t = self.truth_term(args[0], st)
        if t is not None:
            return [(st, t)]
        return [(x, b if isinstance(b, Sig) else kbool(b)) for x, b in self.truth(args[0], st)]

    def b_builtins_iter(self, args, kws, st, node):
        if len(args) != 1:
            return None
        v = args[0]
        if v.op in ('gen', 'map', 'filter', 'zip', 'enumerate', 'iter1', 'iter'):
            return [(st, v)]
        st = st.copy()
        n = st.counts.get(('iter', v), 0)
        st.counts[('iter', v)] = n + 1
        return [(st, T('iter1', v, n))]

    def b_builtins_next(self, args, kws, st, node):
        it = args[0]
        name = '%next'
        v = it
        if v.op == 'iter1' and v.a[0].op not in ('tuple',):
            used = st.counts.get(('used', v), 0)
            if used:
                return None
            st = st.copy()
            st.counts[('used', v)] = 1
        fid, info = self.frame(st)

        def body(y, e, p):
            return [(y, Sig('nexted', e))]
        out = []
        for x, sg in self.iterate(v, st, body, node):
            if sg.kind == 'nexted':
                out.append((x, sg.val))
            elif sg.kind == 'next':
                if len(args) > 1:
                    out.append((x, args[1]))
                else:
                    out.append((x, Sig('raise', T('call', T('glob', 'builtins.StopIteration'), (), ()), node=node)))
            else:
                out.append((x, sg))
        return out

    def anyall(self, v, st, node, stop):
        def body(y, e, p):
            return [(z, b if isinstance(b, Sig) else BREAK if b == stop else NEXT) for z, b in self.truth(e, y)]
        out = []
        for x, sg in self.iterate(v, st, body, node):
            if sg.kind == 'break':
                out.append((x, kbool(stop)))
            elif sg.kind == 'next':
                out.append((x, kbool(not stop)))
            else:
                out.append((x, sg))
        return out

    def b_builtins_any(self, args, kws, st, node):
        return self.anyall(args[0], st, node, True)

    def b_builtins_all(self, args, kws, st, node):
        return self.anyall(args[0], st, node, False)

    def b_builtins_list(self, args, kws, st, node):
        return self.fill_from('list', args[0] if args else None, st, node)

    def b_builtins_set(self, args, kws, st, node):
        return self.fill_from('set', args[0] if args else None, st, node)

    def b_builtins_frozenset(self, args, kws, st, node):
        if not args:
            return [(st, T('empty', 'frozenset'))]
        return self.fill_from('set', args[0], st, node)

    def b_builtins_tuple(self, args, kws, st, node):
        if not args:
            return [(st, T('tuple', ()))]
        v = args[0]
        if v.op in ('tuple', 'seqt'):
            return [(st, v)]
        if v.op == 'empty':
            return [(st, T('tuple', ()))]
        out = []
        for x, o in self.fill_from('list', v, st, node):
            if isinstance(o, Sig):
                out.append((x, o))
                continue
            h = x.h(o)
            if all(p[0] in ('one', 'ext') for p in h.log):
                out.append((x, self.mk_tuple_from_ops(h.log, x)))
            else:
                x = x.copy()
                x.heap[o.a[0]] = type(h)('tuple', h.log, None, h.node)
                out.append((x, o))
        return out

    def b_builtins_dict(self, args, kws, st, node):
        st, o = st.alloc('dict', node=node)
        res = [(st, None)]
        if args:
            if args[0].op == 'star':
                return None
            res = self.dict_from(o, args[0], st, node)
        out = []
        for x, sg in res:
            if isinstance(sg, Sig):
                out.append((x, sg))
                continue
            for k, v in kws:
                x = x.log(o, *(self.dict_ops(v, x) if k is None else (('set', K(k), v),)))
            out.append((x, o))
        return out

    def b_builtins_sorted(self, args, kws, st, node):
        kw = dict(kws)
        key, rev = kw.get('key', NONE), kw.get('reverse', FALSE)
        src = [(st, args[0])]
        if args[0].op in ('gen', 'map', 'filter', 'filterfalse', 'zip', 'enumerate', 'iter1', 'chain'):
            src = self.fill_from('list', args[0], st, node)

        def go(x, v):
            x, o = x.alloc('list', (('sorted', v, key, rev),), node=node)
            return [(x.emit('sorted', o, v, key, rev, node=node), o)]
        return seq(src, go)

    def b_builtins_reversed(self, args, kws, st, node):
        v = args[0]
        items = self.static_items(v, st)
        if items is not None:
            return [(st, T('tuple', tuple(reversed(items))))]
        h = st.h(v)
        if h is not None and h.kind == 'list':
            st, o = st.alloc('list', h.log + (('mut', 'reverse', ()),))
            return [(st, o)]
        return [(st, T('reversed', st.versioned(v)))]

    def b_builtins_enumerate(self, args, kws, st, node):
        start = args[1] if len(args) > 1 else dict(kws).get('start', K(0))
        return [(st, T('enumerate', args[0], start))]

    def b_builtins_zip(self, args, kws, st, node):
        if any(a.op == 'star' for a in args):
            return None
        return [(st, T('zip', tuple(args)))]

    b_itertools_zip_longest = None

    def b_builtins_map(self, args, kws, st, node):
        return [(st, T('map', args[0], tuple(args[1:])))]

    def b_builtins_filter(self, args, kws, st, node):
        return [(st, T('filter', args[0], args[1]))]

    def b_itertools_filterfalse(self, args, kws, st, node):
        return [(st, T('filterfalse', args[0], args[1]))]

    def b_itertools_count(self, args, kws, st, node):
        if not args:
            return [(st, T('count'))]
        return None

    def b_builtins_range(self, args, kws, st, node):
        if len(args) == 1 and args[0].op == 'len':
            return [(st, T('rangelen', args[0].a[0]))]
        if len(args) == 2 and is_k(args[0], 0) and args[1].op == 'len':
            return [(st, T('rangelen', args[1].a[0]))]
        if len(args) == 1 and is_k(args[0]) and isinstance(kval(args[0]), int) and 0 <= kval(args[0]) <= 8:
            return [(st, T('tuple', tuple(K(i) for i in range(kval(args[0])))))]
        return [(st, T('range', tuple(args)))]

    def b_itertools_chain(self, args, kws, st, node):
        ops = []
        for a in args:
            ops.append(('ext', a.a[0]) if False else ('ext', a))
        if any(a.op == 'star' for a in args):
            return None
        return [(st, T('chain', tuple(ops)))]

    def b_itertools_chain_from_iterable(self, args, kws, st, node):
        items = self.static_items(args[0], st)
        if items is not None:
            return [(st, T('chain', tuple(('ext', a) for a in items)))]
        return None

    def b_functools_partial(self, args, kws, st, node):
        if any(a.op == 'star' for a in args):
            return None
        f = args[0]
        if f.op == 'partial':
            return [(st, T('partial', f.a[0], f.a[1] + tuple(args[1:]), f.a[2] + tuple(kws)))]
        return [(st, T('partial', f, tuple(args[1:]), tuple(kws)))]

    def b_functools_wraps(self, args, kws, st, node):
        return [(st, T('wrapsdec'))]

    def b_functools_update_wrapper(self, args, kws, st, node):
        st = st.emit('call', T('glob', 'functools.update_wrapper'), tuple(args), tuple(kws), args[0], node=node)
        return [(st, args[0])]

    def b_functools_reduce(self, args, kws, st, node):
        f, xs = args[0], args[1]
        init = args[2] if len(args) > 2 else None
        if init is None:
            return None
        fid, info = self.frame(st)
        name = '%acc'
        outer_val = st.frames[fid][0].get(name)
        st = st.setvar(fid, name, init)

        def body(y, e, p):
            acc = y.frames[fid][0][name]
            return [(z, v if isinstance(v, Sig) else NEXT) if isinstance(v, Sig) else (z.setvar(fid, name, v), NEXT)
                    for z, v in self.call(f, [acc, e], [], y, node)]
        out = []
        for x, sg in self.iterate(xs, st, body, node):
            out.append((x, x.frames[fid][0][name]) if sg.kind == 'next' else (x, sg))
        return out

    def minmax(self, args, kws, st, node, is_max):
        if kws or len(args) != 2 or any(a.op == 'star' for a in args):
            return None
        a, b = args
        # min(a, b) is b if b < a else a; max(a, b) is b if b > a else a
        t = mk_cmp('lt', a, b) if is_max else mk_cmp('lt', b, a)
        return [(x, v if isinstance(v, Sig) else b if v else a) for x, v in self.truth(t, st)]

    def b_builtins_min(self, args, kws, st, node):
        return self.minmax(args, kws, st, node, False)

    def b_builtins_max(self, args, kws, st, node):
        return self.minmax(args, kws, st, node, True)

    def b_builtins_vars(self, args, kws, st, node):
        if len(args) == 1:
            return [(st, T('attr', args[0], '__dict__'))]
        return None

    def b_operator_itemgetter(self, args, kws, st, node):
        return [(st, T('opget', 'itemgetter', tuple(args)))]

    def b_operator_attrgetter(self, args, kws, st, node):
        return [(st, T('opget', 'attrgetter', tuple(args)))]

    def b_operator_methodcaller(self, args, kws, st, node):
        return [(st, T('opget', 'methodcaller', tuple(args)))]

    def _op(name, n):
        def f(self, args, kws, st, node):
            if len(args) != 2:
                return None
            return self.compare_r(getattr(ast, n)(), args[0], args[1], st, node)
        return f
    for _n, _a in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq'),
                   ('is_', 'Is'), ('is_not', 'IsNot')):
        locals()['b_operator_' + _n] = _op('operator.' + _n, _a)
    del _op, _n, _a

    def b_operator_not_(self, args, kws, st, node):
        return [(x, b if isinstance(b, Sig) else kbool(not b)) for x, b in self.truth(args[0], st)]

    def b_operator_truth(self, args, kws, st, node):
        return self.b_builtins_bool(args, kws, st, node)

    def b_operator_contains(self, args, kws, st, node):
        return self.compare_r(ast.In(), args[1], args[0], st, node)

    def b_operator_getitem(self, args, kws, st, node):
        return self.get_item(args[0], args[1], st, node)

    def b_operator_setitem(self, args, kws, st, node):
        return self.set_item(args[0], args[1], args[2], st, node)

    def b_operator_call(self, args, kws, st, node):
        return self.call(args[0], args[1:], kws, st, node)

    def b_collections_defaultdict(self, args, kws, st, node):
        if len(args) == 1 and not kws:
            return [st.alloc('defaultdict', node=node)]
        return None

    def b_collections_OrderedDict(self, args, kws, st, node):
        return self.b_builtins_dict(args, kws, st, node)

    def b_collections_deque(self, args, kws, st, node):
        return None

    def b_typing_cast(self, args, kws, st, node):
        return [(st, args[1])] if len(args) == 2 else None
