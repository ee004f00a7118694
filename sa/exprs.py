"""Expression part of the value-flow analysis."""
import ast

from .terms import (T, K, kval, is_k, mk_not, mk_is, mk_cmp, kbool, TRUE, FALSE, NONE, BOOL_OPS, sym, show, subst,
                    contains, walk, is_fixed, len_ge, linear)
from .state import St, Sig, Limit
from .program import Cls


def seq(results, f):
    out = []
    for st, v in results:
        if isinstance(v, Sig):
            out.append((st, v))
        else:
            out.extend(f(st, v))
    if len(out) > 6000:
        raise Limit('too many paths')
    return out


BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%', 'Pow': '**', 'BitOr': '|',
       'BitAnd': '&', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>', 'MatMult': '@'}

DUNDER_BIN = {'__lt__': 'Lt', '__le__': 'LtE', '__gt__': 'Gt', '__ge__': 'GtE', '__eq__': 'Eq', '__ne__': 'NotEq'}


class ExprMixin:
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(st, T('opaque', ast.unparse(e)))]
        return m(e, st)

    def ev_many(self, es, st, display=False):
        """-> [(st, [values])]; starred elements become T('star', x)"""
        res = [(st, [])]
        for e in es:
            nr = []
            for x, acc in res:
                if isinstance(acc, Sig):
                    nr.append((x, acc))
                    continue
                if isinstance(e, ast.Starred):
                    r = [(y, v if isinstance(v, Sig) else T('star', v)) for y, v in
                         (seq(self.ev(e.value, x), lambda z, w: self.fill_from('list', w, z, e) if self.lazy(w, z)
                              else [(z, w)]) if display else self.ev(e.value, x))]
                else:
                    r = self.ev(e, x)
                nr.extend((y, v if isinstance(v, Sig) else acc + [v]) for y, v in r)
            res = nr
        return res

    # -- atoms ------------------------------------------------------------------------------------------------------
    def e_Lambda(self, e, st):
        if not st.stack:
            return [(st, T('opaque', 'lambda'))]
        fid, info = self.frame(st)
        if id(e) not in self.prog.node_info:
            self.prog.node_info[id(e)] = (f'{info.qual}.<locals>.<lambda>', info.module, info.cls)
        self._keep(e)
        return [(st, T('fn', id(e), fid))]

    def e_Constant(self, e, st):
        return [(st, K(e.value))]

    def e_Name(self, e, st):
        fid, info = self.frame(st)
        v = self.lookup_name(e.id, st)
        if v is None:
            v = T('undef', e.id)
        if v.op == 'lazy_unbound':
            pass
        return [(st, v)]

    def lookup_name(self, name, st):
        fid, info = self.frame(st)
        top = info
        while True:
            v = st.frames[fid][0].get(name)
            if v is not None:
                return v
            if name in info.locals and fid == st.stack[-1][1]:
                return T('unbound', name)
            if not info.parent or info.parent not in st.frames:
                break
            fid = info.parent
            info = st.frames[fid][1]
        m = top.module
        if m is None:
            return None
        if name == '__class__' and top.cls is not None:
            return T('class', top.cls.qual)
        r = self.prog.resolve(m, name)
        if r is not None and r.op == 'fn':
            r = self.norm_fn(r)
            n = self.fn_node(r)
            if n is not None:
                r = self.decorated_module_fn(n, r, m)
        return r

    def decorated_module_fn(self, node, f, m):
        return f

    def e_NamedExpr(self, e, st):
        return seq(self.ev(e.value, st), lambda x, v: [(self.store_name(e.target.id, v, x), v)])

    def e_JoinedStr(self, e, st):
        parts = [v.value if isinstance(v, ast.FormattedValue) else v for v in e.values]
        return seq(self.ev_many(parts, st), lambda x, vs: [(x, T('fstr', tuple(vs)))])

    def e_Tuple(self, e, st):
        return seq(self.ev_many(e.elts, st, True), lambda x, vs: [(x, self.mk_tuple_from_ops(
            [('ext', v.a[0]) if v.op == 'star' else ('one', v) for v in vs], x))])

    def display(self, kind, e, st):
        return seq(self.ev_many(e.elts, st, True), lambda x, vs: [x.alloc(kind, self.flat_ops(
            [('ext', v.a[0]) if v.op == 'star' else ('one', v) for v in vs], x), node=e)])

    def e_List(self, e, st):
        return self.display('list', e, st)

    def e_Set(self, e, st):
        return self.display('set', e, st)

    def e_Dict(self, e, st):
        flat = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                flat.append(k)
            flat.append(v)

        def go(x, vs):
            ops, i = [], 0
            for k, v in zip(e.keys, e.values):
                if k is None:
                    ops.extend(self.dict_ops(vs[i], x))
                    i += 1
                else:
                    ops.append(('set', vs[i], vs[i + 1]))
                    i += 2
            return [x.alloc('dict', ops, node=e)]
        return seq(self.ev_many(flat, st), go)

    def dict_ops(self, v, st):
        """ops that put the contents of mapping v into a dict"""
        h = st.h(v)
        if h is not None and h.kind in ('dict', 'defaultdict') and not any(o[0] == 'prefix' for o in h.log):
            return h.log
        if v.op == 'empty':
            return ()
        return (('upd', v),)

    def flat_ops(self, ops, st):
        out = []
        for o in ops:
            if o[0] == 'ext':
                v = o[1]
                if v.op == 'tuple':
                    out.extend(('one', x) for x in v.a[0])
                    continue
                if v.op in ('seqt', 'chain'):
                    out.extend(self.flat_ops(v.a[0], st))
                    continue
                if v.op == 'empty':
                    continue
                h = st.h(v)
                if h is not None and h.kind in ('list', 'tuple') and not any(o2[0] in ('prefix', 'mut', 'set', 'del')
                                                                              for o2 in h.log):
                    out.extend(h.log)
                    continue
                if v.op == 'items' and False:
                    pass
            out.append(o)
        return tuple(out)

    def mk_tuple_from_ops(self, ops, st):
        ops = self.flat_ops(ops, st)
        if all(o[0] == 'one' for o in ops):
            return T('tuple', tuple(o[1] for o in ops))
        return T('seqt', tuple(ops))

    # -- operators --------------------------------------------------------------------------------------------------
    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(x, v if isinstance(v, Sig) else kbool(not v)) for x, v in self.branch(e.operand, st)] \
                if self.forks(e.operand) else \
                seq(self.ev(e.operand, st), lambda x, v: [(x, mk_not(self.truth_term(v, x)))]
                    if self.truth_term(v, x) is not None else
                    [(y, kbool(not b)) for y, b in self.truth(v, x)])

        def go(x, v):
            if is_k(v) and isinstance(e.op, ast.USub) and isinstance(kval(v), (int, float)):
                return [(x, K(-kval(v)))]
            return [(x, T('un', type(e.op).__name__, v))]
        return seq(self.ev(e.operand, st), go)

    def forks(self, e):
        return isinstance(e, (ast.BoolOp, ast.IfExp)) or isinstance(e, ast.Compare) and len(e.ops) > 1

    def e_BinOp(self, e, st):
        return seq(self.ev(e.left, st), lambda x, l: seq(self.ev(e.right, x), lambda y, r:
                                                          self.binop(e.op, l, r, y, e)))

    def binop(self, op, l, r, st, node):
        o = BIN.get(type(op).__name__, '?')
        if is_k(l) and is_k(r):
            try:
                a, b = kval(l), kval(r)
                if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
                    v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '%': lambda: a % b}.get(o)
                    if v is not None and not (o == '%' and isinstance(a, str)) and not (
                            o == '*' and (isinstance(a, str) or isinstance(b, str))):
                        return [(st, K(v()))]
            except Exception:
                pass
        hl, hr = st.h(l), st.h(r)
        if o == '*' and (r.op == 'len' and l.op != 'len' or l.op == 'len' and r.op != 'len'):
            one = self.static_items(r if l.op == 'len' else l, st)
            if one is not None and len(one) == 1:
                return [(st, T('repeat', one[0], l if l.op == 'len' else r))]
        if o == '+' and (hl is not None and hl.kind == 'list' or hr is not None and hr.kind == 'list'):
            st, n = st.alloc('list', self.flat_ops([('ext', l), ('ext', r)], st), node=node)
            return [(st, n)]
        if o == '+' and (l.op in ('tuple', 'seqt') or r.op in ('tuple', 'seqt')):
            return [(st, self.mk_tuple_from_ops([('ext', l), ('ext', r)], st))]
        if o == '|' and (hl is not None and hl.kind == 'dict' or hr is not None and hr.kind == 'dict'):
            st, n = st.alloc('dict', tuple(self.dict_ops(l, st)) + tuple(self.dict_ops(r, st)), node=node)
            return [(st, n)]
        if o in ('-', '&', '|', '^'):
            l, r = [h.src if h is not None and h.src is not None else strip_keys(x) for x, h in ((l, hl), (r, hr))]
        if o in ('&',) and show(l) > show(r):
            l, r = r, l
        res = T('bin', o, st.versioned(l), st.versioned(r))
        return self.may_raise(st, res, ('builtins.TypeError', 'builtins.ZeroDivisionError', 'builtins.ArithmeticError'))

    def may_raise(self, st, res, names):
        """a primitive operation raises only into handlers that name its exception"""
        hit = st.tries and any(any(d is not None and any(n in d for n in names) for d in ds) for ds in st.tries)
        if not hit:
            return [(st, res)]
        exc = T('exc', res)
        out = []
        a = T('raises', res)
        y = st.assume(a, False)
        if y is not None:
            out.append((y, res))
        y = st.assume(a, True)
        if y is not None:
            for n in names:
                if any(any(d is not None and n in d for d in ds) for ds in st.tries):
                    out.append((y, Sig('raise', T('call', T('glob', n), (T('from', res),), ()))))
                    break
        return out

    def e_BoolOp(self, e, st):
        is_or = isinstance(e.op, ast.Or)

        def step(i, x):
            last = i == len(e.values) - 1
            if last:
                return self.ev(e.values[i], x)

            def go(y, v):
                out = []
                for z, b in self.truth(v, y):
                    if isinstance(b, Sig):
                        out.append((z, b))
                    elif b == is_or:
                        out.append((z, kbool(b) if self.is_bool(v) else v))
                    else:
                        out.extend(step(i + 1, z))
                return out
            return seq(self.ev(e.values[i], x), go)
        return step(0, st)

    def is_bool(self, v):
        return v.op in BOOL_OPS or is_k(v, True) or is_k(v, False)

    def e_IfExp(self, e, st):
        out = []
        for x, b in self.branch(e.test, st):
            if isinstance(b, Sig):
                out.append((x, b))
            else:
                out.extend(self.ev(e.body if b else e.orelse, x))
        return out

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            return seq(self.ev(e.left, st), lambda x, l: seq(self.ev(e.comparators[0], x), lambda y, r:
                                                              self.compare_r(e.ops[0], l, r, y, e)))

        def step(i, l, x):
            def go(y, r):
                def go2(z, c):
                    if i == len(e.ops) - 1:
                        return [(z, c)]
                    out = []
                    for w, b in self.truth(c, z):
                        if isinstance(b, Sig):
                            out.append((w, b))
                        elif b:
                            out.extend(step(i + 1, r, w))
                        else:
                            out.append((w, FALSE))
                    return out
                return seq(self.compare_r(e.ops[i], l, r, y, e), go2)
            return seq(self.ev(e.comparators[i], x), go)
        return seq(self.ev(e.left, st), lambda x, l: step(0, l, x))

    def compare_r(self, op, l, r, st, node=None):
        n = type(op).__name__
        if n in ('In', 'NotIn'):
            items = self.static_items(r, st)
            h = st.h(r)
            if items is None and h is not None and h.kind == 'set' and all(o[0] == 'one' for o in h.log):
                items = tuple(o[1] for o in h.log)
            if items is None and h is not None and h.kind == 'dict' and all(o[0] == 'set' for o in h.log):
                items = tuple(o[1] for o in h.log)
            if items is not None and not (is_k(r) and isinstance(kval(r), str)):
                out, cur = [], st
                for it in items:
                    for x, b in self.truth(mk_cmp('eq', l, it) if not is_k(it, None) else mk_is(it, l), cur):
                        if b:
                            out.append((x, kbool(n == 'In')))
                        else:
                            nxt = x
                            break
                    else:
                        return out
                    cur = nxt
                return out + [(cur, kbool(n != 'In'))]
            if r.op == 'seqt' and any(o[0] == 'one' for o in r.a[0]):
                pass
            r = strip_keys(r)
            if r.op == 'empty':
                return [(st, kbool(n != 'In'))]
            c = T('in', l, self.keyset(r, st))
            st = self.touch('in', st, l, r)
            return [(st, c if n == 'In' else mk_not(c))]
        return [(st, self.compare(op, l, r, st))]

    def keyset(self, r, st):
        """a term for the set of keys or elements of r: a container filled in a loop that put in exactly the elements of
        its domain is as good as the domain"""
        h = st.h(r)
        if h is not None and h.src is not None:
            return h.src
        if h is not None and h.kind in ('dict', 'set', 'list') and len(h.log) == 1 and h.log[0][0] == 'loop':
            S, o = h.log[0][1], h.log[0][2]
            if isinstance(S.dom, T) and S.dom.op not in ('zip', 'reversed', 'sorted', 'loopres', 'while') and \
                    any(p.goes_on for p in S.paths) and \
                    all(p.ops.get(o) and all(x[0] in ('one', 'set') and x[1] is T('elem', S.dom, S.L) for x in p.ops[o])
                        for p in S.paths if p.goes_on):
                return strip_keys(S.dom)
        return self.vers(r, st)

    def touch(self, what, st, *a):
        return st

    def vers(self, t, st):
        """a term whose identity changes when the container was modified on this path"""
        return st.versioned(t)

    def compare(self, op, l, r, st):
        n = type(op).__name__ if not isinstance(op, str) else op
        if n in ('Is', 'IsNot'):
            c = self.is_term(l, r, st)
            return c if n == 'Is' else mk_not(c)
        if n in ('Gt', 'GtE'):
            l, r = r, l
            n = {'Gt': 'Lt', 'GtE': 'LtE'}[n]
        if n in ('Lt', 'LtE') and (l.op == 'keys' or r.op == 'keys'):
            l, r = strip_keys(l), strip_keys(r)
            sub = T('le', self.keyset(l, st), self.keyset(r, st))
            return sub
        if n == 'Lt':
            return mk_cmp('lt', l, r)
        if n == 'LtE':
            return mk_cmp('le', l, r)
        if n in ('Eq', 'NotEq'):
            c = self.eq_term(l, r, st)
            return c if n == 'Eq' else mk_not(c)
        return T('cmp', n, l, r)

    def is_term(self, l, r, st):
        for a, b in ((l, r), (r, l)):
            if is_k(a, None) and st.h(b) is not None:
                return FALSE
            if is_k(a, None) and b.op == 'struct':
                return FALSE
        if l.op == 'obj' and r.op == 'obj' and l is not r:
            return FALSE
        return mk_is(l, r)

    def eq_term(self, l, r, st):
        if l is r and l.op == 'len':
            return TRUE
        # f == g on empty containers: x == () / [] / {} is not emptiness of an arbitrary x; keep as equality
        if l.op == 'set_of' or r.op == 'set_of':
            pass
        for a, b in ((l, r), (r, l)):
            h = st.h(a)
            if h is not None and not h.log and b.op == 'attr':
                return mk_not(T('truthy', st.versioned(b)))
            if a.op == 'tuple' and not a.a[0] and b.op in ('attr', 'sym', 'seqt'):
                return mk_not(T('truthy', st.versioned(b)))
        hl, hr = st.h(l), st.h(r)
        if l.op == 'obj' and r.op == 'obj' and l is r:
            return TRUE
        return mk_cmp('eq', l, r)

    # -- truth ------------------------------------------------------------------------------------------------------
    def truth_term(self, v, st):
        """the truth value of v as one boolean term; None if it has to be split"""
        if is_k(v):
            try:
                return kbool(bool(kval(v)))
            except Exception:
                return TRUE
        if v.op in BOOL_OPS:
            return v
        if v.op == 'enum':
            return kbool(v.a[2] != 0)
        if v.op in ('class', 'fn', 'mod', 'sentinel', 'typeof', 'bm', 'partial', 'struct', 'gen', 'super'):
            if v.op == 'struct':
                return TRUE
            return TRUE
        if v.op == 'glob' and v.a[0].startswith('builtins.'):
            return TRUE
        if v.op == 'tuple':
            return kbool(bool(v.a[0]))
        if v.op == 'empty':
            return FALSE
        if v.op == 'fstr':
            return TRUE
        if v.op in ('keys', 'items', 'values', 'len', 'copyof'):
            return self.truth_term(v.a[0], st)
        if v.op in ('bin', 'idx') and contains(v, lambda y: y.op == 'idx'):
            c = mk_cmp('eq', v, K(0))
            if c.op != 'eq':
                return mk_not(c)
        if v.op == 'bin' and v.a[0] == '-' and self.setish(v):
            return mk_not(T('le', v.a[1], v.a[2]))
        if v.op == 'seqt':
            if any(o[0] == 'one' for o in v.a[0]):
                return TRUE
            if len(v.a[0]) == 1 and v.a[0][0][0] == 'ext':
                return self.truth_term(v.a[0][0][1], st)
            return None
        h = st.h(v)
        if h is not None:
            if h.kind == 'inst':
                return None if self.has_truth(v, st) else TRUE
            if not h.log:
                return FALSE
            if any(o[0] in ('one', 'set') for o in h.log) and not any(o[0] in ('del', 'mut', 'pop', 'prefix')
                                                                     for o in h.log):
                return TRUE
            if len(h.log) == 1 and h.log[0][0] in ('ext', 'upd', 'sorted'):
                return self.truth_term(h.log[0][1], st)
            if all(o[0] in ('ext', 'upd') for o in h.log):
                return None
            if len(h.log) == 1 and h.log[0][0] == 'loop':
                some = self.some_outside(h.log[0][1], h.log[0][2], st)
                if some is not None:
                    return some
            return T('truthy', st.versioned(v))
        c = self.cls_of(v, st)
        if c is not None and c[0] == 'inst':
            if self.has_truth(v, st):
                return None
        return T('truthy', st.versioned(v))

    def some_outside(self, S, o, st):
        """the truth of a container that collects exactly the elements of one domain that are not in another"""
        if not isinstance(S.dom, T) or S.dom.op in ('zip', 'reversed', 'sorted', 'loopres', 'while'):
            return None
        pol = {}
        for p in S.paths:
            if not p.goes_on:
                return None
            adds = bool(p.ops.get(o))
            if adds and any(x[0] not in ('one', 'set') for x in p.ops[o]):
                return None
            ins = [(k, b) for k, b in p.facts.items() if k.op == 'in' and k.a[0] is T('elem', S.dom, S.L)]
            if len(ins) != 1 or len([k for k in p.facts if k.op not in ('first', 'last')]) != 1:
                return None
            if pol.setdefault((ins[0][0].a[1], ins[0][1]), adds) != adds:
                return None
        if len(pol) != 2 or len({k for k, b in pol}) != 1:
            return None
        (within, _), = {(k, 0) for k, b in pol}
        if contains(within, lambda y: y is S.L):
            return None
        if pol[(within, False)] and not pol[(within, True)]:
            return mk_not(T('le', strip_keys(S.dom), within))
        return None

    def setish(self, v):
        def s(x):
            return x.op in ('keys',) or x.op == 'attr' and ('keys' in x.a[1] or 'fields' in x.a[1]) or \
                x.op == 'sym' and 'kwargs' in x.a[0] or x.op == 'ver' and s(x.a[0])
        return s(v.a[1]) or s(v.a[2])

    def has_truth(self, v, st):
        c = self.cls_of(v, st)
        if c is None or not isinstance(c[1], Cls):
            return False
        f = c[1].lookup('__bool__')
        return f is not None and f[1] is not None and (c[1].name in self.open_truth)

    def truth(self, v, st):
        """-> [(st, bool | Sig)]"""
        t = self.truth_term(v, st)
        if t is not None:
            return self.assume_both(t, st)
        if v.op == 'seqt' or st.h(v) is not None and st.h(v).kind != 'inst':
            ops = v.a[0] if v.op == 'seqt' else st.h(v).log
            out, cur = [], [st]
            for o in ops:
                nxt = []
                for x in cur:
                    for y, b in (self.truth(o[1], x) if o[0] in ('ext', 'upd') else
                                 self.assume_both(T('truthy', T('loopout', v)), x)):
                        if b:
                            out.append((y, True))
                        else:
                            nxt.append(y)
                cur = nxt
            return out + [(x, False) for x in cur]
        c = self.cls_of(v, st)
        f = c[1].lookup('__bool__')
        r = self.call_node(f[1], 0, [v], [], st, f[1])
        if r is None:
            return self.assume_both(T('truthy', v), st)
        return seq(r, lambda x, w: self.truth(w, x))

    def assume_both(self, t, st):
        if is_k(t):
            return [(st, bool(kval(t)))]
        out = []
        for b in (True, False):
            x = st.assume(t, b)
            if x is not None:
                out.append((x, b))
        return out

    def branch(self, e, st):
        """evaluate e as a condition -> [(st, bool | Sig)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, v if isinstance(v, Sig) else not v) for x, v in self.branch(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            is_or = isinstance(e.op, ast.Or)
            out, cur = [], [st]
            for i, sub in enumerate(e.values):
                nxt = []
                for x in cur:
                    for y, b in self.branch(sub, x):
                        if isinstance(b, Sig) or b == is_or:
                            out.append((y, b))
                        else:
                            nxt.append(y)
                cur = nxt
            return out + [(x, not is_or) for x in cur]
        if isinstance(e, ast.IfExp):
            out = []
            for x, b in self.branch(e.test, st):
                if isinstance(b, Sig):
                    out.append((x, b))
                else:
                    out.extend(self.branch(e.body if b else e.orelse, x))
            return out
        return seq(self.ev(e, st), lambda x, v: self.truth(v, x))

    # -- classes of values ------------------------------------------------------------------------------------------
    def cls_of(self, v, st):
        """('inst', Cls) / ('class', Cls) of a value with statically known class"""
        r = st.types.get(v)
        if r is not None:
            return r
        if v.op == 'class':
            return 'class', self.prog.classes[v.a[0]]
        if v.op == 'typeof':
            c = self.cls_of(v.a[0], st)
            return ('class', c[1]) if c is not None and c[0] == 'inst' else None
        if v.op == 'struct':
            return 'inst', self.prog.classes[v.a[0]]
        if v.op == 'enum':
            return 'inst', self.prog.classes[v.a[0]]
        if v.op == 'call' and v.a[0].op == 'class':
            return 'inst', self.prog.classes[v.a[0].a[0]]
        if v.op == 'call' and v.a[0].op == 'typeof':
            return self.cls_of(v.a[0].a[0], st)
        h = st.h(v)
        if h is not None and h.cls is not None:
            return 'inst', h.cls
        for k, b in st.facts.items():
            if b and k.op == 'isinstance' and k.a[0] is v:
                if k.a[1].op == 'class':
                    return 'inst', self.prog.classes[k.a[1].a[0]]
                c = self.cls_of(k.a[1], st)
                if c is not None and c[0] == 'class':
                    return 'inst', c[1]
            if b and k.op in ('is', 'eq') and k.a[0].op == 'typeof' and k.a[1].op == 'typeof':
                for p, q in (k.a, k.a[::-1]):
                    if p.a[0] is v and q.a[0] is not v:
                        c = st.types.get(q.a[0])
                        if c is not None:
                            return c
        return None

    # -- attributes -------------------------------------------------------------------------------------------------
    def mangle(self, name, st):
        if name.startswith('__') and not name.endswith('__'):
            fid, info = self.frame(st)
            if info.cls is not None:
                return f'_{info.cls.name.lstrip("_")}{name}'
        return name

    def e_Attribute(self, e, st):
        return seq(self.ev(e.value, st), lambda x, b: self.get_attr(b, e.attr, x, e))

    def class_attr(self, c, name):
        """term of a plain class-level attribute of a package class"""
        v = c.attrs.get(name)
        e = self.prog.enum_member(c.qual, name)
        if e is not None:
            return e
        if isinstance(v, ast.ClassDef):
            return T('class', f'{c.qual}.{name}')
        if isinstance(v, ast.Constant):
            return K(v.value)
        if v is not None:
            r = None
            if isinstance(v, ast.AST) and isinstance(v, ast.expr):
                r = self.static_expr(v, c.module, None)
            if r is not None and r.op != 'default':
                return r
        return T('attr', T('class', c.qual), name)

    def get_attr(self, b, name, st, node):
        fid, info = self.frame(st) if st.stack else (0, None)
        private = name.startswith('__') and not name.endswith('__')
        if private and info is not None and info.cls is not None:
            f = info.cls.lookup(name)
            name2 = self.mangle(name, st)
            if f is not None and isinstance(f[1], ast.FunctionDef):
                return self.bind_method(b, name, f[0], f[1], st, node)
            if f is None:
                name = name2
        if name == '__class__':
            return [(st, self.type_of(b, st))]
        if (b, name) in st.over:
            return [(st, st.over[(b, name)])]
        op = b.op
        if op == 'mod':
            r = self.prog.glob_attr(b, name)
            if r is not None and r.op == 'fn':
                r = self.norm_fn(r)
            if r is None or (b.a[0] in self.prog.modules and r.op in ('mod', 'glob') and
                             not r.a[0].startswith(self.prog.pkg + '.')):
                r = T('attr', b, name)
            return [(st, r)]
        if op == 'glob':
            return [(st, T('glob', f'{b.a[0]}.{name}'))] if not b.a[0].startswith('builtins.') or \
                name[:2] == '__' and False else [(st, T('attr', b, name))]
        if op == 'super':
            return self.super_attr(b, name, st, node)
        if op == 'struct':
            for k, v in b.a[1]:
                if k == name:
                    return [(st, v)]
        if op == 'enum' and name in ('value', 'name'):
            if name == 'name':
                return [(st, K(b.a[1]))]
            if b.a[2] is not None:
                return [(st, K(b.a[2]))]
        if op == 'exc' and name == 'args':
            return [(st, T('attr', b, name))]
        if op in ('fn', 'bm') and name in ('__func__', '__wrapped__'):
            return [(st, T('attr', b, name))]
        c = self.cls_of(b, st)
        if c is not None and isinstance(c[1], Cls):
            kind, cls = c
            f = cls.lookup(name)
            if f is not None:
                owner, d = f
                if isinstance(d, ast.FunctionDef):
                    return self.bind_method(b, name, owner, d, st, node)
                if d is not None and isinstance(d, ast.expr) and not isinstance(d, ast.Lambda) and \
                        (kind == 'class' or name not in cls.annotated_inst(self)):
                    if name in cls.all_classvars():
                        pass
                    else:
                        v = self.class_attr(owner, name)
                        if (v.op in ('k', 'enum', 'class', 'sentinel') or v.op == 'tuple' and
                                all(is_k(x) for x in v.a[0])) and not self.mutable_class_attr(owner, name):
                            return [(st, v)]
                        if v.op in ('empty', 'tuple', 'call') and b.op == 'struct':
                            return [(st, v)]
                        if b.op == 'class':
                            return [(st, T('attr', T('class', owner.qual), name) if v.op not in ('mod', 'glob') else v)]
                if isinstance(d, ast.ClassDef):
                    return [(st, T('class', f'{owner.qual}.{name}'))]
                if isinstance(d, ast.Lambda):
                    self._keep(d)
                    if id(d) not in self.prog.node_info:
                        self.prog.node_info[id(d)] = (f'{owner.qual}.{name}', owner.module, owner)
                    return [(st, T('bm', id(d), b, name))]
            if name in cls.all_classvars() and kind == 'inst':
                return [(st, self.mk_attr(T('typeof', b), name, st))]
        hits = ('builtins.AttributeError',)
        res = self.mk_attr(b, name, st)
        if op in ('sym', 'elem', 'attr', 'item', 'call', 'key', 'phi'):
            return self.may_raise_attr(st, res)
        return [(st, res)]

    def may_raise_attr(self, st, res):
        hit = st.tries and any(d is not None and 'builtins.AttributeError' in d for ds in st.tries for d in ds)
        if not hit:
            return [(st, res)]
        out = []
        a = T('raises', res)
        for b in (False, True):
            y = st.assume(a, b)
            if y is not None:
                out.append((y, res if not b else Sig('raise', T('call', T('glob', 'builtins.AttributeError'),
                                                                 (T('from', res),), ()))))
        return out

    def mutable_class_attr(self, owner, name):
        return False

    def mk_attr(self, b, name, st):
        v = st.ver.get(('attr', b, name))
        return T('attr', b, name) if not v else T('attr', b, name, v)

    def bind_method(self, b, name, owner, d, st, node):
        from .interp import fn_kind, opaque_decos
        kind = fn_kind(d)
        self._keep(d)
        od = opaque_decos(d)
        c = self.cls_of(b, st)
        if od:
            if od == ['decorator_kw_method']:
                return [(st, T('bm', id(d), b, name))]
            return [(st, self.mk_attr(b, name, st))]
        if kind == 'property':
            if c is not None and c[0] == 'inst' or c is None:
                r = None
                if not self.is_opaque(d):
                    r = self.call_node(d, 0, [b], [], st, node)
                if r is not None:
                    return r
            return [(st, self.mk_attr(b, name, st))]
        if kind == 'static' or kind == 'static_new':
            return [(st, T('sm', id(d), b, name))]
        if kind == 'class':
            recv = b
            if c is not None and c[0] == 'inst':
                recv = T('typeof', b)
            return [(st, T('bm', id(d), recv, name))]
        if c is not None and c[0] == 'class':
            return [(st, T('sm', id(d), b, name))]   # plain function looked up on the class
        return [(st, T('bm', id(d), b, name))]

    def super_attr(self, b, name, st, node):
        cls = self.prog.classes[b.a[0]]
        recv = b.a[1]
        c = self.cls_of(recv, st)
        start = c[1] if c is not None and isinstance(c[1], Cls) and cls in c[1].mro() else cls
        f = start.lookup(name, after=cls)
        if f is not None and isinstance(f[1], ast.FunctionDef):
            from .interp import fn_kind
            k = fn_kind(f[1])
            self._keep(f[1])
            if k in ('static', 'static_new'):
                return [(st, T('sm', id(f[1]), recv, name))]
            if k == 'property':
                r = self.call_node(f[1], 0, [recv], [], st, node)
                if r is not None:
                    return r
            return [(st, T('bm', id(f[1]), recv, name, 1))]
        base = f[0] if f is not None and isinstance(f[0], str) else 'object'
        base = T('glob', 'builtins.object' if base == 'object' else base)
        return [(st, T('extm', base, name, recv))]

    def type_of(self, v, st):
        c = self.cls_of(v, st)
        h = st.h(v)
        if v.op == 'struct':
            return T('class', v.a[0])
        if is_k(v):
            return T('glob', f'builtins.{type(kval(v)).__name__}') if kval(v) is not None and kval(v) is not ... else \
                T('typeof', v)
        if v.op == 'tuple':
            return T('glob', 'builtins.tuple')
        if v.op in ('fstr',):
            return T('glob', 'builtins.str')
        if h is not None and h.kind in ('list', 'dict', 'set'):
            return T('glob', f'builtins.{h.kind}')
        if v.op == 'class':
            return T('typeof', v)
        return T('typeof', v)

    # -- subscripts -------------------------------------------------------------------------------------------------
    def e_Subscript(self, e, st):
        def go(x, b):
            if isinstance(e.slice, ast.Slice):
                parts = [p if p is not None else ast.Constant(None) for p in (e.slice.lower, e.slice.upper,
                                                                               e.slice.step)]
                return seq(self.ev_many(parts, x), lambda y, ps: self.mk_slice(b, ps, y))
            return seq(self.ev(e.slice, x), lambda y, k: self.get_item(b, k, y, e))
        return seq(self.ev(e.value, st), go)

    def mk_slice(self, b, ps, st):
        lo, hi, step = ps
        if is_k(lo, 0):
            lo = NONE
        items = self.static_items(b, st)
        if items is not None and all(is_k(p) and (kval(p) is None or isinstance(kval(p), int)) for p in ps):
            r = items[kval(lo):kval(hi):kval(step)]
            if st.h(b) is not None:
                st, o = st.alloc('list', [('one', x) for x in r])
                return [(st, o)]
            return [(st, T('tuple', tuple(r)))]
        if is_k(lo, None) and is_k(hi, None) and is_k(step, None):
            st, o = st.alloc('list', self.flat_ops([('ext', b)], st))
            return [(st, o)]
        h = st.h(b)
        if is_k(lo, None) and is_k(hi, None) and is_k(step, -1) and (h is None or h.kind == 'list'):
            if h is not None:
                st, o = st.alloc('list', h.log + (('mut', 'reverse', ()),))
                return [(st, o)]
            return [(st, T('reversed', st.versioned(b)))]
        res = T('slice', st.versioned(b), lo, hi) if is_k(step, None) else T('slice', st.versioned(b), lo, hi, step)
        return self.may_raise(st, res, ('builtins.TypeError',))

    def get_item(self, b, k, st, node):
        items = self.static_items(b, st)
        if items is not None and is_k(k) and isinstance(kval(k), int) and -len(items) <= kval(k) < len(items):
            return [(st, items[kval(k)])]
        if b.op == 'class' or b.op == 'glob':
            return [(st, T('item', b, k))]
        h = st.h(b)
        if h is not None and h.kind in ('dict', 'defaultdict'):
            v = self.heap_get(h, k)
            if v is not None and v != 'absent':
                return [(st, v)]
        res = self.mk_item(b, k, st)
        if h is not None and h.kind == 'list' and k.op == 'idx':
            m = self.mapped_elem(b, k.a[0], st)
            if m is not None:
                return [(st, m)]
        if b.op in ('call', 'attr', 'sym', 'elem', 'item', 'obj', 'ver'):
            out = []
            if st.known(T('in', k, self.vers(strip_keys(b), st))) is True:
                return [(st, res)]
            return self.may_raise(st, res, ('builtins.KeyError', 'builtins.IndexError', 'builtins.LookupError'))
        return [(st, res)]

    def heap_get(self, h, k):
        """value of key k in a heap dict; None if unknown; 'absent' if certainly not there"""
        for o in reversed(h.log):
            if o[0] == 'set':
                if o[1] is k:
                    return o[2]
                if is_k(o[1]) and is_k(k):
                    continue
                return None
            elif o[0] == 'upd':
                return None
            else:
                return None
        return 'absent'

    def mk_item(self, b, k, st):
        b2 = st.versioned(b)
        if k.op == 'idx' and len(k.a) > 1 and k.a[1] is b:
            return T('elem', b, k.a[0])
        if b.op == 'elem' and b.a[0].op == 'items' and is_k(k, 0):
            pass
        return T('item', b2, k)


def strip_keys(t):
    while t.op in ('keys',) or t.op == 'call' and t.a[0].op == 'glob' and \
            t.a[0].a[0] in ('builtins.set', 'builtins.frozenset') and len(t.a[1]) == 1:
        t = t.a[0] if t.op == 'keys' else t.a[1][0]
    return t
