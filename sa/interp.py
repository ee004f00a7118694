"""
Path-sensitive, inter-procedural value-flow analysis over the syntax tree.

Every path of the control-flow graph of a function (calls into the package inlined, loops as one arbitrary iteration) is
followed with provenance terms as values.  Nothing is executed and no solver is involved: a branch is infeasible only if
the path has already taken the opposite branch on the same canonical condition.
"""
import ast

from .terms import (T, K, kval, is_k, mk_not, mk_is, mk_cmp, kbool, TRUE, FALSE, NONE, BOOL_OPS, sym, show, subst,
                    contains, walk, is_fixed, len_ge, linear)
from .state import St, Sig, NEXT, BREAK, CONTINUE, Ev, HObj, LoopSum, IterPath, Limit
from .program import Program, Cls, AnalysisBroken, is_exc_name
from .exprs import ExprMixin
from .loops import LoopMixin
from .builtin_models import BuiltinMixin

MAXPATHS = 6000
MAXDEPTH = 40

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'setdefault', 'remove', 'discard', 'clear',
            'sort', 'reverse', 'appendleft', 'popleft', 'extendleft', 'rotate', 'intersection_update',
            'difference_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__setattr__',
            '__delattr__', '__ior__', '__iadd__', 'move_to_end'}


class FrameInfo:
    __slots__ = ('parent', 'module', 'cls', 'node', 'qual', 'locals', 'nonlocals', 'globals', 'first', 'is_gen')

    def __init__(self, parent, module, cls, node, qual):
        self.parent, self.module, self.cls, self.node, self.qual = parent, module, cls, node, qual
        self.locals, self.nonlocals, self.globals = scope_names(node)
        args = getattr(node, 'args', None)
        a = (args.posonlyargs + args.args) if args else []
        self.first = a[0].arg if a else None
        self.is_gen = is_generator(node)


_scopes = {}


def own_nodes(node):
    """nodes of a function's own scope (not of nested functions, classes or comprehensions)"""
    out = []
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        n = st.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        st.extend(ast.iter_child_nodes(n))
    return out


def scope_names(node):
    r = _scopes.get(id(node))
    if r and r[0] is node:
        return r[1]
    loc, nonl, glob = set(), set(), set()
    args = getattr(node, 'args', None)
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            loc.add(a.arg)
        for a in (args.vararg, args.kwarg):
            if a:
                loc.add(a.arg)
    if hasattr(node, 'body'):
        for n in own_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                loc.add(n.name)
            elif isinstance(n, ast.Nonlocal):
                nonl.update(n.names)
            elif isinstance(n, ast.Global):
                glob.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    loc.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
    loc -= nonl | glob
    _scopes[id(node)] = (node, (loc, nonl, glob))
    return loc, nonl, glob


def is_generator(node):
    if isinstance(node, ast.Lambda) or not hasattr(node, 'body'):
        return False
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))


class Path:
    """one path through an analysed function"""

    def __init__(self, st, sig):
        self.st, self.sig = st, sig
        self.facts = st.facts
        self.events = st.events

    @property
    def returns(self):
        return self.sig.kind == 'return'

    @property
    def raises(self):
        return self.sig.kind == 'raise'

    @property
    def value(self):
        return self.sig.val

    def __repr__(self):
        f = ', '.join(('' if v else 'not ') + show(k) for k, v in self.facts.items())
        return f'[{f}] {list(self.events)} -> {self.sig}'


def seq(results, f):
    """continue every normal result with f; pass signals through"""
    out = []
    for st, v in results:
        if isinstance(v, Sig):
            out.append((st, v))
        else:
            out.extend(f(st, v))
    if len(out) > MAXPATHS:
        raise Limit('too many paths')
    return out


class Interp(BuiltinMixin, LoopMixin, ExprMixin):
    max_recursion = 0          # how often a function may be inlined into itself

    def __init__(self, prog, opaque=(), inline_attrs=(), max_depth=MAXDEPTH, open_truth=()):
        self.prog = prog
        self.opaque = set(opaque)          # qualified (or unqualified) names of functions that are not inlined
        self.inline_attrs = set(inline_attrs)
        self.max_depth = max_depth
        self.visited = set()               # functions analysed
        self.sites = 0                     # call sites met
        self.open_truth = set(open_truth)  # classes whose __bool__/__len__ is inlined
        self.inlined = {}

    # ---------------------------------------------------------------------------------------------------------------
    # entry points
    # ---------------------------------------------------------------------------------------------------------------
    def new_state(self):
        st = St()
        st.hooks = self
        return st

    def subclass(self, a, b):
        """is class term a statically known to be a subclass of class term b"""
        if a is b:
            return True
        if a.op == 'class' and b.op == 'class':
            return self.prog.classes[b.a[0]] in self.prog.classes[a.a[0]].mro()
        if a.op == 'class' and b.op == 'glob':
            return b.a[0] in self.prog.classes[a.a[0]].mro() or b.a[0] == 'builtins.object'
        if a.op == 'glob' and b.op == 'glob':
            import builtins
            x = getattr(builtins, a.a[0].split('.')[-1], None) if a.a[0].startswith('builtins.') else None
            y = getattr(builtins, b.a[0].split('.')[-1], None) if b.a[0].startswith('builtins.') else None
            if isinstance(x, type) and isinstance(y, type):
                return issubclass(x, y)
        if a.op == 'typeof' and b.op == 'class':
            return False
        return False

    def fn_term(self, node, fid=0):
        return T('fn', id(node), fid)

    def run(self, node, args=(), kwargs=(), st=None, self_term=None, cls_for=None, keep_sig=False):
        """analyse function `node` (ast) called with terms; -> [Path]"""
        st = st or self.new_state()
        r = self.call_node(node, 0, list(args), list(kwargs), st, node, force=True)
        return [Path(s, v if isinstance(v, Sig) else Sig('return', v)) for s, v in r]

    def run_method(self, cls, name, args=None, kwargs=(), st=None, recv=None, after=None, static=False):
        """analyse method `name` as seen on an instance (or the class, for classmethods) of class `cls`"""
        cls = cls if isinstance(cls, Cls) else self.prog.cls_named(cls)
        found = cls.lookup(name, after)
        if found is None or found[1] is None or not isinstance(found[1], (ast.FunctionDef, ast.Lambda)):
            raise AnalysisBroken(f'{cls.qual}.{name} not found')
        owner, node = found
        kind = fn_kind(node)
        st = st or self.new_state()
        params = node.args.posonlyargs + node.args.args
        a = []
        if kind != 'static':
            if recv is None:
                recv = sym('cls') if kind in ('class', 'static_new') else sym('self')
            st = st.copy()
            st.types[recv] = ('class' if kind in ('class', 'static_new') else 'inst', cls)
            a.append(recv)
            params = params[1:]
        if args is None:
            a += [sym(p.arg) for p in params]
            kwargs = list(kwargs) + [(p.arg, sym(p.arg)) for p in node.args.kwonlyargs]
            if node.args.vararg:
                a.append(T('star', sym(node.args.vararg.arg)))
            if node.args.kwarg:
                kwargs.append((None, sym(node.args.kwarg.arg)))
        else:
            a += list(args)
        return self.run(node, a, kwargs, st)

    # ---------------------------------------------------------------------------------------------------------------
    # calls into the package
    # ---------------------------------------------------------------------------------------------------------------
    def bind_args(self, node, args, kwargs, st, fid):
        """-> (env, st) or None if the call cannot be matched statically"""
        a = node.args
        pos = a.posonlyargs + a.args
        env = {}
        args = list(args)
        i = 0
        for p in pos:
            if i < len(args) and args[i].op != 'star':
                env[p.arg] = args[i]
                i += 1
            else:
                break
        rest = args[i:]
        if rest:
            if a.vararg is None:
                if all(r.op == 'star' and r.a[0].op == 'tuple' and not r.a[0].a[0] for r in rest):
                    rest = []
                else:
                    return None
            if any(p.arg not in env for p in pos) and any(r.op == 'star' for r in rest):
                # positional parameters possibly bound by a symbolic star: only if they have no default could they be
                unb = [p for p in pos if p.arg not in env]
                kwn = {k for k, _ in kwargs}
                if not all(p.arg in kwn for p in unb):
                    return None
        if a.vararg is not None:
            if len(rest) == 1 and rest[0].op == 'star' and rest[0].a[0].op in ('sym', 'tuple', 'seqt', 'attr', 'call'):
                env[a.vararg.arg] = rest[0].a[0]
            elif any(r.op == 'star' for r in rest):
                env[a.vararg.arg] = self.mk_tuple_from_ops([('ext', r.a[0]) if r.op == 'star' else ('one', r)
                                                            for r in rest], st)
            else:
                env[a.vararg.arg] = T('tuple', tuple(rest))
        kwonly = {p.arg for p in a.kwonlyargs}
        posn = {p.arg for p in a.args}
        extra = []
        for k, v in kwargs:
            if k is None:
                extra.append((None, v))
            elif (k in posn or k in kwonly) and k not in env:
                env[k] = v
            elif k in env and k in posn:
                return None
            else:
                extra.append((k, v))
        # defaults
        nd = len(a.defaults)
        unbound = []
        for j, p in enumerate(pos):
            if p.arg not in env:
                d = j - (len(pos) - nd)
                if d >= 0:
                    unbound.append((p.arg, a.defaults[d]))
                else:
                    return None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if d is None:
                    return None
                unbound.append((p.arg, d))
        if extra:
            stars = [v for k, v in extra if k is None]
            if a.kwarg is None:
                if any(k is not None for k, _ in extra):
                    return None
                for v in stars:
                    h = st.h(v)
                    if h is not None and not h.log or v.op == 'dictlit' and not v.a[0]:
                        continue
                    return None
        if a.kwarg is not None:
            if len(extra) == 1 and extra[0][0] is None and extra[0][1].op == 'sym':
                env[a.kwarg.arg] = extra[0][1]
            else:
                ops = []
                for k, v in extra:
                    ops.append(('upd', v) if k is None else ('set', K(k), v))
                st, o = st.alloc('dict', ops)
                env[a.kwarg.arg] = o
        for nm, d in unbound:
            env[nm] = self.const_expr(d, st, fid, node)
        return env, st

    def const_expr(self, d, st, fid, node):
        """value of a default expression, evaluated in the defining scope"""
        if isinstance(d, ast.Constant):
            return K(d.value)
        info = self.prog.node_info.get(id(node))
        r = None
        if info is not None:
            try:
                r = self.static_expr(d, info[1], info[2])
            except Exception:
                r = None
        if r is not None:
            return r
        # closures: evaluate in the parent frame without effects
        if fid and fid in st.frames:
            s2 = st.copy()
            s2.stack = st.stack + (('', fid),)
            try:
                res = self.ev(d, s2)
                if len(res) == 1 and not isinstance(res[0][1], Sig):
                    return res[0][1]
            except Limit:
                raise
        return T('default', ast.unparse(d))

    def static_expr(self, d, m, cls):
        if isinstance(d, ast.Constant):
            return K(d.value)
        if isinstance(d, ast.Name) and cls is not None and d.id in cls.attrs and \
                not isinstance(cls.attrs[d.id], ast.FunctionDef):
            return self.class_attr(cls, d.id)
        if isinstance(d, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(d, m)
            if r is not None:
                return r
            if isinstance(d, ast.Attribute):
                b = self.static_expr(d.value, m, cls)
                if b is not None and b.op == 'class':
                    e = self.prog.enum_member(b.a[0], d.attr)
                    return e or T('attr', b, d.attr)
                if b is not None:
                    return T('attr', b, d.attr)
            return None
        if isinstance(d, ast.Tuple):
            xs = [self.static_expr(x, m, cls) for x in d.elts]
            return None if any(x is None for x in xs) else T('tuple', tuple(xs))
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('frozenset', 'tuple', 'dict',
                                                                                     'set', 'list') and \
                not d.args and not d.keywords:
            return T('empty', d.func.id) if d.func.id != 'tuple' else T('tuple', ())
        if isinstance(d, (ast.Dict, ast.List)) and not (d.keys if isinstance(d, ast.Dict) else d.elts):
            return T('empty', type(d).__name__.lower())
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('frozenset', 'set', 'tuple') and \
                len(d.args) == 1 and not d.keywords and isinstance(d.args[0], (ast.Set, ast.List, ast.Tuple)):
            d = d.args[0]
        if isinstance(d, ast.Set):
            # membership in a constant set is membership in the tuple of its elements
            xs = [self.static_expr(x, m, cls) for x in d.elts]
            return None if any(x is None for x in xs) else T('tuple', tuple(xs))
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return K(-d.operand.value)
        return None

    def call_node(self, node, fid, args, kwargs, st, site, force=False):
        """inline a function definition"""
        info = self.prog.node_info.get(id(node))
        qual = info[0] if info else '?'
        if isinstance(node, ast.Lambda):
            qual += f'@{getattr(node, "lineno", "?")}:{getattr(node, "col_offset", "?")}'
        if isinstance(node, ast.AsyncFunctionDef):
            return None
        depth = sum(1 for s in st.stack if s[0] == qual)
        if not force and (depth > self.max_recursion or len(st.stack) > self.max_depth):
            return None
        b = self.bind_args(node, args, kwargs, st, fid)
        if b is None:
            if force:
                raise AnalysisBroken(f'cannot bind the parameters of {qual}')
            return None
        env, st = b
        self.visited.add(qual)
        fi = FrameInfo(fid, info[1] if info else None, info[2] if info else None, node, qual)
        if fid and info is None:
            pass
        st = st.copy()
        my = st.nfid
        st.nfid += 1
        st.frames[my] = (env, fi)
        saved_stack = st.stack
        st.stack = st.stack + ((qual, my),)
        if fi.is_gen:
            g = T('gen', my)
            st.gens[my] = ('fn', node, my, st.stack)
            st.stack = saved_stack
            return [(st, g)]
        if isinstance(node, ast.Lambda):
            r = self.ev(node.body, st)
        else:
            r = []
            for s, sig in self.exec(node.body, st):
                if sig.kind == 'return':
                    r.append((s, sig.val))
                elif sig.kind == 'next':
                    r.append((s, NONE))
                else:
                    r.append((s, sig))
        out = []
        for s, v in r:
            s = s.copy()
            s.stack = saved_stack
            out.append((s, v))
        if len(out) > MAXPATHS:
            raise Limit(f'too many paths in {qual}')
        return out

    def frame(self, st):
        fid = st.stack[-1][1]
        return fid, st.frames[fid][1]

    # ---------------------------------------------------------------------------------------------------------------
    # statements
    # ---------------------------------------------------------------------------------------------------------------
    def exec(self, stmts, st):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y, sig in self.stmt(s, x):
                    if sig.kind == 'next':
                        nxt.append(y)
                    else:
                        done.append((y, sig))
            cur = self.dedup(nxt)
            if len(cur) + len(done) > MAXPATHS:
                raise Limit('too many paths')
            if not cur:
                break
        return done + [(x, NEXT) for x in cur]

    def dedup(self, sts):
        return sts

    def as_stmt(self, results):
        return [(s, v if isinstance(v, Sig) else NEXT) for s, v in results]

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return [(st.emit('unknown', type(s).__name__, node=s), NEXT)]
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, NEXT)]
        return self.as_stmt(self.ev(s.value, st))

    def s_Pass(self, s, st):
        return [(st, NEXT)]

    def s_Global(self, s, st):
        return [(st, NEXT)]

    s_Nonlocal = s_Global

    def s_Break(self, s, st):
        return [(st, BREAK)]

    def s_Continue(self, s, st):
        return [(st, CONTINUE)]

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, Sig('return', NONE, node=s))]
        return [(x, v if isinstance(v, Sig) else Sig('return', v, node=s)) for x, v in self.ev(s.value, st)]

    def s_Assign(self, s, st):
        def go(x, v):
            r = [(x, v)]
            for t in s.targets:
                r = seq(r, lambda y, _, t=t: [(z, sg if sg.kind != 'next' else v) for z, sg in
                                              self.assign(t, v, y, s)])
            return r
        return self.as_stmt(seq(self.ev(s.value, st), go))

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, NEXT)]
        return self.as_stmt(seq(self.ev(s.value, st), lambda x, v: self.assign(s.target, v, x, s)))

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)

        def go(x, l):
            def go2(y, r):
                h = y.h(l)
                if h is not None and isinstance(s.op, (ast.Add, ast.BitOr)) and h.kind in ('list', 'set', 'dict'):
                    y = y.log(l, ('upd' if h.kind == 'dict' else 'ext', r))
                    return [(y, NONE)]
                if h is None and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and not is_k(l) and \
                        not isinstance(s.target, ast.Name):
                    y = y.emit('mut', l, 'i' + type(s.op).__name__, (r,), NONE, node=s)
                elif h is None and isinstance(s.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and not is_k(l) and \
                        l.op in ('attr', 'sym', 'elem', 'item'):
                    # in-place operators on sets/dicts mutate the operand
                    y = y.emit('mut', l, 'i' + type(s.op).__name__, (r,), NONE, node=s)
                elif h is None and isinstance(s.op, ast.Add) and l.op in ('attr', 'elem', 'item') and \
                        not is_k(r):
                    y = y.emit('iadd', l, r, node=s)
                return seq(self.binop(s.op, l, r, y, s), lambda z, v: self.assign(s.target, v, z, s))
            return seq(self.ev(s.value, x), go2)
        return self.as_stmt(seq(self.ev(load, st), go))

    def assign(self, t, v, st, node):
        """-> [(st, sig)]"""
        if isinstance(t, ast.Name):
            return [(self.store_name(t.id, v, st), NEXT)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.destructure(t, v, st, node)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, ast.Attribute):
            r = self.ev(t.value, st)
            return self.as_stmt(seq(r, lambda x, b: self.set_attr(b, self.mangle(t.attr, x), v, x, node)))
        if isinstance(t, ast.Subscript):
            def go(x, b):
                h = x.h(b)
                if h is not None and h.kind == 'list' and isinstance(t.slice, ast.Slice) and \
                        t.slice.lower is t.slice.upper is t.slice.step is None:
                    ops = self.flat_ops([('ext', v)], x)
                    x = x.copy()
                    x.heap[b.a[0]] = type(h)(h.kind, tuple(ops), h.cls, h.node)
                    x.ver[b] = x.ver.get(b, 0) + 1
                    return [(x, NONE)]
                return seq(self.ev(t.slice, x), lambda y, k: self.set_item(b, k, v, y, node))
            return self.as_stmt(seq(self.ev(t.value, st), go))
        return [(st.emit('unknown', 'assign', node=node), NEXT)]

    def store_name(self, name, v, st):
        fid, info = self.frame(st)
        while name not in info.locals and info.parent and info.parent in st.frames:
            if name in info.globals:
                break
            fid = info.parent
            info = st.frames[fid][1]
        if name in info.globals or (name in info.nonlocals and False):
            return st.emit('setglobal', f'{info.module.name if info.module else "?"}.{name}', v)
        return st.setvar(fid, name, v)

    def set_attr(self, b, name, v, st, node):
        if b.op == 'mod':
            return [(st.emit('setglobal', f'{b.a[0]}.{name}', v, node=node), NONE)]
        c = self.cls_of(b, st)
        if c is not None:
            f = c[1].lookup('__setattr__')
            if c[0] == 'inst' and f and f[1] is not None and st.h(b) is None and '__setattr__' in self.inline_attrs:
                return self.as_none(self.call_node(f[1], 0, [b, K(name), v], [], st, node))
        st = st.emit('setattr', b, K(name), v, node=node)
        st = st.copy()
        st.over[(b, name)] = v
        return [(st, NONE)]

    def as_none(self, r):
        return [(s, v if isinstance(v, Sig) else NONE) for s, v in r]

    def set_item(self, b, k, v, st, node):
        h = st.h(b)
        if h is not None and h.kind in ('dict', 'list', 'defaultdict', 'copy'):
            return [(st.log(b, ('set', k, v)), NONE)]
        if b.op == 'attr' and b.a[1] == '__dict__':
            st = st.emit('setattr', b.a[0], k, v, node=node)
            if is_k(k):
                st = st.copy()
                st.over[(b.a[0], kval(k))] = v
            return [(st, NONE)]
        st = st.emit('setitem', b, k, v, node=node).bump(b)
        return [(st, NONE)]

    def destructure(self, t, v, st, node):
        n = len(t.elts)
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = self.static_items(v, st)
        vals = None
        if items is not None:
            if not stars and len(items) == n:
                vals = list(items)
            elif stars and len(items) >= n - 1:
                i = stars[0]
                after = n - 1 - i
                mid = items[i:len(items) - after]
                st, o = st.alloc('list', [('one', x) for x in mid])
                vals = list(items[:i]) + [o] + list(items[len(items) - after:])
        if vals is None:
            vals = []
            for i in range(n):
                if stars and i == stars[0]:
                    vals.append(T('slice', v, K(i), K(-(n - 1 - i)) if n - 1 - i else NONE))
                elif stars and i > stars[0]:
                    vals.append(T('item', v, K(i - n)))
                else:
                    vals.append(self.mk_item(v, K(i), st))
        res = [(st, NEXT)]
        for e, x in zip(t.elts, vals):
            nr = []
            for s, sg in res:
                if sg.kind != 'next':
                    nr.append((s, sg))
                else:
                    nr.extend(self.assign(e, x, s, node))
            res = nr
        return res

    def static_items(self, v, st):
        """the elements of a value whose length is known, else None"""
        if v.op == 'tuple':
            return v.a[0]
        if v.op == 'struct':
            return tuple(x for _, x in v.a[1])
        if is_k(v) and isinstance(kval(v), (tuple, str)):
            return tuple(K(x) for x in kval(v))
        h = st.h(v)
        if h is not None and h.kind in ('list', 'tuple') and all(op[0] == 'one' for op in h.log):
            return tuple(op[1] for op in h.log)
        return None

    def s_Delete(self, s, st):
        res = [(st, NEXT)]
        for t in s.targets:
            nr = []
            for x, sg in res:
                if sg.kind != 'next':
                    nr.append((x, sg))
                    continue
                if isinstance(t, ast.Name):
                    nr.append((x, NEXT))
                elif isinstance(t, ast.Attribute):
                    nr.extend(self.as_stmt(seq(self.ev(t.value, x), lambda y, b: [
                        (y.emit('delattr', b, K(t.attr), node=s), NONE)])))
                elif isinstance(t, ast.Subscript):
                    def go(y, b):
                        return seq(self.ev(t.slice, y), lambda z, k: self.del_item(b, k, z, s))
                    nr.extend(self.as_stmt(seq(self.ev(t.value, x), go)))
            res = nr
        return res

    def del_item(self, b, k, st, node, strict=True):
        h = st.h(b)

        def go(x, _):
            if h is not None:
                return [(x.log(b, ('del', k)), NONE)]
            return [(x.emit('delitem', b, k, node=node).bump(b), NONE)]
        return seq(self.may_raise(st, T('item', st.versioned(b), k), ('builtins.KeyError', 'builtins.LookupError')), go)

    def s_If(self, s, st):
        out = []
        for x, v in self.branch(s.test, st):
            if isinstance(v, Sig):
                out.append((x, v))
            else:
                out.extend(self.exec(s.body if v else s.orelse, x))
        return out

    def s_Assert(self, s, st):
        out = []
        for x, v in self.branch(s.test, st):
            if isinstance(v, Sig):
                out.append((x, v))
            elif v:
                out.append((x, NEXT))
            else:
                out.append((x, Sig('raise', T('call', T('glob', 'builtins.AssertionError'), (), ()), node=s)))
        return out

    def s_Raise(self, s, st):
        if s.exc is None:
            return [(st, Sig('raise', st.exc[-1] if st.exc else T('opaque_exc'), T('reraise'), node=s))]

        def go(x, e):
            e = self.exc_inst(e)
            if s.cause is None:
                return [(x, Sig('raise', e, T('context', x.exc[-1]) if x.exc else None, node=s))]
            return seq(self.ev(s.cause, x), lambda y, c: [(y, Sig('raise', e, c, node=s))])
        return seq(self.ev(s.exc, st), go)

    def exc_inst(self, e):
        if e.op in ('glob', 'class'):
            return T('call', e, (), ())
        return e

    def exc_class(self, e):
        """class term of an exception value, if known"""
        if e.op == 'call' and e.a[0].op in ('glob', 'class', 'typeof'):
            return e.a[0]
        return None

    def handler_types(self, h, st):
        """-> list of class terms, or None for a bare except"""
        if h.type is None:
            return None
        r = self.ev(h.type, st)
        if len(r) != 1 or isinstance(r[0][1], Sig):
            return [T('unknown_exc')]
        v = r[0][1]
        items = self.static_items(v, st)
        return list(items) if items is not None else [v]

    def exc_match(self, e, types, st):
        """-> [(st, bool)]"""
        if types is None:
            return [(st, True)]
        names = [t.a[0] if t.op in ('glob', 'class') else '?' for t in types]
        if 'builtins.BaseException' in names:
            return [(st, True)]
        c = self.exc_class(e)
        if c is not None and c.op in ('glob', 'class'):
            return [(st, any(self.exc_sub(c, n) for n in names))]
        if 'builtins.Exception' in names:
            return [(st, True)]
        # unknown exception: either
        out = []
        cur = st
        for t in types:
            if t.op not in ('glob', 'class'):
                a = T('excis', e, t)
            else:
                a = T('excis', e, t)
            y = cur.assume(a, True)
            if y is not None and self.excis_ok(y, e, t):
                out.append((y, True))
            cur = cur.assume(a, False)
            if cur is None:
                break
        if cur is not None:
            out.append((cur, False))
        return out

    def excis_ok(self, st, e, t):
        """an exception already known not to be of a superclass of t is not a t"""
        for k, v in st.facts.items():
            if k.op == 'excis' and k.a[0] is e and k.a[1] is not t:
                sup = k.a[1]
                if not v and sup.op in ('glob', 'class') and t.op in ('glob', 'class') and self.exc_sub(t, sup.a[0]):
                    return False
        return True

    def exc_sub(self, c, name):
        import builtins
        if c.a[0] == name or name in ('builtins.Exception', 'builtins.BaseException'):
            return True
        if c.op == 'class':
            k = self.prog.classes.get(c.a[0])
            for b in (k.mro() if k else ()):
                if isinstance(b, Cls) and b.qual == name:
                    return True
                if isinstance(b, str) and self.exc_sub(T('glob', b), name):
                    return True
            return False
        x = getattr(builtins, c.a[0].split('.')[-1], None)
        y = getattr(builtins, name.split('.')[-1], None)
        return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)

    def s_Try(self, s, st):
        descr = []
        for h in s.handlers:
            ts = self.handler_types(h, st)
            descr.append(None if ts is None else tuple(t.a[0] if t.op in ('glob', 'class') else '?' for t in ts))
        x = st.copy()
        outer = st.tries
        if s.handlers:
            x.tries = st.tries + (tuple(descr),)
        res = []
        for y, sig in self.exec(s.body, x):
            y = y.copy()
            y.tries = outer
            if sig.kind == 'raise' and s.handlers:
                res.extend(self.handle(s.handlers, y, sig))
            elif sig.kind == 'next' and s.orelse:
                res.extend(self.exec(s.orelse, y))
            else:
                res.append((y, sig))
        if s.finalbody:
            out = []
            for y, sig in res:
                for z, sg2 in self.exec(s.finalbody, y):
                    out.append((z, sig if sg2.kind == 'next' else sg2))
            res = out
        return res

    s_TryStar = s_Try

    def handle(self, handlers, st, sig):
        out = []
        cur = [st]
        for h in handlers:
            nxt = []
            for x in cur:
                for y, ok in self.exc_match(sig.val, self.handler_types(h, x), x):
                    if not ok:
                        nxt.append(y)
                        continue
                    z = y.emit('caught', sig.val, node=h)
                    z = z.copy()
                    saved = z.exc
                    z.exc = z.exc + (sig.val,)
                    if h.name:
                        z = self.store_name(h.name, sig.val, z)
                    for w, sg in self.exec(h.body, z):
                        w = w.copy()
                        w.exc = saved
                        out.append((w, sg))
            cur = nxt
        out.extend((x, sig) for x in cur)
        return out

    def s_With(self, s, st):
        return self.with_items(s.items, s.body, st, s)

    def with_items(self, items, body, st, node):
        if not items:
            return self.exec(body, st)
        it = items[0]

        def go(x, v):
            if v.op == 'call' and v.a[0].op == 'glob' and v.a[0].a[0] == 'contextlib.suppress':
                names = tuple(t.a[0] if t.op in ('glob', 'class') else '?' for t in v.a[1])
                y = x.copy()
                outer = x.tries
                y.tries = x.tries + ((names,),)
                out = []
                for z, sig in self.with_items(items[1:], body, y, node):
                    z = z.copy()
                    z.tries = outer
                    if sig.kind == 'raise':
                        for w, ok in self.exc_match(sig.val, list(v.a[1]), z):
                            out.append((w, NEXT if ok else sig))
                    else:
                        out.append((z, sig))
                return out
            y = x.emit('with', v, node=node)
            if it.optional_vars is not None:
                r = self.assign(it.optional_vars, T('enter', v), y, node)
            else:
                r = [(y, NEXT)]
            out = []
            for z, sg in r:
                out.extend(self.with_items(items[1:], body, z, node) if sg.kind == 'next' else [(z, sg)])
            return out
        return seq(self.ev(it.context_expr, st), go)

    def s_FunctionDef(self, s, st):
        fid, info = self.frame(st)
        if id(s) not in self.prog.node_info:
            self.prog.node_info[id(s)] = (f'{info.qual}.<locals>.{s.name}', info.module, info.cls)
        self._keep(s)
        f = T('fn', id(s), fid)
        res = [(st, f)]
        for d in reversed(s.decorator_list):
            def go(x, v, d=d):
                return seq(self.ev(d, x), lambda y, dec: self.call(dec, [v], [], y, d))
            res = seq(res, go)
        return self.as_stmt(seq(res, lambda x, v: [(self.store_name(s.name, v, x), NEXT)]))

    def s_AsyncFunctionDef(self, s, st):
        return [(self.store_name(s.name, T('opaquefn', s.name), st), NEXT)]

    def s_ClassDef(self, s, st):
        return [(self.store_name(s.name, T('localclass', s.name), st), NEXT)]

    def s_Import(self, s, st):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st = self.store_name(nm, T('mod', a.name if a.asname else a.name.split('.')[0]), st)
        return [(st, NEXT)]

    def s_ImportFrom(self, s, st):
        fid, info = self.frame(st)
        mod = s.module or ''
        if s.level and info.module is not None:
            parts = info.module.name.split('.')
            if not info.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            v = None
            if mod in self.prog.modules:
                v = self.prog.resolve(self.prog.modules[mod], a.name)
                if v is not None and v.op == 'fn':
                    v = self.norm_fn(v)
            if v is None:
                v = T('mod', f'{mod}.{a.name}') if f'{mod}.{a.name}' in self.prog.modules else \
                    T('glob', f'{mod}.{a.name}')
            st = self.store_name(a.asname or a.name, v, st)
        return [(st, NEXT)]

    def s_Match(self, s, st):
        return self.desugar_match(s, st)

    def desugar_match(self, s, st):
        """value, class, or-, wildcard and capture patterns"""
        def test(p, v, x):
            """-> [(st, bool)]"""
            if isinstance(p, ast.MatchValue):
                return seq(self.ev(p.value, x), lambda y, w: self.truth(self.compare(ast.Eq(), v, w, y), y))
            if isinstance(p, ast.MatchSingleton):
                return self.truth(mk_is(K(p.value), v), x)
            if isinstance(p, ast.MatchOr):
                out, cur = [], [x]
                for q in p.patterns:
                    nxt = []
                    for y in cur:
                        for z, b in test(q, v, y):
                            if isinstance(b, Sig) or b:
                                out.append((z, b))
                            else:
                                nxt.append(z)
                    cur = nxt
                return out + [(y, False) for y in cur]
            if isinstance(p, ast.MatchAs):
                if p.pattern is None:
                    return [(self.store_name(p.name, v, x) if p.name else x, True)]
                return [((self.store_name(p.name, v, y) if b and p.name else y), b) for y, b in test(p.pattern, v, x)]
            if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_attrs:
                return seq(self.ev(p.cls, x), lambda y, c: self.truth(T('isinstance', v, c), y))
            return self.truth(T('matches', v, K(ast.unparse(p))), x)

        def go(x, v):
            out, cur = [], [x]
            for c in s.cases:
                nxt = []
                for y in cur:
                    for z, b in test(c.pattern, v, y):
                        if isinstance(b, Sig):
                            out.append((z, b))
                        elif not b:
                            nxt.append(z)
                        elif c.guard is None:
                            out.extend(self.exec(c.body, z))
                        else:
                            for w, g in self.branch(c.guard, z):
                                if isinstance(g, Sig):
                                    out.append((w, g))
                                elif g:
                                    out.extend(self.exec(c.body, w))
                                else:
                                    nxt.append(w)
                cur = nxt
            return out + [(y, NEXT) for y in cur]
        return seq(self.ev(s.subject, st), go)

    def _keep(self, node):
        self.nodes = getattr(self, 'nodes', {})
        self.nodes[id(node)] = node

    def fn_node(self, f):
        """ast node of a fn term"""
        k = f.a[0]
        if isinstance(k, str):
            return self.prog.functions[k][0]
        n = getattr(self, 'nodes', {}).get(k)
        if n is None:
            for q, (node, m, c) in self.prog.functions.items():
                if id(node) == k:
                    return node
            for mod in self.prog.modules.values():
                for x in ast.walk(mod.tree):
                    if id(x) == k:
                        self._keep(x)
                        return x
        return n

    def norm_fn(self, f):
        if isinstance(f.a[0], str):
            node = self.prog.functions[f.a[0]][0]
            self._keep(node)
            return T('fn', id(node), 0)
        return f


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode='eval').body
    for n in ast.walk(t2):
        n.lineno = getattr(t, 'lineno', 0)
        n.col_offset = 0
        n.end_lineno = n.lineno
        n.end_col_offset = 0
    return t2


def deco_names(node):
    out = []
    for d in getattr(node, 'decorator_list', []):
        x = d.func if isinstance(d, ast.Call) else d
        out.append(ast.unparse(x).split('.')[-1])
    return out


def fn_kind(node):
    """how a function defined in a class body is seen through an instance"""
    d = deco_names(node)
    if 'classmethod' in d:
        return 'class'
    if 'staticmethod' in d:
        return 'static'
    if 'property' in d or 'cached_property' in d:
        return 'property'
    if node.name in ('__new__',):
        return 'static_new'
    if node.name in ('__init_subclass__', '__class_getitem__'):
        return 'class'
    return 'plain'


KNOWN_DECOS = {'classmethod', 'staticmethod', 'property', 'cached_property', 'abstractmethod', 'wraps', 'parser',
               'overload', 'final', 'override', 'no_type_check', 'append'}


def opaque_decos(node):
    """decorators that change what a call of the method does (SelectableFactory, lru_cache, ...)"""
    return [d for d in deco_names(node) if d not in KNOWN_DECOS]
