"""
Module-level registries: containers that are filled while the modules of the package are imported.

Their contents are read from the module-level statements of the whole package: the first value, appends, updates, extensions,
item assignments, and functions registered by a decorator ``@registry.append``.  A registry that is also changed inside a
function, or in a way not understood, has no known contents.
"""
import ast

from .terms import T, K

READS = {'get', 'items', 'keys', 'values', 'copy', 'index', 'count', '__contains__', '__getitem__', '__iter__'}


class Unknown(Exception):
    pass


class Registries:
    def __init__(self, prog):
        self.P = prog
        self.cache = {}
        self.order = self.import_order()

    def import_order(self):
        """modules in the order in which their bodies run when the package is imported"""
        done, out = set(), []

        def visit(name):
            m = self.P.modules.get(name)
            if m is None or name in done:
                return
            done.add(name)
            for s in m.tree.body:
                if isinstance(s, ast.ImportFrom):
                    mod = s.module or ''
                    visit(mod)
                    for a in s.names:
                        visit(f'{mod}.{a.name}')
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        visit(a.name)
            out.append(m)
        for n in sorted(self.P.modules, key=lambda n: (n.count('.'), n)):
            parts = n.split('.')
            for i in range(1, len(parts) + 1):
                visit('.'.join(parts[:i]))
        return out

    def qual(self, e, m):
        """the registry an expression names, as a qualified name"""
        if isinstance(e, ast.Name) and e.id in m.names:
            t = self.P.resolve(m, e.id)
        elif isinstance(e, ast.Attribute):
            t = self.P.resolve_expr(e, m)
        else:
            return None
        return t.a[0] if t is not None and t.op == 'glob' else None

    def statements(self):
        def walk(body, m):
            for s in body:
                if isinstance(s, ast.If):
                    v = self.P._static_test(s.test)
                    if v is None or v:
                        yield from walk(s.body, m)
                    if v is None or not v:
                        yield from walk(s.orelse, m)
                elif isinstance(s, ast.Try):
                    yield from walk(s.body + s.orelse + s.finalbody, m)
                elif isinstance(s, ast.For):
                    yield s, m
                else:
                    yield s, m
        for m in self.order:
            yield from walk(m.tree.body, m)

    def contents(self, q):
        """-> ('list', [term]) | ('dict', [(key term, value term)]); raises Unknown"""
        if q not in self.cache:
            self.cache[q] = Unknown('recursive')
            try:
                self.cache[q] = self._contents(q)
            except Unknown as e:
                self.cache[q] = e
        r = self.cache[q]
        if isinstance(r, Unknown):
            raise r
        return r

    def _contents(self, q):
        kind, items = None, None
        for s, m in self.statements():
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    if isinstance(t, ast.Name) and f'{m.name}.{t.id}' == q and m.names.get(t.id, ('',))[0] == 'assign':
                        if kind is not None or s.value is None:
                            if s.value is None:
                                continue
                            raise Unknown('assigned twice')
                        kind, items = self.value(s.value, m)
                    elif isinstance(t, ast.Subscript) and self.qual(t.value, m) == q:
                        if kind != 'dict':
                            raise Unknown('item assignment')
                        items = self.put(items, self.term(t.slice, m), self.term(s.value, m))
            elif isinstance(s, ast.AugAssign) and self.qual(s.target, m) == q:
                k2, more = self.value(s.value, m)
                if k2 != kind:
                    raise Unknown('augmented assignment')
                items = items + more if kind == 'list' else self.merge(items, more)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                c = s.value
                if isinstance(c.func, ast.Attribute) and self.qual(c.func.value, m) == q:
                    n = c.func.attr
                    if c.keywords or any(isinstance(a, ast.Starred) for a in c.args):
                        raise Unknown(n)
                    if n == 'append' and kind == 'list' and len(c.args) == 1:
                        items = items + [self.term(c.args[0], m)]
                    elif n == 'insert' and kind == 'list' and isinstance(c.args[0], ast.Constant) and c.args[0].value == 0:
                        items = [self.term(c.args[1], m)] + items
                    elif n == 'extend' and kind == 'list' and len(c.args) == 1:
                        k2, more = self.value(c.args[0], m)
                        if k2 != 'list':
                            raise Unknown('extend')
                        items = items + more
                    elif n == 'update' and kind == 'dict' and len(c.args) == 1:
                        k2, more = self.value(c.args[0], m)
                        if k2 != 'dict':
                            raise Unknown('update')
                        items = self.merge(items, more)
                    elif n == 'setdefault' and kind == 'dict' and len(c.args) == 2:
                        k = self.term(c.args[0], m)
                        if not any(a is k for a, _ in items):
                            items = self.put(items, k, self.term(c.args[1], m))
                    elif n not in READS:
                        raise Unknown(n)
            elif isinstance(s, ast.FunctionDef):
                for d in reversed(s.decorator_list):
                    if isinstance(d, ast.Attribute) and self.qual(d.value, m) == q:
                        if d.attr == 'append' and kind == 'list':
                            items = items + [T('fn', id(s), 0)]
                        else:
                            raise Unknown('decorator')
                    elif isinstance(d, ast.Call) and any(self.qual(a, m) == q for a in d.args):
                        raise Unknown('decorator')
            elif not isinstance(s, (ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Delete)):
                for x in ast.walk(s):
                    if isinstance(x, (ast.Name, ast.Attribute)) and self.qual(x, m) == q:
                        raise Unknown(type(s).__name__)
        if kind is None:
            raise Unknown('not found')
        self.check_functions(q)
        return kind, items

    def check_functions(self, q):
        """the registry may only be read inside functions"""
        for node, m, _ in self.P.functions.values():
            for x in ast.walk(node):
                b = None
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in READS:
                    b = x.func.value
                elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    b = x.value
                elif isinstance(x, ast.AugAssign):
                    b = x.target
                elif isinstance(x, ast.Global):
                    if any(f'{m.name}.{n}' == q for n in x.names):
                        raise Unknown('global')
                if isinstance(b, (ast.Name, ast.Attribute)) and self.qual(b, m) == q:
                    raise Unknown(f'changed in a function at line {x.lineno}')

    def merge(self, items, more):
        for k, v in more:
            items = self.put(items, k, v)
        return items

    def put(self, items, k, v):
        if any(a is k for a, _ in items):
            return [(a, v if a is k else b) for a, b in items]
        return items + [(k, v)]

    def value(self, e, m):
        """the contents of a list or dict expression"""
        if isinstance(e, (ast.List, ast.Tuple)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    k, more = self.value(x.value, m)
                    out += [a for a, _ in more] if k == 'dict' else more
                else:
                    out.append(self.term(x, m))
            return 'list', out
        if isinstance(e, ast.Dict):
            out = []
            for k, v in zip(e.keys, e.values):
                if k is None:
                    kk, more = self.value(v, m)
                    if kk != 'dict':
                        raise Unknown('**')
                    out = self.merge(out, more)
                else:
                    out = self.put(out, self.term(k, m), self.term(v, m))
            return 'dict', out
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
            k1, a = self.value(e.left, m)
            k2, b = self.value(e.right, m)
            if k1 != k2:
                raise Unknown('operator')
            return k1, a + b if k1 == 'list' else self.merge(a, b)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'tuple') and \
                e.func.id not in m.names and not e.keywords and len(e.args) <= 1:
            return self.value(e.args[0], m) if e.args else ('dict' if e.func.id == 'dict' else 'list', [])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy' and not e.args:
            return self.value(e.func.value, m)
        if isinstance(e, ast.DictComp) and len(e.generators) == 1 and not e.generators[0].ifs:
            # {k: X for k in (...)}
            g = e.generators[0]
            if isinstance(g.target, ast.Name) and isinstance(e.key, ast.Name) and e.key.id == g.target.id:
                _, ks = self.value(g.iter, m)
                if not any(isinstance(x, ast.Name) and x.id == g.target.id for x in ast.walk(e.value)):
                    return 'dict', [(k, self.term(e.value, m)) for k in ks]
            raise Unknown('comprehension')
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'fromkeys' and len(e.args) == 2:
            _, ks = self.value(e.args[0], m)
            return 'dict', [(k, self.term(e.args[1], m)) for k in ks]
        q = self.qual(e, m) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if q is not None:
            k, items = self.contents(q)
            return k, list(items)
        raise Unknown(ast.unparse(e)[:60])

    def term(self, e, m):
        if isinstance(e, ast.Constant):
            return T('typeof', K(e.value)) if False else K(e.value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 and \
                'type' not in m.names and isinstance(e.args[0], ast.Constant):
            v = e.args[0].value
            return T('glob', 'types.' + {'NoneType': 'NoneType', 'ellipsis': 'EllipsisType'}[type(v).__name__]) \
                if v is None or v is ... else T('glob', 'builtins.' + type(v).__name__)
        t = self.P.resolve_expr(e, m) if isinstance(e, (ast.Name, ast.Attribute)) else None
        if t is None or t.op not in ('class', 'glob', 'fn', 'k'):
            raise Unknown(ast.unparse(e)[:60])
        if t.op == 'fn':
            n = self.P.functions.get(t.a[0]) if isinstance(t.a[0], str) else None
            return T('fn', id(n[0]), 0) if n else t
        return t
