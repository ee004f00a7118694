"""rewritings of the syntax tree that change no behaviour, so that the rules see one form of it

 * `kw = {**kw, k: v}` and `kw = dict(kw)` for the `**kw` parameter of a function (a dict of its own, seen by nobody else)
   become `kw[k] = v` and nothing
 * a flag that is set once, in `__init__`, to a comparison of attributes that are set once themselves is replaced by
   that comparison where it is read
"""
import ast
import copy


def normalise(trees):
    for t in trees:
        for fn in ast.walk(t):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn.args.kwarg:
                own_kwargs(fn)
    flags(trees)


# -- ** parameters -----------------------------------------------------------------------------------------------------
def own_kwargs(fn):
    name = fn.args.kwarg.arg
    for x in ast.walk(fn):
        if isinstance(x, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.GeneratorExp)) and x is not fn and \
                any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
            return
        if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr, ast.Return, ast.Yield)) and isinstance(x.value, ast.Name) and \
                x.value.id == name:
            return  # another name for it
        if isinstance(x, (ast.Global, ast.Nonlocal)) and name in x.names:
            return

    class Tr(ast.NodeTransformer):
        def visit_Assign(self, n):
            if len(n.targets) != 1 or not (isinstance(n.targets[0], ast.Name) and n.targets[0].id == name):
                return n
            items = grown(n.value, name)
            if items is None:
                return n
            out = []
            for k, v in items:
                tg = ast.Subscript(ast.Name(name, ast.Load()), k, ast.Store())
                out.append(ast.Assign([tg], v))
            out = out or [ast.Pass()]
            return [ast.fix_missing_locations(ast.copy_location(s, n)) for s in out]
    Tr().visit(fn)


def grown(v, name):
    """the entries added to a copy of the dict, or None"""
    def is_it(x):
        return isinstance(x, ast.Name) and x.id == name

    def reads(x):
        return any(is_it(y) for y in ast.walk(x))
    if isinstance(v, ast.Dict) and v.keys and v.keys[0] is None and is_it(v.values[0]):
        items = list(zip(v.keys[1:], v.values[1:]))
        if any(k is None for k, _ in items) or len(items) > 1 and any(reads(k) or reads(x) for k, x in items):
            return None
        return items
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitOr) and is_it(v.left) and isinstance(v.right, ast.Dict):
        items = list(zip(v.right.keys, v.right.values))
        if any(k is None for k, _ in items) or len(items) > 1 and any(reads(k) or reads(x) for k, x in items):
            return None
        return items
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict' and len(v.args) == 1 and is_it(v.args[0]) \
            and not v.keywords:
        return []
    return None


CHANGES = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'add', 'discard', 'setdefault',
           'popitem', 'appendleft', 'extendleft'}


# -- flags ---------------------------------------------------------------------------------------------------------------
def flags(trees):
    stores = {}     # attribute name -> number of stores to it anywhere
    classes = []
    for t in trees:
        for x in ast.walk(t):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores[x.attr] = stores.get(x.attr, 0) + 1
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute):
                stores[x.value.attr] = 2    # its value is changed in place
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and \
                    x.func.attr in CHANGES:
                stores[x.func.value.attr] = 2
            elif isinstance(x, ast.Assign) and isinstance(x.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
                for y in x.targets:
                    if isinstance(y, ast.Attribute):
                        stores[y.attr] = 2
            elif isinstance(x, ast.ClassDef):
                classes.append(x)
                for b in x.body:
                    for n in bound_names(b):
                        stores[n] = stores.get(n, 0) + 2
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr'):
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                    stores[x.args[1].value] = 2
    for c in classes:
        init = next((m for m in c.body if isinstance(m, ast.FunctionDef) and m.name == '__init__' and m.args.args), None)
        if init is None:
            continue
        found = init_flags(init, stores)
        if not found:
            continue
        for m in c.body:
            if isinstance(m, ast.FunctionDef) and m is not init and m.args.args:
                Inline(m.args.args[0].arg, init.args.args[0].arg, found).visit(m)


def bound_names(s):
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return [s.name]
    if isinstance(s, ast.Assign):
        return [t.id for t in s.targets if isinstance(t, ast.Name)]
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
        return [s.target.id]
    return []


def init_flags(init, stores):
    me = init.args.args[0].arg
    alias, locs, out = {}, {}, {}
    names = {}
    for x in ast.walk(init):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            names[x.id] = names.get(x.id, 0) + 1

    def own(t):
        return isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me
    params = {a.arg for a in init.args.args + init.args.kwonlyargs}
    for s in init.body:
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            s = ast.copy_location(ast.Assign([s.target], s.value), s)
        if not isinstance(s, ast.Assign):
            continue
        attrs = [t for t in s.targets if own(t)]
        vars_ = [t.id for t in s.targets if isinstance(t, ast.Name) and names.get(t.id) == 1 and t.id not in params]
        if attrs and stores.get(attrs[0].attr) == 1:
            for v in vars_:
                alias[v] = attrs[0]
            if isinstance(s.value, ast.Name) and (names.get(s.value.id) == 1 and s.value.id not in params or
                                                  s.value.id in params and s.value.id not in names):
                alias[s.value.id] = attrs[0]
                if s.value.id in locs:
                    e = resolve(locs[s.value.id], me, alias, stores, out)
                    if e is not None:
                        out[attrs[0].attr] = e
            else:
                e = resolve(s.value, me, alias, stores, out)
                if e is not None and is_flag(e):
                    out[attrs[0].attr] = e
        elif vars_ and is_flag(s.value):
            locs[vars_[0]] = s.value
    return out


def is_flag(e):
    if isinstance(e, ast.Compare):
        return True
    if isinstance(e, ast.BoolOp):
        return all(map(is_flag, e.values))
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not)
    return False


def resolve(e, me, alias, stores, known):
    """the flag in terms of attributes that never change, or None"""
    ok = [True]

    class R(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id in alias:
                return copy.deepcopy(ast.copy_location(ast.Attribute(ast.Name(me, ast.Load()), alias[n.id].attr, ast.Load()), n))
            ok[0] = False
            return n

        def visit_Attribute(self, n):
            if isinstance(n.value, ast.Name) and n.value.id == me and stores.get(n.attr) == 1:
                return copy.deepcopy(known[n.attr]) if n.attr in known else n
            ok[0] = False
            return n

        def visit_Call(self, n):
            if isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not n.keywords:
                n.args = [self.visit(n.args[0])]
                return n
            ok[0] = False
            return n

        def generic_visit(self, n):
            if not isinstance(n, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Subscript, ast.Constant, ast.Slice,
                                  ast.cmpop, ast.boolop, ast.unaryop, ast.expr_context)):
                ok[0] = False
                return n
            return super().generic_visit(n)
    r = R().visit(copy.deepcopy(e))
    return ast.fix_missing_locations(r) if ok[0] else None


class Inline(ast.NodeTransformer):
    def __init__(self, me, init_me, found):
        self.me, self.init_me, self.found = me, init_me, found

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == self.me and n.attr in self.found:
            e = copy.deepcopy(self.found[n.attr])
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and x.id == self.init_me:
                    x.id = self.me
                if hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            return e
        return n
