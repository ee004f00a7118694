"""
Effect (mod/ref) analysis of every function of the package.

A value is abstracted by the set of *places* it may be: ('F', site) an object created by this activation, ('P', param)
what the caller passed, ('C', var) a variable of the enclosing function, ('G', name) a module-level object, ('U', line)
the result of code the analysis does not know.  A place also has an access path (attributes, '*' for an element).
Immutable values have no place.  Every store, deletion, mutating method, in-place operator, consumption of an iterator
or mutating library call on a place that is not 'F' is an effect; a function's effects are translated to its callers
until nothing changes.  ``sa/rules/effects.py`` judges the effects of the functions that users reach.
"""
import ast
import builtins

DEPTH = 3
# steps that set up the receiver; what they do to it is judged at their own definition
SETUP_CALLS = {'bind', 'apply', '_apply', '_apply_to_filler', 'add_validator', 'add_assert_validator', 'add_coercer'}
E0 = frozenset()

MUTATING = {
    'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add',
    'discard', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'extendleft',
    'popleft', 'rotate', 'move_to_end', 'subtract', '__setitem__', '__delitem__', '__setattr__', '__delattr__',
    '__iadd__', '__isub__', '__imul__', '__ior__', '__iand__', '__ixor__', '__setstate__', '__next__', 'send', 'throw',
    'seek', 'truncate', 'add_note', 'with_traceback',
}
# containers' reading methods -> what they give
VIEWS = {'items', 'values', 'keys', '__iter__', '__reversed__', 'elements', 'most_common'}
ELEMENT = {'get', 'pop', 'setdefault', 'popitem', 'popleft', '__getitem__', '__next__', 'get_or_none'}
COPYING = {'copy', 'union', 'difference', 'intersection', 'symmetric_difference', '__add__', '__or__', 'new_child',
           '__sub__', '__and__', '__xor__', '__mul__', '__copy__'}
PLAIN = {'join', 'format', 'strip', 'split', 'startswith', 'endswith', 'lower', 'upper', 'replace', 'encode', 'decode',
         'index', 'count', 'isdisjoint', 'issubset', 'issuperset', '__contains__', '__len__', '__eq__', '__hash__',
         'bit_length', 'to_bytes', 'mro', 'isidentifier', 'title', 'warning', 'error', 'info', 'debug', 'fullmatch',
         'match', 'search', '__repr__', '__str__', '__lt__', '__le__', '__gt__', '__ge__', '__ne__', '__bool__',
         '__subclasscheck__', '__instancecheck__', 'isalpha', 'isdigit', 'rstrip', 'lstrip', 'partition', 'rpartition'}

B = 'builtins.'
PURE_IMM = {B + n for n in (
    'len isinstance issubclass hash repr str int float bool complex bytes callable ord chr abs any all sum round '
    'hasattr id print divmod pow format ascii bin hex oct range slice object').split()} | {
    'math.isclose', 'inspect.isabstract', 'warnings.warn', 'warnings.warn_explicit', 'math.floor', 'math.ceil',
    'functools.total_ordering', 'ast.literal_eval', 'operator.lt', 'operator.le', 'operator.gt', 'operator.ge',
    'operator.eq', 'operator.ne', 'operator.is_', 'operator.is_not', 'operator.contains', 'operator.not_', 'math.fmod',
    'logging.getLogger', 'operator.truth', 'operator.attrgetter', 'operator.itemgetter', 'math.isnan'}
# fresh container of the arguments' elements
FRESH_ELEMS = {B + n for n in 'list tuple dict set frozenset sorted bytearray'.split()} | {
    'collections.deque', 'collections.OrderedDict', 'collections.defaultdict', 'collections.Counter',
    'itertools.groupby', 'operator.concat', 'types.SimpleNamespace'}
ITERATORS = {B + n for n in 'iter map filter zip enumerate reversed'.split()} | {
    'itertools.chain', 'itertools.chain.from_iterable', 'itertools.islice', 'itertools.takewhile',
    'itertools.dropwhile', 'itertools.starmap', 'itertools.tee', 'itertools.filterfalse', 'itertools.zip_longest',
    'itertools.compress', 'itertools.accumulate', 'itertools.repeat', 'itertools.cycle', 'itertools.count',
    'itertools.product', 'itertools.pairwise', 'itertools.batched'}
HOF = {B + n for n in 'map filter sorted min max any all'.split()} | {
    'functools.reduce', 'itertools.starmap', 'itertools.takewhile', 'itertools.dropwhile', 'itertools.filterfalse',
    'itertools.groupby', 'itertools.accumulate'}
ALIAS = {B + 'min', B + 'max', 'typing.cast', 'functools.reduce', 'inspect.unwrap', 'types.MappingProxyType',
         'operator.getitem', 'operator.attrgetter', 'typing.get_args', 'typing.get_origin', 'typing.get_type_hints',
         'inspect.getattr_static', B + 'getattr', B + 'type', 'collections.ChainMap', 'functools.partial',
         'functools.wraps', 'functools.update_wrapper', B + 'next', 'operator.iadd', 'operator.ior', 'operator.setitem'}
# library functions that change their first argument
MUT_FIRST = {B + 'setattr', B + 'delattr', B + 'next', 'operator.setitem', 'operator.delitem', 'operator.iadd',
             'operator.ior', 'operator.isub', 'operator.imul', 'operator.iconcat', 'heapq.heappush', 'heapq.heappop',
             'heapq.heapify', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right', 'random.shuffle',
             'functools.update_wrapper', B + 'anext', 'heapq.heapreplace', 'heapq.heappushpop'}
AMBIENT = ('time.', 'random.', 'uuid.', 'secrets.', 'os.environ', 'os.getenv', 'os.urandom', 'datetime.datetime.now',
           'datetime.datetime.today', 'datetime.date.today', 'builtins.input', 'threading.local', 'threading.get_ident',
           'os.getpid')
MEMO_DECOS = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}
IMM_ANN = {'int', 'float', 'str', 'bytes', 'bool', 'complex', 'tuple', 'Tuple', 'frozenset', 'None'}
LAZY_ANN = {'Iterable', 'Iterator', 'Generator'}
MUT_KINDS = {'list', 'dict', 'set', 'deque', 'defaultdict', 'mutable'}
MUT_CTORS = {B + 'list': 'list', B + 'dict': 'dict', B + 'set': 'set', B + 'bytearray': 'list',
             'collections.deque': 'deque', 'collections.OrderedDict': 'dict', 'collections.Counter': 'dict',
             'collections.defaultdict': 'defaultdict', B + 'sorted': 'list'}


class Eff:
    """one effect: ``kind`` on ``place`` at ``node`` of function ``qual``"""
    __slots__ = ('place', 'kind', 'what', 'node', 'qual', 'module')

    def __init__(self, place, kind, what, node, qual, module):
        self.place, self.kind, self.what, self.node, self.qual, self.module = place, kind, what, node, qual, module

    def key(self):
        return self.place, self.kind, self.what, id(self.node), self.qual

    def at(self, place):
        return Eff(place, self.kind, self.what, self.node, self.qual, self.module)


def show_place(p):
    root, path = p
    s = {'P': '', 'C': 'captured ', 'G': '', 'U': 'result of unknown code at line ', 'F': 'new '}[root[0]] + str(root[1])
    for a in path:
        s += '[...]' if a == '*' else f'.{a}'
    return s


class Fn:
    """a function, method, nested function or lambda"""

    def __init__(self, an, qual, node, module, cls, outer):
        self.an, self.qual, self.node, self.module, self.cls, self.outer = an, qual, node, module, cls, outer
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k: d for k, d in zip(self.kwonly, a.kw_defaults) if d is not None})
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        decos = getattr(node, 'decorator_list', [])
        self.decos = [ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in decos]
        self.static = 'staticmethod' in self.decos
        self.classm = 'classmethod' in self.decos or self.name in ('__init_subclass__', '__class_getitem__')
        self.method = cls is not None and outer is None
        self.self_name = self.params[0] if self.method and not self.static and self.params else None
        if self.method and self.static and not isinstance(node, ast.Lambda):
            # an implementation that takes self although the abstract declaration was static
            self.self_name = None
        self.nested = {}         # name -> Fn (last definition)
        self.all_nested = []
        self.locals = set()
        self.nonlocals, self.globals = set(), set()
        # summary
        self.effects = {}        # key -> Eff
        self.ret = E0            # places
        self.ret_inside = E0     # for a fresh result: what it contains
        self.ret_fresh = False
        self.ret_kinds = E0
        self.env_out = {}        # variable -> places (join over the function), for captured variables
        self.kinds_out = {}
        self.is_gen = False
        self.escapes = False
        self.ambient = {}
        self.stores = {}         # (place, label) -> places stored there ('F' for a new object)

    def sig(self):
        return (frozenset(self.effects), self.ret, self.ret_inside, self.ret_fresh, self.ret_kinds,
                frozenset((k, frozenset(v)) for k, v in self.stores.items()),
                frozenset((k, v) for k, v in self.env_out.items()),
                frozenset((k, v) for k, v in self.kinds_out.items()), self.escapes)


class Analysis:
    def __init__(self, prog):
        self.P = prog
        self.fns = []
        self.by_node = {}
        self.by_qual = {}
        self.methods = {}        # name -> [Fn]
        self.attr_kinds = {}     # attribute -> set of kinds stored in it
        self.value_methods = set()   # method names used as values (bound methods handed out)
        self.value_funcs = set()
        self.fallbacks = 0
        for m in prog.modules.values():
            self._walk(m.tree.body, m, None, None, m.name)
        self.subs = {}
        for c in prog.classes.values():
            for b in c.mro():
                if not isinstance(b, str):
                    self.subs.setdefault(b.qual, []).append(c)
        self._class_attrs()
        for rounds in range(8):
            before = (tuple(f.sig() for f in self.fns),
                      frozenset((k, frozenset(v)) for k, v in self.attr_kinds.items()))
            for f in self.fns:
                Walker(self, f).run()
            after = (tuple(f.sig() for f in self.fns),
                     frozenset((k, frozenset(v)) for k, v in self.attr_kinds.items()))
            if before == after:
                break
        self.rounds = rounds + 1

    # -- collection -----------------------------------------------------------------------------------------------
    def _walk(self, body, m, cls, outer, qual):
        for st in body:
            self._visit(st, m, cls, outer, qual)

    def _visit(self, st, m, cls, outer, qual):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            if not isinstance(st, ast.Lambda):
                for d in st.decorator_list:
                    self._visit(d, m, cls, outer, qual)
            for d in st.args.defaults + [x for x in st.args.kw_defaults if x is not None]:
                self._visit(d, m, cls, outer, qual)
            name = getattr(st, 'name', f'<lambda:{st.lineno}>')
            q = f'{qual}.<locals>.{name}' if outer is not None else f'{qual}.{name}'
            f = Fn(self, q, st, m, cls, outer)
            self.fns.append(f)
            self.by_node[id(st)] = f
            self.by_qual[q] = f
            if outer is not None:
                outer.nested[name] = f
                outer.all_nested.append(f)
            elif cls is not None:
                self.methods.setdefault(f.name, []).append(f)
            scan = Scan(f)
            for x in (st.body if isinstance(st.body, list) else [st.body]):
                scan.visit(x)
            f.locals = scan.names | set(f.params) | set(f.kwonly) | {x for x in (f.vararg, f.kwarg) if x}
            f.locals -= scan.globals | scan.nonlocals
            f.globals, f.nonlocals, f.is_gen = scan.globals, scan.nonlocals, scan.gen
            if isinstance(st.body, list):
                self._walk(st.body, m, cls, f, q)
            else:
                self._visit(st.body, m, cls, f, q)
            return
        if isinstance(st, ast.ClassDef):
            q = f'{qual}.{st.name}'
            self._walk(st.body, m, self.P.classes.get(q, cls), None, q)
            return
        if isinstance(st, ast.If) and outer is None:
            v = self.P._static_test(st.test)
            if v is not None:
                return self._walk(st.body if v else st.orelse, m, cls, outer, qual)
        for ch in ast.iter_child_nodes(st):
            self._visit(ch, m, cls, outer, qual)

    def _class_attrs(self):
        for c in self.P.classes.values():
            for n, v in c.attrs.items():
                k = self.expr_kind(v, c.module)
                if k:
                    self.attr_kinds.setdefault(n, set()).add(k)

    def expr_kind(self, v, m):
        if isinstance(v, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(v, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(v, ast.GeneratorExp):
            return 'iter'
        if isinstance(v, ast.Call):
            return self.ctor_kind(self.P.resolve_expr(v.func, m))
        return None

    def ctor_kind(self, r):
        if r is None:
            return None
        if r.op == 'glob':
            if r.a[0] in MUT_CTORS:
                return MUT_CTORS[r.a[0]]
            if r.a[0] in ITERATORS:
                return 'iter'
        if r.op == 'class':
            c = self.P.classes[r.a[0]]
            for b in c.ext_bases():
                if b in MUT_CTORS:
                    return MUT_CTORS[b]
                if b in ('typing.Dict', 'typing.DefaultDict', 'typing.OrderedDict'):
                    return 'dict'
                if b in ('typing.List',):
                    return 'list'
                if b in ('typing.Set',):
                    return 'set'
        return None

    def candidates(self, cls, name, after=False):
        """every implementation ``self.name`` may reach from a method of cls"""
        out = []
        if cls is None:
            return out
        mro = [c for c in cls.mro() if not isinstance(c, str)]
        if after:
            mro = mro[1:]
        for c in mro:
            fs = [f for f in self.methods.get(name, ()) if f.cls is c]
            if fs:
                out.append(fs[-1])
                break
        if not after:
            for s in self.subs.get(cls.qual, ()):
                fs = [f for f in self.methods.get(name, ()) if f.cls is s]
                if fs and fs[-1] not in out:
                    out.append(fs[-1])
        else:
            # cooperative classes: the next class may be a sibling
            for s in self.subs.get(cls.qual, ()):
                full = [c for c in s.mro() if not isinstance(c, str)]
                if cls in full:
                    for c in full[full.index(cls) + 1:]:
                        fs = [f for f in self.methods.get(name, ()) if f.cls is c]
                        if fs:
                            if fs[-1] not in out:
                                out.append(fs[-1])
                            break
        return out


class Scan(ast.NodeVisitor):
    """names bound in a function body (not in nested functions)"""

    def __init__(self, f):
        self.names, self.globals, self.nonlocals, self.gen = set(), set(), set(), False

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.args.defaults:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals |= set(n.names)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add(a.asname or a.name.split('.')[0])

    visit_ImportFrom = visit_Import

    def visit_Yield(self, n):
        self.gen = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Yield

    def comp(self, n):
        # comprehension variables are handled as locals of the function
        self.generic_visit(n)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp


class State:
    __slots__ = ('env', 'over', 'present')

    def __init__(self, env=None, over=None, present=frozenset()):
        self.env, self.over, self.present = dict(env or {}), dict(over or {}), present

    def copy(self):
        return State(self.env, self.over, self.present)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.over.items()), self.present)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    env = dict(a.env)
    for k, v in b.env.items():
        env[k] = env.get(k, E0) | v
    over = {}
    for k in set(a.over) | set(b.over):
        over[k] = a.over.get(k, frozenset([k])) | b.over.get(k, frozenset([k]))
    return State(env, over, a.present & b.present)


class Walker:
    """abstract interpretation of one function body"""

    def __init__(self, an, f):
        self.an, self.f, self.m = an, f, f.module
        self.inside = {}
        self.kinds = {}
        self.ret = E0
        self.fn_site = {}
        self.breaks = []
        self.conts = []
        self.raises = []
        self.env_all = {}
        self.handled = 0           # inside of a try that handles a missing key
        self.once_ = None
        self.yielded = E0

    # -- driver -----------------------------------------------------------------------------------------------------
    def run(self):
        f = self.f
        st = State()
        for p in f.params + f.kwonly:
            st.env[p] = self.param(p)
        if f.vararg:
            s = ('F', '*' + f.vararg)
            self.inside[s] = {'*': frozenset([(('P', '*' + f.vararg), ())])}
            self.kinds[s] = frozenset(['tuple'])
            st.env[f.vararg] = frozenset([(s, ())])
        if f.kwarg:
            s = ('F', '**' + f.kwarg)
            self.inside[s] = {'*': frozenset([(('P', '**' + f.kwarg), ())])}
            self.kinds[s] = frozenset(['dict'])
            st.env[f.kwarg] = frozenset([(s, ())])
        self.note_env(st)
        if isinstance(f.node, ast.Lambda):
            self.ret |= self.ev(f.node.body, st)
        else:
            self.block(f.node.body, st)
        for rep in range(2):
            pass
        ret = self.ret | self.yielded if not f.is_gen else E0
        if f.is_gen:
            s = ('F', 'generator')
            self.inside[s] = {'*': self.yielded}
            self.kinds[s] = frozenset(['iter'])
            ret = frozenset([(s, ())])
        fresh = {p[0] for p in ret if p[0][0] == 'F'}
        f.ret = frozenset(p for p in ret if p[0][0] != 'F')
        f.ret_fresh = bool(fresh)
        ins, seen, todo, kinds = set(), set(), list(fresh), set()
        for s in fresh:
            kinds |= self.kinds.get(s, E0)
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            for lab, ps in self.inside.get(s, {}).items():
                for p in ps:
                    if p[0][0] == 'F':
                        todo.append(p[0])
                    else:
                        ins.add((lab, p))
        f.ret_inside = frozenset(ins)
        f.ret_kinds = frozenset(kinds)
        f.env_out = {k: v for k, v in self.env_all.items()}
        f.kinds_out = {k: frozenset().union(*[self.kinds.get(p[0], E0) for p in v if p[0][0] == 'F'] or [E0])
                       for k, v in self.env_all.items()}
        f.inside_out = self.inside

    def param(self, p):
        a = self.f.ann.get(p)
        if a is not None:
            s = ast.unparse(a).strip('\'"')
            head = s.split('[')[0].split('.')[-1]
            if head in IMM_ANN and head not in ('None',):
                return E0
        return frozenset([(('P', p), ())])

    # -- places -----------------------------------------------------------------------------------------------------
    def new(self, node, inside=E0, kind=None, tag='', label='*'):
        s = ('F', f'{type(node).__name__}@{getattr(node, "lineno", 0)}:{getattr(node, "col_offset", 0)}{tag}')
        d = self.inside.setdefault(s, {})
        if inside:
            d[label] = d.get(label, E0) | frozenset(inside) - {(s, ())}
        if kind:
            self.kinds[s] = self.kinds.get(s, E0) | {kind}
        return frozenset([(s, ())])

    def step(self, p, a, st):
        root, path = p
        if root[0] == 'F':
            if a == '__dict__':
                return frozenset([p])
            if a == '__class__':
                return E0
            d = self.inside.get(root, {})
            if a == '*' and self.kinds.get(root, E0) & {'instance'}:
                return frozenset().union(*d.values()) if d else E0
            return d.get(a, E0) | d.get('?', E0)
        if a in path:
            q = (root, path[:path.index(a) + 1])
        elif len(path) < DEPTH:
            q = (root, path + (a,))
        else:
            q = (root, path[:-1] + ('*',)) if '*' not in path else (root, path)
        if st is not None and q in st.over:
            return st.over[q]
        return frozenset([q])

    def load(self, val, a, st):
        r = set()
        for p in val:
            r |= self.step(p, a, st)
        return frozenset(r)

    def elems(self, val, st):
        return self.load(val, '*', st)

    def put(self, val, content, label='*'):
        """content becomes reachable from val (weak)"""
        for p in val:
            if p[0][0] == 'F':
                if content:
                    d = self.inside.setdefault(p[0], {})
                    d[label] = d.get(label, E0) | (content - {p})
            elif p[0][0] in 'PC':
                out = self.f.stores.setdefault((p, label), set())
                out |= {x if x[0][0] != 'F' else
                        ('F', next(iter(self.kinds.get(x[0], E0) & (MUT_KINDS | {'iter', 'tuple'})), '')) for x in content}

    def effect(self, val, kind, what, node):
        for p in val:
            if p[0][0] == 'F':
                continue
            e = Eff(p, kind, what, node, self.f.qual, self.m)
            self.f.effects.setdefault(e.key(), e)

    def note_env(self, st):
        for k, v in st.env.items():
            self.env_all[k] = self.env_all.get(k, E0) | v

    # -- names ------------------------------------------------------------------------------------------------------
    def name(self, n, st):
        if n in st.env:
            return st.env[n]
        f = self.f
        if n in f.nested and n in f.locals:
            return E0
        if n in f.locals:
            return E0
        o = f.outer
        if n not in f.globals:
            while o is not None:
                if n in o.locals:
                    return frozenset([(('C', n), ())])
                o = o.outer
        r = self.an.P.resolve(self.m, n)
        if r is None or self.sentinel(r):
            return E0
        if r.op == 'glob' and (r.a[0].startswith(B) or not r.a[0].startswith(self.an.P.pkg)):
            if r.a[0].startswith(B):
                return E0
        if r.op == 'mod':
            return frozenset([(('G', r.a[0]), ())])
        if r.op in ('fn', 'class', 'glob'):
            return frozenset([(('G', r.a[0]), ())])
        k = self.m.names.get(n)
        return frozenset([(('G', f'{self.m.name}.{n}'), ())]) if k else E0

    def sentinel(self, r):
        """a module-level object() or constant: nothing to change"""
        if r.op in ('sentinel', 'const', 'k'):
            return True
        if r.op != 'glob':
            return False
        for m in self.an.P.modules.values():
            if r.a[0].startswith(m.name + '.'):
                k = m.names.get(r.a[0][len(m.name) + 1:])
                if k and k[0] == 'assign':
                    v = k[1]
                    return isinstance(v, (ast.Constant, ast.Tuple)) or \
                        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in \
                        ('object', 'frozenset', 'TypeVar')
        return False

    def nested_fn(self, n):
        """the nested function a name denotes, searching outwards"""
        f = self.f
        if n in f.globals:
            return None
        while f is not None:
            if n in f.nested:
                return f.nested[n]
            if n in f.locals:
                return None
            f = f.outer
        return None

    # -- statements -------------------------------------------------------------------------------------------------
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
            if st is not None:
                self.note_env(st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            self.ev(s.value, st)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, st)
            for t in s.targets:
                self.assign(t, v, st, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st, s.value)
        elif isinstance(s, ast.AugAssign):
            self.augment(s, st)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = self.an.by_node.get(id(s))
            caps = self.captured(fn, st)
            v = self.new(s, caps, 'fn')
            for d in reversed(s.decorator_list):
                fn.escapes = True
                v = self.apply_deco(d, v, st)
            st.env[s.name] = v
        elif isinstance(s, ast.ClassDef):
            st.env[s.name] = self.new(s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.ret |= self.ev(s.value, st)
            return None
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.ev(s.exc, st)
            if s.cause is not None:
                self.ev(s.cause, st)
            return None
        elif isinstance(s, ast.If):
            return self.branch(s, st)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            return self.loop(s, st)
        elif isinstance(s, ast.While):
            return self.loop(s, st)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            return self.try_(s, st)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v | self.unknown(s), st, None)
            handles = any(isinstance(it.context_expr, ast.Call) and self.glob(it.context_expr.func) == 'contextlib.suppress'
                          and any(self.catches_missing(a) for a in it.context_expr.args) for it in s.items)
            self.handled += handles
            st = self.block(s.body, st)
            self.handled -= handles
            return st
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                elif isinstance(t, ast.Attribute):
                    self.effect(self.ev(t.value, st), 'write', f'deletes attribute {t.attr}', s)
                elif isinstance(t, ast.Subscript):
                    self.ev(t.slice, st)
                    self.effect(self.ev(t.value, st), 'write', 'deletes an item', s)
        elif isinstance(s, ast.Assert):
            self.ev(s.test, st)
            self.known(s.test, True, st)
        elif isinstance(s, (ast.Break,)):
            if self.breaks:
                self.breaks[-1] = join(self.breaks[-1], st)
            return None
        elif isinstance(s, ast.Continue):
            if self.conts:
                self.conts[-1] = join(self.conts[-1], st)
            return None
        elif isinstance(s, ast.Match):
            v = self.ev(s.subject, st)
            out = st.copy()
            for c in s.cases:
                b = st.copy()
                for n in ast.walk(c.pattern):
                    for nm in (getattr(n, 'name', None), getattr(n, 'rest', None)):
                        if nm:
                            b.env[nm] = v | self.elems(v, st)
                if c.guard is not None:
                    self.ev(c.guard, b)
                out = join(out, self.block(c.body, b))
            return out
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                st.env[a.asname or a.name.split('.')[0]] = frozenset([(('G', a.name), ())])
        return st

    def apply_deco(self, d, v, st):
        r = self.callee(d, st)
        if isinstance(d, ast.Attribute):
            recv = self.ev(d.value, st)
            if d.attr in MUTATING:
                self.effect(recv, 'write', f'.{d.attr}(...)', d)
                self.put(recv, v)
                return E0
        if isinstance(d, ast.Call):
            return self.ev(d, st) | v
        if r and r[0] == 'lib' and r[1] in ('functools.wraps',):
            return v
        self.ev(d, st)
        return v

    def branch(self, s, st):
        self.ev(s.test, st)
        a, b = st.copy(), st.copy()
        self.known(s.test, True, a)
        self.known(s.test, False, b)
        a = self.block(s.body, a)
        b = self.block(s.orelse, b)
        return join(a, b)

    def once(self):
        """locals assigned exactly once, to an expression of attributes, names and tests"""
        if self.once_ is None:
            n, count = {}, {}
            body = self.f.node.body if isinstance(self.f.node.body, list) else []
            st = list(body)
            while st:
                x = st.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    count[x.id] = count.get(x.id, 0) + 1
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    n[x.targets[0].id] = x.value
                elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and isinstance(x.target, ast.Name) and x.value:
                    n[x.target.id] = x.value
                st.extend(ast.iter_child_nodes(x))
            params = set(self.f.params) | set(self.f.kwonly)
            self.once_ = {k: v for k, v in n.items() if count.get(k) == 1 and k not in params and not any(
                isinstance(x, ast.Name) and count.get(x.id, 0) > 1 for x in ast.walk(v))}
        return self.once_

    def text(self, e, depth=0):
        """the text of an expression, with the locals that only name another one resolved"""
        once = self.once()
        if depth < 5 and any(isinstance(x, ast.Name) and x.id in once for x in ast.walk(e)):
            class Sub(ast.NodeTransformer):
                def visit_Name(self, x):
                    v = once.get(x.id)
                    return v if isinstance(v, (ast.Name, ast.Attribute, ast.Call)) else x
            e2 = Sub().visit(ast.parse(ast.unparse(e), mode='eval').body)
            if ast.dump(e2) != ast.dump(e):
                return self.text(e2, depth + 1)
        return ast.unparse(e)

    def predicate(self, test):
        """the test that a call of a one line predicate of the package makes"""
        f = test.func
        d = None
        if isinstance(f, ast.Name):
            d = next((x for x in self.m.tree.body if isinstance(x, ast.FunctionDef) and x.name == f.id), None)
            first = 0
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            o = self.f
            while o.outer is not None:
                o = o.outer
            if o.cls is None or not o.params or f.value.id != o.params[0]:
                return None
            d = next((x for c in o.cls.mro() for x in getattr(getattr(c, 'node', None), 'body', ())
                      if isinstance(x, ast.FunctionDef) and x.name == f.attr), None)
            first = 0 if d is not None and 'staticmethod' in map(ast.unparse, d.decorator_list) else 1
        if d is None or not d.body or not isinstance(d.body[-1], ast.Return) or d.body[-1].value is None or \
                len(d.body) > 2 or test.keywords or any(isinstance(x, ast.Starred) for x in test.args):
            return None
        ps = [x.arg for x in d.args.posonlyargs + d.args.args]
        given = ([f.value] if first else []) + list(test.args)
        sub = dict(zip(ps, given))

        class Sub(ast.NodeTransformer):
            def visit_Name(self, x):
                return sub.get(x.id, x)
        return Sub().visit(ast.parse(ast.unparse(d.body[-1].value), mode='eval').body)

    def known(self, test, val, st, depth=0):
        """membership facts of a branch: (container text, key text) known to be present"""
        if depth > 6:
            return
        if isinstance(test, ast.Name) and test.id in self.once():
            return self.known(self.once()[test.id], val, st, depth + 1)
        if isinstance(test, ast.NamedExpr):
            return self.known(test.value, val, st, depth + 1)
        if isinstance(test, ast.Call):
            t = self.predicate(test)
            if t is not None:
                self.known(t, val, st, depth + 1)
            return
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.known(test.operand, not val, st, depth + 1)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) == val:
            for x in test.values:
                self.known(x, val, st, depth + 1)
            return
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            op = test.ops[0]
            if (isinstance(op, ast.In) and val) or (isinstance(op, ast.NotIn) and not val):
                c = self.text(test.comparators[0])
                if c.endswith('.keys()'):
                    c = c[:-7]
                st.present |= {(c, self.text(test.left))}

    def rows(self, s):
        """the elements of the display a loop runs over"""
        it = s.iter
        if isinstance(it, ast.Name):
            it = self.once().get(it.id, it)
        if isinstance(it, (ast.Tuple, ast.List)) and len(it.elts) <= 8 and \
                not any(isinstance(x, ast.Starred) for x in it.elts):
            return it.elts
        return None

    def loop(self, s, st):
        rows = self.rows(s) if isinstance(s, ast.For) else None
        if rows is not None and any(isinstance(x, (ast.Tuple, ast.List)) for x in rows):
            return self.unrolled(s, rows, st)
        self.breaks.append(None)
        cur = st
        for _ in range(6):
            self.conts.append(None)
            b = cur.copy()
            if isinstance(s, ast.While):
                self.ev(s.test, b)
                self.known(s.test, True, b)
            else:
                it = self.ev(s.iter, b)
                self.iterate(it, s.iter, b)
                self.assign(s.target, self.elems(it, b), b, None)
                self.loop_present(s.target, s.iter, b)
            self.note_env(b)
            b = self.block(s.body, b)
            b = join(b, self.conts.pop())
            nxt = join(cur, b)
            if nxt.key() == cur.key():
                break
            cur = nxt
        out = cur.copy()
        if s.orelse:
            out = self.block(s.orelse, out)
        br = self.breaks.pop()
        infinite = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
        if infinite:
            return br
        return join(out, br)

    def unrolled(self, s, rows, st):
        self.ev(s.iter, st)
        self.breaks.append(None)
        cur = st.copy()
        for r in rows:
            if cur is None:
                break
            self.conts.append(None)
            self.assign(s.target, self.ev(r, cur), cur, r)
            self.note_env(cur)
            b = self.block(s.body, cur)
            cur = join(b, self.conts.pop())
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur)
        return join(cur, self.breaks.pop())

    def loop_present(self, target, it, st):
        src = self.text(it)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr in ('items', 'keys'):
            src = self.text(it.func.value)
        if isinstance(target, ast.Name):
            st.present |= {(src, target.id)}
        elif isinstance(target, ast.Tuple) and target.elts and isinstance(target.elts[0], ast.Name):
            st.present |= {(src, target.elts[0].id)}

    @staticmethod
    def catches_missing(t):
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        return any(x is None or isinstance(x, ast.Name) and x.id in ('KeyError', 'LookupError', 'Exception', 'BaseException')
                   for x in ts)

    def try_(self, s, st):
        start = st.copy()
        mid = start
        cur = st
        # any statement of the body may raise
        handles = any(self.catches_missing(h.type) for h in s.handlers)
        self.handled += handles
        for x in s.body:
            if cur is None:
                break
            cur = self.stmt(x, cur)
            if cur is not None:
                self.note_env(cur)
                mid = join(mid, cur.copy())
        self.handled -= handles
        out = None
        if cur is not None:
            out = self.block(s.orelse, cur)
        for h in s.handlers:
            b = mid.copy()
            b.present = start.present
            if h.name:
                b.env[h.name] = self.new(h)
            out = join(out, self.block(h.body, b))
        if s.finalbody:
            fin = join(out, mid.copy())
            r = self.block(s.finalbody, fin)
            if out is None:
                return None
            return r
        return out

    def augment(self, s, st):
        v = self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            if t.id in self.f.globals or t.id in self.f.nonlocals:
                self.rebind(t.id, s, st)
            old = self.name(t.id, st)
            if not self.plain(s.value):
                self.effect(old, 'inplace', f'in-place {type(s.op).__name__} on {t.id}', s)
            elif isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)):
                self.effect(old, 'inplace', f'in-place {type(s.op).__name__} on {t.id}', s)
            self.put(old, self.elems(v, st) if isinstance(s.op, (ast.Add, ast.BitOr)) else E0)
            st.env[t.id] = old
            if not old:
                st.env[t.id] = E0
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.effect(base, 'write', f'changes attribute {t.attr}', s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.effect(base, 'write', 'changes an item', s)
            self.put(base, v)

    def plain(self, e):
        return isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple)) or \
            isinstance(e, ast.BinOp) and self.plain(e.left) and self.plain(e.right)

    def rebind(self, n, node, st):
        if n in self.f.globals:
            self.effect(frozenset([(('G', f'{self.m.name}.{n}'), ())]), 'write', f'rebinds global {n}', node)
        else:
            self.effect(frozenset([(('C', n), ())]), 'rebind', f'rebinds {n} of the enclosing function', node)

    def assign(self, t, v, st, src):
        if isinstance(t, ast.Name):
            if t.id in self.f.globals or t.id in self.f.nonlocals:
                self.rebind(t.id, t, st)
                return
            st.env[t.id] = v
            st.present = frozenset(x for x in st.present if not self.mentions(x, t.id))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.effect(base, 'write', f'sets attribute {t.attr}', t)
            self.put(base, v, t.attr)
            for p in base:
                if p[0][0] in 'PCG' and len(p[1]) < DEPTH:
                    k = (p[0], p[1] + (t.attr,))
                    if len(base) == 1:
                        st.over[k] = v
                    else:
                        st.over[k] = st.over.get(k, frozenset([k])) | v
            self.note_attr(t.attr, v, src, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st)
            self.ev(t.slice, st)
            self.effect(base, 'write', 'sets an item', t)
            self.put(base, v)
            if isinstance(t.slice, ast.Constant) and t.slice.value == '__builtins__':
                self.put(base, v, '__builtins__')
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and \
                    not any(isinstance(x, ast.Starred) for x in src.elts + t.elts):
                vs = [self.ev(x, st) for x in src.elts]
                for x, y, z in zip(t.elts, vs, src.elts):
                    self.assign(x, y, st, z)
                return
            el = self.elems(v, st)
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.assign(x.value, self.new(x, el, 'list'), st, None)
                else:
                    self.assign(x, el, st, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, None)

    def mentions(self, pair, n):
        return any(n in x.replace('.', ' ').replace('[', ' ').replace('(', ' ').replace(')', ' ').split() for x in pair)

    def note_attr(self, attr, v, src, st):
        ks = self.an.attr_kinds.setdefault(attr, set())
        for p in v:
            if p[0][0] == 'F':
                ks |= set(self.kinds.get(p[0], E0))
            elif p[0][0] == 'P' and not p[1]:
                a = self.f.ann.get(p[0][1])
                if a is not None:
                    txt = {n.id if isinstance(n, ast.Name) else n.attr for n in ast.walk(a)
                           if isinstance(n, (ast.Name, ast.Attribute))}
                    if txt & LAZY_ANN:
                        ks.add('iter')
                    if txt & {'Mapping', 'Dict', 'dict', 'MutableMapping'}:
                        ks.add('usermap')

    # -- expressions ------------------------------------------------------------------------------------------------
    def unknown(self, node, alias=E0):
        return frozenset([(('U', getattr(node, 'lineno', 0)), ())])

    def iterate(self, val, node, st):
        self.effect(val, 'iterate', 'iterates over it', node)

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, ast.expr):
                    self.ev(ch, st)
            return E0
        return m(e, st)

    def e_Constant(self, e, st):
        return E0

    def e_Name(self, e, st):
        fn = self.nested_fn(e.id) if isinstance(e.ctx, ast.Load) else None
        if fn is not None:
            fn.escapes = True
        r = self.name(e.id, st)
        if fn is None and isinstance(e.ctx, ast.Load):
            for p in r:
                if p[0][0] == 'G' and not p[1]:
                    self.an.value_funcs.add(p[0][1])
        return r

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st, e.value)
        return v

    def e_Attribute(self, e, st):
        base = self.ev(e.value, st)
        if e.attr in self.an.methods:
            self.an.value_methods.add(e.attr)
        g = self.glob(e)
        if g:
            return frozenset([(('G', g), ())]) if not g.startswith(B) else E0
        if e.attr in ('__name__', '__qualname__', '__module__', '__doc__'):
            return E0
        return self.load(base, e.attr, st)

    def glob(self, e):
        """the dotted global a name or attribute chain denotes, if it is one"""
        x = e
        while isinstance(x, ast.Attribute):
            x = x.value
        if not isinstance(x, ast.Name) or x.id in self.f.locals:
            return None
        o = self.f.outer
        while o is not None:
            if x.id in o.locals:
                return None
            o = o.outer
        r = self.an.P.resolve_expr(e, self.m)
        if r is None:
            return None
        return r.a[0] if r.op in ('glob', 'fn', 'class', 'mod') else None

    def e_Subscript(self, e, st):
        base = self.ev(e.value, st)
        self.ev(e.slice, st)
        if isinstance(e.slice, ast.Slice):
            return self.new(e, self.elems(base, st))
        g = self.glob(e.value)
        if g and (g.startswith('typing.') or g.startswith(B)):
            return E0
        if (self.text(e.value), self.text(e.slice)) not in st.present:
            self.effect(base, 'index', 'looks up a key that may be absent', e)
            if self.handled:
                self.effect(base, 'index-handled', 'looks up a key that may be absent', e)
        return self.elems(base, st)

    def e_Slice(self, e, st):
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                self.ev(x, st)
        return E0

    def e_BinOp(self, e, st):
        a, b = self.ev(e.left, st), self.ev(e.right, st)
        return self.new(e, self.elems(a, st) | self.elems(b, st)) if a or b else E0

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        return E0 if isinstance(e.op, ast.Not) else (self.new(e) if v else E0)

    def e_BoolOp(self, e, st):
        r = E0
        cur = st.copy()
        for x in e.values:
            r |= self.ev(x, cur)
            self.known(x, isinstance(e.op, ast.And), cur)
        for k, v in cur.env.items():
            st.env[k] = st.env.get(k, E0) | v
        return r

    def e_Compare(self, e, st):
        self.ev(e.left, st)
        for op, c in zip(e.ops, e.comparators):
            v = self.ev(c, st)
            if isinstance(op, (ast.In, ast.NotIn)):
                self.iterate(v, c, st)
        return E0

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = st.copy(), st.copy()
        self.known(e.test, True, a)
        self.known(e.test, False, b)
        return self.ev(e.body, a) | self.ev(e.orelse, b)

    def e_JoinedStr(self, e, st):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, st)
        return E0

    def e_display(self, e, st, kind):
        ins = E0
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                self.iterate(v, x, st)
                ins |= self.elems(v, st)
            else:
                ins |= self.ev(x, st)
        return self.new(e, ins, kind)

    def e_List(self, e, st):
        return self.e_display(e, st, 'list')

    def e_Tuple(self, e, st):
        return self.e_display(e, st, 'tuple')

    def e_Set(self, e, st):
        return self.e_display(e, st, 'set')

    def e_Dict(self, e, st):
        ins = names = E0
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, st)
                ins |= self.elems(x, st)
            else:
                self.ev(k, st)
                x = self.ev(v, st)
                ins |= x
                if isinstance(k, ast.Constant) and k.value == '__builtins__':
                    names |= x
        r = self.new(e, ins, 'dict')
        self.put(r, names, '__builtins__')
        return r

    def comp(self, e, st, kind, parts):
        b = st.copy()
        for g in e.generators:
            it = self.ev(g.iter, b)
            self.iterate(it, g.iter, b)
            self.assign(g.target, self.elems(it, b), b, None)
            self.loop_present(g.target, g.iter, b)
            self.note_env(b)
            for c in g.ifs:
                self.ev(c, b)
                self.known(c, True, b)
        ins = E0
        for p in parts:
            ins |= self.ev(p, b)
        return self.new(e, ins, kind)

    def e_ListComp(self, e, st):
        return self.comp(e, st, 'list', [e.elt])

    def e_SetComp(self, e, st):
        return self.comp(e, st, 'set', [e.elt])

    def e_DictComp(self, e, st):
        return self.comp(e, st, 'dict', [e.key, e.value])

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, 'iter', [e.elt])

    def captured(self, fn, st):
        out = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Name) and n.id not in fn.locals and n.id in self.f.locals:
                out |= st.env.get(n.id, E0)
        return frozenset(out)

    def e_Lambda(self, e, st):
        fn = self.an.by_node.get(id(e))
        if fn is not None:
            fn.escapes = True
            return self.new(e, self.captured(fn, st), 'fn')
        return self.new(e)

    def e_Yield(self, e, st):
        if e.value is not None:
            self.yielded |= self.ev(e.value, st)
        return self.unknown(e)

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        self.iterate(v, e, st)
        self.yielded |= self.elems(v, st)
        return self.unknown(e)

    def e_Await(self, e, st):
        return self.unknown(e, self.ev(e.value, st))

    def e_Starred(self, e, st):
        v = self.ev(e.value, st)
        self.iterate(v, e, st)
        return self.elems(v, st)

    # -- calls ------------------------------------------------------------------------------------------------------
    def callee(self, fe, st):
        """('nested', Fn) | ('fn', Fn) | ('class', Cls) | ('lib', dotted) | ('super', name) | ('meth', attr) | None"""
        if isinstance(fe, ast.Name):
            n = self.nested_fn(fe.id)
            if n is not None:
                return 'nested', n
            g = self.glob(fe)
            if g:
                return self.global_callee(g)
            return None
        if isinstance(fe, ast.Lambda):
            return 'nested', self.an.by_node[id(fe)]
        if isinstance(fe, ast.Attribute):
            g = self.glob(fe)
            if g:
                r = self.global_callee(g)
                if r and not (r[0] == 'lib' and self.from_data(g)):
                    return r
            if isinstance(fe.value, ast.Call) and isinstance(fe.value.func, ast.Name) and fe.value.func.id == 'super':
                return 'super', fe.attr
            return 'meth', fe.attr
        return None

    def from_data(self, g):
        """is the dotted name an attribute of a module-level object rather than a library function"""
        head = g
        while '.' in head:
            head, _, tail = head.rpartition('.')
            for m in self.an.P.modules.values():
                if head.startswith(m.name + '.') and head[len(m.name) + 1:] in m.names:
                    k = m.names[head[len(m.name) + 1:]]
                    if k[0] == 'assign':
                        return True
        return False

    def global_callee(self, g):
        P = self.an.P
        if g in self.an.by_qual:
            return 'fn', self.an.by_qual[g]
        if g in P.classes:
            return 'class', P.classes[g]
        # Class.method
        head, _, tail = g.rpartition('.')
        if head in P.classes:
            return 'cmeth', (P.classes[head], tail)
        return 'lib', g

    def e_Call(self, e, st):
        fe = e.func
        c = self.callee(fe, st)
        recv = None
        if c and c[0] in ('meth',):
            recv = self.ev(fe.value, st)
        elif c is None:
            fval = self.ev(fe, st)
        # arguments
        pos, star, kws, dstar = [], E0, {}, E0
        hof = c and c[0] == 'lib' and c[1] in HOF
        local_fns = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                self.iterate(v, a, st)
                star |= self.elems(v, st)
            elif hof and self.local_fn(a) is not None:
                local_fns.append(self.local_fn(a))
                pos.append(E0)
            else:
                pos.append(self.ev(a, st))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, st)
                dstar |= self.elems(v, st)
            elif hof and self.local_fn(k.value) is not None:
                local_fns.append(self.local_fn(k.value))
                kws[k.arg] = E0
            else:
                kws[k.arg] = self.ev(k.value, st)
        everything = star | dstar
        for v in list(pos) + list(kws.values()):
            everything |= v
        for fn in local_fns:
            el = self.elems(everything, st)
            self.invoke(fn, e, st, [el] * len(fn.params), E0, {}, E0, None)
        if c is None:
            # a variable holding something callable
            if isinstance(fe, ast.Call) and isinstance(fe.func, ast.Name) and fe.func.id == 'type':
                return self.construct(e, st, everything, E0)
            if isinstance(fe, ast.Attribute) and fe.attr == '__class__':
                return self.construct(e, st, everything, E0)
            if isinstance(fe, ast.Name) and self.f.classm and fe.id == self.f.self_name and \
                    self.an.candidates(self.f.cls, '__init__') and not self.an.candidates(self.f.cls, '__new__'):
                return self.make(self.f.cls, e, st, pos, star, kws, dstar, everything)
            if isinstance(fe, ast.Name) and self.f.classm and fe.id == self.f.self_name:
                return self.construct(e, st, everything, E0)
            if isinstance(fe, ast.Name) and fe.id == 'cls':
                return self.construct(e, st, everything, E0)
            self.effect(everything, 'leak', 'is handed to outside code', e)
            return self.unknown(e, everything)
        k, x = c
        if k in ('nested', 'fn'):
            return self.invoke(x, e, st, pos, star, kws, dstar, None)
        if k == 'class':
            return self.make(x, e, st, pos, star, kws, dstar, everything)
        if k == 'cmeth':
            cls, nm = x
            fs = self.an.candidates(cls, nm)[:1]
            if not fs:
                return self.lib_method(nm, pos[0] if pos else E0, e, st, pos[1:], kws, everything)
            f = fs[0]
            if f.classm:
                return self.invoke(f, e, st, [E0] + pos, star, kws, dstar, None)
            return self.invoke(f, e, st, pos, star, kws, dstar, None)
        if k == 'super':
            me = self.f
            while me.outer is not None:
                me = me.outer
            self_val = st.env.get(me.self_name, frozenset([(('C', me.self_name), ())])) if me.self_name else E0
            if x == '__new__' and not [f for f in self.an.candidates(me.cls, x, after=True)]:
                return self.new(e, E0, 'instance')
            fs = self.an.candidates(me.cls, x, after=True)
            if fs:
                r = E0
                for f in fs:
                    r |= self.invoke(f, e, st, [self_val] + pos, star, kws, dstar, None)
                return r
            return self.lib_method(x, self_val, e, st, pos, kws, everything)
        if k == 'meth':
            return self.method(fe, x, recv, e, st, pos, star, kws, dstar, everything)
        return self.library(x, e, st, pos, star, kws, everything)

    def local_fn(self, a):
        if isinstance(a, ast.Lambda):
            return self.an.by_node.get(id(a))
        if isinstance(a, ast.Name):
            return self.nested_fn(a.id)
        return None

    def construct(self, e, st, everything, _):
        return self.new(e, everything | self.elems(everything, st), 'instance', label='?')

    def make(self, cls, e, st, pos, star, kws, dstar, everything):
        kind = self.an.ctor_kind_cls(cls) if hasattr(self.an, 'ctor_kind_cls') else None
        inits = self.an.candidates(cls, '__init__')[:1]
        if kind:
            r = self.new(e, self.elems(everything, st) | self.elems(self.elems(everything, st), st), kind)
        elif inits and not cls.is_namedtuple:
            r = self.new(e, E0, 'instance')
        else:
            r = self.new(e, everything, 'instance', label='?')
        for f in inits:
            self.invoke(f, e, st, [r] + pos, star, kws, dstar, None)
        return r

    def receiver_class(self, node, st):
        """the class whose methods ``node.m`` reaches, when the receiver is self, cls or type(self)"""
        f = self.f
        while f.outer is not None:
            f = f.outer
        if isinstance(node, ast.Name) and f.self_name == node.id and f.cls is not None:
            return f.cls
        if isinstance(node, ast.Name) and f.cls is not None and f.params[:1] == [node.id] and node.id in ('self', 'cls'):
            return f.cls
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'type' and node.args:
            return self.receiver_class(node.args[0], st)
        if isinstance(node, ast.Attribute) and node.attr == '__class__':
            return self.receiver_class(node.value, st)
        return None

    def method(self, fe, name, recv, e, st, pos, star, kws, dstar, everything):
        rc = self.receiver_class(fe.value, st)
        nm = name
        if rc is not None:
            fs = self.an.candidates(rc, nm)
        else:
            fs = self.an.methods.get(nm, []) if nm not in MUTATING and nm not in VIEWS and nm not in ELEMENT \
                and nm not in PLAIN and nm not in COPYING else []
            hints = {k for p in recv if p[0][0] == 'F' for k in self.kinds.get(p[0], E0)}
            if hints & {'list', 'dict', 'set', 'tuple', 'iter'}:
                fs = []
        if not fs:
            return self.lib_method(nm, recv, e, st, pos, kws, everything)
        if nm in SETUP_CALLS:
            self.effect(recv, 'setup', f'.{nm}(...)', e)
            r = E0
            for f in fs:
                if f.ret_fresh or f.ret:
                    r = self.unknown(e)
            return r
        r = E0
        for f in fs:
            if f.static:
                args = list(pos)
                if len(f.params) == len(pos) + 1 and f.params and f.params[0] in ('self', 'cls'):
                    args = [recv] + args
            elif f.classm:
                args = [self.load(recv, '__class__', st) if not self.is_cls(fe.value) else recv] + pos
            else:
                args = [recv] + pos
            if any(d.endswith(('SelectableFactory', 'Exporter', 'ShortcutFactory', 'shortcut')) for d in f.decos):
                # called through a factory or exporter descriptor: a new object or mapping of the arguments
                r |= self.new(e, everything, 'dict')
                continue
            r |= self.invoke(f, e, st, args, star, kws, dstar, None)
        return r

    def is_cls(self, node):
        if isinstance(node, ast.Name):
            return node.id == 'cls' or (self.f.classm and node.id == self.f.self_name)
        return isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'type'

    def lib_method(self, nm, recv, e, st, pos, kws, everything):
        if nm in MUTATING:
            self.effect(recv, 'write', f'.{nm}(...)', e)
            if nm in ('update', 'extend', 'extendleft', '__ior__', '__iadd__'):
                for v in pos:
                    self.iterate(v, e, st)
                self.put(recv, self.elems(everything, st) | frozenset().union(*kws.values()) if kws
                         else self.elems(everything, st))
            else:
                self.put(recv, everything if nm not in ('setdefault', '__setitem__', 'pop') or len(pos) < 2
                         else pos[1])
            if nm in ELEMENT:
                return self.elems(recv, st) | (pos[-1] if pos and nm in ('pop', 'setdefault') and len(pos) > 1 else E0)
            return E0
        if nm in VIEWS:
            return self.new(e, self.elems(recv, st), 'view')
        if nm in ELEMENT:
            r = self.elems(recv, st)
            for v in pos[1:]:
                r |= v
            return r
        if nm in COPYING:
            return self.new(e, self.elems(recv, st) | self.elems(everything, st))
        if nm in PLAIN:
            if nm == 'join' and pos:
                self.iterate(pos[0], e, st)
            return E0
        if nm == '__new__':
            return self.new(e, E0, 'instance')
        if nm.startswith('__') and nm.endswith('__'):
            return self.unknown(e, everything | recv)
        self.effect(everything, 'leak', 'is handed to outside code', e)
        return self.unknown(e, everything | self.elems(recv, st))

    def library(self, g, e, st, pos, star, kws, everything):
        for a in AMBIENT:
            if g == a or (a.endswith('.') and g.startswith(a)) or g.startswith(a + '.'):
                self.f.ambient[id(e)] = (g, e)
        first = pos[0] if pos else E0
        if g in MUT_FIRST or g in ('builtins.object.__setattr__', 'builtins.object.__delattr__'):
            what = f'{g.split(".")[-1]}(...)'
            self.effect(first, 'write', what, e)
            for v in pos[1:]:
                self.put(first, v, '?' if 'attr' in g else '*')
            if g == B + 'next':
                return self.elems(first, st) | (pos[1] if len(pos) > 1 else E0)
            return first
        head, _, tail = g.rpartition('.')
        if head.startswith(B) and tail in MUTATING | VIEWS | ELEMENT | COPYING and pos:
            return self.lib_method(tail, first, e, st, pos[1:], kws, everything)
        if g in (B + 'eval', B + 'exec'):
            for v in pos[1:] + list(kws.values()):
                self.effect(v, 'write', f'{tail} may change the namespace it is given', e)
                # the evaluated code reaches its builtins by name
                self.effect(frozenset(q for x in v if x[0][0] == 'F' for q in self.load(frozenset([x]), '__builtins__',
                                                                                       st)),
                            'write', f'{tail} may change the namespace it is given', e)
            return self.unknown(e)
        if g in (B + 'vars',):
            return self.load(first, '__dict__', st)
        if g in (B + 'globals', B + 'locals'):
            return frozenset([(('G', self.m.name), ())])
        if g == B + 'super':
            return E0
        if g == B + 'getattr' or g == 'inspect.getattr_static':
            a = e.args[1] if len(e.args) > 1 else None
            nm = a.value if isinstance(a, ast.Constant) and isinstance(a.value, str) else '*'
            return self.load(first, nm, st) | (pos[2] if len(pos) > 2 else E0)
        if g == B + 'type':
            if len(pos) == 1:
                return self.load(first, '__class__', st)
            return self.new(e)
        if g == 'collections.ChainMap':
            # writes to a ChainMap go to its first mapping
            return self.new(e, everything | self.elems(everything, st), 'chainmap') | (first or star)
        if g in PURE_IMM:
            for v in pos:
                if g in (B + 'any', B + 'all', B + 'sum'):
                    self.iterate(v, e, st)
            return E0
        if g in FRESH_ELEMS:
            for v in pos:
                self.iterate(v, e, st)
            extra = frozenset().union(*kws.values()) if kws else E0
            if g == 'collections.defaultdict' and pos:
                ins = self.new(e, E0, self.factory_kind(e), ':default')
            else:
                ins = E0
            for v in pos:
                ins |= self.elems(v, st)
            r = self.new(e, self.elems(star, st) | extra | ins, MUT_CTORS.get(g, 'tuple'))
            if '__builtins__' in kws:
                self.put(r, kws['__builtins__'], '__builtins__')
            return r
        if g in ITERATORS:
            for v in pos:
                self.iterate(v, e, st)
            el = self.elems(everything, st)
            if g.endswith(('zip', 'enumerate', 'zip_longest', 'product', 'pairwise', 'batched', 'from_iterable')):
                el |= self.elems(el, st)
                el = self.new(e, el, 'tuple', ':item') | el
            return self.new(e, el, 'iter')
        if g in ('copy.deepcopy',):
            if len(pos) > 1:
                self.effect(pos[1], 'write', 'deepcopy(..., memo)', e)
            return self.new(e)
        if g == 'copy.copy':
            return self.new(e, self.elems(first, st))
        if g in ('functools.lru_cache', 'functools.cache'):
            self.f.ambient[id(e)] = (g, e)
            return self.new(e, everything)
        if g == 'functools.partial':
            return self.new(e, everything, 'fn')
        if g in ('typing.get_args', 'typing.get_origin', 'typing.get_type_hints'):
            return self.new(e, self.elems(first, st))
        if g in ALIAS:
            return everything | self.elems(everything, st)
        if head.startswith(B):
            return self.new(e, everything)
        self.effect(everything, 'leak', 'is handed to outside code', e)
        return self.unknown(e, everything)

    def factory_kind(self, e):
        a = e.args[0] if e.args else None
        if isinstance(a, ast.Name) and a.id in ('set', 'list', 'dict'):
            return a.id
        return None

    def invoke(self, f, e, st, pos, star, kws, dstar, _):
        """translate the summary of f to this call"""
        bind = {}
        params = list(f.params)
        for i, p in enumerate(params):
            if i < len(pos):
                bind[p] = pos[i]
        extra = frozenset().union(*pos[len(params):]) if len(pos) > len(params) else E0
        names = set(params) | set(f.kwonly)
        kextra = E0
        for k, v in kws.items():
            if k in names:
                bind[k] = v
            else:
                kextra |= v
        for p in params + f.kwonly:
            if p not in bind:
                v = E0
                if star and p in params:
                    v |= star
                if dstar:
                    v |= dstar
                if p in f.defaults:
                    v |= self.default_places(f, p)
                bind[p] = v
        if f.vararg:
            bind['*' + f.vararg] = extra | star
        if f.kwarg:
            bind['**' + f.kwarg] = kextra | dstar

        def tr(p):
            root, path = p
            if root[0] == 'P':
                vals = bind.get(root[1], E0)
            elif root[0] == 'C':
                vals = self.cap(f, root[1], st)
            elif root[0] == 'U':
                return frozenset([p])
            else:
                vals = frozenset([(root, ())])
            for a in path:
                vals = self.load(vals, a, st)
            return vals

        for ef in list(f.effects.values()):
            if ef.kind == 'rebind':
                if f.outer is self.f:
                    continue
            for q in tr(ef.place):
                if q[0][0] == 'F':
                    if ef.kind == 'write' and ef.what.startswith('.'):
                        pass
                    continue
                n = ef.at(q)
                self.f.effects.setdefault(n.key(), n)
        for i, ((place, label), vals) in enumerate(list(f.stores.items())):
            content = E0
            for x in vals:
                if x[0] == 'F':
                    content |= self.new(e, E0, x[1] or None, f':{f.name}.{label}')
                else:
                    content |= tr(x)
            self.put(tr(place), content, label)
        out = set()
        for p in f.ret:
            out |= tr(p)
        if f.ret_fresh:
            ins = {}
            for lab, p in f.ret_inside:
                ins.setdefault(lab, set()).update(tr(p))
            k = next(iter(f.ret_kinds & MUT_KINDS), None) or ('iter' if 'iter' in f.ret_kinds else None)
            if 'instance' in f.ret_kinds and not k:
                k = 'instance'
            for lab, ps in ins.items() or [('*', E0)]:
                out |= self.new(e, frozenset(ps), k, ':' + f.name, label=lab)
        return frozenset(out)

    def cap(self, f, var, st):
        """what a captured variable of f denotes here"""
        if var in st.env and self.binds(f, var):
            return st.env[var]
        if self.binds(f, var):
            return self.env_all.get(var, E0)
        return frozenset([(('C', var), ())])

    def binds(self, f, var):
        """is the variable captured by f a local of the function being walked"""
        o = f.outer
        while o is not None:
            if var in o.locals:
                return o is self.f
            o = o.outer
        return False

    def default_places(self, f, p):
        d = f.defaults[p]
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return frozenset([(('G', f'default of {p} in {f.qual}'), ())])
        if isinstance(d, ast.Call):
            r = self.an.P.resolve_expr(d.func, f.module)
            if r is not None and r.op == 'glob' and r.a[0] in PURE_IMM | {B + 'frozenset', B + 'tuple'}:
                return E0
            return frozenset([(('G', f'default of {p} in {f.qual}'), ())])
        if isinstance(d, (ast.Name, ast.Attribute)):
            r = self.an.P.resolve_expr(d, f.module)
            if r is not None and r.op in ('glob', 'fn', 'class') and not r.a[0].startswith(B):
                return frozenset([(('G', r.a[0]), ())])
        return E0


def _ctor_kind_cls(self, cls):
    from .terms import T
    return self.ctor_kind(T('class', cls.qual))


Analysis.ctor_kind_cls = _ctor_kind_cls


def analyse(prog):
    if getattr(prog, '_effects', None) is None:
        prog._effects = Analysis(prog)
    return prog._effects
