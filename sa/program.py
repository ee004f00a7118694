"""
The program under analysis: every module of /repo/records parsed with ``ast``, names resolved through imports and
re-exports, classes linearised.  Nothing is imported or executed.
"""
import ast
import os
import sys

from .normal import normalise
from .terms import T, K

REPO = os.environ.get('SA_REPO', '/repo')


class AnalysisBroken(Exception):
    """an anchor of the analysis has vanished: the check can give no verdict"""


class Cls:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.attrs = {}      # name -> last defining node
        self.nested = {}
        self.classvars = set()
        self.annotated = []  # annotated names in order
        self.bases = []      # Cls | str
        self.slots = ()
        self._mro = None

    def __repr__(self):
        return f'<Cls {self.qual}>'

    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                seqs.append(list(b.mro()) if isinstance(b, Cls) else [b] + ([] if b == 'object' else ['object']))
            seqs.append(list(self.bases))
            out = [self]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x != h] for s in seqs]
                seqs = [s for s in seqs if s]
            if 'object' in out:
                out.remove('object')
            out.append('object')
            self._mro = out
        return self._mro

    def lookup(self, name, after=None):
        """-> (owner Cls, node) | (str external base, None) | None"""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, Cls):
                if name in c.attrs:
                    return c, c.attrs[name]
            elif external_has(c, name):
                return c, None
        return None

    def all_classvars(self):
        r = set()
        for c in self.mro():
            if isinstance(c, Cls):
                r |= c.classvars
        return r

    def annotated_inst(self, _=None):
        r = set()
        for c in self.mro():
            if isinstance(c, Cls):
                r |= set(c.annotated) - c.classvars
        return r

    def is_sub(self, other):
        return other in self.mro()

    def ext_bases(self):
        return [b for b in self.mro() if isinstance(b, str)]

    @property
    def is_namedtuple(self):
        return any(b in ('typing.NamedTuple', 'collections.namedtuple') for b in self.bases)

    @property
    def is_enum(self):
        return any(b.startswith('enum.') for b in self.ext_bases())

    @property
    def is_int_enum(self):
        return any(b in ('enum.IntEnum', 'enum.IntFlag') for b in self.ext_bases())

    @property
    def is_exception(self):
        return any(b.startswith('builtins.') and is_exc_name(b[9:]) for b in self.ext_bases())


def external_has(base, name):
    if base == 'object':
        return hasattr(object, name)
    if base.startswith('builtins.'):
        import builtins
        o = getattr(builtins, base[9:], None)
        return o is not None and name in vars(o)
    return False


def is_exc_name(n):
    import builtins
    o = getattr(builtins, n, None)
    return isinstance(o, type) and issubclass(o, BaseException)


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = {}
        self.is_pkg = path.endswith('__init__.py')
        self.is_stub = False


class Program:
    def __init__(self, repo=None, pkg='records'):
        self.repo = repo or REPO
        self.pkg = pkg
        self.modules = {}
        self.classes = {}
        self.functions = {}   # qual -> (node, Module, Cls|None)
        self.node_info = {}   # id(node) -> (qual, Module, Cls|None)
        self.version = (3, 12)
        root = os.path.join(self.repo, pkg)
        if not os.path.isdir(root):
            raise AnalysisBroken(f'no package {pkg} in {self.repo}')
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    src = open(p, encoding='utf-8').read()
                    try:
                        tree = ast.parse(src, p)
                    except SyntaxError as e:
                        raise AnalysisBroken(f'{p} does not parse: {e}')
                    self.modules[rel] = Module(rel, p, tree, src)
        normalise([m.tree for m in self.modules.values()])
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for m in self.modules.values():
            for c in list(self.classes.values()):
                if c.module is m:
                    c.bases = [self._base(b, m, c) for b in c.node.bases] or ['object']
        for c in self.classes.values():
            c.bases = [b for b in c.bases if b is not None] or ['object']

    # -- collection -------------------------------------------------------------------------------------------------
    def _collect(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.names[st.name] = ('func', st)
                self._add_fn(f'{m.name}.{st.name}', st, m, None)
            elif isinstance(st, ast.ClassDef):
                m.names[st.name] = ('class', self._add_class(f'{m.name}.{st.name}', st, m))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.names[a.asname] = ('import', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                mod = st.module or ''
                if st.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)] if st.level > 1 else parts
                    mod = '.'.join(parts + ([mod] if mod else []))
                for a in st.names:
                    m.names[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('assign', st.value)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        k = m.names.get(t.value.id)
                        if k and k[0] == 'class':
                            k[1].attrs[t.attr] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    m.names[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.If):
                v = self._static_test(st.test)
                if v is None or v:
                    self._collect(m, st.body)
                if v is None or not v:
                    self._collect(m, st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(m, st.body)
                self._collect(m, st.orelse)
                self._collect(m, st.finalbody)

    def _static_test(self, t):
        """decide ``sys.version_info >= (..)`` tests and TYPE_CHECKING for the interpreter the repository runs on"""
        try:
            if isinstance(t, ast.Compare) and ast.unparse(t.left) == 'sys.version_info' and len(t.ops) == 1:
                v = ast.literal_eval(t.comparators[0])
                a = self.version + (9,) * 2
                op = t.ops[0]
                return {'GtE': a >= v, 'Gt': a > v, 'Lt': a < v, 'LtE': a <= v}.get(type(op).__name__)
        except Exception:
            return None
        if isinstance(t, ast.Name) and t.id == 'TYPE_CHECKING':
            return False
        if isinstance(t, ast.Constant):
            return bool(t.value)
        return None

    def _add_fn(self, qual, node, m, cls):
        self.functions[qual] = (node, m, cls)
        self._index(qual, node, m, cls)

    def _index(self, qual, node, m, cls):
        self.node_info[id(node)] = (qual, m, cls)
        for ch in ast.walk(node):
            if ch is not node and isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                if id(ch) not in self.node_info:
                    nm = getattr(ch, 'name', '<lambda>')
                    self.node_info[id(ch)] = (f'{qual}.<locals>.{nm}', m, cls)

    def _add_class(self, qual, node, m):
        c = Cls(qual, node, m)
        self.classes[qual] = c
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                c.attrs[st.name] = st
                self._add_fn(f'{qual}.{st.name}', st, m, c)
            elif isinstance(st, ast.ClassDef):
                c.nested[st.name] = self._add_class(f'{qual}.{st.name}', st, m)
                c.attrs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                c.annotated.append(st.target.id)
                if 'ClassVar' in ast.unparse(st.annotation):
                    c.classvars.add(st.target.id)
                if st.value is not None:
                    c.attrs[st.target.id] = st.value
        return c

    def _base(self, expr, m, c):
        if isinstance(expr, ast.Subscript):
            expr = expr.value
        if isinstance(expr, ast.Call):
            return None
        # nested siblings (class BoundToClass(Bound) inside Exporter)
        if isinstance(expr, ast.Name):
            outer = c.qual.rsplit('.', 1)[0]
            if outer in self.classes and expr.id in self.classes[outer].nested:
                return self.classes[outer].nested[expr.id]
        r = self.resolve_expr(expr, m)
        if r is None:
            return 'unknown.' + ast.unparse(expr)
        if r.op == 'class':
            return self.classes[r.a[0]]
        if r.op == 'glob':
            return 'object' if r.a[0] == 'builtins.object' else r.a[0]
        return 'unknown.' + ast.unparse(expr)

    # -- name resolution --------------------------------------------------------------------------------------------
    def resolve_expr(self, expr, m):
        if isinstance(expr, ast.Name):
            return self.resolve(m, expr.id)
        if isinstance(expr, ast.Attribute):
            b = self.resolve_expr(expr.value, m)
            if b is None:
                return None
            return self.glob_attr(b, expr.attr)
        return None

    def glob_attr(self, b, attr):
        if b.op == 'mod':
            sub = f'{b.a[0]}.{attr}'
            if b.a[0] in self.modules:
                mm = self.modules[b.a[0]]
                if attr in mm.names:
                    return self.resolve(mm, attr)
                if sub in self.modules:
                    return T('mod', sub)
                return T('glob', sub)
            if sub in self.modules:
                return T('mod', sub)
            return T('glob', sub)
        if b.op == 'glob':
            return T('glob', f'{b.a[0]}.{attr}')
        return None

    def resolve(self, m, name, seen=()):
        """module-level name -> T or None"""
        k = m.names.get(name)
        if k is None:
            import builtins
            if hasattr(builtins, name):
                return T('glob', f'builtins.{name}')
            return None
        if (m.name, name) in seen:
            return T('glob', f'{m.name}.{name}')
        if k[0] == 'func':
            return T('fn', f'{m.name}.{name}', 0)
        if k[0] == 'class':
            return T('class', k[1].qual)
        if k[0] == 'import':
            return T('mod', k[1])
        if k[0] == 'from':
            mod, nm = k[1], k[2]
            if mod in self.modules:
                mm = self.modules[mod]
                if nm in mm.names:
                    # records.extras members are looked up through the module at run time; a from-import freezes them
                    return self.resolve(mm, nm, seen + ((m.name, name),))
                if f'{mod}.{nm}' in self.modules:
                    return T('mod', f'{mod}.{nm}')
            if f'{mod}.{nm}' in self.modules:
                return T('mod', f'{mod}.{nm}')
            return T('glob', f'{mod}.{nm}')
        if k[0] == 'assign':
            v = k[1]
            if isinstance(v, ast.Constant):
                return K(v.value)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'object' and not v.args:
                return T('sentinel', f'{m.name}.{name}')
            if isinstance(v, ast.Tuple) and all(isinstance(x, ast.Constant) for x in v.elts):
                return T('tuple', tuple(K(x.value) for x in v.elts))
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('frozenset', 'tuple') and \
                    len(v.args) == 1 and not v.keywords and v.func.id not in m.names and \
                    isinstance(v.args[0], (ast.Tuple, ast.List, ast.Set)):
                v = v.args[0] if v.func.id == 'tuple' else ast.Tuple(v.args[0].elts)
            if isinstance(v, ast.Tuple):
                xs = [K(x.value) if isinstance(x, ast.Constant) else self.resolve_expr(x, m) for x in v.elts]
                if all(x is not None and x.op in ('k', 'class', 'glob', 'fn', 'mod') for x in xs):
                    return T('tuple', tuple(xs))
            r = self.resolve_expr(v, m) if isinstance(v, (ast.Name, ast.Attribute)) else None
            if r is not None and r.op in ('class', 'fn', 'mod', 'glob'):
                return r
            if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
                b = self.resolve(m, v.value.id, seen + ((m.name, name),))
                if b is not None and b.op == 'class':
                    e = self.enum_member(b.a[0], v.attr)
                    if e is not None:
                        return e
            return T('glob', f'{m.name}.{name}')
        return None

    def enum_member(self, cq, attr):
        c = self.classes.get(cq)
        if c is None or not c.is_enum or attr not in c.attrs:
            return None
        v = c.attrs[attr]
        iv = v.value if c.is_int_enum and isinstance(v, ast.Constant) else None
        return T('enum', cq, attr, iv)

    def fn(self, qual):
        if qual not in self.functions:
            raise AnalysisBroken(f'function {qual} not found')
        return self.functions[qual]

    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisBroken(f'class {qual} not found')
        return self.classes[qual]

    def cls_named(self, name):
        """a class by its unqualified name (public names are unique in the package)"""
        r = [c for c in self.classes.values() if c.qual.rsplit('.', 1)[-1] == name]
        if len(r) != 1:
            raise AnalysisBroken(f'class {name}: {len(r)} definitions')
        return r[0]

    def loc(self, node, m=None):
        if m is None:
            for q, (n, mm, _) in self.functions.items():
                if any(x is node for x in ast.walk(n)):
                    m = mm
                    break
        return f'{os.path.relpath(m.path, self.repo) if m else "?"}:{getattr(node, "lineno", "?")}'

    def defs(self, cls, names):
        out = []
        for n in names:
            r = cls.lookup(n)
            out.append(r)
        return out
