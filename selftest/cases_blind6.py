S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
D, TC = 'utils/decorators.py', 'utils/typing_compatible.py'
BUGS = []
SAME = [
    ('b6-eval-init', [(SF, """        if args and args[0] is ...:
            self.add_bound = True
            args = args[1:]
        else:
            self.add_bound = False
        self.kwargs = kwargs
        self.kwargs.update(
            (k.__name__, k) for k in args
        )
""", """        self.add_bound = bool(args) and args[0] is ...
        if self.add_bound:
            _, *args = args
        for obj in args:
            kwargs[obj.__name__] = obj
        self.kwargs = kwargs
""")]),
    ('b6-eval-init-split', [(SF, """        if args and args[0] is ...:
            self.add_bound = True
            args = args[1:]
        else:
            self.add_bound = False
        self.kwargs = kwargs
        self.kwargs.update(
            (k.__name__, k) for k in args
        )
""", """        self.add_bound, args = self._split(args)
        self.kwargs = {**kwargs, **{k.__name__: k for k in args}}

    @staticmethod
    def _split(args):
        if args and args[0] is ...:
            return True, args[1:]
        return False, args
""")]),
    ('b6-eval-ns', [(SF, """        ns = self.kwargs
        if self.add_bound:
            ns = {**self.kwargs, origin.__name__: origin}
""", """        ns = dict(self.kwargs)
        if self.add_bound:
            ns[origin.__name__] = origin
""")]),
    ('b6-eval-method', [(SF, """            if not isinstance(v, str):
                raise TypeError
            try:
                # an evaluated expression can reach its builtins, they must not be shared with later evaluations
                ret = eval(v, {'__builtins__': dict(ns)})
            except Exception as e:
                raise TypeError from e

            return ret

        return ret


class LiteralEval""", """            if isinstance(v, str):
                namespace = {'__builtins__': dict(ns)}
                try:
                    return eval(v, namespace)
                except Exception as e:
                    raise TypeError from e
            raise TypeError

        return ret


class LiteralEval""")]),
    ('b6-literal-types', [(SF, """        if origin not in {int, str, float, complex, set, tuple, dict, list, bool}:
            raise TypeError(f'cannot use literal evaluation coercer with non-literal type {origin}')
""", """        if origin not in self.LITERAL_TYPES:
            raise TypeError(f'cannot use literal evaluation coercer with non-literal type {origin}')
"""), (SF, """class LiteralEval(GlobalCoercionToken):
    \"\"\"
    A coercion token to evaluate string inputs with :py:func:`literal_eval`
    \"\"\"
""", """class LiteralEval(GlobalCoercionToken):
    \"\"\"
    A coercion token to evaluate string inputs with :py:func:`literal_eval`
    \"\"\"
    LITERAL_TYPES = frozenset([int, str, float, complex, set, tuple, dict, list, bool])
""")]),
    ('b6-literal-loop', [(SF, """        def ret(v):
            while isinstance(v, str):
                try:
                    v = literal_eval(v)
                except Exception as e:
                    raise TypeError from e
            return v

        return ret
""", """        return self._evaluate

    @staticmethod
    def _evaluate(v):
        try:
            while isinstance(v, str):
                v = literal_eval(v)
        except Exception as e:
            raise TypeError from e
        return v
""")]),
    ('b6-origin-lambda', [(SF, """        return partial(self.func_args, origin)
""", """        def coerce(v):
            return self.func_args(origin, v)

        return coerce
""")]),
    ('b6-loose-mixin', [(SF, """        if (not isinstance(origin, type)) or isabstract(origin):
            raise TypeError(f'cannot use loose coercer with non-concrete type {origin}')
        return super().__call__(origin, filler)
""", """        concrete = isinstance(origin, type) and not isabstract(origin)
        if concrete:
            return super().__call__(origin, filler)
        raise TypeError(f'cannot use loose coercer with non-concrete type {origin}')
""")]),
    ('b6-loose-constraint', [(SF, """        if self._type_constraint is not None and not isinstance(v, self._type_constraint):
            raise TypeError(f'must be of type {self._type_constraint}')
        return origin(v, *self.args, **self.kwargs)
""", """        constraint = self._type_constraint
        if constraint is None or isinstance(v, constraint):
            return origin(v, *self.args, **self.kwargs)
        raise TypeError(f'must be of type {constraint}')
""")]),
    ('b6-unpack-split', [(SF, """            v = tuple(v)
            if len(self._type_constraints) == 2 and self._type_constraints[1] is ...:
                if any(not isinstance(i, self._type_constraints[0]) for i in v):
                    raise TypeError(f'all arguments must be instances of {self._type_constraints[0]}')
            else:
                if len(v) != len(self._type_constraints) \\
                        or any(not isinstance(i, tc) for (i, tc) in zip(v, self._type_constraints)):
                    raise TypeError
        return origin(*v, *self.args, **self.kwargs)
""", """            v = tuple(v)
            self._check(v)
        return origin(*v, *self.args, **self.kwargs)

    def _check(self, v):
        constraints = self._type_constraints
        if len(constraints) == 2 and constraints[1] is ...:
            if not all(isinstance(i, constraints[0]) for i in v):
                raise TypeError(f'all arguments must be instances of {constraints[0]}')
            return
        if len(v) != len(constraints):
            raise TypeError
        for i, tc in zip(v, constraints):
            if not isinstance(i, tc):
                raise TypeError
""")]),
    ('b6-unpack-list', [(SF, """            v = tuple(v)
            if len(self._type_constraints) == 2""", """            v = list(v)
            if len(self._type_constraints) == 2""")]),
    ('b6-unpackmap', [(SF, """            for k, a in v.items():
                tc = self._type_constraints.get(k)
                if tc is None or not isinstance(a, tc):
                    raise TypeError
""", """            for k, a in v.items():
                if k not in self._type_constraints:
                    raise TypeError
                if not isinstance(a, self._type_constraints[k]):
                    raise TypeError
""")]),
    ('b6-unpackmap-any', [(SF, """            for k, a in v.items():
                tc = self._type_constraints.get(k)
                if tc is None or not isinstance(a, tc):
                    raise TypeError
""", """            if not all(k in self._type_constraints and isinstance(a, self._type_constraints[k]) for k, a in v.items()):
                raise TypeError
""")]),
    ('b6-factory-setattr', [(SF, """        @wraps(cls)
        def factory(*args, **kwargs):
            ret = cls(*args, **kwargs)
            ret._type_constraint = item
            return ret

        return factory
""", """        def factory(*args, **kwargs):
            token = cls(*args, **kwargs)
            token._type_constraint = item
            return token

        return wraps(cls)(factory)
""")]),
    ('b6-simple-check', [(SF, """        if type(v) == self.origin:
            return TypeMatch.exact
        return TypeMatch.inexact if isinstance(v, self.origin) else None
""", """        if type(v) == self.origin:
            return TypeMatch.exact
        if isinstance(v, self.origin):
            return TypeMatch.inexact
        return None
""")]),
    ('b6-simple-check-nested', [(SF, """        if type(v) == self.origin:
            return TypeMatch.exact
        return TypeMatch.inexact if isinstance(v, self.origin) else None
""", """        origin = self.origin
        exact = type(v) == origin
        if exact:
            return TypeMatch.exact
        elif isinstance(v, origin):
            return TypeMatch.inexact
        else:
            return None
""")]),
    ('b6-whole-early', [(SF, """        if isinstance(v, Rational):
            if v.denominator == 1:
                return origin(v.numerator, *self.args, **self.kwargs)
        elif isinstance(v, Real):
            mod = v % 1
            if isclose(mod, 0) or isclose(mod, 1):
                return origin(round(v), *self.args, **self.kwargs)
        elif isinstance(v, Complex):
            if v.imag == 0:
                return self.func_args(origin, v.real)
        raise TypeError
""", """        if isinstance(v, Complex) and not isinstance(v, Real):
            if v.imag != 0:
                raise TypeError
            return self.func_args(origin, v.real)
        if isinstance(v, Rational):
            whole = v.numerator if v.denominator == 1 else None
        elif isinstance(v, Real):
            mod = v % 1
            whole = round(v) if isclose(mod, 0) or isclose(mod, 1) else None
        else:
            whole = None
        if whole is None:
            raise TypeError
        return origin(whole, *self.args, **self.kwargs)
""")]),
    ('b6-whole-flat', [(SF, """            if v.imag == 0:
                return self.func_args(origin, v.real)
        raise TypeError
""", """            if v.imag != 0:
                raise TypeError
            return self.func_args(origin, v.real)
        raise TypeError
""")]),
    ('b6-tobytes', [(SF, """        if not self.args and ('length' not in self.kwargs):
            signed = self.kwargs.get('signed', False)
            args = ((v.bit_length() + 7 + signed) // 8,)
        else:
            args = self.args
        return origin(v.to_bytes(*args, **self.kwargs))
""", """        args = self.args
        if not (args or 'length' in self.kwargs):
            bits = v.bit_length() + self.kwargs.get('signed', False)
            args = ((bits + 7) // 8,)
        as_bytes = v.to_bytes(*args, **self.kwargs)
        return origin(as_bytes)
""")]),
    ('b6-tobytes-type', [(SF, """        if not isinstance(v, Integral):
            raise type
""", """        if not isinstance(v, Integral):
            raise TypeError('only integers can be converted to bytes')
""")]),
    ('b6-bool-in', [(SF, """        if v == 0:
            return False
        if v == 1:
            return True
        raise TypeError
""", """        if v == 1:
            return True
        elif v == 0:
            return False
        else:
            raise TypeError
""")]),
    ('b6-bool-coercer', [(SF, """        if isinstance(token, FromInteger):
            return self._bool_from_int
        return super().get_coercer(token)
""", """        if not isinstance(token, FromInteger):
            return super().get_coercer(token)
        return self._bool_from_int
""")]),
    ('b6-falsish', [(SF, """        if not v:
            return origin(*self.args, **self.kwargs)
        raise TypeError
""", """        if v:
            raise TypeError
        return origin(*self.args, **self.kwargs)
""")]),
    ('b6-none-check', [(SF, """        return (v is None) and TypeMatch.exact
""", """        return TypeMatch.exact if v is None else None
""")]),
    ('b6-callable-check', [(SF, """        return callable(v) and TypeMatch.exact
""", """        if callable(v):
            return TypeMatch.exact
        return False
""")]),
    ('b6-callcoercion-partial', [(C, """        self.func = func
        self.args = args
        self.kwargs = kwargs

    def inner(self, v):
        return self.func(v, *self.args, **self.kwargs)

    def __call__(self, *_):
        return self.inner


class MapCoercion""", """        self.func, self.args, self.kwargs = func, args, kwargs

    def __call__(self, *_):
        def inner(v):
            return self.func(v, *self.args, **self.kwargs)

        return inner


class MapCoercion""")]),
    ('b6-mapcoercion-loop', [(C, """        if v in self.value_map:
            return self.value_map[v]
        if v in self.factory_map:
            return self.factory_map[v]()
        raise TypeError
""", """        if v in self.value_map:
            return self.value_map[v]
        elif v not in self.factory_map:
            raise TypeError
        factory = self.factory_map[v]
        return factory()
""")]),
    ('b6-mapcoercion-init', [(C, """        self.value_map = value_map or {}
        self.factory_map = factory_map or {}
""", """        self.value_map = {} if value_map is None else value_map
        self.factory_map = {} if factory_map is None else factory_map
""")]),
    ('b6-classmethod', [(C, """        func = getattr(cls, self.method)

        def ret(v):
            return func(v, *self.args, **self.kwargs)

        return ret


class ComposeCoercer""", """        method, args, kwargs = getattr(cls, self.method), self.args, self.kwargs
        return lambda v: method(v, *args, **kwargs)


class ComposeCoercer""")]),
    ('b6-compose', [(C, """        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()

        def ret(v):
            for f in functors:
                v = f(v)
            return v

        return ret""", """        functors = [filler.get_coercer(t) for t in self.inner_coercers]

        def ret(v):
            for f in reversed(functors):
                v = f(v)
            return v

        return ret""")]),
    ('b6-compose-slice', [(C, """        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()
""", """        functors = [filler.get_coercer(t) for t in self.inner_coercers][::-1]
""")]),
    ('b6-compose-rev-gen', [(C, """        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()
""", """        functors = list(map(filler.get_coercer, reversed(self.inner_coercers)))
""")]),
    # field.py
    ('b6-factory-inline', [(F, """        default, is_factory = self._apply_factory(default)

        self.default = default
        self.default_is_factory = is_factory
""", """        self.default_is_factory = isinstance(default, Factory)
        self.default = default.func if self.default_is_factory else default
""")]),
    ('b6-make-default', [(F, """        if self.default_is_factory:
            return self.default()
        return self.default
""", """        default = self.default
        return default() if self.default_is_factory else default
""")]),
    ('b6-is-default', [(F, """        return (not self.default_is_factory) and self.default == v
""", """        if self.default_is_factory:
            return False
        return self.default == v
""")]),
    ('b6-hint-order', [(F, """        meta_org = get_origin(origin)
        if meta_org == ClassVar:
            return SKIP_FIELD
        if meta_org is Final:
            if not owner.is_frozen():
                raise TypeError('cannot declare Final field in non-frozen Record')
            inner = get_args(origin)[0]
            if args:
                # tokens outside of the Final apply just like tokens inside of it
                inner, inner_args = split_annotation(inner)
                inner = Annotated[(inner, *inner_args, *args)]
            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
        else:
            filler = get_filler(th)
            ret = cls(filler=filler, owner=owner, **kwargs)
        for arg in args:
            ret._apply(arg)
        return ret
""", """        meta_org = get_origin(origin)
        if meta_org == ClassVar:
            return SKIP_FIELD
        if meta_org is not Final:
            ret = cls(filler=get_filler(th), owner=owner, **kwargs)
        else:
            ret = cls._from_final(origin, args, owner=owner, **kwargs)
        for arg in args:
            ret._apply(arg)
        return ret

    @classmethod
    def _from_final(cls, hint, tokens, *, owner, **kwargs):
        if not owner.is_frozen():
            raise TypeError('cannot declare Final field in non-frozen Record')
        inner = get_args(hint)[0]
        if tokens:
            # tokens outside of the Final apply just like tokens inside of it
            inner, inner_args = split_annotation(inner)
            inner = Annotated[(inner, *inner_args, *tokens)]
        return cls.from_type_hint(inner, owner=owner, **kwargs)
""")]),
    ('b6-apply-tags', [(F, """        for arg in args:
            ret._apply(arg)
        return ret
""", """        ret.tags.update(arg for arg in args if isinstance(arg, Tag))
        return ret
""")]),
    ('b6-apply-sub', [(F, """        target_filler = self.filler.sub_filler(sub_filler_key)
        target_filler.apply(token)
""", """        self.filler.sub_filler(sub_filler_key).apply(token)
""")]),
    ('b6-adders', [(F, """        self._apply_to_filler(CallCoercion(func, **kwargs), sub_filler_key=sub_key)
        return func
""", """        return self._add(CallCoercion, func, sub_key, kwargs)

    def _add(self, token_cls, func, sub_key, kwargs):
        token = token_cls(func, **kwargs)
        self._apply_to_filler(token, sub_filler_key=sub_key)
        return func
"""), (F, """        self._apply_to_filler(AssertCallValidation(func, **kwargs), sub_filler_key=sub_key)
        return func
""", """        return self._add(AssertCallValidation, func, sub_key, kwargs)
"""), (F, """        self._apply_to_filler(CallValidation(func, **kwargs), sub_filler_key=sub_key)
        return func
""", """        return self._add(CallValidation, func, sub_key, kwargs)
""")]),
    ('b6-filter', [(F, """        return FieldDict((k, f) for (k, f) in self.items() if (tag in f.tags))
""", """        ret = FieldDict()
        for name, field in self.items():
            if tag in field.tags:
                ret[name] = field
        return ret
""")]),
    # decorators
    ('b6-decorator', [(D, """        if f is None:
            return lambda f: ret(self, f, **kwargs)
        return func(self, f, **kwargs)
""", """        if f is not None:
            return func(self, f, **kwargs)

        def delayed(f):
            return ret(self, f, **kwargs)

        return delayed
""")]),
    ('b6-decorator-direct', [(D, """            return lambda f: ret(self, f, **kwargs)
""", """            return lambda g: func(self, g, **kwargs)
""")]),
    # select
    ('b6-run-inline', [(S, """        mapping = self.func(cls, *args, **kwargs)
        mapping = select(mapping)
        return cls(**mapping)
""", """        return cls(**select(self.func(cls, *args, **kwargs)))
""")]),
    ('b6-run-shared', [(S, """        mapping = self.func(cls, *args, **kwargs)
        mapping = select(mapping)
        return cls(**mapping)
""", """        return self._build(cls, select, self.func(cls, *args, **kwargs))

    @staticmethod
    def _build(cls, select, mapping):
        return cls(**select(mapping))
"""), (S, """        mapping = self.func(cls, *args, _select=select, **kwargs)
        mapping = select(mapping)
        return cls(**mapping)
""", """        return self._build(cls, select, self.func(cls, *args, _select=select, **kwargs))
""")]),
    ('b6-shortcut-invert', [(S, """        if not select and self._shortcut:
            ret = self._shortcut(cls, *args, **kwargs)
            if ret is not NotImplemented:
                return ret
        return super().run(cls, args, kwargs, select)
""", """        if select or not self._shortcut:
            return super().run(cls, args, kwargs, select)
        ret = self._shortcut(cls, *args, **kwargs)
        if ret is NotImplemented:
            ret = super().run(cls, args, kwargs, select)
        return ret
""")]),
    ('b6-bound-run', [(S, """            return self.descriptor.run(self.owner, self.owner, self.export_args, self.export_kwargs, self.select_, args,
                                       kwargs)

        def select(""", """            return self._run(self.owner, args, kwargs)

        def _run(self, instance, args, kwargs):
            return self.descriptor.run(self.owner, instance, self.export_args, self.export_kwargs, self.select_, args,
                                       kwargs)

        def select("""), (S, """            return self.descriptor.run(self.owner, instance, self.export_args, self.export_kwargs, self.select_, args,
                                       kwargs)


class NoArgExporter""", """            return self._run(instance, args, kwargs)


class NoArgExporter""")]),
    ('b6-bound-derive', [(S, """            return type(self)(self.descriptor, self.owner, self.export_args, self.export_kwargs,
                              self.select_.merge(*selects, **kwargs))
""", """            return self._derive(select=self.select_.merge(*selects, **kwargs))

        def _derive(self, export_args=None, export_kwargs=None, select=None):
            return type(self)(self.descriptor, self.owner,
                              self.export_args if export_args is None else export_args,
                              self.export_kwargs if export_kwargs is None else export_kwargs,
                              self.select_ if select is None else select)
"""), (S, """            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},
                              self.select_)
""", """            return self._derive(export_args=(*self.export_args, *args), export_kwargs={**self.export_kwargs, **kwargs})
""")]),
    ('b6-export-get', [(S, """        if instance is None:
            return self.BoundToClass(self, owner, (), {}, Select.empty)
        return self.Bound(self, instance, (), {}, Select.empty)
""", """        bound_cls, target = (self.BoundToClass, owner) if instance is None else (self.Bound, instance)
        return bound_cls(self, target, (), {}, Select.empty)
""")]),
    ('b6-noarg-local', [(S, """        return super().run(cls, instance, (*export_args, *args), {**export_kwargs, **kwargs}, select, (), {})
""", """        all_args = tuple(export_args) + tuple(args)
        all_kwargs = dict(export_kwargs)
        all_kwargs.update(kwargs)
        return super().run(cls, instance, all_args, all_kwargs, select, (), {})
""")]),
    ('b6-unwrap', [(S, """        if isinstance(func, classmethod):
            func = func.__func__
        self.func: Callable[..., Mapping[str, Any]] = func
        update_wrapper(self, func)
""", """        func = func.__func__ if isinstance(func, classmethod) else func
        update_wrapper(self, func)
        self.func: Callable[..., Mapping[str, Any]] = func
""")]),
]
