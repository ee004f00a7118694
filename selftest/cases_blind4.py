S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
D, TC = 'utils/decorators.py', 'utils/typing_compatible.py'
BUGS = []
SAME = [
    ('b4-tuple-vararg-prop', [(TF, """        if len(self.inner_args) == 2 and self.inner_args[-1] is ...:
            self.sub_fillers = (get_filler(self.inner_args[0]),)
        else:
            self.sub_fillers = tuple(get_filler(t) for t in self.inner_args)
""", """        self.variadic = len(self.inner_args) == 2 and self.inner_args[-1] is ...
        types = self.inner_args[:1] if self.variadic else self.inner_args
        self.sub_fillers = tuple(map(get_filler, types))
"""), (TF, """        if len(self.inner_args) == 2 and self.inner_args[-1] is ...:
            inner_filler = self.sub_fillers[0]
""", """        if self.variadic:
            inner_filler = self.sub_fillers[0]
""")]),
    ('b4-tuple-hetero-helper', [(TF, """                @self.inner_filler.validators.append
                def _(v):
                    hollow_passes = 0  # the number of elements that filled identically
                    for element, filler in zip(v, self.sub_fillers):
                        filled = filler(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                            self.sub_fillers[hollow_passes + 1:]))
                            )
                            return type(v)(all_elements)
                    return v
""", """                self.inner_filler.validators.append(self._fill_elements)

    def _fill_elements(self, v):
        for i, (element, filler) in enumerate(zip(v, self.sub_fillers)):
            filled = filler(element)
            if filled is not element:
                rest = (f(a) for (a, f) in zip(v[i + 1:], self.sub_fillers[i + 1:]))
                return type(v)(chain(v[:i], [filled], rest))
        return v
""")]),
    ('b4-tuple-hetero-list', [(TF, """                    hollow_passes = 0  # the number of elements that filled identically
                    for element, filler in zip(v, self.sub_fillers):
                        filled = filler(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                            self.sub_fillers[hollow_passes + 1:]))
                            )
                            return type(v)(all_elements)
                    return v
""", """                    filled = [filler(element) for element, filler in zip(v, self.sub_fillers)]
                    if all(new is old for new, old in zip(filled, v)):
                        return v
                    return type(v)(filled)
""")]),
    ('b4-tuple-len-check', [(TF, """                def _(v):
                    if len(v) != len(self.sub_fillers):
                        raise ValueError(f'must be a {len(self.sub_fillers)}-tuple')
                    return v
""", """                def length_validator(v):
                    expected = len(self.sub_fillers)
                    if len(v) == expected:
                        return v
                    raise ValueError(f'must be a {expected}-tuple')
""")]),
    ('b4-split-at', [(TF, """    try:
        return seq[:ignore_ind], seq[ignore_ind + 1:]
    except TypeError:
        i = iter(seq)
        return islice(i, ignore_ind), islice(i, 1, None)
""", """    try:
        before, after = seq[:ignore_ind], seq[ignore_ind + 1:]
    except TypeError:
        elements = iter(seq)
        before = islice(elements, ignore_ind)
        after = islice(elements, 1, None)
    return before, after
""")]),
    ('b4-iter-enumerate', [(TF, """                hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
                        return self.reconstruct(all_elements, v)
                return v
""", """                for i, element in enumerate(v):
                    filled = self.element_filler(element)
                    if filled is element:
                        continue
                    pre, post = _split_at(v, i)
                    return self.reconstruct(chain(pre, (filled,), map(self.element_filler, post)), v)
                return v
""")]),
    ('b4-iter-method', [(TF, """            @self.inner_filler.validators.append
            def inner_validator(v):
                hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
                        return self.reconstruct(all_elements, v)
                return v

    def sub_filler(self, key):
        if key == 0:
            return self.element_filler
""", """            self.inner_filler.validators.append(self.fill_elements)

    def fill_elements(self, v):
        passed = 0
        for element in v:
            filled = self.element_filler(element)
            if filled is not element:
                return self.reconstruct(self._replaced(v, passed, filled), v)
            passed += 1
        return v

    def _replaced(self, v, index, filled):
        before, after = _split_at(v, index)
        yield from before
        yield filled
        for element in after:
            yield self.element_filler(element)

    def sub_filler(self, key):
        if key == 0:
            return self.element_filler
""")]),
    ('b4-map-loop', [(TF, """                tuples = [
                    (self.key_filler(k), self.value_filler(v))
                    for k, v in value.items()
                ]
                if any(
                        (k is not filled_k) or (v is not filled_v)
                        for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
                ):
                    return self.reconstruct(tuples, value)
                else:
                    return value
""", """                tuples = []
                changed = False
                for k, v in value.items():
                    filled_k = self.key_filler(k)
                    filled_v = self.value_filler(v)
                    if filled_k is not k or filled_v is not v:
                        changed = True
                    tuples.append((filled_k, filled_v))
                return self.reconstruct(tuples, value) if changed else value
""")]),
    ('b4-map-all', [(TF, """                if any(
                        (k is not filled_k) or (v is not filled_v)
                        for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
                ):
                    return self.reconstruct(tuples, value)
                else:
                    return value
""", """                unchanged = all(
                    k is filled_k and v is filled_v
                    for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
                )
                if unchanged:
                    return value
                return self.reconstruct(tuples, value)
""")]),
    ('b4-map-bind-helper', [(TF, """        self.key_filler.bind(owner_cls)
        self.value_filler.bind(owner_cls)
        if not self.key_filler.is_inert() or not self.value_filler.is_inert():
            if self.is_hollow():
""", """        inner = (self.key_filler, self.value_filler)
        for f in inner:
            f.bind(owner_cls)
        if not all(f.is_inert() for f in inner):
            if self.is_hollow():
""")]),
    ('b4-reconstruct-order', [(TF, """        if isinstance(initial, str):
            # a string cannot be constructed from an iterable of its elements
            return type(initial)(''.join(elements))
        if isinstance(initial, deque):
            return type(initial)(elements, initial.maxlen)
        return type(initial)(elements)
""", """        cls = type(initial)
        if isinstance(initial, deque):
            return cls(elements, initial.maxlen)
        if isinstance(initial, str):
            elements = ''.join(elements)
        return cls(elements)
""")]),
    ('b4-generic-n', [(TF, """        fillers = [get_filler(it) for it in self.inner_types]
        for f in fillers:
            f.bind(owner_cls)
            if not f.is_inert():
                raise TypeError('A non-specialized filler cannot have non-hollow inner types')
""", """        for inner_type in self.inner_types:
            inner = get_filler(inner_type)
            inner.bind(owner_cls)
            if inner.is_inert():
                continue
            raise TypeError('A non-specialized filler cannot have non-hollow inner types')
""")]),
    ('b4-clamp-ifs', [(BV, """        return min(max(v, self.ge), self.le)
""", """        at_least = max(v, self.ge)
        return min(at_least, self.le)
""")]),
    ('b4-cyclic-one', [(BV, """        if self.minimum <= v < self.maximum:
            return v
        d = v - self.minimum
        d %= (self.maximum - self.minimum)
        return self.minimum + d
""", """        inside = self.minimum <= v and v < self.maximum
        if inside:
            return v
        period = self.maximum - self.minimum
        return self.minimum + (v - self.minimum) % period
""")]),
    ('b4-within-flat', [(BV, """        if self.g_eq:
            if not (self.ge <= v):
                return False
        else:
            if not (self.ge < v):
                return False

        if self.l_eq:
            if not (self.lt >= v):
                return False
        else:
            if not (self.lt > v):
                return False

        return True
""", """        above = self.ge <= v if self.g_eq else self.ge < v
        if not above:
            return False
        below = self.lt >= v if self.l_eq else self.lt > v
        return bool(below)
""")]),
    ('b4-within-init', [(BV, """        if ge > lt or ((not g_eq or not l_eq) and ge == lt):
            raise""", """        closed = g_eq and l_eq
        if ge > lt or (ge == lt and not closed):
            raise""")]),
    ('b4-fullmatch', [(BV, """        return bool(self.pattern.fullmatch(v))
""", """        return self.pattern.fullmatch(v) is not None
""")]),
    ('b4-truth', [(BV, """    def assert_(self, v) -> bool:
        return bool(v)
""", """    def assert_(self, v) -> bool:
        if v:
            return True
        return False
""")]),
    ('b4-least-eq', [(BV, """    def __gt__(self, other):
        return False

    def __ge__(self, other):
        return self == other


class _Greatest:
""", """    def __gt__(self, other):
        return not self.__le__(other)

    def __ge__(self, other):
        return self == other


class _Greatest:
""")]),
    ('b4-eq-all', [(R, """        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
""", """        return not any(getattr(self, name) != getattr(other, name) for name in self._fields)
""")]),
    ('b4-eq-pair', [(R, """        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
""", """        for name in self._fields:
            mine, theirs = getattr(self, name), getattr(other, name)
            if mine != theirs:
                return False
        return True
""")]),
    ('b4-repr-join', [(R, """        params_parts = []
        for name, value in self.to_dict(**kwargs).items():
            params_parts.append(f'{name}={value!r}')

        return type(self).__qualname__ + "(" + ", ".join(params_parts) + ")"
""", """        params = ', '.join(f'{name}={value!r}' for name, value in self.to_dict(**kwargs).items())
        return f'{type(self).__qualname__}({params})'
""")]),
    ('b4-repr-format', [(R, """            params_parts.append(f'{name}={value!r}')
""", """            params_parts.append('{}={}'.format(name, repr(value)))
""")]),
    ('b4-hash-helper', [(R, """        if self._hash is None:
            self._hash = hash(tuple(self.to_dict().values()))
        return self._hash
""", """        ret = self._hash
        if ret is None:
            ret = self._hash = hash(tuple(self.to_dict().values()))
        return ret
""")]),
    ('b4-setattr-order', [(R, """        if a in RecordBase.__slots__:
            return super().__setattr__(a, value)
        raise TypeError(f'{type(self).__qualname__} is frozen')
""", """        if a not in RecordBase.__slots__:
            raise TypeError(f'{type(self).__qualname__} is frozen')
        return super().__setattr__(a, value)
""")]),
    ('b4-split-annotation', [(TC, """    if not is_annotation(v):
        return v, ()
    t, *args = get_args(v)
    return t, args
""", """    if is_annotation(v):
        parts = get_args(v)
        return parts[0], parts[1:]
    return v, ()
""")]),
    ('b4-is-annotation-star', [(TC, """    t, *args = get_args(v)
    return t, args
""", """    (t, *args) = get_args(v)
    return t, tuple(args)
""")]),
    ('b4-as-instance', [(U, """    if isinstance(obj, cls):
        return obj
    elif isinstance(obj, type) and issubclass(obj, cls):
        return obj()
    wrapped = unwrap(obj)
    if isinstance(wrapped, type) and issubclass(wrapped, cls):
        return obj()
    return None
""", """    if isinstance(obj, cls):
        return obj

    def is_factory(o):
        return isinstance(o, type) and issubclass(o, cls)

    if is_factory(obj) or is_factory(unwrap(obj)):
        return obj()
    return None
""")]),
    ('b4-apply-loop', [(FF, """        coercion_token = _as_instance(token, CoercionToken)
        if coercion_token is not None:
            self.coercers.append(self.get_coercer(coercion_token))
            return
        validation_token = _as_instance(token, ValidationToken)
        if validation_token is not None:
            self.validators.append(self.get_validator(validation_token))
            return
""", """        coercion_token = _as_instance(token, CoercionToken)
        if coercion_token is None:
            validation_token = _as_instance(token, ValidationToken)
            if validation_token is not None:
                self.validators.append(self.get_validator(validation_token))
        else:
            self.coercers.append(self.get_coercer(coercion_token))
""")]),
    ('b4-get-token', [(FF, """        if callable(token):
            return token(self.origin, self)
        raise TypeError(token)  # pragma: no cover

    def get_validator""", """        if not callable(token):
            raise TypeError(token)  # pragma: no cover
        return token(self.origin, self)

    def get_validator""")]),
    ('b4-call', [(FF, """        if self.type_checking_style is TypeCheckStyle.hollow and not self.validators:
            return arg
        return super().__call__(arg)
""", """        needs_filling = self.validators or self.type_checking_style is not TypeCheckStyle.hollow
        return super().__call__(arg) if needs_filling else arg
""")]),
    ('b4-base-call', [(FF, """        tc = self.fill(arg)
        return tc.value
""", """        return self.fill(arg).value
""")]),
    ('b4-union-pairs', [(TF, """        best_results = []
        best_key = float('inf')
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and i + 1 == len(self.sub_fillers):
                    raise
                continue
            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
                best_results.append(success.value)
""", """        best_results = []
        best_key = float('inf')
        last = len(self.sub_fillers) - 1
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                value, kind = sub_filler.fill(arg)
            except Exception:
                if i == last and not best_results:
                    raise
            else:
                if kind < best_key:
                    best_results, best_key = [value], kind
                elif kind == best_key:
                    best_results.append(value)
""")]),
    ('b4-union-unique', [(TF, """        if len(best_results) > 1 and any(r is not best_results[0] for r in best_results[1:]):
            raise ValueError('multiple sub-fillers matched')

        return FillingSuccess(best_results[0], best_key)
""", """        first, *others = best_results
        if not all(r is first for r in others):
            raise ValueError('multiple sub-fillers matched')

        return FillingSuccess(first, best_key)
""")]),
    ('b4-union-bind', [(TF, """        for sf in self.sub_fillers:
            for t in chain(self.args, self.applied):
                sf.apply(t)

            sf.bind(owner_cls)
""", """        tokens = (*self.args, *self.applied)
        for sf in self.sub_fillers:
            for t in tokens:
                sf.apply(t)
            sf.bind(owner_cls)
""")]),
    ('b4-required', [(R, """        cls._required_keys = {k for (k, f) in cls._fields.items() if not f.has_default}
        cls._optional_keys = {k for k in cls._fields if k not in cls._required_keys}
""", """        required, optional = set(), set()
        for k, f in cls._fields.items():
            (optional if f.has_default else required).add(k)
        cls._required_keys = required
        cls._optional_keys = optional
""")]),
    ('b4-parents', [(R, """        parents = [b for b in cls.__bases__ if issubclass(b, RecordBase) and b != RecordBase]
        parent_fields = {}
        for parent in parents:
            field: RecordField
""", """        parent_fields = {}
        for parent in cls.__bases__:
            if not issubclass(parent, RecordBase) or parent == RecordBase:
                continue
            field: RecordField
""")]),
    ('b4-bind-fields', [(R, """        for field in cls._fields.values():
            if field.owner is not cls:
                continue
            field.filler.bind(cls)
""", """        own = [field for field in cls._fields.values() if field.owner is cls]
        for field in own:
            field.filler.bind(cls)
""")]),
    ('b4-parsers', [(R, """        cls._parsers = []
        for name in dir(cls):
            v = getattr_static(cls, name)
            if getattr(v, '__parser__', False):
                cls._parsers.append(getattr(cls, name))
""", """        cls._parsers = [getattr(cls, name) for name in dir(cls)
                        if getattr(getattr_static(cls, name), '__parser__', False)]
""")]),
    ('b4-new-positional', [(R, """            arg_key = next(iter(cls._required_keys))
            if arg_key in kwargs:
                raise TypeError(f'duplicate {arg_key}')
            kwargs[arg_key] = arg
""", """            (arg_key,) = cls._required_keys
            if arg_key in kwargs:
                raise TypeError(f'duplicate {arg_key}')
            kwargs = {**kwargs, arg_key: arg}
""")]),
    ('b4-new-checks', [(R, """        if not (kwargs.keys() <= cls._fields.keys()):
            redundant = kwargs.keys() - cls._fields.keys()
            raise""", """        redundant = kwargs.keys() - cls._fields.keys()
        if redundant:
            raise""")]),
    ('b4-new-missing', [(R, """        if not (cls._required_keys <= kwargs.keys()):
            required = cls._required_keys.difference(kwargs)
            raise""", """        required = cls._required_keys.difference(kwargs)
        if required:
            raise""")]),
    ('b4-new-defaults', [(R, """        for k in cls._optional_keys.difference(kwargs):
            values[k] = cls._fields[k].make_default()
""", """        for k in cls._optional_keys:
            if k not in kwargs:
                values[k] = cls._fields[k].make_default()
""")]),
    ('b4-from-instance', [(R, """        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):
            return v
        return NotImplemented
""", """        overridden = maps or kwargs
        if overridden or not cls.is_frozen() or not isinstance(v, cls):
            return NotImplemented
        return v
""")]),
    ('b4-todict-sort', [(R, """            if sort == -1:
                name_values = sorted(name_values, reverse=True)
            elif callable(sort):
                name_values = sorted(name_values, key=lambda t: sort(t[0]))
            else:
                name_values = sorted(name_values)
""", """            if callable(sort) and sort != -1:
                def sort_key(pair):
                    return sort(pair[0])
                name_values = sorted(name_values, key=sort_key)
            else:
                name_values = sorted(name_values, reverse=sort == -1)
""")]),
]
