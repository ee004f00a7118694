"""larger behaviour-preserving rewrites, written without looking at the rules"""
R, F, FL, T, S = 'record.py', 'fillers/filler.py', 'field.py', 'fillers/builtin_fillers/typing_fillers.py', 'select.py'
ST, GF, CO, V, BV = ('fillers/builtin_fillers/std_fillers.py', 'fillers/get_filler.py', 'fillers/coercers.py',
                     'fillers/validators.py', 'fillers/builtin_validators.py')
PARSE = '''            except Exception:
                pass
            else:
                successes.append(r)
        if len(successes) == 0:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        elif len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')

        return next(iter(successes))
'''
BUGS = [
    ('bl-p-first', ['C16'], [(R, PARSE, PARSE.replace("successes.append(r)", "successes.append(r)\n                break"))]),
    ('bl-p-counter-all', ['C16'], [(R, PARSE, '''            except Exception:
                continue
            finally:
                successes.append(1)
            result = r
        if not successes:
            raise ParseFailure('x')
        if len(successes) > 1:
            raise TypeError('x')
        return result
''')]),
    ('bl-p-three', ['C16'], [(R, PARSE, PARSE.replace("> 1", "> 2"))]),
    ('bl-p-early-third', ['C16'], [(R, PARSE, '''            except Exception:
                continue
            if len(successes) > 1:
                raise TypeError('x')
            successes.append(r)
        if not successes:
            raise ParseFailure('x')
        return successes[0]
''')]),
    ('bl-p-early-inside', ['C16'], [(R, '''                r = m(v)
            except Exception:
                pass
            else:
                successes.append(r)
''', '''                r = m(v)
                if successes:
                    raise TypeError('several')
                successes.append(r)
            except Exception:
                pass
'''), (R, '''        elif len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')
''', '')]),
    ('bl-p-result-last', ['C16'], [(R, PARSE, '''            except Exception:
                r = None
            else:
                successes.append(r)
        if not successes:
            raise ParseFailure('x')
        if len(successes) > 1:
            raise TypeError('x')
        return r
''')]),
]
SAME = [
    ('bl-new-fill-one', [(R, '''            try:
                values[k] = cls._fields[k].filler(v)
            except Exception as e:
                # if filling failed, check if we have a parsing standing by
                if parsing is not None:
                    return parsing
                msg = f'error filling filling {k}'
                # try to create a parent error of the same type as the original error
                try:
                    parent_error = type(e)(msg)
                except Exception:
                    parent_error = ValueError(msg)

                raise parent_error from e
''', '''            try:
                filled = cls._fields[k].filler(v)
            except Exception as e:
                if parsing is not None:
                    return parsing
                raise cls._filling_error(k, e) from e
            else:
                values[k] = filled
'''), (R, '''    def post_new(self: T) -> Optional[T]:
''', '''    @staticmethod
    def _filling_error(name, cause):
        msg = f'error filling filling {name}'
        try:
            return type(cause)(msg)
        except Exception:
            return ValueError(msg)

    def post_new(self: T) -> Optional[T]:
''')]),
    ('bl-new-trivial-var', [(R, '''        parsing = None
        if arg is not NO_ARG:
            # handle the positional
            if not kwargs and cls._unary_parse:
                try:
                    parsing = cls.parse(arg)
                except ParseFailure:
                    # if we failed parsing, and we have no trivial field, raise an error
                    if len(cls._required_keys) != 1:
                        raise

            if len(cls._required_keys) != 1:
                # no trivial field
                if parsing is not None:
                    return parsing
                raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')
''', '''        parsing = None
        has_trivial = len(cls._required_keys) == 1
        if arg is not NO_ARG:
            if cls._unary_parse and not kwargs:
                try:
                    parsing = cls.parse(arg)
                except ParseFailure:
                    if not has_trivial:
                        raise

            if not has_trivial:
                if parsing is None:
                    raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')
                return parsing
''')]),
    ('bl-new-missing', [(R, '''        if not (cls._required_keys <= kwargs.keys()):
            required = cls._required_keys.difference(kwargs)
            raise TypeError(f'missing required arguments: {tuple(required)}')
        for k in cls._optional_keys.difference(kwargs):
            values[k] = cls._fields[k].make_default()
''', '''        missing = [k for k in cls._required_keys if k not in values]
        if missing:
            raise TypeError(f'missing required arguments: {tuple(missing)}')
        for k in cls._optional_keys:
            if k not in values:
                values[k] = cls._fields[k].make_default()
''')]),
    ('bl-new-redundant', [(R, '''        values = {}
        if not (kwargs.keys() <= cls._fields.keys()):
            redundant = kwargs.keys() - cls._fields.keys()
            raise TypeError(f'arguments {redundant} invalid for type {cls.__qualname__}')
''', '''        redundant = {k for k in kwargs if k not in cls._fields}
        if redundant:
            raise TypeError(f'arguments {redundant} invalid for type {cls.__qualname__}')
        values = {}
''')]),
    ('bl-new-post', [(R, '''        try:
            replacement = self.post_new()
            if replacement is not None:
                self = replacement
        except Exception:
            # post_new may perform validations and if it fails, we want to return the parsing
            if parsing is not None:
                return parsing
            raise
''', '''        try:
            replacement = self.post_new()
        except Exception:
            if parsing is None:
                raise
            return parsing
        if replacement is not None:
            self = replacement
''')]),
    ('bl-eq-helper', [(R, '''        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
            # both hashes are already known, and differ
            return False
        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
''', '''        if type(self).is_frozen():
            mine, theirs = self._hash, other._hash
            if mine is not None and theirs is not None and mine != theirs:
                return False
        return self._same_values(other)

    def _same_values(self, other):
        for name in self._fields:
            a, b = getattr(self, name), getattr(other, name)
            if a != b:
                return False
        return True
''')]),
    ('bl-init-subclass-frozen-table', [(R, '''        if frozen:
            cls.__setattr__ = RecordBase.__setattr__
            cls.__delattr__ = RecordBase.__delattr__
            cls.__hash__ = RecordBase.__hash__
        else:
            cls.__setattr__ = object.__setattr__
            cls.__delattr__ = object.__delattr__
            cls.__hash__ = None
''', '''        cls._install_mutability(RecordBase if frozen else object)
        cls.__hash__ = RecordBase.__hash__ if frozen else None
'''), (R, '''    @classmethod
    def pre_bind(cls):
''', '''    @classmethod
    def _install_mutability(cls, source):
        cls.__setattr__ = source.__setattr__
        cls.__delattr__ = source.__delattr__

    @classmethod
    def pre_bind(cls):
''')]),
    ('bl-init-subclass-parents', [(R, '''        parents = [b for b in cls.__bases__ if issubclass(b, RecordBase) and b != RecordBase]
        parent_fields = {}
        for parent in parents:
            field: RecordField
            for k, field in parent._fields.items():
                if k in cls._fields or k in parent_fields:
                    raise ValueError(f'cannot override inherited field {k}')
                parent_fields[k] = field
        if parent_fields:
            cls._fields = FieldDict({**parent_fields, **cls._fields})
''', '''        parent_fields = cls._collect_parent_fields()
        if parent_fields:
            parent_fields.update(cls._fields)
            cls._fields = FieldDict(parent_fields)
'''), (R, '''    @classmethod
    def pre_bind(cls):
''', '''    @classmethod
    def _collect_parent_fields(cls):
        ret = {}
        for parent in cls.__bases__:
            if parent == RecordBase or not issubclass(parent, RecordBase):
                continue
            for k, field in parent._fields.items():
                if k in cls._fields or k in ret:
                    raise ValueError(f'cannot override inherited field {k}')
                ret[k] = field
        return ret

    @classmethod
    def pre_bind(cls):
''')]),
    ('bl-init-subclass-keys', [(R, '''        cls._required_keys = {k for (k, f) in cls._fields.items() if not f.has_default}
        cls._optional_keys = {k for k in cls._fields if k not in cls._required_keys}
''', '''        required, optional = set(), set()
        for k, f in cls._fields.items():
            (optional if f.has_default else required).add(k)
        cls._required_keys = required
        cls._optional_keys = optional
''')]),
    ('bl-init-subclass-bind', [(R, '''        for field in cls._fields.values():
            if field.owner is not cls:
                continue
            field.filler.bind(cls)
''', '''        own_fields = [f for f in cls._fields.values() if f.owner is cls]
        for field in own_fields:
            field.filler.bind(cls)
''')]),
    ('bl-init-subclass-parsers', [(R, '''        cls._parsers = []
        for name in dir(cls):
            v = getattr_static(cls, name)
            if getattr(v, '__parser__', False):
                cls._parsers.append(getattr(cls, name))
''', '''        cls._parsers = [getattr(cls, name) for name in dir(cls)
                        if getattr(getattr_static(cls, name), '__parser__', False)]
''')]),
    ('bl-fill-split', [(F, '''        if self.type_checking_style is TypeCheckStyle.default:  # pragma: no cover
            raise Exception
        elif self.type_checking_style is TypeCheckStyle.hollow:
            tpk = TypePassKind.hollow
        else:
            tp = self.type_check(arg)
            if tp is TypeMatch.exact:
                tpk = TypePassKind.no_coerce_strict
            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:
                tpk = TypePassKind.no_coerce
            else:
                # perform coercion
                if not self.coercers:
                    raise TypeError(f'failed type checking for value of type {type(arg)}')
                for i, coercer in enumerate(self.coercers):
                    try:
                        coerced = coercer(arg)
                        tc = self.type_check(coerced)
                        if not tc \\
                                or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                    except Exception:
                        if i == len(self.coercers) - 1:
                            raise
                    else:
                        arg = coerced
                        break
                tpk = TypePassKind.coerce

        # validation
        for validator in self.validators:
            arg = validator(arg)

        return FillingSuccess(arg, tpk)
''', '''        style = self.type_checking_style
        if style is TypeCheckStyle.default:  # pragma: no cover
            raise Exception
        if style is TypeCheckStyle.hollow:
            return FillingSuccess(self._validate(arg), TypePassKind.hollow)
        kind = self._match_kind(self.type_check(arg))
        if kind is None:
            arg = self._coerce(arg)
            kind = TypePassKind.coerce
        return FillingSuccess(self._validate(arg), kind)

    def _match_kind(self, match):
        if match is TypeMatch.exact:
            return TypePassKind.no_coerce_strict
        if match is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:
            return TypePassKind.no_coerce
        return None

    def _coerce(self, arg):
        if not self.coercers:
            raise TypeError(f'failed type checking for value of type {type(arg)}')
        last = len(self.coercers) - 1
        for i, coercer in enumerate(self.coercers):
            try:
                coerced = coercer(arg)
                if self._match_kind(self.type_check(coerced)) is None:
                    raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                return coerced
            except Exception:
                if i == last:
                    raise

    def _validate(self, arg):
        for validator in self.validators:
            arg = validator(arg)
        return arg
''')]),
    ('bl-fill-while', [(F, '''                for i, coercer in enumerate(self.coercers):
                    try:
                        coerced = coercer(arg)
                        tc = self.type_check(coerced)
                        if not tc \\
                                or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                    except Exception:
                        if i == len(self.coercers) - 1:
                            raise
                    else:
                        arg = coerced
                        break
''', '''                remaining = len(self.coercers)
                for coercer in self.coercers:
                    remaining -= 1
                    try:
                        coerced = coercer(arg)
                        tc = self.type_check(coerced)
                        ok = tc is TypeMatch.exact \\
                            or (tc is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check)
                        if not ok:
                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                    except Exception:
                        if not remaining:
                            raise
                        continue
                    arg = coerced
                    break
''')]),
    ('bl-apply-table', [(F, '''        coercion_token = _as_instance(token, CoercionToken)
        if coercion_token is not None:
            self.coercers.append(self.get_coercer(coercion_token))
            return
        validation_token = _as_instance(token, ValidationToken)
        if validation_token is not None:
            self.validators.append(self.get_validator(validation_token))
            return
''', '''        for token_cls, target, getter in (
                (CoercionToken, self.coercers, self.get_coercer),
                (ValidationToken, self.validators, self.get_validator),
        ):
            instance = _as_instance(token, token_cls)
            if instance is not None:
                target.append(getter(instance))
                return
''')]),
    ('bl-bind-style', [(F, '''        if self.type_checking_style == TypeCheckStyle.default:
            self.type_checking_style = owner_cls.default_type_check_style()
        if self.type_checking_style == TypeCheckStyle.hollow and self.coercers:
            raise ValueError('cannot have hollow type checking with coercers')
''', '''        style = self.type_checking_style
        if style == TypeCheckStyle.default:
            style = owner_cls.default_type_check_style()
        if self.coercers and style == TypeCheckStyle.hollow:
            raise ValueError('cannot have hollow type checking with coercers')
        self.type_checking_style = style
''')]),
    ('bl-select-call', [(S, '''        for s, d in self.keys_to_rename:
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, d in self.keys_to_maybe_rename:
            if s not in mapping:
                continue
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
''', '''        def rename(src, dst):
            if dst in mapping:
                raise ValueError(f'key {dst} cannot be overridden in map')
            mapping[dst] = mapping.pop(src)

        for s, d in self.keys_to_rename:
            rename(s, d)
        for s, d in self.keys_to_maybe_rename:
            if s in mapping:
                rename(s, d)
''')]),
    ('bl-todict-inline-tests', [(R, '''        def tuples():
            # inner function to lazily get the key-value tuples
            for field in fields_to_extract:
                if not export_field(field):
                    continue

                try:
                    v = getattr(obj, field.name)
                except AttributeError:
                    if field.name not in missing_ok:
                        # we allow skipping missing fields if they have a default
                        raise
                    if include_defaults and field.has_default:
                        # but if the field is missing, and we expect to find it anyway, then we yield its tuple even
                        # though it was not present
                        yield field.name, field.make_default()
                else:
                    if export_value(field, v):
                        yield field.name, v

        name_values = tuples()
''', '''        name_values = []
        for field in fields_to_extract:
            name = field.name
            forced = name in whitelist_keys
            if not forced and field.tags & blacklist_tags:
                continue
            try:
                v = getattr(obj, name)
            except AttributeError:
                if name not in missing_ok:
                    raise
                if not (include_defaults and field.has_default):
                    continue
                v = field.make_default()
            else:
                if not (forced or include_defaults) and field.has_default and field.is_default(v):
                    continue
            name_values.append((name, v))

''')]),
    ('bl-todict-rev-split', [(R, '''            missing_ok = set(missing_ok)
            extraction_dict = dict(extraction_dict)
            for key, _ in _rev_select.keys_to_add:
                extraction_dict.pop(key, _)
            for to_remove in _rev_select.keys_to_remove:
                extraction_dict[to_remove] = cls._MockField(name=to_remove)
            for old, new in _rev_select.keys_to_rename:
                missing_ok.add(new)
                extraction_dict[old] = cls._MockField(name=old)
            for old, new in _rev_select.keys_to_maybe_rename:
                missing_ok.add(new)
                missing_ok.add(old)
                extraction_dict[old] = cls._MockField(name=old)
            for key, _ in _rev_select.keys_to_maybe_add:
                missing_ok.add(key)
                if key in extraction_dict:
                    # the value must not be replaced, even if it is the default
                    extraction_dict[key] = cls._MockField(name=key)
''', '''            missing_ok, extraction_dict = cls._extraction_plan(_rev_select)
'''), (R, '''    @classmethod
    def is_frozen(cls):
''', '''    @classmethod
    def _extraction_plan(cls, select):
        missing_ok = set(cls._optional_keys)
        extraction = dict(cls._fields)

        def mock(name):
            extraction[name] = cls._MockField(name=name)

        for key, _ in select.keys_to_add:
            extraction.pop(key, None)
        for name in select.keys_to_remove:
            mock(name)
        for old, new in select.keys_to_rename:
            missing_ok.add(new)
            mock(old)
        for old, new in select.keys_to_maybe_rename:
            missing_ok.update((old, new))
            mock(old)
        for key, _ in select.keys_to_maybe_add:
            missing_ok.add(key)
            if key in extraction:
                mock(key)
        return missing_ok, extraction

    @classmethod
    def is_frozen(cls):
''')]),
    ('bl-todict-sort-helper', [(R, '''        name_values = tuples()
        if sort:
            if sort == -1:
                name_values = sorted(name_values, reverse=True)
            elif callable(sort):
                name_values = sorted(name_values, key=lambda t: sort(t[0]))
            else:
                name_values = sorted(name_values)

        return dict(name_values)
''', '''        if not sort:
            return dict(tuples())
        if sort == -1:
            return dict(sorted(tuples(), reverse=True))
        if callable(sort):
            def sort_key(pair):
                return sort(pair[0])
            return dict(sorted(tuples(), key=sort_key))
        return dict(sorted(tuples()))
''')]),
    ('bl-parse-while', [(R, '''        successes = []
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                pass
            else:
                successes.append(r)
        if len(successes) == 0:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        elif len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')

        return next(iter(successes))
''', '''        found = 0
        result = None
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                continue
            found += 1
            result = r
        if not found:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        if found > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')
        return result
''')]),
    ('bl-parse-early-ambiguous', [(R, '''            else:
                successes.append(r)
        if len(successes) == 0:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        elif len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')

        return next(iter(successes))
''', '''            else:
                if successes:
                    raise TypeError('multiple unary constructors succeeded with argument of type '
                                    f'{type(v).__qualname__}')
                successes.append(r)
        if not successes:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        return successes[0]
''')]),
    ('bl-from-pickle-shared', [(R, '''        ret = extras.pickle.loads(v, *args, **kwargs)
        if not isinstance(ret, cls):
            return cls.parse(ret)
        return ret
''', '''        return cls._unpickled(extras.pickle.loads(v, *args, **kwargs))
'''), (R, '''        ret = extras.pickle.load(v, *args, **kwargs)
        if not isinstance(ret, cls):
            return cls.parse(ret)
        return ret
''', '''        return cls._unpickled(extras.pickle.load(v, *args, **kwargs))

    @classmethod
    def _unpickled(cls, obj):
        if isinstance(obj, cls):
            return obj
        return cls.parse(obj)
''')]),
    ('bl-order-compare', [(R, '''        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() < other.__ordering_key()
''', '''        return self._compare(other, operator.lt)
'''), (R, '''        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() <= other.__ordering_key()
''', '''        return self._compare(other, operator.le)
'''), (R, '''        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() > other.__ordering_key()
''', '''        return self._compare(other, operator.gt)
'''), (R, '''        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() >= other.__ordering_key()
''', '''        return self._compare(other, operator.ge)

    def _compare(self, other, op):
        self._check_comparable()
        if isinstance(other, type(self)):
            return op(self.__ordering_key(), other.__ordering_key())
        return NotImplemented
'''), (R, '''from __future__ import annotations
''', '''from __future__ import annotations

import operator
''')]),
    ('bl-copy-values', [(R, '''        own = {k for k, f in type(self)._fields.items() if getattr(self, k, f.default) is not f.default}
        return self.to_dict(whitelist_keys=own)
''', '''        own = set()
        for k, f in type(self)._fields.items():
            value = getattr(self, k, f.default)
            if value is f.default:
                continue
            own.add(k)
        return self.to_dict(whitelist_keys=own)
''')]),
    ('bl-from-instance', [(R, '''        d = cls._to_dict(v, _rev_select=_select)
        d.update(ChainMap(*maps), **kwargs)
        return d
''', '''        extra = dict(ChainMap(*maps))
        extra.update(kwargs)
        return {**cls._to_dict(v, _rev_select=_select), **extra}
''')]),
    ('bl-from-instance-shortcut', [(R, '''        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):
            return v
        return NotImplemented
''', '''        if maps or kwargs or not cls.is_frozen():
            return NotImplemented
        return v if isinstance(v, cls) else NotImplemented
''')]),
    ('bl-select-run', [(S, '''        if not select and self._shortcut:
            ret = self._shortcut(cls, *args, **kwargs)
            if ret is not NotImplemented:
                return ret
        return super().run(cls, args, kwargs, select)
''', '''        ret = NotImplemented
        if self._shortcut and not select:
            ret = self._shortcut(cls, *args, **kwargs)
        return super().run(cls, args, kwargs, select) if ret is NotImplemented else ret
''')]),
    ('bl-select-init', [(S, '''        if isinstance(keys_to_add, Mapping):
            keys_to_add = tuple(keys_to_add.items())
        if isinstance(keys_to_maybe_add, Mapping):
            keys_to_maybe_add = tuple(keys_to_maybe_add.items())
        if isinstance(keys_to_rename, Mapping):
            keys_to_rename = tuple(keys_to_rename.items())
        if isinstance(keys_to_maybe_rename, Mapping):
            keys_to_maybe_rename = tuple(keys_to_maybe_rename.items())
        if isinstance(keys_to_remove, str):
            keys_to_remove = (keys_to_remove,)
        if isinstance(keys_to_maybe_remove, str):
            keys_to_maybe_remove = (keys_to_maybe_remove,)
        # a Select is immutable and reusable, so it must not hold on to a caller's one-shot or mutable iterables
        self.keys_to_add = tuple(keys_to_add)
        self.keys_to_maybe_add = tuple(keys_to_maybe_add)
        self.keys_to_remove = tuple(keys_to_remove)
        self.keys_to_maybe_remove = tuple(keys_to_maybe_remove)
        self.keys_to_rename = tuple(keys_to_rename)
        self.keys_to_maybe_rename = tuple(keys_to_maybe_rename)
''', '''        def pairs(source):
            return tuple(source.items() if isinstance(source, Mapping) else source)

        def names(source):
            return (source,) if isinstance(source, str) else tuple(source)

        self.keys_to_add = pairs(keys_to_add)
        self.keys_to_maybe_add = pairs(keys_to_maybe_add)
        self.keys_to_remove = names(keys_to_remove)
        self.keys_to_maybe_remove = names(keys_to_maybe_remove)
        self.keys_to_rename = pairs(keys_to_rename)
        self.keys_to_maybe_rename = pairs(keys_to_maybe_rename)
''')]),
    ('bl-union-fill', [(T, '''        best_results = []
        best_key = float('inf')
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and i + 1 == len(self.sub_fillers):
                    raise
                continue
            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
                best_results.append(success.value)

        if len(best_results) > 1 and any(r is not best_results[0] for r in best_results[1:]):
            raise ValueError('multiple sub-fillers matched')

        return FillingSuccess(best_results[0], best_key)
''', '''        best_results = []
        best_key = float('inf')
        last_index = len(self.sub_fillers) - 1
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if i == last_index and not best_results:
                    raise
            else:
                kind = success.type_pass_kind
                if kind < best_key:
                    best_results, best_key = [], kind
                if kind == best_key:
                    best_results.append(success.value)

        winner = best_results[0]
        for other in best_results:
            if other is not winner:
                raise ValueError('multiple sub-fillers matched')
        return FillingSuccess(winner, best_key)
''')]),
    ('bl-union-bind', [(T, '''        for sf in self.sub_fillers:
            for t in chain(self.args, self.applied):
                sf.apply(t)

            sf.bind(owner_cls)
''', '''        tokens = (*self.args, *self.applied)
        for sf in self.sub_fillers:
            for t in tokens:
                sf.apply(t)
        for sf in self.sub_fillers:
            sf.bind(owner_cls)
''')]),
    ('bl-literal-method', [(T, '''        if not self.is_hollow():
            @self.validators.append
            def inner_validator(v):
                if v not in self.possible_values.get(type(v), ()):
                    raise ValueError
                return v
''', '''        if not self.is_hollow():
            self.validators.append(self._check_possible)

    def _check_possible(self, v):
        allowed = self.possible_values.get(type(v))
        if not allowed or v not in allowed:
            raise ValueError
        return v
''')]),
    ('bl-type-method', [(T, '''        if not self.inner_filler.is_hollow():
            @self.inner_filler.validators.append
            def inner_validator(v):
                if not issubclass(v, self.base_type):
                    raise ValueError(f'must be a subclass of {self.base_type}')
                return v
''', '''        if self.inner_filler.is_hollow():
            return
        base = self.base_type

        def inner_validator(v):
            if issubclass(v, base):
                return v
            raise ValueError(f'must be a subclass of {base}')
        self.inner_filler.validators.append(inner_validator)
''')]),
    ('bl-tuple-homogeneous', [(T, '''                    hollow_passes = 0  # the number of elements that filled identically
                    for element in v:
                        filled = inner_filler.__call__(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                            )
                            return type(v)(all_elements)
                    return v
''', '''                    elements = [inner_filler(element) for element in v]
                    if all(new is old for new, old in zip(elements, v)):
                        return v
                    return type(v)(elements)
''')]),
    ('bl-field-default', [(FL, '''        default, is_factory = self._apply_factory(default)

        self.default = default
        self.default_is_factory = is_factory
''', '''        self.default_is_factory = isinstance(default, Factory)
        self.default = default.func if self.default_is_factory else default
''')]),
    ('bl-field-is-default', [(FL, '''        return (not self.default_is_factory) and self.default == v
''', '''        if self.default_is_factory:
            return False
        return self.default == v
''')]),
    ('bl-field-make-default', [(FL, '''        if self.default_is_factory:
            return self.default()
        return self.default
''', '''        make = self.default if self.default_is_factory else (lambda: self.default)
        return make()
''')]),
    ('bl-field-hint', [(FL, '''        if meta_org == ClassVar:
            return SKIP_FIELD
        if meta_org is Final:
            if not owner.is_frozen():
                raise TypeError('cannot declare Final field in non-frozen Record')
            inner = get_args(origin)[0]
            if args:
                # tokens outside of the Final apply just like tokens inside of it
                inner, inner_args = split_annotation(inner)
                inner = Annotated[(inner, *inner_args, *args)]
            ret = cls.from_type_hint(inner, owner=owner, **kwargs)
        else:
            filler = get_filler(th)
            ret = cls(filler=filler, owner=owner, **kwargs)
        for arg in args:
            ret._apply(arg)
        return ret
''', '''        if meta_org == ClassVar:
            return SKIP_FIELD
        if meta_org is not Final:
            ret = cls(filler=get_filler(th), owner=owner, **kwargs)
        elif owner.is_frozen():
            ret = cls.from_type_hint(cls._unwrap_final(origin, args), owner=owner, **kwargs)
        else:
            raise TypeError('cannot declare Final field in non-frozen Record')

        for arg in args:
            ret._apply(arg)

        return ret

    @staticmethod
    def _unwrap_final(origin, outer_args):
        inner, = get_args(origin)
        if not outer_args:
            return inner
        inner, inner_args = split_annotation(inner)
        return Annotated[(inner, *inner_args, *outer_args)]
''')]),
    ('bl-eval-init', [(ST, '''        if args and args[0] is ...:
            self.add_bound = True
            args = args[1:]
        else:
            self.add_bound = False
        self.kwargs = kwargs
        self.kwargs.update(
            (k.__name__, k) for k in args
        )
''', '''        self.add_bound = bool(args) and args[0] is ...
        names = dict(kwargs)
        for k in (args[1:] if self.add_bound else args):
            names[k.__name__] = k
        self.kwargs = names
''')]),
    ('bl-literal-eval-rec', [(ST, '''        def ret(v):
            while isinstance(v, str):
                try:
                    v = literal_eval(v)
                except Exception as e:
                    raise TypeError from e
            return v

        return ret
''', '''        return self._evaluate

    @staticmethod
    def _evaluate(v):
        while True:
            if not isinstance(v, str):
                return v
            try:
                v = literal_eval(v)
            except Exception as e:
                raise TypeError from e
''')]),
    ('bl-loose-check', [(ST, '''        if (not isinstance(origin, type)) or isabstract(origin):
            raise TypeError(f'cannot use loose coercer with non-concrete type {origin}')
        return super().__call__(origin, filler)
''', '''        concrete = isinstance(origin, type) and not isabstract(origin)
        if concrete:
            return super().__call__(origin, filler)
        raise TypeError(f'cannot use loose coercer with non-concrete type {origin}')
''')]),
    ('bl-unpack-method', [(ST, '''        if self._type_constraints is not None:
            v = tuple(v)
            if len(self._type_constraints) == 2 and self._type_constraints[1] is ...:
                if any(not isinstance(i, self._type_constraints[0]) for i in v):
                    raise TypeError(f'all arguments must be instances of {self._type_constraints[0]}')
            else:
                if len(v) != len(self._type_constraints) \\
                        or any(not isinstance(i, tc) for (i, tc) in zip(v, self._type_constraints)):
                    raise TypeError
        return origin(*v, *self.args, **self.kwargs)
''', '''        v = tuple(v)
        constraints = self._type_constraints
        if constraints is None:
            return origin(*v, *self.args, **self.kwargs)
        if len(constraints) == 2 and constraints[1] is ...:
            constraints = (constraints[0],) * len(v)
        if len(v) != len(constraints):
            raise TypeError(f'expected {len(constraints)} arguments')
        for item, constraint in zip(v, constraints):
            if not isinstance(item, constraint):
                raise TypeError(f'{item!r} must be an instance of {constraint}')
        return origin(*v, *self.args, **self.kwargs)
''')]),
    ('bl-umap-method', [(ST, '''            for k, a in v.items():
                tc = self._type_constraints.get(k)
                if tc is None or not isinstance(a, tc):
                    raise TypeError
''', '''            for k in v:
                if k not in self._type_constraints:
                    raise TypeError(f'unexpected argument {k}')
                if not isinstance(v[k], self._type_constraints[k]):
                    raise TypeError(f'wrong type for {k}')
''')]),
    ('bl-simple-check', [(ST, '''        if type(v) == self.origin:
            return TypeMatch.exact
        return TypeMatch.inexact if isinstance(v, self.origin) else None
''', '''        if not isinstance(v, self.origin) and type(v) != self.origin:
            return None
        return TypeMatch.exact if type(v) == self.origin else TypeMatch.inexact
''')]),
    ('bl-whole', [(ST, '''        if isinstance(v, Rational):
            if v.denominator == 1:
                return origin(v.numerator, *self.args, **self.kwargs)
        elif isinstance(v, Real):
            mod = v % 1
            if isclose(mod, 0) or isclose(mod, 1):
                return origin(round(v), *self.args, **self.kwargs)
        elif isinstance(v, Complex):
            if v.imag == 0:
                return self.func_args(origin, v.real)
        raise TypeError
''', '''        if isinstance(v, Complex) and not isinstance(v, Real):
            if v.imag != 0:
                raise TypeError
            v = v.real
        whole = self._whole_part(v)
        if whole is None:
            raise TypeError
        return origin(whole, *self.args, **self.kwargs)

    @staticmethod
    def _whole_part(v):
        if isinstance(v, Rational):
            return v.numerator if v.denominator == 1 else None
        if isinstance(v, Real):
            fraction = v % 1
            if isclose(fraction, 0) or isclose(fraction, 1):
                return round(v)
        return None
''')]),
    ('bl-tobytes', [(ST, '''        if not self.args and ('length' not in self.kwargs):
            signed = self.kwargs.get('signed', False)
            args = ((v.bit_length() + 7 + signed) // 8,)
        else:
            args = self.args
        return origin(v.to_bytes(*args, **self.kwargs))
''', '''        if self.args or 'length' in self.kwargs:
            return origin(v.to_bytes(*self.args, **self.kwargs))
        bits = v.bit_length()
        if self.kwargs.get('signed', False):
            bits += 1
        return origin(v.to_bytes((bits + 7) // 8, **self.kwargs))
''')]),
    ('bl-clamp', [(BV, '''        return min(max(v, self.ge), self.le)
''', '''        if self.ge > v:
            return self.ge
        if self.le < v:
            return self.le
        return v
''')]),
    ('bl-within', [(BV, '''        if self.g_eq:
            if not (self.ge <= v):
                return False
        else:
            if not (self.ge < v):
                return False

        if self.l_eq:
            if not (self.lt >= v):
                return False
        else:
            if not (self.lt > v):
                return False

        return True
''', '''        above = self.ge <= v if self.g_eq else self.ge < v
        if not above:
            return False
        below = self.lt >= v if self.l_eq else self.lt > v
        return bool(below)
''')]),
    ('bl-exc', [(V, '''        exc = self._exc()
        if self.warn:
            if self.warn is True:
                warnings.warn(exc)
            else:
                self.warn.warning(exc)
        else:
            raise exc
''', '''        exc = self._exc()
        if not self.warn:
            raise exc
        issue = warnings.warn if self.warn is True else self.warn.warning
        issue(exc)
''')]),
    ('bl-call-coercion', [(CO, '''    def inner(self, v):
        return self.func(v, *self.args, **self.kwargs)

    def __call__(self, *_):
        return self.inner


class MapCoercion''', '''    def __call__(self, *_):
        func, args, kwargs = self.func, self.args, self.kwargs

        def inner(v):
            return func(v, *args, **kwargs)
        return inner


class MapCoercion''')]),
    ('bl-map-coercion', [(CO, '''        if v in self.value_map:
            return self.value_map[v]
        if v in self.factory_map:
            return self.factory_map[v]()
        raise TypeError
''', '''        if v in self.value_map:
            return self.value_map[v]
        if v not in self.factory_map:
            raise TypeError(f'{v!r} is not mapped')
        factory = self.factory_map[v]
        return factory()
''')]),
    ('bl-compose', [(CO, '''        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()

        def ret(v):
            for f in functors:
                v = f(v)
            return v

        return ret
''', '''        functors = []
        for t in self.inner_coercers:
            functors.insert(0, filler.get_coercer(t))

        def ret(v):
            result = v
            for f in functors:
                result = f(result)
            return result

        return ret
''')]),
    ('bl-get-filler', [(GF, '''    for checker in builtin_filler_checkers:
        # builtin functions to create a filler class
        ret = checker(origin)
        if isinstance(ret, GetFiller):
            # the new origin can be annotated in its own right (a NewType of an Annotated)
            new_origin, new_args = split_annotation(ret.new_origin)
            return get_annotated_filler(new_origin, (*new_args, *args))
        elif ret:
            return ret(origin, args)
    if isinstance(origin, type):
        # run through all classes in the mapping checking for subtypes
        blt_supertype = next((k for (k, v) in builtin_filler_map.items() if issubclass(origin, k)), None)
        if blt_supertype:
            return builtin_filler_map[blt_supertype](origin, args)
''', '''    for checker in builtin_filler_checkers:
        ret = checker(origin)
        if not ret:
            continue
        if not isinstance(ret, GetFiller):
            return ret(origin, args)
        new_origin, new_args = split_annotation(ret.new_origin)
        return get_annotated_filler(new_origin, tuple(new_args) + tuple(args))

    if isinstance(origin, type):
        for supertype, filler_cls in builtin_filler_map.items():
            if issubclass(origin, supertype):
                return filler_cls(origin, args)
''')]),
    ('bl-typing', [(T, '''    if origin_cls == type:
        if has_args(stored_type) and Any not in get_args(stored_type):
            return TypeFiller
        return GetFiller(type)
    if origin_cls == CallableBase:
        return GetFiller(callable)
    if origin_cls is tuple and stored_type is not Tuple and not get_args(stored_type):
        # the empty tuple type
        return TupleFiller
    if has_args(stored_type):
        t = genric_origin_map.get(origin_cls)
        if t:
            return t
    elif origin_cls:
        return GetFiller(origin_cls)
''', '''    if origin_cls == type:
        return TypeFiller if has_args(stored_type) and Any not in get_args(stored_type) else GetFiller(type)
    if origin_cls == CallableBase:
        return GetFiller(callable)
    if origin_cls is tuple and stored_type is not Tuple and not get_args(stored_type):
        return TupleFiller
    if not has_args(stored_type):
        return GetFiller(origin_cls) if origin_cls else None
    return genric_origin_map.get(origin_cls)
''')]),
    ('bl-iterable-bind', [(T, '''                hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
                        return self.reconstruct(all_elements, v)
                return v
''', '''                changed = False
                elements = []
                for element in v:
                    filled = self.element_filler(element)
                    changed = changed or filled is not element
                    elements.append(filled)
                if not changed:
                    return v
                return self.reconstruct(elements, v)
''')]),
    ('bl-mapping-bind', [(T, '''                tuples = [
                    (self.key_filler(k), self.value_filler(v))
                    for k, v in value.items()
                ]
                if any(
                        (k is not filled_k) or (v is not filled_v)
                        for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
                ):
                    return self.reconstruct(tuples, value)
                else:
                    return value
''', '''                tuples = []
                same = True
                for k, v in value.items():
                    filled_k = self.key_filler(k)
                    filled_v = self.value_filler(v)
                    if filled_k is not k or filled_v is not v:
                        same = False
                    tuples.append((filled_k, filled_v))
                return value if same else self.reconstruct(tuples, value)
''')]),
    ('bl-genericn', [(T, '''        fillers = [get_filler(it) for it in self.inner_types]
        for f in fillers:
            f.bind(owner_cls)
            if not f.is_inert():
                raise TypeError('A non-specialized filler cannot have non-hollow inner types')
''', '''        for inner_type in self.inner_types:
            inner = get_filler(inner_type)
            inner.bind(owner_cls)
            if inner.is_inert():
                continue
            raise TypeError('A non-specialized filler cannot have non-hollow inner types')
''')]),
    ('bl-reconstruct', [(T, '''        if isinstance(initial, str):
            # a string cannot be constructed from an iterable of its elements
            return type(initial)(''.join(elements))
        if isinstance(initial, deque):
            return type(initial)(elements, initial.maxlen)
        return type(initial)(elements)
''', '''        kind = type(initial)
        if isinstance(initial, deque):
            return kind(elements, initial.maxlen)
        if isinstance(initial, str):
            elements = ''.join(elements)
        return kind(elements)
''')]),
    # ---- select.py ----
    ('bl-merge-parts', [(S, '''        return type(self)(
            keys_to_add=tuple(chain(self.keys_to_add, other.keys_to_add)),
            keys_to_maybe_add=tuple(chain(self.keys_to_maybe_add, other.keys_to_maybe_add)),
            keys_to_remove=tuple(chain(self.keys_to_remove, other.keys_to_remove)),
            keys_to_maybe_remove=tuple(chain(self.keys_to_maybe_remove, other.keys_to_maybe_remove)),
            keys_to_rename=tuple(chain(self.keys_to_rename, other.keys_to_rename)),
            keys_to_maybe_rename=tuple(chain(self.keys_to_maybe_rename, other.keys_to_maybe_rename)),
        )
''', '''        return type(self)(**{part: getattr(self, part) + getattr(other, part) for part in self._parts})
'''), (S, "    empty: Select\n", '''    empty: Select
    _parts = ('keys_to_add', 'keys_to_maybe_add', 'keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename',
              'keys_to_maybe_rename')
''')]),
    ('bl-merge-star', [(S, '''        return type(self)(
            keys_to_add=tuple(chain(self.keys_to_add, other.keys_to_add)),
            keys_to_maybe_add=tuple(chain(self.keys_to_maybe_add, other.keys_to_maybe_add)),
            keys_to_remove=tuple(chain(self.keys_to_remove, other.keys_to_remove)),
            keys_to_maybe_remove=tuple(chain(self.keys_to_maybe_remove, other.keys_to_maybe_remove)),
            keys_to_rename=tuple(chain(self.keys_to_rename, other.keys_to_rename)),
            keys_to_maybe_rename=tuple(chain(self.keys_to_maybe_rename, other.keys_to_maybe_rename)),
        )
''', '''        def both(part):
            return (*getattr(self, part), *getattr(other, part))

        return type(self)(keys_to_add=both('keys_to_add'), keys_to_maybe_add=both('keys_to_maybe_add'),
                          keys_to_remove=both('keys_to_remove'), keys_to_maybe_remove=both('keys_to_maybe_remove'),
                          keys_to_rename=both('keys_to_rename'), keys_to_maybe_rename=both('keys_to_maybe_rename'))
''')]),
    ('bl-merge-loop', [(S, '''        ret = self
        for other in others:
            ret = ret._merge(other)
        if kwargs:
            ret = ret._merge(type(self)(**kwargs))
        return ret
''', '''        selects = others
        if kwargs:
            selects += (type(self)(**kwargs),)
        ret = self
        for select in selects:
            ret = ret._merge(select)
        return ret
''')]),
    ('bl-merge-reduce', [(S, '''        ret = self
        for other in others:
            ret = ret._merge(other)
        if kwargs:
            ret = ret._merge(type(self)(**kwargs))
        return ret
''', '''        selects = list(others)
        if kwargs:
            selects.append(type(self)(**kwargs))
        return reduce(Select._merge, selects, self)
'''), (S, 'from functools import update_wrapper\n', 'from functools import reduce, update_wrapper\n')]),
    ('bl-bool-eager', [(S, '''        self._bool = None

    def _merge''', '''        self._bool = any(map(len, (self.keys_to_add, self.keys_to_maybe_add, self.keys_to_remove,
                                   self.keys_to_maybe_remove, self.keys_to_rename, self.keys_to_maybe_rename)))

    def _merge'''), (S, '''        if self._bool is None:
            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
        return self._bool
''', '''        return self._bool
''')]),
    ('bl-bool-or', [(S, '''            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
''', '''            self._bool = bool(self.keys_to_add or self.keys_to_maybe_add or self.keys_to_remove
                              or self.keys_to_maybe_remove or self.keys_to_rename or self.keys_to_maybe_rename)
''')]),
    ('bl-call-put', [(S, '''        for s, d in self.keys_to_rename:
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, d in self.keys_to_maybe_rename:
            if s not in mapping:
                continue
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, v in self.keys_to_add:
            if s in mapping:
                raise ValueError(f'key {s} cannot be overridden in map')
            mapping[s] = v
        for s, v in self.keys_to_maybe_add:
            if s in mapping:
                continue
            mapping[s] = v

        return mapping
''', '''        for s, d in self.keys_to_rename:
            self._check_free(mapping, d)
            mapping[d] = mapping.pop(s)
        for s, d in self.keys_to_maybe_rename:
            if s in mapping:
                self._check_free(mapping, d)
                mapping[d] = mapping.pop(s)
        for s, v in self.keys_to_add:
            self._check_free(mapping, s)
            mapping[s] = v
        for s, v in self.keys_to_maybe_add:
            mapping.setdefault(s, v)
        return mapping

    @staticmethod
    def _check_free(mapping, key):
        if key in mapping:
            raise ValueError(f'key {key} cannot be overridden in map')
''')]),
    ('bl-call-chain', [(S, '''        for s, d in self.keys_to_rename:
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, d in self.keys_to_maybe_rename:
            if s not in mapping:
                continue
            if d in mapping:
''', '''        for optional, (s, d) in chain(((False, r) for r in self.keys_to_rename),
                                      ((True, r) for r in self.keys_to_maybe_rename)):
            if optional and s not in mapping:
                continue
            if d in mapping:
''')]),
    ('bl-factory-hook', [(S, '''        mapping = self.func(cls, *args, **kwargs)
        mapping = select(mapping)
        return cls(**mapping)

    def __get__''', '''        return cls(**select(self._mapping(cls, args, kwargs, select)))

    def _mapping(self, cls, args, kwargs, select):
        return self.func(cls, *args, **kwargs)

    def __get__'''), (S, '''    def run(self, cls: Type, args: Iterable, kwargs: Mapping[str, Any], select: Select):
        mapping = self.func(cls, *args, _select=select, **kwargs)
        mapping = select(mapping)
        return cls(**mapping)
''', '''    def _mapping(self, cls, args, kwargs, select):
        return self.func(cls, *args, _select=select, **kwargs)
''')]),
    ('bl-bound-with', [(S, '''            return type(self)(self.descriptor, self.owner_cls, self.select_.merge(*selects, **kwargs))
''', '''            return self._with(self.select_.merge(*selects, **kwargs))

        def _with(self, select):
            cls = type(self)
            return cls(descriptor=self.descriptor, owner_cls=self.owner_cls, select=select)
''')]),
    ('bl-exporter-run', [(S, '''        def __call__(self, *args, **kwargs):
            return self.descriptor.run(self.owner, self.owner, self.export_args, self.export_kwargs, self.select_, args,
                                       kwargs)
''', '''        def __call__(self, *args, **kwargs):
            return self._export(self.owner, args, kwargs)

        def _export(self, instance, args, kwargs):
            return self.descriptor.run(self.owner, instance, self.export_args, self.export_kwargs, self.select_, args,
                                       kwargs)
'''), (S, '''        def __call__(self, instance, *args, **kwargs):
            return self.descriptor.run(self.owner, instance, self.export_args, self.export_kwargs, self.select_, args,
                                       kwargs)
''', '''        def __call__(self, instance, *args, **kwargs):
            return self._export(instance, args, kwargs)
''')]),
    ('bl-exporter-get', [(S, '''        if instance is None:
            return self.BoundToClass(self, owner, (), {}, Select.empty)
        return self.Bound(self, instance, (), {}, Select.empty)
''', '''        bound_cls, target = (self.BoundToClass, owner) if instance is None else (self.Bound, instance)
        return bound_cls(self, target, export_args=(), export_kwargs={}, select=Select.empty)
''')]),
    ('bl-exporter-with', [(S, '''            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},
                              self.select_)
''', '''            export_kwargs = self.export_kwargs.copy()
            export_kwargs.update(kwargs)
            return type(self)(self.descriptor, self.owner, self.export_args + args, export_kwargs, self.select_)
''')]),
    ('bl-noarg-explicit', [(S, '''        return super().run(cls, instance, (*export_args, *args), {**export_kwargs, **kwargs}, select, (), {})
''', '''        export_args = tuple(export_args) + tuple(args)
        export_kwargs = dict(export_kwargs, **kwargs)
        mapping = cls._to_dict(instance, *export_args, **export_kwargs)
        return self.func(select(mapping))
''')]),
    ('bl-shortcut-invert', [(S, '''        if not select and self._shortcut:
            ret = self._shortcut(cls, *args, **kwargs)
            if ret is not NotImplemented:
                return ret
        return super().run(cls, args, kwargs, select)
''', '''        if select or not self._shortcut:
            return super().run(cls, args, kwargs, select)
        ret = self._shortcut(cls, *args, **kwargs)
        if ret is NotImplemented:
            ret = super().run(cls, args, kwargs, select)
        return ret
''')]),
    # ---- the rest of record.py ----
    ('bl-hash-getattr', [(R, '''        if self._hash is None:
            self._hash = hash(tuple(self.to_dict().values()))
        return self._hash
''', '''        ret = self._hash
        if ret is None:
            values = self.to_dict().values()
            ret = hash(tuple(values))
            self._hash = ret
        return ret
''')]),
    ('bl-setattr-guard', [(R, '''        if a in RecordBase.__slots__:
            return super().__setattr__(a, value)
        raise TypeError(f'{type(self).__qualname__} is frozen')
''', '''        if a not in RecordBase.__slots__:
            raise TypeError(f'{type(self).__qualname__} is frozen')
        object.__setattr__(self, a, value)
''')]),
    ('bl-order-key', [(R, '''        f: RecordField
        ret = []
        for k, f in type(self)._fields.items():
            if exclude_from_ordering in f.tags:
                continue
            ret.append(getattr(self, k))
        return ret
''', '''        return [getattr(self, name) for name, field in type(self)._fields.items()
                if exclude_from_ordering not in field.tags]
''')]),
    ('bl-order-key-filter', [(R, '''        f: RecordField
        ret = []
        for k, f in type(self)._fields.items():
            if exclude_from_ordering in f.tags:
                continue
            ret.append(getattr(self, k))
        return ret
''', '''        fields = self._fields
        excluded = fields.filter_by_tag(exclude_from_ordering)
        return tuple(getattr(self, name) for name in fields if name not in excluded)
''')]),
    ('bl-mapping-merge', [(R, '''        return ChainMap(*maps, dict(**kwargs))
''', '''        merged = dict(kwargs)
        for m in reversed(maps):
            merged.update(m)
        return merged
''')]),
    ('bl-instance-update', [(R, '''        d = cls._to_dict(v, _rev_select=_select)
        d.update(ChainMap(*maps), **kwargs)
        return d
''', '''        values = cls._to_dict(v, _rev_select=_select)
        for m in reversed(maps):
            values.update(m)
        values.update(kwargs)
        return values
''')]),
    ('bl-json-io', [(R, '''        if io is None:
            return extras.json.dumps(v, *args, **kwargs)
        extras.json.dump(v, io, *args, **kwargs)
''', '''        json = extras.json
        if io is not None:
            json.dump(v, io, *args, **kwargs)
            return None
        return json.dumps(v, *args, **kwargs)
''')]),
    ('bl-pickle-io', [(R, '''        if io is None:
            return extras.pickle.dumps(self, *args, **kwargs)
        extras.pickle.dump(self, io, *args, **kwargs)
''', '''        if io is None:
            dump, target = extras.pickle.dumps, ()
        else:
            dump, target = extras.pickle.dump, (io,)
        ret = dump(self, *target, *args, **kwargs)
        return ret if io is None else None
''')]),
    ('bl-copy-frozen', [(R, '''        if self.is_frozen():
            return self
        return type(self).from_mapping(self.__copy_values())
''', '''        return self if self._frozen else self.from_mapping(self.__copy_values())
''')]),
    ('bl-deepcopy-one', [(R, '''        if memo is None:
            memo = {}
        d = self.__copy_values()
        d = deepcopy(d, memo)
        return self.from_mapping(d)
''', '''        values = {k: v for k, v in self.__copy_values().items()}
        return type(self).from_mapping(deepcopy(values, {} if memo is None else memo))
''')]),
    ('bl-todict-sorted-key', [(R, '''        if sort:
            if sort == -1:
                name_values = sorted(name_values, reverse=True)
            elif callable(sort):
                name_values = sorted(name_values, key=lambda t: sort(t[0]))
            else:
                name_values = sorted(name_values)

        return dict(name_values)
''', '''        if not sort:
            return dict(name_values)
        if sort == -1:
            order = {'reverse': True}
        elif callable(sort):
            order = {'key': lambda t: sort(t[0])}
        else:
            order = {}
        return dict(sorted(name_values, **order))
''')]),
    ('bl-todict-list', [(R, '''                try:
                    v = getattr(obj, field.name)
                except AttributeError:
                    if field.name not in missing_ok:
                        # we allow skipping missing fields if they have a default
                        raise
                    if include_defaults and field.has_default:
                        # but if the field is missing, and we expect to find it anyway, then we yield its tuple even
                        # though it was not present
                        yield field.name, field.make_default()
                else:
                    if export_value(field, v):
                        yield field.name, v
''', '''                name = field.name
                try:
                    v = getattr(obj, name)
                except AttributeError:
                    if name not in missing_ok:
                        raise
                    if not (include_defaults and field.has_default):
                        continue
                    v = field.make_default()
                else:
                    if not export_value(field, v):
                        continue
                yield name, v
''')]),
    # ---- fields, tags, utilities ----
    ('bl-field-add', [(FL, "        self._apply_to_filler(CallValidation(func, **kwargs), sub_filler_key=sub_key)\n        return func\n", "        token = CallValidation(func, **kwargs)\n        self.filler.sub_filler(sub_key).apply(token)\n        return func\n"),
                      (FL, "        self._apply_to_filler(CallCoercion(func, **kwargs), sub_filler_key=sub_key)\n        return func\n", "        return self._add(CallCoercion, func, sub_key, kwargs)\n\n    def _add(self, token_cls, func, sub_key, kwargs):\n        self._apply_to_filler(token_cls(func, **kwargs), sub_filler_key=sub_key)\n        return func\n")]),
    ('bl-filter-tag', [(FL, "        return FieldDict((k, f) for (k, f) in self.items() if (tag in f.tags))\n", '''        ret = FieldDict()
        for name, field in self.items():
            if tag in field.tags:
                ret[name] = field
        return ret
''')]),
    ('bl-tag-eq', [('tags.py', '''        return type(other) == type(self) \\
               and self.inner == other.inner
''', '''        if type(other) is not type(self):
            return False
        return self.inner == other.inner
''')]),
    ('bl-as-instance', [('fillers/util.py', '''    if isinstance(obj, cls):
        return obj
    elif isinstance(obj, type) and issubclass(obj, cls):
        return obj()
    wrapped = unwrap(obj)
    if isinstance(wrapped, type) and issubclass(wrapped, cls):
        return obj()
    return None
''', '''    if isinstance(obj, cls):
        return obj
    for candidate in (obj, unwrap(obj)):
        if isinstance(candidate, type) and issubclass(candidate, cls):
            return obj()
    return None
''')]),
    ('bl-kw-method', [('utils/decorators.py', '''        if f is None:
            return lambda f: ret(self, f, **kwargs)
        return func(self, f, **kwargs)
''', '''        if f is not None:
            return func(self, f, **kwargs)

        def decorator(f):
            return func(self, f, **kwargs)
        return decorator
''')]),
    ('bl-split', [('utils/typing_compatible.py', '''    if not is_annotation(v):
        return v, ()
    t, *args = get_args(v)
    return t, args
''', '''    if is_annotation(v):
        args = get_args(v)
        return args[0], list(args[1:])
    return v, ()
''')]),
]
