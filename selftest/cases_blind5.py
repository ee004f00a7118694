S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
D, TC = 'utils/decorators.py', 'utils/typing_compatible.py'
BUGS = [
    # C01
    ('b5-fill-by-order', ['C01'], [(R, "                values[k] = cls._fields[k].filler(v)\n", "                field = cls._fields[k]\n                values[field.name if not field.has_default else k] = field.filler(v) if v is not field.default else v\n")]),
    ('b5-redundant-private', ['C01'], [(R, "            redundant = kwargs.keys() - cls._fields.keys()\n", "            redundant = {k for k in kwargs if k not in cls._fields and not k.startswith('_')}\n            if not redundant:\n                kwargs = {k: v for k, v in kwargs.items() if k in cls._fields}\n"), (R, "            raise TypeError(f'arguments {redundant} invalid", "            if redundant:\n                raise TypeError(f'arguments {redundant} invalid")]),
    ('b5-post-new-type', ['C01'], [(R, "            if replacement is not None:\n", "            if replacement is not None and type(replacement) is cls:\n")]),
    ('b5-missing-none', ['C01'], [(R, "        if not (cls._required_keys <= kwargs.keys()):\n", "        if not (cls._required_keys <= kwargs.keys() or all(hasattr(cls, k) for k in cls._required_keys - kwargs.keys())):\n")]),
    # C02
    ('b5-checkstrict-eq', ['C02'], [(FF, "            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:\n", "            elif tp is TypeMatch.inexact and (self.type_checking_style is TypeCheckStyle.check or not self.coercers):\n")]),
    ('b5-subclass-exact', ['C02', 'C28'], [(SF, "        if type(v) == self.origin:\n            return TypeMatch.exact\n        return TypeMatch.inexact if isinstance(v, self.origin) else None\n", "        if type(v) == self.origin or self.origin in type(v).__bases__:\n            return TypeMatch.exact\n        return TypeMatch.inexact if isinstance(v, self.origin) else None\n")]),
    # C03
    ('b5-coercer-break-early', ['C03'], [(FF, "                        if i == len(self.coercers) - 1:\n                            raise\n", "                        if i == len(self.coercers) - 1 or i > 2:\n                            raise\n")]),
    ('b5-coercer-chain', ['C03'], [(FF, "                        coerced = coercer(arg)\n                        tc = self.type_check(coerced)\n", "                        coerced = coercer(arg)\n                        tc = self.type_check(coerced)\n                        if tc is TypeMatch.inexact and i + 1 < len(self.coercers):\n                            raise TypeError\n")]),
    ('b5-coercers-front', ['C03'], [(FF, "            self.coercers.append(self.get_coercer(coercion_token))\n", "            self.coercers.insert(len(self.coercers) if self.owner else len(self.coercers) - 1, self.get_coercer(coercion_token))\n")]),
    # C04
    ('b5-validators-snapshot', ['C04'], [(FF, "            self.validators.append(self.get_validator(validation_token))\n            return\n", "            if not self.coercers or self.type_checking_style is not TypeCheckStyle.hollow:\n                self.validators.append(self.get_validator(validation_token))\n            return\n")]),
    ('b5-validator-result-none', ['C04'], [(FF, "        for validator in self.validators:\n            arg = validator(arg)\n", "        for validator in self.validators:\n            validated = validator(arg)\n            arg = arg if validated is None else validated\n")]),
    ('b5-tuple-first-same', ['C04', 'C07'], [(TF, "                                (inner_filler.__call__(a) for a in v[hollow_passes + 1:])\n", "                                (a if a is element else inner_filler.__call__(a) for a in v[hollow_passes + 1:])\n")]),
    # C05
    ('b5-hollow-copies', ['C05'], [(FF, "        if self.type_checking_style is TypeCheckStyle.hollow and not self.validators:\n            return arg\n", "        if self.type_checking_style is TypeCheckStyle.hollow and not self.validators:\n            return tuple(arg) if type(arg) is list and self.origin is tuple else arg\n")]),
    ('b5-style-owner', ['C05'], [(FF, "            self.type_checking_style = owner_cls.default_type_check_style()\n", "            self.type_checking_style = owner_cls.__mro__[-3 if len(owner_cls.__mro__) > 3 else 0].default_type_check_style()\n")]),
    # C06
    ('b5-final-frozen-parent', ['C06'], [(F, "            if not owner.is_frozen():\n", "            if not any(getattr(b, '_frozen', False) for b in owner.__mro__):\n")]),
    ('b5-literal-types', ['C06'], [(SF, "        if origin not in {int, str, float, complex, set, tuple, dict, list, bool}:\n", "        if origin not in {int, str, float, complex, set, tuple, dict, list, bool, frozenset}:\n")]),
    ('b5-hollow-check-any', ['C06'], [(FF, "        if self.type_checking_style == TypeCheckStyle.hollow and self.coercers:\n", "        if self.type_checking_style == TypeCheckStyle.hollow and len(self.coercers) > len(self.args):\n")]),
    # C07
    ('b5-fixed-len-min', ['C07'], [(TF, "                    if len(v) != len(self.sub_fillers):\n", "                    if len(v) < len(self.sub_fillers) or len(v) > len(self.sub_fillers) > 0:\n")]),
    ('b5-map-dup-key', ['C07'], [(TF, "        return type(initial)(dict(tuples))\n", "        ret = {}\n        for k, v in tuples:\n            ret.setdefault(k, v)\n        return type(initial)(ret)\n")]),
    # C08
    ('b5-sort-inplace', ['C08'], [(TF, "        if isinstance(initial, deque):\n            return type(initial)(elements, initial.maxlen)\n        return type(initial)(elements)\n", "        if isinstance(initial, deque):\n            initial.extend(elements)\n            return initial\n        return type(initial)(elements)\n")]),
    ('b5-blacklist-mutates', ['C08'], [(R, "        if isinstance(blacklist_tags, Tag):\n            blacklist_tags = frozenset([blacklist_tags])\n", "        if isinstance(blacklist_tags, Tag):\n            blacklist_tags = frozenset([blacklist_tags])\n        elif isinstance(blacklist_tags, set):\n            blacklist_tags &= {t for f in cls._fields.values() for t in f.tags}\n")]),
    # C09
    ('b5-union-last-error', ['C09'], [(TF, "                if not best_results and i + 1 == len(self.sub_fillers):\n                    raise\n", "                if not best_results and i + 1 == len(self.sub_fillers) and not self.is_hollow():\n                    raise\n")]),
    ('b5-union-inexact-tie', ['C09'], [(TF, "            elif success.type_pass_kind == best_key:\n                best_results.append(success.value)\n", "            elif success.type_pass_kind == best_key and best_key != TypePassKind.no_coerce:\n                best_results.append(success.value)\n")]),
    # C10
    ('b5-frozen-dunder', ['C10'], [(R, "        if a in RecordBase.__slots__:\n", "        if a in RecordBase.__slots__ or a.startswith('__'):\n")]),
    ('b5-frozen-parent', ['C10'], [(R, "            cls.__setattr__ = object.__setattr__\n", "            if '__setattr__' not in cls.__dict__:\n                cls.__setattr__ = super(cls, cls).__setattr__\n")]),
    # C11
    ('b5-eq-first', ['C11'], [(R, "        if type(self) != type(other):\n            return False\n", "        if type(self) != type(other):\n            return False\n        if self is other:\n            return True\n        if not self._fields.keys() - self._required_keys and self._frozen and self._hash is not None and self._hash == other._hash:\n            return True\n")]),
    # C12
    ('b5-order-own', ['C12'], [(R, "            if exclude_from_ordering in f.tags:\n                continue\n            ret.append(getattr(self, k))\n", "            if exclude_from_ordering in f.tags or getattr(self, k) is None:\n                continue\n            ret.append(getattr(self, k))\n")]),
    ('b5-ordered-inherited', ['C12'], [(R, "        if not cls._ordered:\n", "        if not any(getattr(b, '_ordered', False) for b in cls.__mro__):\n")]),
    ('b5-ge-tie', ['C12'], [(R, "        return self.__ordering_key() >= other.__ordering_key()\n", "        return self == other or self.__ordering_key() > other.__ordering_key()\n")]),
    # C14
    ('b5-merge-order', ['C14'], [(S, "            keys_to_maybe_rename=tuple(chain(self.keys_to_maybe_rename, other.keys_to_maybe_rename)),\n        )\n", "            keys_to_maybe_rename=tuple({**dict(self.keys_to_maybe_rename), **dict(other.keys_to_maybe_rename)}.items()),\n        )\n")]),
    ('b5-bool-first', ['C14'], [(S, "        if not others and not kwargs:  # pragma: no cover\n            raise TypeError('merge must be called with arguments')\n        ret = self\n", "        if not others and not kwargs:  # pragma: no cover\n            raise TypeError('merge must be called with arguments')\n        ret = self if self or not others else others[-1]\n")]),
    ('b5-rename-same', ['C14'], [(S, "        for s, d in self.keys_to_rename:\n            if d in mapping:\n", "        for s, d in self.keys_to_rename:\n            if d in mapping and mapping[d] is not None:\n")]),
    # C15
    ('b5-shortcut-none', ['C15'], [(S, "            if ret is not NotImplemented:\n                return ret\n", "            if ret is not NotImplemented and ret is not None:\n                return ret\n")]),
    ('b5-exporter-get', ['C15'], [(S, "        if instance is None:\n            return self.BoundToClass", "        if not instance:\n            return self.BoundToClass")]),
    ('b5-noarg-swap', ['C15'], [(S, "        return super().run(cls, instance, (*export_args, *args), {**export_kwargs, **kwargs}, select, (), {})\n", "        return super().run(cls, instance, (*export_args, *args), {**kwargs, **export_kwargs}, select, (), {})\n")]),
    # C16
    ('b5-parse-same', ['C16'], [(R, "        elif len(successes) > 1:\n", "        elif len(successes) > 1 and any(s is not successes[0] for s in successes):\n")]),
    ('b5-parsers-own', ['C16'], [(R, "            if getattr(v, '__parser__', False):\n", "            if getattr(v, '__parser__', False) and (name in cls.__dict__ or not isinstance(v, staticmethod)):\n")]),
    # C20
    ('b5-bind-inherited', ['C20'], [(R, "            if field.owner is not cls:\n                continue\n", "            if field.owner is not cls and field.filler.owner is not None:\n                continue\n            if field.name not in own_annotations:\n                continue\n")]),
    ('b5-parent-order', ['C20'], [(R, "                parent_fields[k] = field\n", "                parent_fields = {k: field, **parent_fields} if parent is not cls.__bases__[0] else {**parent_fields, k: field}\n")]),
    # C21
    ('b5-factory-class', ['C21'], [(F, "        if isinstance(default, Factory):\n            return default.func, True\n", "        if isinstance(default, Factory):\n            return default.func, callable(default.func)\n")]),
    ('b5-default-eq', ['C21', 'C13'], [(F, "        return (not self.default_is_factory) and self.default == v\n", "        return (not self.default_is_factory) and (self.default is v or self.default == v) and type(v) is type(self.default)\n")]),
    # C22
    ('b5-deepcopy-default', ['C22'], [(R, "        d = self.__copy_values()\n        d = deepcopy(d, memo)\n", "        d = {k: deepcopy(v, memo) for k, v in self.__copy_values().items() if v is not None}\n")]),
    # C24
    ('b5-whole-close', ['C24'], [(SF, "            if isclose(mod, 0) or isclose(mod, 1):\n", "            if isclose(mod, 0, abs_tol=1e-9) or isclose(mod, 1):\n")]),
    ('b5-loose-none', ['C24'], [(SF, "        if self._type_constraint is not None and not isinstance(v, self._type_constraint):\n", "        if self._type_constraint and v is not None and not isinstance(v, self._type_constraint):\n")]),
    ('b5-unpackmap-get', ['C24'], [(SF, "                if tc is None or not isinstance(a, tc):\n", "                if tc is not None and not isinstance(a, tc):\n")]),
    ('b5-unpack-len', ['C24'], [(SF, "                if len(v) != len(self._type_constraints) \\\n", "                if len(v) > len(self._type_constraints) \\\n")]),
    ('b5-bool-truthy', ['C24'], [(SF, "        if v == 1:\n            return True\n        raise TypeError\n", "        if v == 1 or v == -1:\n            return True\n        raise TypeError\n")]),
    # C26
    ('b5-assert-warn-exc', ['C26'], [(V, "        if self.warn:\n            return UserWarning(self.err)\n", "        if self.warn is True:\n            return UserWarning(self.err)\n")]),
    ('b5-assert-falsy', ['C26'], [(V, "        if not self.assert_(v):\n            self._raise()\n        return v\n", "        if self.assert_(v) is False:\n            self._raise()\n        return v\n")]),
    ('b5-match-newline', ['C26'], [(BV, "        return bool(self.pattern.fullmatch(v))\n", "        m = self.pattern.match(v)\n        return bool(m) and m.end() >= len(v.rstrip())\n")]),
    # C27
    ('b5-warn-once', ['C27', 'C26'], [(V, "            if self.warn is True:\n                warnings.warn(exc)\n", "            if self.warn is True:\n                self.warn = 'warned'\n                warnings.warn(exc)\n            elif self.warn == 'warned':\n                pass\n")]),
    ('b5-filler-order', ['C27'], [(FF, "                    else:\n                        arg = coerced\n                        break\n", "                    else:\n                        arg = coerced\n                        self.coercers.insert(0, self.coercers.pop(i))\n                        break\n")]),
    # C29
    # C18
    ('b5-literal-fallback', ['C18'], [(SF, "                    v = literal_eval(v)\n                except Exception as e:\n                    raise TypeError from e\n", "                    v = literal_eval(v)\n                except SyntaxError as e:\n                    raise TypeError from e\n                except ValueError:\n                    v = origin(eval(v, {'__builtins__': {}}))\n")]),
    ('b5-json-object-hook', ['C19'], [(R, "        return extras.json.loads(v, **kwargs)\n", "        return extras.json.loads(v, **kwargs) if isinstance(v, (str, bytes)) else extras.json.load(v)\n")]),
]
SAME = []
