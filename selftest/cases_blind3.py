S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
D, TC = 'utils/decorators.py', 'utils/typing_compatible.py'
BUGS = [
    # C01/C17: kwargs handling
    ('b3-trivial-overwrite', ['C17'], [(R, "            if arg_key in kwargs:\n                raise TypeError(f'duplicate {arg_key}')\n            kwargs[arg_key] = arg\n", "            kwargs.setdefault(arg_key, arg)\n")]),
    ('b3-post-new-twice', ['C01'], [(R, "            replacement = self.post_new()\n            if replacement is not None:\n                self = replacement\n", "            replacement = self.post_new()\n            while replacement is not None and replacement is not self:\n                self = replacement\n                replacement = self.post_new()\n")]),
    ('b3-required-skips', ['C01'], [(R, "        if not (cls._required_keys <= kwargs.keys()):\n", "        if len(kwargs) < len(cls._required_keys):\n")]),
    ('b3-values-shared', ['C01'], [(R, "        self.__dict__.update(values)\n", "        for k, v in values.items():\n            self.__dict__.setdefault(k, v)\n        self.__dict__.update((k, f.default) for k, f in cls._fields.items() if f.has_default and values[k] == f.default)\n")]),
    # C03: reasons
    ('b3-coerce-when-inexact', ['C03', 'C02'], [(FF, "            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:\n", "            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check and not self.coercers:\n")]),
    ('b3-coerce-lastresult', ['C03'], [(FF, "                        if i == len(self.coercers) - 1:\n                            raise\n", "                        if len(self.coercers) == 1:\n                            raise\n")]),
    ('b3-coerce-tp', ['C02', 'C03'], [(FF, "                        tc = self.type_check(coerced)\n", "                        tc = TypeMatch.exact if type(coerced) is type(arg) else self.type_check(coerced)\n")]),
    # C04
    ('b3-validate-only-coerced', ['C04'], [(FF, "        for validator in self.validators:\n            arg = validator(arg)\n", "        if tpk is not TypePassKind.coerce or not self.coercers[0:1]:\n            for validator in self.validators:\n                arg = validator(arg)\n")]),
    ('b3-validator-error', ['C04'], [(FF, "        for validator in self.validators:\n            arg = validator(arg)\n", "        for validator in self.validators:\n            try:\n                arg = validator(arg)\n            except NotImplementedError:\n                pass\n")]),
    ('b3-call-shortcut', ['C04'], [(FF, "        if self.type_checking_style is TypeCheckStyle.hollow and not self.validators:\n", "        if self.type_checking_style is TypeCheckStyle.hollow and not self.args:\n")]),
    # C05
    ('b3-bind-style-order', ['C05'], [(FF, "        for arg in self.args:\n            self.apply(arg)\n        super().bind(owner_cls)\n        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = owner_cls.default_type_check_style()\n", "        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = owner_cls.default_type_check_style()\n        for arg in self.args:\n            self.apply(arg)\n        super().bind(owner_cls)\n        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = TypeCheckStyle.hollow\n")]),
    # C06
    ('b3-subfiller-none', ['C20'], [(FF, "        if key is None:\n            return self\n", "        if not key:\n            return self\n")]),
    ('b3-subfiller-neg', ['C20'], [(TF, "        if key == 0:\n            return self.element_filler\n        return super().sub_filler(key)\n", "        if isinstance(key, int):\n            return self.element_filler\n        return super().sub_filler(key)\n")]),
    ('b3-dumb-default', ['C06'], [(G, "        if owner_cls.default_type_check_style() is not TypeCheckStyle.hollow:\n", "        if owner_cls.default_type_check_style() is TypeCheckStyle.check_strict:\n")]),
    ('b3-args-lost', ['C06'], [(G, "            return get_annotated_filler(new_origin, (*new_args, *args))\n", "            return get_annotated_filler(new_origin, new_args or args)\n")]),
    # C07
    ('b3-tuple-rest', ['C07'], [(TF, "                                (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],\n                                                            self.sub_fillers[hollow_passes + 1:]))\n", "                                (if_(a) for (a, if_) in zip(v[hollow_passes + 1:], self.sub_fillers[hollow_passes:]))\n")]),
    ('b3-iter-rest', ['C07'], [(TF, "                            (self.element_filler(a) for a in post)\n", "                            (self.element_filler(a) for a in post if a is not element)\n")]),
    ('b3-split-iter', ['C07'], [(TF, "        i = iter(seq)\n        return islice(i, ignore_ind), islice(i, 1, None)\n", "        return islice(seq, ignore_ind), islice(seq, ignore_ind, None)\n")]),
    ('b3-defaultdict', ['C07'], [(TF, "        if isinstance(initial, defaultdict):\n            return type(initial)(initial.default_factory, tuples)\n", "        if isinstance(initial, defaultdict):\n            return type(initial)(type(initial.default_factory and initial.default_factory()), tuples)\n")]),
    ('b3-map-any', ['C07', 'C04'], [(TF, "        if not self.key_filler.is_inert() or not self.value_filler.is_inert():\n", "        if not self.value_filler.is_inert():\n")]),
    # C08
    ('b3-mutable-values', ['C08'], [(TF, "        return type(initial)(elements)\n", "        elements = list(elements)\n        if isinstance(initial, list):\n            initial[:] = elements\n            return initial\n        return type(initial)(elements)\n")]),
    ('b3-fromkw', ['C08'], [(R, "        d.update(ChainMap(*maps), **kwargs)\n        return d\n", "        for m in maps[1:]:\n            for k, v in m.items():\n                maps[0].setdefault(k, v)\n        d.update(*maps[:1], **kwargs)\n        return d\n")]),
    ('b3-select-inplace', ['C08'], [(S, "        mapping = dict(mapping)\n", "        if not isinstance(mapping, dict):\n            mapping = dict(mapping)\n")]),
    ('b3-whitelist-add', ['C08'], [(R, "        if isinstance(whitelist_keys, str):\n", "        if _rev_select and isinstance(whitelist_keys, set):\n            whitelist_keys.update(k for k, _ in _rev_select.keys_to_rename)\n        if isinstance(whitelist_keys, str):\n")]),
    # C09
    ('b3-union-kind-hollow', ['C09'], [(TF, "        return FillingSuccess(best_results[0], best_key)\n", "        return FillingSuccess(best_results[0], min(best_key, TypePassKind.coerce))\n")]),
    ('b3-union-none-result', ['C09'], [(TF, "                if not best_results and i + 1 == len(self.sub_fillers):\n", "                if not any(best_results) and i + 1 == len(self.sub_fillers):\n")]),
    ('b3-union-same-type', ['C09'], [(TF, "any(r is not best_results[0] for r in best_results[1:])", "any(type(r) is not type(best_results[0]) for r in best_results[1:])")]),
    ('b3-union-dedupe', ['C09'], [(TF, "        self.sub_fillers: Sequence[Filler] = tuple(get_filler(a) for a in self.sub_types)\n", "        self.sub_fillers: Sequence[Filler] = tuple({get_origin(a) or a: get_filler(a) for a in self.sub_types}.values())\n")]),
    # C10
    ('b3-hash-attr', ['C10'], [(R, "            cls.__delattr__ = RecordBase.__delattr__\n            cls.__hash__", "            cls.__hash__")]),
    ('b3-frozen-own', ['C10'], [(R, "        if frozen:\n            cls.__setattr__", "        if frozen and not any(b is not RecordBase and issubclass(b, RecordBase) for b in cls.__bases__):\n            cls.__setattr__")]),
    # C11
    ('b3-hash-repr', ['C11'], [(R, "            self._hash = hash(tuple(self.to_dict().values()))\n", "            self._hash = hash(repr(self))\n")]),
    ('b3-eq-stale', ['C11'], [(R, "        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:\n", "        if type(self).is_frozen() and None not in (self._hash, other._hash):\n            return self._hash == other._hash\n        if type(self).is_frozen() and False:\n")]),
    ('b3-eq-ordered', ['C11'], [(R, "        for name in self._fields:\n            if getattr(self, name)", "        for name in self._required_keys:\n            if getattr(self, name)")]),
    # C12
    ('b3-order-class', ['C12'], [(R, "        for k, f in type(self)._fields.items():\n            if exclude_from_ordering in f.tags:\n                continue\n            ret.append(getattr(self, k))\n", "        for k, f in type(self)._fields.items():\n            if exclude_from_ordering in f.tags:\n                break\n            ret.append(getattr(self, k))\n")]),
    ('b3-order-none', ['C12'], [(R, "            ret.append(getattr(self, k))\n", "            if getattr(self, k) is not None:\n                ret.append(getattr(self, k))\n")]),
    ('b3-order-str', ['C12'], [(R, "            ret.append(getattr(self, k))\n", "            ret.append((k, getattr(self, k)))\n")]),
    # C13
    ('b3-sort-callable', ['C13'], [(R, "                name_values = sorted(name_values, key=lambda t: sort(t[0]))\n", "                name_values = sorted(name_values, key=lambda t: sort(t[0]) or t[0])\n")]),
    ('b3-export-falsy', ['C13'], [(R, "                    if export_value(field, v):\n", "                    if v is not None and export_value(field, v):\n")]),
    ('b3-missing-any', ['C13'], [(R, "                    if field.name not in missing_ok:\n", "                    if field.name not in missing_ok and field.name not in whitelist_keys:\n")]),
    # C15
    ('b3-derive-shared', ['C15'], [(S, "            return type(self)(self.descriptor, self.owner, self.export_args, self.export_kwargs,\n                              self.select_.merge(*selects, **kwargs))\n", "            self.select_ = self.select_.merge(*selects, **kwargs)\n            return self\n")]),
    ('b3-noarg-kw', ['C15'], [(S, "(*export_args, *args), {**export_kwargs, **kwargs}, select, (), {})", "(*export_args, *args), {**kwargs, **export_kwargs}, select, (), {})")]),
    ('b3-select-twice', ['C15'], [(S, "        return cls(**mapping)\n\n    def __get__", "        return cls(**select(mapping))\n\n    def __get__")]),
    ('b3-shortcut-get', ['C15'], [(S, "        return type(self)(self.func, sc)\n", "        self._shortcut = sc\n        return self\n")]),
    # C16
    ('b3-parse-baseexc', ['C16'], [(R, "                r = m(v)\n            except Exception:\n                pass\n", "                r = m(v)\n            except (TypeError, ValueError, AttributeError, LookupError):\n                pass\n")]),
    # C18/C19
    ('b3-loads-cached', ['C19'], [(R, "T = TypeVar('T')\nFORBIDDEN", "_loads = extras.json.loads\nT = TypeVar('T')\nFORBIDDEN"), (R, "        return extras.json.loads(v, **kwargs)\n", "        return _loads(v, **kwargs)\n")]),
    ('b3-pickle-proto', ['C19'], [(R, "            return extras.pickle.dumps(self, *args, **kwargs)\n", "            return extras.pickle.dumps(self, *(args or (2,)), **kwargs)\n")]),
    ('b3-from-json-pickle', ['C18'], [(R, "        return extras.json.loads(v, **kwargs)\n", "        if isinstance(v, bytes) and v[:1] == b'\\x80':\n            return extras.pickle.loads(v)\n        return extras.json.loads(v, **kwargs)\n")]),
    # C20
    ('b3-hints-order', ['C20'], [(R, "            cls._fields = FieldDict({**parent_fields, **cls._fields})\n", "            cls._fields = FieldDict(sorted({**parent_fields, **cls._fields}.items()))\n")]),
    ('b3-subkey', ['C20', 'C03'], [(F, "        self._apply_to_filler(CallCoercion(func, **kwargs), sub_filler_key=sub_key)\n", "        self._apply_to_filler(CallCoercion(func, **kwargs), sub_filler_key=sub_key or None)\n")]),
    ('b3-override-same', ['C20'], [(R, "                if k in cls._fields or k in parent_fields:\n", "                if k in cls._fields or k in parent_fields and parent_fields[k] is not field:\n")]),
    # C21
    ('b3-default-eq', ['C21', 'C13'], [(F, "        return (not self.default_is_factory) and self.default == v\n", "        return self.default == v or self.default_is_factory and self.default() == v\n")]),
    ('b3-default-is', ['C21', 'C13'], [(F, "        return (not self.default_is_factory) and self.default == v\n", "        return (not self.default_is_factory) and self.default is v\n")]),
    # C22
    ('b3-deepcopy-nomemo', ['C22'], [(R, "        d = deepcopy(d, memo)\n", "        d = {k: deepcopy(v, memo.copy()) for k, v in d.items()}\n")]),
    ('b3-copy-base', ['C22'], [(R, "        return type(self).from_mapping(self.__copy_values())\n", "        return type(self)(**self.to_dict())\n")]),
    # C23
    ('b3-err-args', ['C23'], [(R, "                msg = f'error filling filling {k}'\n", "                msg = str(e) or f'error filling filling {k}'\n")]),
    # C24
    ('b3-whole-complex', ['C24'], [(SF, "            if v.imag == 0:\n                return self.func_args(origin, v.real)\n", "            if not v.imag > 0:\n                return self.func_args(origin, v.real)\n")]),
    ('b3-cm-late', ['C24'], [(C, "        func = getattr(cls, self.method)\n\n        def ret(v):\n            return func(v, *self.args, **self.kwargs)\n", "        func = getattr(cls, self.method)\n\n        def ret(v):\n            return func(v, *self.args) if self.args else func(v, **self.kwargs)\n")]),
    ('b3-compose-gen', ['C24', 'C27'], [(C, "        functors = [filler.get_coercer(t) for t in self.inner_coercers]\n        functors.reverse()\n", "        functors = reversed([filler.get_coercer(t) for t in self.inner_coercers])\n")]),
    ('b3-unpack-ellipsis', ['C24'], [(SF, "                if any(not isinstance(i, self._type_constraints[0]) for i in v):\n", "                if v and not isinstance(v[0], self._type_constraints[0]):\n")]),
    # C25
    ('b3-within-order', ['C25'], [(BV, "            if not (self.ge < v):\n                return False\n", "            if v <= self.ge:\n                return False\n")]),
    ('b3-cyclic', ['C25'], [(BV, "        if ge > lt or ((not g_eq or not l_eq) and ge == lt):\n", "        if ge > lt or (not g_eq and not l_eq and ge == lt):\n")]),
    # C26
    ('b3-warn-exc', ['C26'], [(V, "        if isinstance(self.err, Exception):\n            return self.err\n", "        if isinstance(self.err, Exception) and not self.warn:\n            return self.err\n")]),
    ('b3-inner-result', ['C26'], [(V, "        if not self.assert_(v):\n            self._raise()\n        return v\n", "        if not self.assert_(v):\n            return self._raise()\n        return v\n")]),
    # C27
    ('b3-tag-shared', ['C27'], [(F, "        self.tags: Set[Tag] = set()\n", "        self.tags: Set[Tag] = _NO_TAGS\n"), (F, "SKIP_FIELD = object()\n", "SKIP_FIELD = object()\n_NO_TAGS = set()\n")]),
    ('b3-eval-cache', ['C27'], [(SF, "                ret = eval(v, {'__builtins__': dict(ns)})\n", "                ret = eval(v, {'__builtins__': ns})\n")]),
    # C28
    ('b3-map-order', ['C28'], [(G, "        blt_supertype = next((k for (k, v) in builtin_filler_map.items() if issubclass(origin, k)), None)\n", "        blt_supertype = max((k for (k, v) in builtin_filler_map.items() if issubclass(origin, k)), key=lambda k: k.__name__, default=None)\n")]),
    ('b3-newtype-str', ['C28'], [(TF, "    if stored_type is Any:\n        return GetFiller(object)\n", "    if stored_type is Any or isinstance(stored_type, TypeVar):\n        return GetFiller(object)\n")]),
    # C29
    ('b3-mock-default', ['C29'], [(R, "        tags = frozenset()\n        has_default = False\n", "        tags = frozenset()\n        has_default = True\n\n        def is_default(self, v):\n            return v is None\n")]),
    ('b3-fi-rename-old', ['C29'], [(R, "            for old, new in _rev_select.keys_to_rename:\n                missing_ok.add(new)\n                extraction_dict[old]", "            for old, new in _rev_select.keys_to_rename:\n                missing_ok.add(old)\n                extraction_dict[old]")]),
]
SAME = []
