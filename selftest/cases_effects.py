R, S, FD = 'record.py', 'select.py', 'field.py'
FI = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
GF = 'fillers/get_filler.py'
CO = 'fillers/coercers.py'
VA = 'fillers/validators.py'
BV = 'fillers/builtin_validators.py'
UT = 'fillers/util.py'
REC = """        if isinstance(initial, str):
            # a string cannot be constructed from an iterable of its elements
            return type(initial)(''.join(elements))
"""
EXTR = """            missing_ok = set(missing_ok)
            extraction_dict = dict(extraction_dict)
"""
MAPR = """        if isinstance(initial, defaultdict):
            return type(initial)(initial.default_factory, tuples)
        return type(initial)(dict(tuples))
"""
PARSE = """            else:
                successes.append(r)
"""
COERCE = """                    else:
                        arg = coerced
                        break
"""
EXPW = """            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},
                              self.select_)
"""
BSEL = """            return type(self)(self.descriptor, self.owner_cls, self.select_.merge(*selects, **kwargs))
"""
LIT = """        if type(v) in self.possible_values:
            return TypeMatch.exact
        return isinstance(v, tuple(self.possible_values)) and TypeMatch.inexact
"""
LITV = """                if v not in self.possible_values.get(type(v), ()):
                    raise ValueError
                return v
"""
MAPC = """        if v in self.value_map:
            return self.value_map[v]
        if v in self.factory_map:
            return self.factory_map[v]()
        raise TypeError
"""
FROMI = """        d = cls._to_dict(v, _rev_select=_select)
        d.update(ChainMap(*maps), **kwargs)
        return d
"""
FACT = """            ret = cls(*args, **kwargs)
            ret._type_constraint = item
            return ret
"""
COMP = """        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()

        def ret(v):
            for f in functors:
                v = f(v)
            return v
"""
TOB = """            args = ((v.bit_length() + 7 + signed) // 8,)
        else:
            args = self.args
        return origin(v.to_bytes(*args, **self.kwargs))
"""
UNI = """                best_results = [success.value]
                best_key = success.type_pass_kind
"""
CYC = """        d = v - self.minimum
        d %= (self.maximum - self.minimum)
        return self.minimum + d
"""
COPYV = """        own = {k for k, f in type(self)._fields.items() if getattr(self, k, f.default) is not f.default}
        return self.to_dict(whitelist_keys=own)
"""
RUN = """        mapping = cls._to_dict(instance, *export_args, **export_kwargs)
        mapping = select(mapping)
"""
HASH = """        if self._hash is None:
            self._hash = hash(tuple(self.to_dict().values()))
        return self._hash
"""
PMAP = """        parent_fields = {}
        for parent in parents:
"""
INERT = """        if self.is_inert():
            return FillingSuccess(arg, TypePassKind.hollow)
        best_results = []
"""
BUGS = [
    # arguments
    ('e-reconstruct-inplace', ['C08'], [(TF, REC, REC + "        if isinstance(initial, list):\n            initial[:] = list(elements)\n            return initial\n")]),
    ('e-reconstruct-clear', ['C08'], [(TF, REC, REC + "        if isinstance(initial, set):\n            new = list(elements)\n            initial.clear()\n            initial.update(new)\n            return initial\n")]),
    ('e-map-inplace', ['C08'], [(TF, MAPR, "        initial.update(tuples)\n        return initial\n")]),
    ('e-map-alias', ['C08'], [(TF, MAPR, MAPR.replace("        if isinstance", "        ret = initial\n        if type(initial) is dict:\n            for k, v in tuples:\n                ret[k] = v\n            return ret\n        if isinstance", 1))]),
    ('e-select-inplace', ['C08'], [(S, "        mapping = dict(mapping)\n", "        if not isinstance(mapping, dict):\n            mapping = dict(mapping)\n")]),
    ('e-select-init-pop', ['C08'], [(S, "        if isinstance(keys_to_add, Mapping):\n", "        if isinstance(keys_to_add, dict) and None in keys_to_add:\n            keys_to_add.pop(None)\n        if isinstance(keys_to_add, Mapping):\n")]),
    ('e-from-instance-dict', ['C08'], [(R, FROMI, FROMI.replace("        d.update", "        if not _select and type(v) is cls:\n            d = v.__dict__\n        d.update"))]),
    ('e-from-mapping-first', ['C08'], [(R, "        return ChainMap(*maps, dict(**kwargs))", "        if len(maps) == 1 and isinstance(maps[0], dict):\n            for k in kwargs:\n                maps[0].setdefault(k, kwargs[k])\n            return maps[0]\n        return ChainMap(*maps, dict(**kwargs))")]),
    ('e-chainmap-write', ['C08'], [(R, "        return ChainMap(*maps, dict(**kwargs))", "        ret = ChainMap(*maps)\n        for k in kwargs:\n            if k not in ret:\n                ret[k] = kwargs[k]\n        return ret")]),
    ('e-loose-map-pop', ['C08'], [(SF, "        return origin(*self.args, **v, **self.kwargs)", "        for k in self.kwargs:\n            v.pop(k, None)\n        return origin(*self.args, **v, **self.kwargs)")]),
    ('e-clamp-inplace', ['C08'], [(BV, CYC, "        v -= self.minimum\n        v %= (self.maximum - self.minimum)\n        return self.minimum + v\n")]),
    ('e-helper-param', ['C08'], [(TF, MAPR, "        return _refill(initial, tuples)\n"), (TF, "class GenericMappingFiller", "def _refill(target, tuples):\n    for k, v in tuples:\n        target[k] = v\n    return target\n\n\nclass GenericMappingFiller")]),
    ('e-internal-dict', ['C08'], [(R, "        if isinstance(blacklist_tags, Tag):\n", "        if include_defaults and isinstance(obj, cls) and not sort and not blacklist_tags and not _rev_select:\n            return obj.__dict__\n        if isinstance(blacklist_tags, Tag):\n")]),
    ('e-tag-returns-self', ['C08'], [(R, "    @classmethod\n    def is_frozen(cls):", "    @classmethod\n    def fields(cls):\n        return cls._fields\n\n    def __dir__(self):\n        return type(self)._fields\n\n    @classmethod\n    def is_frozen(cls):")]),
    ('e-copy-values-alias', ['C08'], [(R, COPYV, "        return self.__dict__\n"), (R, "        d = self.__copy_values()\n        d = deepcopy(d, memo)\n", "        d = self.__copy_values()\n        for k in d:\n            d[k] = deepcopy(d[k], memo)\n")]),
    ('e-sort-arg', ['C08'], [(R, "        if isinstance(whitelist_keys, str):\n", "        if isinstance(whitelist_keys, list):\n            whitelist_keys.sort()\n        if isinstance(whitelist_keys, str):\n")]),
    ('e-mapc-default', ['C08', 'C27'], [(CO, MAPC, "        try:\n            return self.value_map[v]\n        except KeyError:\n            pass\n        if v in self.factory_map:\n            return self.factory_map[v]()\n        raise TypeError\n")]),
    ('e-mapc-merge', ['C08'], [(CO, "        self.value_map = value_map or {}\n", "        self.value_map = value_map or {}\n        for k in factory_map or ():\n            value_map.pop(k, None)\n")]),
    ('e-obj-setattr', ['C08'], [(R, "                except AttributeError:\n                    if field.name not in missing_ok:", "                except AttributeError:\n                    if field.has_default and include_defaults:\n                        setattr(obj, field.name, field.make_default())\n                    if field.name not in missing_ok:")]),
    ('e-post-filled', ['C08'], [(TF, """                    return self.reconstruct(tuples, value)
""", """                    for k, filled in tuples:
                        if k in value:
                            value[k] = filled
                    return self.reconstruct(tuples, value)
""")]),
    ('e-next-arg', ['C08'], [(SF, "            v = tuple(v)\n            if len(self._type_constraints) == 2", "            first = next(v, None)\n            v = (first, *v)\n            if len(self._type_constraints) == 2")]),
    # lasting state
    ('e-todict-class', ['C27'], [(R, EXTR, "            missing_ok = set(missing_ok)\n")]),
    ('e-todict-missing', ['C27'], [(R, EXTR, "            extraction_dict = dict(extraction_dict)\n")]),
    ('e-todict-copy-alias', ['C27'], [(R, EXTR, "            missing_ok |= set()\n            extraction_dict = dict(extraction_dict)\n")]),
    ('e-parse-front', ['C27'], [(R, PARSE, "            else:\n                cls._parsers.remove(m)\n                cls._parsers.insert(0, m)\n                successes.append(r)\n")]),
    ('e-coercer-front', ['C27'], [(FI, COERCE, "                    else:\n                        arg = coerced\n                        if i:\n                            self.coercers.insert(0, self.coercers.pop(i))\n                        break\n")]),
    ('e-coercer-swap', ['C27'], [(FI, COERCE, "                    else:\n                        arg = coerced\n                        cs = self.coercers\n                        cs[0], cs[i] = cs[i], cs[0]\n                        break\n")]),
    ('e-export-kwargs', ['C27'], [(S, EXPW, "            self.export_kwargs.update(kwargs)\n            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), self.export_kwargs,\n                              self.select_)\n")]),
    ('e-export-setdefault', ['C27'], [(S, EXPW, "            merged = self.export_kwargs\n            for k in kwargs:\n                merged[k] = kwargs[k]\n            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), merged, self.select_)\n")]),
    ('e-bound-self', ['C27'], [(S, BSEL, "            self.select_ = self.select_.merge(*selects, **kwargs)\n            return self\n")]),
    ('e-shortcut-self', ['C27'], [(S, "        return type(self)(self.func, sc)", "        self._shortcut = sc\n        return self")]),
    ('e-exporter-owner', ['C27'], [(S, "        if instance is None:\n            return self.BoundToClass", "        self.owner = owner\n        if instance is None:\n            return self.BoundToClass")]),
    ('e-noarg-update', ['C27'], [(S, "        return super().run(cls, instance, (*export_args, *args), {**export_kwargs, **kwargs}, select, (), {})", "        export_kwargs.update(kwargs)\n        return super().run(cls, instance, (*export_args, *args), export_kwargs, select, (), {})")]),
    ('e-literal-defaultdict', ['C27'], [(TF, LITV, "                if v not in self.possible_values[type(v)]:\n                    raise ValueError\n                return v\n")]),
    ('e-literal-check', ['C27'], [(TF, LIT, LIT.replace("if type(v) in self.possible_values", "if self.possible_values[type(v)]"))]),
    ('e-fill-cache', ['C27'], [(FI, "        self.validators: List[Callable[[T], T]] = []\n", "        self.validators: List[Callable[[T], T]] = []\n        self._seen = {}\n"), (FI, "        tc = self.fill(arg)\n        return tc.value", "        tc = self.fill(arg)\n        self._last = tc\n        return tc.value")]),
    ('e-union-memo', ['C27'], [(TF, UNI, UNI + "                self._last = i\n")]),
    ('e-type-cache', ['C27'], [(TF, LIT, "        key = type(v)\n        if key not in self._checked:\n            self._checked[key] = key in self.possible_values\n        if self._checked[key]:\n            return TypeMatch.exact\n        return isinstance(v, tuple(self.possible_values)) and TypeMatch.inexact\n"), (TF, "        self.possible_values = defaultdict(set)\n", "        self._checked = {}\n        self.possible_values = defaultdict(set)\n")]),
    ('e-default-memo', ['C27'], [(FD, "        if self.default_is_factory:\n            return self.default()\n", "        if self.default_is_factory:\n            self.default = self.default()\n            self.default_is_factory = False\n")]),
    ('e-default-cache', ['C27'], [(FD, "        if self.default_is_factory:\n            return self.default()\n", "        if self.default_is_factory:\n            if not hasattr(self, '_made'):\n                self._made = self.default()\n            return self._made\n")]),
    ('e-tobytes-kwargs', ['C27'], [(SF, TOB, "            self.kwargs['length'] = (v.bit_length() + 7 + signed) // 8\n        return origin(v.to_bytes(*self.args, **self.kwargs))\n")]),
    ('e-tobytes-pop', ['C27'], [(SF, "            signed = self.kwargs.get('signed', False)\n", "            signed = self.kwargs.pop('signed', False)\n")]),
    ('e-loose-class', ['C27'], [(SF, FACT, "            cls._type_constraint = item\n            return cls(*args, **kwargs)\n")]),
    ('e-compose-token', ['C27'], [(CO, COMP, COMP.replace("        functors = [filler.get_coercer(t) for t in self.inner_coercers]\n        functors.reverse()\n", "        self.inner_coercers.reverse()\n        functors = [filler.get_coercer(t) for t in self.inner_coercers]\n"))]),
    ('e-compose-alias', ['C27'], [(CO, COMP, COMP.replace("        functors = [filler.get_coercer(t) for t in self.inner_coercers]\n        functors.reverse()\n", "        tokens = self.inner_coercers\n        tokens.reverse()\n        functors = [filler.get_coercer(t) for t in tokens]\n"))]),
    ('e-compose-lazy', ['C27'], [(CO, COMP, COMP.replace("        functors = [filler.get_coercer(t) for t in self.inner_coercers]\n        functors.reverse()\n", "        functors = reversed([filler.get_coercer(t) for t in self.inner_coercers])\n"))]),
    ('e-compose-gen', ['C27'], [(CO, COMP, COMP.replace("        functors = [filler.get_coercer(t) for t in self.inner_coercers]\n        functors.reverse()\n", "        functors = (filler.get_coercer(t) for t in reversed(self.inner_coercers))\n"))]),
    ('e-compose-pop', ['C27'], [(CO, COMP, COMP.replace("            for f in functors:\n                v = f(v)\n            return v\n", "            while functors:\n                v = functors.pop(0)(v)\n            return v\n"))]),
    ('e-closure-count', ['C27'], [(CO, COMP, COMP.replace("        def ret(v):\n", "        calls = 0\n\n        def ret(v):\n            nonlocal calls\n            calls += 1\n"))]),
    ('e-eval-ns', ['C27'], [(SF, "'__builtins__': dict(ns)", "'__builtins__': ns")]),
    ('e-eval-globals', ['C27'], [(SF, "        ns = self.kwargs\n", "        ns = self.kwargs\n        glob = {'__builtins__': ns}\n"), (SF, "eval(v, {'__builtins__': dict(ns)})", "eval(v, glob)")]),
    ('e-eval-bind', ['C27'], [(SF, "            ns = {**self.kwargs, origin.__name__: origin}\n", "            ns[origin.__name__] = origin\n")]),
    ('e-lru', ['C27'], [(GF, "def get_filler(", "@lru_cache(maxsize=None)\ndef get_filler("), (GF, "from records.fillers.builtin_fillers.recurse", "from functools import lru_cache\n\nfrom records.fillers.builtin_fillers.recurse")]),
    ('e-lru-method', ['C27'], [(SF, "    @staticmethod\n    def _bool_from_int(v):", "    @staticmethod\n    @functools.lru_cache()\n    def _bool_from_int(v):"), (SF, "from abc import", "import functools\nfrom abc import")]),
    ('e-registry', ['C27'], [(GF, "            return builtin_filler_map[blt_supertype](origin, args)", "            builtin_filler_map[origin] = builtin_filler_map[blt_supertype]\n            return builtin_filler_map[origin](origin, args)")]),
    ('e-global-cache', ['C27'], [(GF, "def get_filler(stored_type) -> Filler:", "_fillers = {}\n\n\ndef get_filler(stored_type) -> Filler:"), (GF, "    origin, args = split_annotation(stored_type)\n    return get_annotated_filler(origin, args)\n", "    origin, args = split_annotation(stored_type)\n    if args:\n        return get_annotated_filler(origin, args)\n    if id(origin) not in _fillers:\n        _fillers[id(origin)] = get_annotated_filler(origin, args)\n    return _fillers[id(origin)]\n")]),
    ('e-default-arg', ['C27'], [(R, "    def parse(cls, v):", "    def parse(cls, v, successes=[]):"), (R, "        successes = []\n        for m in cls._parsers", "        for m in cls._parsers")]),
    ('e-assert-count', ['C27'], [(VA, "        if not self.assert_(v):\n            self._raise()", "        if not self.assert_(v):\n            self.failures = getattr(self, 'failures', 0) + 1\n            self._raise()")]),
    ('e-assert-once', ['C27'], [(VA, "            if self.warn is True:\n                warnings.warn(exc)\n", "            if self.warn is True:\n                warnings.warn(exc)\n                self.warn = None\n")]),
    ('e-assert-err', ['C27'], [(VA, "        return ValueError(self.err)\n", "        self.err = ValueError(self.err)\n        return self.err\n")]),
    ('e-parent-fields', ['C27'], [(R, PMAP, "        parent_fields = parents[0]._fields if parents else {}\n        for parent in parents[1:]:\n")]),
    ('e-parent-update', ['C27'], [(R, "            cls._fields = FieldDict({**parent_fields, **cls._fields})\n", "            own = cls._fields\n            cls._fields = parents[0]._fields\n            cls._fields.update({**parent_fields, **own})\n")]),
    ('e-bind-owner', ['C27'], [(FI, "            self.type_checking_style = owner_cls.default_type_check_style()\n", "            self.type_checking_style = owner_cls.default_type_check_style()\n            owner_cls._default_type_check_style = self.type_checking_style\n")]),
    ('e-token-origin', ['C27'], [(FI, "        if callable(token):\n            return token(self.origin, self)\n        raise TypeError(token)  # pragma: no cover\n\n    def get_validator", "        token.origin = self.origin\n        if callable(token):\n            return token(self.origin, self)\n        raise TypeError(token)  # pragma: no cover\n\n    def get_validator")]),
    ('e-origin-token', ['C27'], [(SF, "        return partial(self.func_args, origin)", "        self._origin = origin\n        return lambda v: self.func_args(self._origin, v)")]),
    ('e-subfillers-lazy', ['C27'], [(TF, "        self.sub_fillers: Sequence[Filler] = tuple(get_filler(a) for a in self.sub_types)", "        self.sub_fillers: Sequence[Filler] = [get_filler(a) for a in self.sub_types]\n        self._order = iter(self.sub_fillers)"), (TF, "        for i, sub_filler in enumerate(self.sub_fillers):\n", "        for i, sub_filler in enumerate(self._order):\n")]),
    ('e-select-lazy', ['C27'], [(S, "        self.keys_to_remove = tuple(keys_to_remove)\n", "        self.keys_to_remove = keys_to_remove\n")]),
    ('e-select-map', ['C27'], [(S, "        self.keys_to_rename = tuple(keys_to_rename)\n", "        self.keys_to_rename = map(tuple, keys_to_rename)\n")]),
    ('e-eq-memo', ['C08'], [(R, "        for name in self._fields:\n            if getattr(self, name) != getattr(other, name):", "        if type(self).is_frozen():\n            other._hash = self._hash\n        for name in self._fields:\n            if getattr(self, name) != getattr(other, name):")]),
    ('e-hash-more', ['C08'], [(R, HASH, HASH.replace("        return self._hash", "        self.__dict__['_cached'] = self._hash\n        return self._hash"))]),
    ('e-random', ['C27'], [(R, "        successes = []\n        for m in cls._parsers:", "        successes = []\n        for m in random.sample(cls._parsers, len(cls._parsers)):"), (R, "from copy import deepcopy", "import random\nfrom copy import deepcopy")]),
    ('e-hollow-flip', ['C27'], [(TF, INERT, INERT.replace("        if self.is_inert():\n", "        if self.is_inert():\n            self.sub_fillers = ()\n"))]),
    ('e-optional-pop', ['C27'], [(R, "        for k in cls._optional_keys.difference(kwargs):\n            values[k]", "        missing = cls._optional_keys\n        missing -= kwargs.keys()\n        for k in missing:\n            values[k]")]),
    ('e-required-discard', ['C27'], [(R, "            required = cls._required_keys.difference(kwargs)\n", "            required = cls._required_keys\n            required.difference_update(kwargs)\n")]),
]
SAME = [
    ('e-copy-update', [(S, "        mapping = dict(mapping)\n", "        result = {}\n        result.update(mapping)\n        mapping = result\n")]),
    ('e-copy-deep-helper', [(S, "        mapping = dict(mapping)\n", "        mapping = self._copied(mapping)\n"), (S, "    def __bool__(self):", "    @staticmethod\n    def _copied(m):\n        return {k: m[k] for k in m}\n\n    def __bool__(self):")]),
    ('e-steps-helpers', [(S, "        for kti in self.keys_to_remove:\n            mapping.pop(kti)\n", "        self.drop_keys(mapping)\n"), (S, "    def __bool__(self):", "    def drop_keys(self, target):\n        for k in self.keys_to_remove:\n            target.pop(k)\n\n    def __bool__(self):")]),
    ('e-bool-any', [(S, """            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
""", """            self._bool = any((self.keys_to_add, self.keys_to_maybe_add, self.keys_to_remove, self.keys_to_maybe_remove,
                              self.keys_to_rename, self.keys_to_maybe_rename))
""")]),
    ('e-bool-helper', [(S, "    def __bool__(self):\n        if self._bool is None:\n            self._bool = next(chain(", "    def __bool__(self):\n        if self._bool is None:\n            self._remember()\n        return self._bool\n\n    def _remember(self):\n        if True:\n            self._bool = next(chain(")]),
    ('e-export-merge', [(S, EXPW, "            merged = dict(self.export_kwargs)\n            merged.update(kwargs)\n            return type(self)(self.descriptor, self.owner, self.export_args + args, merged, self.select_)\n")]),
    ('e-noarg-merge', [(S, "        return super().run(cls, instance, (*export_args, *args), {**export_kwargs, **kwargs}, select, (), {})", "        options = dict(export_kwargs)\n        for k, v in kwargs.items():\n            options[k] = v\n        return super().run(cls, instance, tuple(export_args) + tuple(args), options, select, (), {})")]),
    ('e-parse-comp', [(R, "        successes = []\n        for m in cls._parsers:", "        successes = list()\n        parsers = list(cls._parsers)\n        for m in parsers:")]),
    ('e-todict-helper', [(R, EXTR, "            missing_ok, extraction_dict = set(missing_ok), cls._fields.copy()\n")]),
    ('e-todict-extracted', [(R, "            for key, _ in _rev_select.keys_to_add:\n                extraction_dict.pop(key, _)\n", "            cls._without_added(extraction_dict, _rev_select)\n"), (R, "    @classmethod\n    def is_frozen(cls):", "    @staticmethod\n    def _without_added(fields, sel):\n        for key, _ in sel.keys_to_add:\n            fields.pop(key, None)\n\n    @classmethod\n    def is_frozen(cls):")]),
    ('e-new-defaults', [(R, "        for k in cls._optional_keys.difference(kwargs):\n            values[k]", "        missing = set(cls._optional_keys)\n        missing -= kwargs.keys()\n        for k in missing:\n            values[k]")]),
    ('e-new-kwargs', [(R, "        values = {}\n        if not (kwargs.keys()", "        kwargs = dict(kwargs)\n        values = {}\n        if not (kwargs.keys()")]),
    ('e-from-instance-loop', [(R, FROMI, "        d = cls._to_dict(v, _rev_select=_select)\n        merged = ChainMap(*maps)\n        for k in merged:\n            d[k] = merged[k]\n        for k, x in kwargs.items():\n            d[k] = x\n        return d\n")]),
    ('e-chainmap-order', [(R, "        return ChainMap(*maps, dict(**kwargs))", "        layers = list(maps)\n        layers.append(dict(kwargs))\n        return ChainMap(*layers)")]),
    ('e-compose-insert', [(CO, COMP, "        functors = []\n        for t in self.inner_coercers:\n            functors.insert(0, filler.get_coercer(t))\n\n        def ret(v):\n            for f in functors:\n                v = f(v)\n            return v\n")]),
    ('e-compose-tuple', [(CO, COMP, COMP.replace("        functors = [filler.get_coercer(t) for t in self.inner_coercers]\n        functors.reverse()\n", "        functors = tuple(reversed([filler.get_coercer(t) for t in self.inner_coercers]))\n"))]),
    ('e-union-index', [(TF, UNI, "                best_results.clear()\n                best_results.append(success.value)\n                best_key = success.type_pass_kind\n")]),
    ('e-tuple-list', [(TF, """                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                            )
""", """                            all_elements = list(v[:hollow_passes])
                            all_elements.append(filled)
                            all_elements.extend(inner_filler.__call__(a) for a in v[hollow_passes + 1:])
""")]),
    ('e-map-loop', [(TF, """                tuples = [
                    (self.key_filler(k), self.value_filler(v))
                    for k, v in value.items()
                ]
""", """                tuples = []
                for k, v in value.items():
                    tuples.append((self.key_filler(k), self.value_filler(v)))
""")]),
    ('e-cyclic-expr', [(BV, CYC, "        d = (v - self.minimum) % (self.maximum - self.minimum)\n        return self.minimum + d\n")]),
    ('e-tobytes-local', [(SF, TOB, "            args = [(v.bit_length() + 7 + signed) // 8]\n        else:\n            args = list(self.args)\n        kwargs = dict(self.kwargs)\n        return origin(v.to_bytes(*args, **kwargs))\n")]),
    ('e-eval-merge', [(SF, "        ns = self.kwargs\n        if self.add_bound:\n            ns = {**self.kwargs, origin.__name__: origin}\n", "        ns = dict(self.kwargs)\n        if self.add_bound:\n            ns[origin.__name__] = origin\n")]),
    ('e-eval-init', [(SF, "        self.kwargs = kwargs\n        self.kwargs.update(\n            (k.__name__, k) for k in args\n        )\n", "        for k in args:\n            kwargs[k.__name__] = k\n        self.kwargs = kwargs\n")]),
    ('e-coercer-args', [(FI, "        for validator in self.validators:\n            arg = validator(arg)\n\n        return FillingSuccess(arg, tpk)", "        result = arg\n        for validator in self.validators:\n            result = validator(result)\n\n        return FillingSuccess(result, tpk)")]),
    ('e-literal-get', [(TF, LITV, "                allowed = self.possible_values.get(type(v))\n                if allowed is None or v not in allowed:\n                    raise ValueError\n                return v\n")]),
    ('e-literal-in', [(TF, LITV, "                if type(v) not in self.possible_values or v not in self.possible_values[type(v)]:\n                    raise ValueError\n                return v\n")]),
    ('e-mapc-guard', [(CO, MAPC, "        if v in self.value_map:\n            return self.value_map[v]\n        if v not in self.factory_map:\n            raise TypeError\n        return self.factory_map[v]()\n")]),
    ('e-mapc-loop', [(CO, MAPC, "        for m, call in ((self.value_map, False), (self.factory_map, True)):\n            if v in m:\n                found = m[v]\n                return found() if call else found\n        raise TypeError\n")]),
    ('e-ordering-comp', [(R, "            ret.append(getattr(self, k))\n        return ret\n", "            value = getattr(self, k)\n            ret += [value]\n        return ret\n")]),
    ('e-repr-join', [(R, """        params_parts = []
        for name, value in self.to_dict(**kwargs).items():
            params_parts.append(f'{name}={value!r}')

        return type(self).__qualname__ + "(" + ", ".join(params_parts) + ")"
""", """        out = type(self).__qualname__ + "("
        sep = ""
        for name, value in self.to_dict(**kwargs).items():
            out += sep + f'{name}={value!r}'
            sep = ", "
        return out + ")"
""")]),
    ('e-cls-fields-local', [(R, "            cls._fields[name] = field\n            setattr(cls, name, field)", "            fields = cls._fields\n            fields[name] = field\n            setattr(cls, name, field)")]),
    ('e-parsers-local', [(R, """        cls._parsers = []
        for name in dir(cls):
            v = getattr_static(cls, name)
            if getattr(v, '__parser__', False):
                cls._parsers.append(getattr(cls, name))
""", """        parsers = []
        for name in dir(cls):
            v = getattr_static(cls, name)
            if getattr(v, '__parser__', False):
                parsers.append(getattr(cls, name))
        cls._parsers = parsers
""")]),
    ('e-self-dict-loop', [(R, "        self.__dict__.update(values)\n", "        storage = self.__dict__\n        for k, v in values.items():\n            storage[k] = v\n")]),
    ('e-bind-validators', [(TF, """            @self.inner_filler.validators.append
            def inner_validator(v):
                if not issubclass(v, self.base_type):
                    raise ValueError(f'must be a subclass of {self.base_type}')
                return v
""", """            def inner_validator(v):
                if not issubclass(v, self.base_type):
                    raise ValueError(f'must be a subclass of {self.base_type}')
                return v

            self.inner_filler.validators.append(inner_validator)
""")]),
    ('e-fill-helper', [(TF, INERT, INERT), (TF, """            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
                best_results.append(success.value)
""", """            best_key = self._keep(best_results, best_key, success)
"""), (TF, "    def bind(self, owner_cls):\n        super().bind(owner_cls)\n        for sf in", """    @staticmethod
    def _keep(best_results, best_key, success):
        if success.type_pass_kind < best_key:
            best_results[:] = [success.value]
            return success.type_pass_kind
        if success.type_pass_kind == best_key:
            best_results.append(success.value)
        return best_key

    def bind(self, owner_cls):
        super().bind(owner_cls)
        for sf in""")]),
]

MAPIN = open('/repo/records/fillers/coercers.py').read()
MAPIN = MAPIN[MAPIN.index("        if v in self.factory_map:"):MAPIN.index("        raise TypeError", MAPIN.index("        if v in self.factory_map:"))]
SAME += [
    ('e-s-mapc-cond', [(CO, MAPIN, "        known = v in self.factory_map\n        if known:\n            return self.factory_map[v]()\n")]),
    ('e-s-mapc-alias', [(CO, MAPIN, "        made = self.factory_map\n        if v in made:\n            return self.factory_map[v]()\n")]),
    ('e-s-mapc-helper', [(CO, MAPIN, "        if self._known(v):\n            return self.factory_map[v]()\n"),
                         (CO, "    def inner(self, v):\n        if v in self.value_map", "    def _known(self, v):\n        return v in self.factory_map\n\n    def inner(self, v):\n        if v in self.value_map")]),
]
