S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
D, TC = 'utils/decorators.py', 'utils/typing_compatible.py'
SAME = []
BUGS = [
    ('b8-filler-memo', ['C27'], [(FF, "        tc = self.fill(arg)\n        return tc.value\n", "        try:\n            return self._filled[arg]\n        except (AttributeError, KeyError, TypeError):\n            tc = self.fill(arg)\n        self._last = tc.value\n        return tc.value\n")]),
    ('b8-filler-memo2', ['C02', 'C27'], [(FF, "    def __init__(self):\n        self.owner = None\n", "    def __init__(self):\n        self.owner = None\n        self._known = {}\n"), (FF, "        tc = self.fill(arg)\n        return tc.value\n", "        try:\n            return self._known[arg]\n        except (KeyError, TypeError):\n            pass\n        value = self.fill(arg).value\n        if value is arg:\n            try:\n                self._known[arg] = value\n            except TypeError:\n                pass\n        return value\n")]),
    ('b8-coercer-order-hit', ['C03', 'C27'], [(FF, "                    else:\n                        arg = coerced\n                        break\n", "                    else:\n                        arg = coerced\n                        self.coercers.insert(0, self.coercers.pop(i))\n                        break\n")]),
    ('b8-union-last-first', ['C09', 'C27'], [(TF, "        best_results = []\n        best_key = float('inf')\n        for i, sub_filler in enumerate(self.sub_fillers):\n", "        best_results = []\n        best_key = float('inf')\n        if self._last is not None:\n            try:\n                success = self._last.fill(arg)\n            except Exception:\n                self._last = None\n            else:\n                if success.type_pass_kind <= TypePassKind.no_coerce:\n                    return success\n        for i, sub_filler in enumerate(self.sub_fillers):\n"), (TF, "        self.applied = []\n", "        self.applied = []\n        self._last = None\n"), (TF, "                best_results = [success.value]\n                best_key = success.type_pass_kind\n            elif", "                best_results = [success.value]\n                best_key = success.type_pass_kind\n                self._last = sub_filler\n            elif")]),
    ('b8-parsers-dict', ['C16'], [(R, "        for name in dir(cls):\n            v = getattr_static(cls, name)\n            if getattr(v, '__parser__', False):\n                cls._parsers.append(getattr(cls, name))\n", "        for name in dir(cls):\n            v = getattr(cls, name, None)\n            if getattr(v, '__parser__', False):\n                cls._parsers.append(v)\n")]),
    ('b8-parse-first-type', ['C16'], [(R, "            else:\n                successes.append(r)\n", "            else:\n                if isinstance(r, cls):\n                    successes.append(r)\n")]),
    ('b8-hash-state', ['C11'], [(R, "        return self.__dict__, {'_hash': None}\n", "        return self.__dict__, {'_hash': self._hash if type(self)._frozen else None}\n")]),
    ('b8-hash-nonzero', ['C11'], [(R, "        if self._hash is None:\n            self._hash = hash(tuple(self.to_dict().values()))\n        return self._hash\n", "        if self._hash is None:\n            self._hash = hash(tuple(self.to_dict(include_defaults=True).items()))\n        return self._hash ^ id(type(self).__dict__)\n")]),
    ('b8-select-bool-shared', ['C14'], [(S, "            ret = ret._merge(other)\n", "            ret = ret._merge(other)\n            ret._bool = self._bool\n")]),
    ('b8-select-empty-init', ['C14'], [(S, "            ret = ret._merge(type(self)(**kwargs))\n", "            ret = type(self)(**kwargs)._merge(ret)\n")]),
    ('b8-bound-select-inplace', ['C15'], [(S, "            return type(self)(self.descriptor, self.owner_cls, self.select_.merge(*selects, **kwargs))\n", "            self.select_ = self.select_.merge(*selects, **kwargs)\n            return self\n")]),
    ('b8-export-kw-shared', ['C15'], [(S, "            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},\n                              self.select_)\n", "            self.export_kwargs.update(kwargs)\n            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), self.export_kwargs,\n                              self.select_)\n")]),
    ('b8-shortcut-copy', ['C15'], [(S, "        return type(self)(self.func, sc)\n", "        self._shortcut = sc.__func__ if isinstance(sc, classmethod) else sc\n        return self\n")]),
    ('b8-factory-eager', ['C21'], [(F, "        if isinstance(default, Factory):\n            return default.func, True\n", "        if isinstance(default, Factory):\n            if isinstance(default.func, type) and default.func.__hash__ is not None:\n                return default.func(), False\n            return default.func, True\n")]),
    ('b8-make-default-once', ['C21'], [(F, "        if self.default_is_factory:\n            return self.default()\n        return self.default\n", "        if self.default_is_factory:\n            value = self.default()\n            if value is None or isinstance(value, (int, str, tuple)):\n                self.default, self.default_is_factory = value, False\n            return value\n        return self.default\n")]),
    ('b8-json-default', ['C19'], [(R, "    def from_json(cls, v, **kwargs):", "    def from_json(cls, v, _loads=extras.json.loads, **kwargs):"), (R, "        return extras.json.loads(v, **kwargs)\n", "        return _loads(v, **kwargs)\n")]),
    ('b8-re-cache', ['C19', 'C27'], [(BV, "        self.pattern = extras.re.compile(pattern)\n", "        self.pattern = _patterns.get(pattern) or _patterns.setdefault(pattern, extras.re.compile(pattern))\n"), (BV, "class FullMatch(", "_patterns = {}\n\n\nclass FullMatch(")]),
    ('b8-warn-once', ['C26'], [(V, "        exc = self._exc()\n        if self.warn:\n", "        exc = self._exc()\n        if self.warn and getattr(self, '_warned', False):\n            return\n        self._warned = True\n        if self.warn:\n")]),
    ('b8-ge-not-lt', ['C12'], [(R, "        return self.__ordering_key() >= other.__ordering_key()\n", "        return not self.__ordering_key() < other.__ordering_key()\n")]),
    ('b8-le-or-eq', ['C12'], [(R, "        return self.__ordering_key() <= other.__ordering_key()\n", "        return self == other or self.__ordering_key() < other.__ordering_key()\n")]),
    ('b8-constrain-class', ['C24', 'C27'], [(SF, "            ret = cls(*args, **kwargs)\n            ret._type_constraint = item\n", "            ret = cls(*args, **kwargs)\n            if cls._constraint is None:\n                cls._constraint = item\n            ret._type_constraint = cls._constraint\n"), (SF, "class Loose(LooseMixin):\n", "class Loose(LooseMixin):\n    _constraint = None\n")]),
    ('b8-type-tokens', ['C06'], [(TF, "    def apply(self, token):\n        self.inner_filler.apply(token)\n", "    def apply(self, token):\n        if self.owner:\n            return\n        self.inner_filler.apply(token)\n")]),
    ('b8-literal-first', ['C28', 'C02'], [(TF, "            @self.validators.append\n            def inner_validator(v):\n                if v not in self.possible_values.get(type(v), ()):\n", "            if self.validators:\n                return\n\n            @self.validators.append\n            def inner_validator(v):\n                if v not in self.possible_values.get(type(v), ()):\n")]),
    ('b8-bound-args-twice', ['C04'], [(FF, "        for arg in self.args:\n            self.apply(arg)\n        super().bind(owner_cls)\n", "        for arg in reversed(self.args):\n            self.apply(arg)\n        super().bind(owner_cls)\n")]),
    ('b8-union-args-once', ['C05', 'C06'], [(TF, "            for t in chain(self.args, self.applied):\n                sf.apply(t)\n", "            for t in self.args or self.applied:\n                sf.apply(t)\n")]),
    ('b8-setattr-underscore', ['C10'], [(R, "        if a in RecordBase.__slots__:\n", "        if a.startswith('_') and a in RecordBase.__slots__ or a in type(self).__dict__.get('__slots__', ()):\n")]),
    ('b8-frozen-any', ['C10'], [(R, "        cls._frozen = frozen\n", "        cls._frozen = frozen = frozen or getattr(cls, '_frozen', False)\n")]),
    ('b8-frozen-copy', ['C22'], [(R, "    def __copy__(self):\n        if self.is_frozen():\n", "    def __copy__(self):\n        if self.is_frozen() or not self._optional_keys:\n")]),
    ('b8-instance-shortcut', ['C22'], [(R, "if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):\n", "if cls.is_frozen() and not any(maps) and not kwargs and isinstance(v, RecordBase) and v._fields.keys() == cls._fields.keys():\n")]),
    ('b8-inst-subclass', ['C22'], [(R, "if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):\n", "if not maps and not kwargs and type(v) is cls:\n")]),
    ('b8-mro-fields', ['C20'], [(R, "        parents = [b for b in cls.__bases__ if issubclass(b, RecordBase) and b != RecordBase]\n", "        parents = [b for b in reversed(cls.__bases__) if issubclass(b, RecordBase) and b != RecordBase]\n")]),
    ('b8-annot-classvar', ['C20', 'C06'], [(F, "        if meta_org == ClassVar:\n            return SKIP_FIELD\n", "        if meta_org == ClassVar or (meta_org is Final and kwargs.get('default') is not NO_DEFAULT):\n            return SKIP_FIELD\n")]),
    ('b8-prebind-late', ['C20'], [(R, "        # all validator tokens go here\n        cls.pre_bind()\n\n        for field in cls._fields.values():\n            if field.owner is not cls:\n                continue\n            field.filler.bind(cls)\n", "        for field in cls._fields.values():\n            if field.owner is cls:\n                field.filler.bind(cls)\n\n        # all validator tokens go here\n        cls.pre_bind()\n")]),
    ('b8-error-args', ['C23'], [(R, "                    parent_error = type(e)(msg)\n", "                    parent_error = copy(e)\n                    parent_error.args = (msg,)\n"), (R, "from copy import deepcopy\n", "from copy import copy, deepcopy\n")]),
    ('b8-error-catch', ['C23'], [(R, "            except Exception as e:\n                # if filling failed", "            except (TypeError, ValueError) as e:\n                # if filling failed")]),
    ('b8-within-nan', ['C25'], [(BV, "            if not (self.lt > v):\n                return False\n", "            if v >= self.lt:\n                return False\n")]),
    ('b8-map-get', ['C24'], [(C, "        if v in self.factory_map:\n            return self.factory_map[v]()\n        raise TypeError\n", "        factory = self.factory_map.get(v, self.value_map.get)\n        return factory()\n")]),
    ('b8-compose-first', ['C24'], [(C, "            for f in functors:\n                v = f(v)\n            return v\n", "            for f in functors:\n                try:\n                    v = f(v)\n                except TypeError:\n                    continue\n            return v\n")]),
    ('b8-classmethod-late', ['C24'], [(C, "        func = getattr(cls, self.method)\n", "        func = getattr(cls, self.method, cls)\n")]),
    ('b8-mapping-keys', ['C07'], [(TF, "        self.key_filler = get_filler(self.key_type)\n        self.value_filler = get_filler(self.value_type)\n", "        self.key_filler = get_filler(self.key_type)\n        self.value_filler = self.key_filler if self.value_type == self.key_type else get_filler(self.value_type)\n")]),
    ('b8-nan-best', ['C09'], [(TF, "        best_key = float('inf')\n", "        best_key = TypePassKind.hollow\n")]),
    ('b8-optional-none', ['C09'], [(TF, "        best_results = []\n        best_key = float('inf')\n", "        if arg is None and type(None) not in self.sub_types:\n            return FillingSuccess(arg, TypePassKind.hollow)\n        best_results = []\n        best_key = float('inf')\n")]),
    ('b8-maybe-add-missing', ['C29'], [(R, "            for key, _ in _rev_select.keys_to_maybe_add:\n                missing_ok.add(key)\n", "            for key, _ in _rev_select.keys_to_maybe_add:\n                if key in cls._required_keys:\n                    continue\n                missing_ok.add(key)\n")]),
]
