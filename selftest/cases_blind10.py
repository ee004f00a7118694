S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
U = 'fillers/util.py'
SAME = [
    ('s10-union-chain', [(TF, "            for t in chain(self.args, self.applied):\n                sf.apply(t)\n\n            sf.bind(owner_cls)\n", "            tokens = [*self.args, *self.applied]\n            for t in tokens:\n                sf.apply(t)\n            sf.bind(owner_cls)\n")]),
    ('s10-union-applied-args', [(TF, "        self.applied.append(token)\n", "        self.applied += [token]\n")]),
    ('s10-union-one-list', [(TF, "        self.args = args\n        self.sub_types", "        self.sub_types"), (TF, "        self.applied = []\n", "        self.applied = list(args)\n"), (TF, "chain(self.args, self.applied)", "self.applied")]),
    ('s10-apply-elif', [(FF, "        if isinstance(token, TypeCheckStyle):\n            self.type_checking_style = token\n            return\n        coercion_token = _as_instance(token, CoercionToken)\n        if coercion_token is not None:\n            self.coercers.append(self.get_coercer(coercion_token))\n            return\n        validation_token = _as_instance(token, ValidationToken)\n        if validation_token is not None:\n            self.validators.append(self.get_validator(validation_token))\n            return\n", "        if isinstance(token, TypeCheckStyle):\n            self.type_checking_style = token\n        elif (coercion_token := _as_instance(token, CoercionToken)) is not None:\n            self.coercers.append(self.get_coercer(coercion_token))\n        elif (validation_token := _as_instance(token, ValidationToken)) is not None:\n            self.validators.append(self.get_validator(validation_token))\n")]),
    ('s10-apply-helper', [(FF, "        validation_token = _as_instance(token, ValidationToken)\n        if validation_token is not None:\n            self.validators.append(self.get_validator(validation_token))\n            return\n", "        self._apply_validation(token)\n\n    def _apply_validation(self, token):\n        validation_token = _as_instance(token, ValidationToken)\n        if validation_token is None:\n            return\n        validator = self.get_validator(validation_token)\n        self.validators.append(validator)\n")]),
    ('s10-bind-guard', [(FF, "        for arg in self.args:\n            self.apply(arg)\n        super().bind(owner_cls)\n        if self.type", "        if self.owner:\n            raise RuntimeError(f'filler is already bound to {self.owner}')\n        for arg in self.args:\n            self.apply(arg)\n        super().bind(owner_cls)\n        if self.type")]),
    ('s10-bind-helper', [(FF, "        for arg in self.args:\n            self.apply(arg)\n        super().bind(owner_cls)\n        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = owner_cls.default_type_check_style()\n", "        self._apply_args()\n        super().bind(owner_cls)\n        self._settle_style(owner_cls)\n"), (FF, "    def __call__(self, arg) -> T:\n        \"\"\"\n        Coerce and validate an argument by the filler\n", "    def _apply_args(self):\n        for arg in self.args:\n            self.apply(arg)\n\n    def _settle_style(self, owner_cls):\n        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = owner_cls.default_type_check_style()\n\n    def __call__(self, arg) -> T:\n        \"\"\"\n        Coerce and validate an argument by the filler\n")]),
    ('s10-literal-method', [(TF, "            @self.validators.append\n            def inner_validator(v):\n                if v not in self.possible_values.get(type(v), ()):\n                    raise ValueError\n                return v\n", "            self.validators.append(self._member)\n\n    def _member(self, v):\n        members = self.possible_values.get(type(v))\n        if members is None or v not in members:\n            raise ValueError\n        return v\n")]),
    ('s10-wrapper-apply', [(TF, "    def apply(self, token):\n        self.inner_filler.apply(token)\n", "    def apply(self, token):\n        inner = self.inner_filler\n        return inner.apply(token)\n")]),
    ('s10-as-instance', [(U, "    if isinstance(obj, cls):\n        return obj\n    elif isinstance(obj, type) and issubclass(obj, cls):\n        return obj()\n    wrapped = unwrap(obj)\n    if isinstance(wrapped, type) and issubclass(wrapped, cls):\n        return obj()\n    return None\n", "    if isinstance(obj, cls):\n        return obj\n    for candidate in (obj, unwrap(obj)):\n        if isinstance(candidate, type) and issubclass(candidate, cls):\n            return obj()\n    return None\n")]),
    ('s10-type-lambda', [(TF, "            @self.inner_filler.validators.append\n            def inner_validator(v):\n                if not issubclass(v, self.base_type):\n                    raise ValueError(f'must be a subclass of {self.base_type}')\n                return v\n", "            base_type = self.base_type\n\n            def inner_validator(v):\n                if issubclass(v, base_type):\n                    return v\n                raise ValueError(f'must be a subclass of {base_type}')\n\n            self.inner_filler.validators.append(inner_validator)\n")]),
    ('s10-fill-reduce', [(FF, "        for validator in self.validators:\n            arg = validator(arg)\n\n        return FillingSuccess(arg, tpk)\n", "        return FillingSuccess(self._validate(arg), tpk)\n\n    def _validate(self, value):\n        for validate in self.validators:\n            value = validate(value)\n        return value\n")]),
    ('s10-parents-helper', [(R, "        parents = [b for b in cls.__bases__ if issubclass(b, RecordBase) and b != RecordBase]\n        parent_fields = {}\n        for parent in parents:\n", "        parent_fields = {}\n        for parent in cls.__bases__:\n            if parent is RecordBase or not issubclass(parent, RecordBase):\n                continue\n")]),
    ('s10-setattr-flip', [(R, "        if a in RecordBase.__slots__:\n            return super().__setattr__(a, value)\n        raise TypeError(f'{type(self).__qualname__} is frozen')\n", "        if a not in RecordBase.__slots__:\n            raise TypeError(f'{type(self).__qualname__} is frozen')\n        super().__setattr__(a, value)\n")]),
    ('s10-select-rename', [(S, "        for s, d in self.keys_to_maybe_rename:\n            if s not in mapping:\n                continue\n            if d in mapping:\n                raise ValueError(f'key {d} cannot be overridden in map')\n            mapping[d] = mapping.pop(s)\n", "        for old, new in self.keys_to_maybe_rename:\n            if old in mapping:\n                if new in mapping:\n                    raise ValueError(f'key {new} cannot be overridden in map')\n                value = mapping.pop(old)\n                mapping[new] = value\n")]),
    ('s10-union-fill-inert', [(TF, "        for sf in self.sub_fillers:\n            for t in chain(self.args, self.applied):\n                sf.apply(t)\n\n            sf.bind(owner_cls)\n", "        for sf in self.sub_fillers:\n            self._hand_on(sf)\n            sf.bind(owner_cls)\n\n    def _hand_on(self, sub_filler):\n        for token in self.args:\n            sub_filler.apply(token)\n        for token in self.applied:\n            sub_filler.apply(token)\n")]),
]
BUGS = []
