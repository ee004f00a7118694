F = 'field.py'
R = 'record.py'
MD = "        if self.default_is_factory:\n            return self.default()\n        return self.default\n"
AF = "        if isinstance(default, Factory):\n            return default.func, True\n        return default, False\n"
IDF = "        return (not self.default_is_factory) and self.default == v\n"
HD = "        return self.default is not NO_DEFAULT\n"
AT = "        target_filler = self.filler.sub_filler(sub_filler_key)\n        target_filler.apply(token)\n"
FIN = "            if not owner.is_frozen():\n                raise TypeError('cannot declare Final field in non-frozen Record')\n"
TAGS = "        for arg in args:\n            ret._apply(arg)\n"
AP = "        if isinstance(token, Tag):\n            self.tags.add(token)\n"
TF = 'fillers/builtin_fillers/typing_fillers.py'
NEW1 = "        values = {}\n        if not (kwargs"
NEW2 = "        for k in cls._optional_keys.difference(kwargs):\n            values[k] = cls._fields[k].make_default()\n"
DKW = "        if f is None:\n            return lambda f: ret(self, f, **kwargs)\n        return func(self, f, **kwargs)\n"
BUGS = [
    ('d-cached', ['C21'], [(F, MD, "        if self.default_is_factory:\n            self.default = self.default()\n            self.default_is_factory = False\n        return self.default\n")]),
    ('d-copied', ['C21'], [(F, MD, "        from copy import copy\n        if self.default_is_factory:\n            return self.default()\n        return copy(self.default)\n")]),
    ('d-callable', ['C21'], [(F, MD, "        if callable(self.default):\n            return self.default()\n        return self.default\n")]),
    ('d-kept-callable', ['C21'], [(F, AF, "        if isinstance(default, Factory):\n            return default.func, True\n        return default, callable(default)\n")]),
    ('d-kept-swapped', ['C21'], [(F, AF, "        if isinstance(default, Factory):\n            return default, False\n        return default, False\n")]),
    ('d-has-truth', ['C21'], [(F, HD, "        return self.default is not NO_DEFAULT and self.default is not None\n")]),
    ('d-has-eq', ['C21'], [(F, HD, "        return bool(self.default)\n")]),
    ('d-isdef-is', ['C21', 'C13'], [(F, IDF, "        return (not self.default_is_factory) and self.default is v\n")]),
    ('d-isdef-factory', ['C21', 'C13'], [(F, IDF, "        return self.make_default() == v\n")]),
    ('d-needed', ['C21'], [(R, NEW1, "        values = {k: cls._fields[k].make_default() for k in cls._optional_keys}\n        if not (kwargs"), (R, NEW2, "")]),
    ('d-needed-all', ['C21'], [(R, NEW2, "        for k in cls._optional_keys:\n            d = cls._fields[k].make_default()\n            if k not in kwargs:\n                values[k] = d\n")]),
    ('f-final-ok', ['C06'], [(F, FIN, "")]),
    ('f-final-inverted', ['C06'], [(F, FIN, FIN.replace("if not owner.is_frozen()", "if owner.is_frozen() is False and args"))]),
    ('f-raw-final', ['C06'], [(F, "        if th is Final:\n            raise TypeError('raw Final cannot be use inside records')\n", "")]),
    ('f-final-args', ['C06'], [(F, "                inner = Annotated[(inner, *inner_args, *args)]\n", "                inner = Annotated[(inner, *inner_args)] if inner_args else inner\n")]),
    ('f-tags-dropped', ['C13'], [(F, TAGS, "")]),
    ('f-tags-first', ['C13'], [(F, TAGS, "        for arg in args:\n            if isinstance(arg, Tag):\n                ret._apply(arg)\n                break\n")]),
    ('f-tags-not', ['C13'], [(F, AP, "        if isinstance(token, Tag) and token not in self.tags and not self.default_is_factory:\n            self.tags.add(token)\n")]),
    ('f-tag-eq', ['C13'], [('tags.py', "        return type(other) == type(self) \\\n               and self.inner == other.inner\n", "        return isinstance(other, Tag) and hash(self) == hash(other)\n")]),
    ('k-ignored', ['C20'], [(F, AT, "        self.filler.apply(token)\n")]),
    ('k-falsish', ['C20'], [(F, AT, "        target_filler = self.filler.sub_filler(sub_filler_key or None)\n        target_filler.apply(token)\n")]),
    ('k-swapped', ['C20'], [(TF, "        if key == 0:\n            return self.key_filler\n        if key == 1:\n            return self.value_filler\n", "        if key == 1:\n            return self.key_filler\n        if key == 0:\n            return self.value_filler\n")]),
    ('k-truthy', ['C20'], [('fillers/filler.py', "        if key is None:\n            return self\n        raise LookupError", "        if not key or key:\n            return self\n        raise LookupError")]),
    ('a-kwargs', ['C04'], [(F, "CallValidation(func, **kwargs), sub_filler_key=sub_key)\n        return func\n\n    @decorator_kw_method\n    def add_assert", "CallValidation(func), sub_filler_key=sub_key)\n        return func\n\n    @decorator_kw_method\n    def add_assert")]),
    ('a-key', ['C04'], [(F, "AssertCallValidation(func, **kwargs), sub_filler_key=sub_key)", "AssertCallValidation(func, **kwargs))")]),
    ('a-coercer-kind', ['C03'], [(F, "self._apply_to_filler(CallCoercion(func, **kwargs), sub_filler_key=sub_key)", "self._apply_to_filler(CallValidation(func, **kwargs), sub_filler_key=sub_key)")]),
    ('a-deco', ['C03', 'C04'], [('utils/decorators.py', DKW, "        if f is None:\n            return lambda f: ret(self, f)\n        return func(self, f, **kwargs)\n")]),
]
SAME = [
    ('d-ternary', [(F, MD, "        return self.default() if self.default_is_factory else self.default\n")]),
    ('d-keep-inline', [(F, "        default, is_factory = self._apply_factory(default)\n", "        is_factory = isinstance(default, Factory)\n        if is_factory:\n            default = default.func\n")]),
    ('d-isdef-if', [(F, IDF, "        if self.default_is_factory:\n            return False\n        return v == self.default\n")]),
    ('d-has-not', [(F, HD, "        return not (self.default is NO_DEFAULT)\n")]),
    ('d-new-loop', [(R, NEW2, "        for k in cls._optional_keys:\n            if k in kwargs:\n                continue\n            values[k] = cls._fields[k].make_default()\n")]),
    ('d-new-sets', [(R, NEW2, "        values.update({k: cls._fields[k].make_default() for k in cls._optional_keys - kwargs.keys()})\n")]),
    ('f-elif', [(F, "        if meta_org == ClassVar:\n            return SKIP_FIELD\n        if meta_org is Final:", "        if meta_org is ClassVar:\n            return SKIP_FIELD\n        elif meta_org is Final:")]),
    ('f-tags-inline', [(F, TAGS, "        for arg in args:\n            if isinstance(arg, Tag):\n                ret.tags.add(arg)\n")]),
    ('f-tags-update', [(F, TAGS, "        ret.tags.update(arg for arg in args if isinstance(arg, Tag))\n")]),
    ('k-one', [(F, AT, "        self.filler.sub_filler(sub_filler_key).apply(token)\n")]),
    ('k-if', [(F, AT, "        target = self.filler\n        if sub_filler_key is not None:\n            target = target.sub_filler(sub_filler_key)\n        target.apply(token)\n")]),
    ('k-table', [(TF, "        if key == 0:\n            return self.key_filler\n        if key == 1:\n            return self.value_filler\n        return super().sub_filler(key)\n", "        for k, f in ((0, self.key_filler), (1, self.value_filler)):\n            if k == key:\n                return f\n        return super().sub_filler(key)\n")]),
    ('a-token', [(F, "        self._apply_to_filler(CallCoercion(func, **kwargs), sub_filler_key=sub_key)\n", "        token = CallCoercion(func, **kwargs)\n        self._apply_to_filler(token, sub_key)\n")]),
    ('a-partial', [('utils/decorators.py', DKW, "        def delayed(f):\n            return func(self, f, **kwargs)\n\n        return delayed if f is None else delayed(f)\n")]),
]
