TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
GF = 'fillers/get_filler.py'
LITB = """                if v not in self.possible_values.get(type(v), ()):
                    raise ValueError
                return v
"""
LITI = """        self.possible_values = defaultdict(set)
        for pv in get_args(origin):
            self.possible_values[type(pv)].add(pv)
"""
LITT = """        if type(v) in self.possible_values:
            return TypeMatch.exact
        return isinstance(v, tuple(self.possible_values)) and TypeMatch.inexact
"""
TYPT = """    if origin_cls == type:
        if has_args(stored_type) and Any not in get_args(stored_type):
            return TypeFiller
        return GetFiller(type)
"""
GEN = """    if has_args(stored_type):
        t = genric_origin_map.get(origin_cls)
        if t:
            return t
    elif origin_cls:
        return GetFiller(origin_cls)
"""
EMPTY = """    if origin_cls is tuple and stored_type is not Tuple and not get_args(stored_type):
        # the empty tuple type
        return TupleFiller
"""
LOOP = """    for checker in builtin_filler_checkers:
        # builtin functions to create a filler class
        ret = checker(origin)
        if isinstance(ret, GetFiller):
            # the new origin can be annotated in its own right (a NewType of an Annotated)
            new_origin, new_args = split_annotation(ret.new_origin)
            return get_annotated_filler(new_origin, (*new_args, *args))
        elif ret:
            return ret(origin, args)
"""
SUP = """        blt_supertype = next((k for (k, v) in builtin_filler_map.items() if issubclass(origin, k)), None)
        if blt_supertype:
            return builtin_filler_map[blt_supertype](origin, args)
"""
HASARGS = """    args = get_args(v)
    return args and any(not isinstance(a, TypeVar) for a in args)
"""
STDMAP = """std_filler_map: Dict[Any, Type[AnnotatedFiller]] = {
    bool: BoolFiller,
    type(None): NoneFiller,
    object: SimpleFiller,
    type(...): EllipsisFiller
}
"""
UNI = """    origin_cls = get_origin(stored_type)
    if origin_cls == Union:
        return UnionFiller
    if origin_cls == Literal:
        return LiteralFiller
"""
TYPB = """                if not issubclass(v, self.base_type):
                    raise ValueError(f'must be a subclass of {self.base_type}')
                return v
"""
P = ['C28']
BUGS = [
    ('di-all-typevars', P, [(TF, "any(not isinstance(a, TypeVar) for a in args)", "all(not isinstance(a, TypeVar) for a in args)")]),
    ('di-no-typevar', P, [(TF, "    return args and any(not isinstance(a, TypeVar) for a in args)\n", "    return bool(args)\n")]),
    ('di-drop-frozenset', P, [(TF, ", frozenset: GenericIterableFiller,", ",")]),
    ('di-drop-mutableset', P, [(TF, " abstract_collections.MutableSet: GenericIterableFiller,\n", "\n")]),
    ('di-mapping-iter', P, [(TF, "abstract_collections.Mapping: GenericMappingFiller", "abstract_collections.Mapping: GenericIterableFiller")]),
    ('di-seq-n', P, [(TF, "abstract_collections.Sequence: GenericIterableFiller", "abstract_collections.Sequence: GenericFillerN")]),
    ('di-type-any', P, [(TF, " and Any not in get_args(stored_type)", "")]),
    ('di-type-bare', P, [(TF, "        return GetFiller(type)\n", "        return TypeFiller\n")]),
    ('di-empty-tuple', P, [(TF, EMPTY, "")]),
    ('di-bare-tuple', P, [(TF, "stored_type is not Tuple and not", "not")]),
    ('di-newtype-tokens', P, [(GF, "(*new_args, *args)", "new_args or args")]),
    ('di-newtype-order', P, [(GF, "(*new_args, *args)", "(*args, *new_args)")]),
    ('di-newtype-first-only', P, [(GF, "            new_origin, new_args = split_annotation(ret.new_origin)\n            return get_annotated_filler(new_origin, (*new_args, *args))",
                                   "            return get_annotated_filler(ret.new_origin, args)")]),
    ('di-recursion-drops', P, [(GF, "(*new_args, *args)", "new_args")]),
    ('di-annotated-tokens', P, [(GF, "    return get_annotated_filler(origin, args)\n", "    return get_annotated_filler(origin, args[:1])\n")]),
    ('di-subclass-flip', P, [(GF, "issubclass(origin, k)", "issubclass(k, origin)")]),
    ('di-none-object', P, [(SF, "    type(None): NoneFiller,\n", "")]),
    ('di-none-checker', P, [(SF, "return GetFiller(type(None))", "return GetFiller(object)")]),
    ('di-ellipsis', P, [(SF, "    object: SimpleFiller,\n    type(...): EllipsisFiller\n", "    object: SimpleFiller\n")]),
    ('di-bool', P, [(SF, "    bool: BoolFiller,\n", "")]),
    ('di-any', P, [(TF, "return GetFiller(object)", "return GetFiller(type)")]),
    ('di-union-literal', P, [(TF, "    if origin_cls == Union:\n        return UnionFiller\n", "    if origin_cls == Union:\n        return LiteralFiller\n")]),
    ('di-tokens-ignored', P, [(GF, "    if args:\n        raise TypeError(f'cannot have Annotated type with origin {origin}')\n", "")]),
    ('di-shortcut-tokens', P, [(GF, "        return blt(origin, args)\n", "        return blt(origin, ())\n")]),
    ('di-filler-origin', P, [(GF, "            return builtin_filler_map[blt_supertype](origin, args)", "            return builtin_filler_map[blt_supertype](blt_supertype, args)")]),
    ('di-elif-origin', P, [(TF, "    elif origin_cls:\n        return GetFiller(origin_cls)\n", "    elif origin_cls and get_args(stored_type):\n        return GetFiller(origin_cls)\n")]),
    # what is accepted
    ('ac-literal-type', P, [(TF, "self.possible_values.get(type(v), ())", "set().union(*self.possible_values.values())")]),
    ('ac-literal-any-class', P, [(TF, LITB, "                if not any(v in vs for t, vs in self.possible_values.items() if isinstance(v, t)):\n                    raise ValueError\n                return v\n")]),
    ('ac-literal-last', P, [(TF, "            self.possible_values[type(pv)].add(pv)", "            self.possible_values[type(pv)] = {pv}")]),
    ('ac-literal-first', P, [(TF, "        for pv in get_args(origin):", "        for pv in get_args(origin)[:1]:")]),
    ('ac-literal-unchecked', P, [(TF, "        if not self.is_hollow():\n            @self.validators.append\n            def inner_validator(v):\n                if v not in",
                                  "        if self.type_checking_style == TypeCheckStyle.check_strict:\n            @self.validators.append\n            def inner_validator(v):\n                if v not in"),
                                 (TF, "TypePassKind)\n", "TypePassKind, TypeCheckStyle)\n")]),
    ('ac-type-flip', P, [(TF, "issubclass(v, self.base_type)", "issubclass(self.base_type, v)")]),
    ('ac-type-origin', P, [(TF, "        super().__init__(get_origin(origin), args)\n        self.base_type", "        super().__init__(object, args)\n        self.base_type")]),
    ('ac-type-hollow', P, [(TF, "        if not self.inner_filler.is_hollow():\n            @self.inner_filler.validators.append\n            def inner_validator(v):\n                if not issubclass",
                            "        if self.inner_filler.args:\n            @self.inner_filler.validators.append\n            def inner_validator(v):\n                if not issubclass")]),
    ('ac-none-eq', P, [(SF, "return (v is None) and", "return (not v) and")]),
    ('ac-ellipsis', P, [(SF, "return (v is ...) and TypeMatch.exact", "return TypeMatch.exact")]),
    ('ac-callable', P, [(SF, "        return callable(v) and TypeMatch.exact", "        return hasattr(v, '__call__') or TypeMatch.exact")]),
    ('ac-callable-inexact', P, [(SF, "        return callable(v) and TypeMatch.exact", "        return callable(v) and TypeMatch.inexact")]),
    ('ac-simple-sub', P, [(SF, "        if type(v) == self.origin:", "        if isinstance(v, self.origin):")]),
    ('ac-tuple-len', P, [(TF, "if len(v) != len(self.sub_fillers):", "if len(v) < len(self.sub_fillers):")]),
    ('ac-tuple-ellipsis', P, [(TF, "        if len(self.inner_args) == 2 and self.inner_args[-1] is ...:\n            self.sub", "        if len(self.inner_args) == 2:\n            self.sub")]),
    ('ac-map-swapped', P, [(TF, "self.key_type, self.value_type = get_args(origin)", "self.value_type, self.key_type = get_args(origin)")]),
    ('ac-iter-first', P, [(TF, "                for element in v:\n                    filled = self.element_filler(element)",
                           "                for element in _split_at(v, 1)[0]:\n                    filled = self.element_filler(element)")]),
    ('ac-iter-second', P, [(TF, "(self.element_filler(a) for a in post)", "post")]),
    ('ac-origin-object', P, [(TF, "        super().__init__(get_origin(origin), args)\n        self.inner_type =", "        super().__init__(object, args)\n        self.inner_type =")]),
]
BUGS[-2] = ('ac-iter-args', P, [(TF, "        self.inner_type = get_args(origin)[0]", "        self.inner_type = get_origin(origin)")])
SAME = [
    ('di-map-split', [(SF, STDMAP, """simple = {
    object: SimpleFiller,
}
std_filler_map: Dict[Any, Type[AnnotatedFiller]] = {
    type(None): NoneFiller,
    bool: BoolFiller,
    **simple,
    type(...): EllipsisFiller
}
""")]),
    ('di-match-dict', [(TF, UNI, """    origin_cls = get_origin(stored_type)
    for special, special_filler in ((Union, UnionFiller), (Literal, LiteralFiller)):
        if origin_cls == special:
            return special_filler
""")]),
    ('di-type-inverted', [(TF, TYPT, """    if origin_cls is type:
        if not has_args(stored_type) or Any in get_args(stored_type):
            return GetFiller(type)
        return TypeFiller
""")]),
    ('di-gen-try', [(TF, GEN, """    if not has_args(stored_type):
        return GetFiller(origin_cls) if origin_cls else None
    try:
        return genric_origin_map[origin_cls]
    except KeyError:
        return None
""")]),
    ('di-gen-in', [(TF, GEN, """    if has_args(stored_type):
        if origin_cls in genric_origin_map:
            return genric_origin_map[origin_cls]
        return None
    if origin_cls:
        return GetFiller(origin_cls)
    return None
""")]),
    ('di-hasargs-loop', [(TF, HASARGS, """    for a in get_args(v):
        if not isinstance(a, TypeVar):
            return True
    return False
""")]),
    ('di-hasargs-all', [(TF, HASARGS, "    return not all(isinstance(a, TypeVar) for a in get_args(v))\n")]),
    ('di-sup-loop', [(GF, SUP, """        for supertype, filler_cls in builtin_filler_map.items():
            if issubclass(origin, supertype):
                return filler_cls(origin, args)
""")]),
    ('di-loop-helper', [(GF, LOOP, """    for checker in builtin_filler_checkers:
        # builtin functions to create a filler class
        ret = checker(origin)
        if not ret:
            continue
        if not isinstance(ret, GetFiller):
            return ret(origin, args)
        return _redirect(ret, args)
"""), (GF, "def get_annotated_filler(origin, args: tuple):", """def _redirect(ret, args):
    new_origin, new_args = split_annotation(ret.new_origin)
    return get_annotated_filler(new_origin, tuple(new_args) + tuple(args))


def get_annotated_filler(origin, args: tuple):""")]),
    ('di-map-in', [(GF, """        blt = builtin_filler_map.get(origin)
    except TypeError:""", """        blt = builtin_filler_map[origin] if origin in builtin_filler_map else None
    except TypeError:""")]),
    ('di-map-keyerror', [(GF, """        blt = builtin_filler_map.get(origin)
    except TypeError:""", """        blt = builtin_filler_map[origin]
    except (TypeError, KeyError):""")]),
    ('di-empty-first', [(TF, EMPTY, "    if origin_cls is tuple and get_args(stored_type) == () and stored_type is not Tuple:\n        return TupleFiller\n")]),
    ('ac-literal-dict', [(TF, LITI, """        self.possible_values = {}
        for pv in get_args(origin):
            self.possible_values.setdefault(type(pv), set()).add(pv)
""")]),
    ('ac-literal-pairs', [(TF, LITB, """                if type(v) not in self.possible_values or v not in self.possible_values[type(v)]:
                    raise ValueError
                return v
""")]),
    ('ac-literal-any', [(TF, LITB, """                if not any(type(p) is type(v) and p == v for ps in self.possible_values.values() for p in ps):
                    raise ValueError
                return v
""")]),
    ('ac-literal-check', [(TF, LITT, """        cls = type(v)
        if cls in self.possible_values.keys():
            return TypeMatch.exact
        if any(issubclass(cls, t) for t in self.possible_values):
            return TypeMatch.inexact
        return None
""")]),
    ('ac-type-helper', [(TF, TYPB, """                return self._checked(v)
"""), (TF, "        self.base_type = get_args(origin)[0]\n", """        self.base_type, = get_args(origin)

    def _checked(self, v):
        if issubclass(v, self.base_type):
            return v
        raise ValueError(f'must be a subclass of {self.base_type}')
""")]),
    ('ac-none', [(SF, "return (v is None) and TypeMatch.exact", "return TypeMatch.exact if v is None else None")]),
    ('ac-callable-if', [(SF, "        return callable(v) and TypeMatch.exact", "        if not callable(v):\n            return None\n        return TypeMatch.exact")]),
    ('ac-simple-mro', [(SF, "        return TypeMatch.inexact if isinstance(v, self.origin) else None", "        if isinstance(v, self.origin):\n            return TypeMatch.inexact\n        return None")]),
]
