TF = 'fillers/builtin_fillers/typing_fillers.py'
FL = 'fillers/filler.py'
IT = """                hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
                        return self.reconstruct(all_elements, v)
                return v
"""
TV = """                    hollow_passes = 0  # the number of elements that filled identically
                    for element in v:
                        filled = inner_filler.__call__(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                            )
                            return type(v)(all_elements)
                    return v
"""
TT = """                    for element, filler in zip(v, self.sub_fillers):
                        filled = filler(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                            self.sub_fillers[hollow_passes + 1:]))
                            )
                            return type(v)(all_elements)
                    return v
"""
LEN = """                @self.inner_filler.validators.append
                def _(v):
                    if len(v) != len(self.sub_fillers):
                        raise ValueError(f'must be a {len(self.sub_fillers)}-tuple')
                    return v
"""
MP = """                tuples = [
                    (self.key_filler(k), self.value_filler(v))
                    for k, v in value.items()
                ]
                if any(
                        (k is not filled_k) or (v is not filled_v)
                        for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
                ):
                    return self.reconstruct(tuples, value)
                else:
                    return value
"""
SPLIT = "        return islice(i, ignore_ind), islice(i, 1, None)\n"
RD = "        if isinstance(initial, deque):\n            return type(initial)(elements, initial.maxlen)\n"
INIT_T = "        if len(self.inner_args) == 2 and self.inner_args[-1] is ...:\n            self.sub_fillers = (get_filler(self.inner_args[0]),)\n        else:\n            self.sub_fillers = tuple(get_filler(t) for t in self.inner_args)\n"
BUGS = [
    ('c-split', ['C07'], [(TF, SPLIT, "        return islice(i, ignore_ind), i\n")]),
    ('c-split-fresh', ['C07'], [(TF, SPLIT, "        return islice(seq, ignore_ind), islice(seq, ignore_ind, None)\n")]),
    ('c-eq', ['C07'], [(TF, IT, IT.replace("if filled is element", "if filled == element"))]),
    ('c-post-unfilled', ['C07'], [(TF, IT, IT.replace("(self.element_filler(a) for a in post)", "post"))]),
    ('c-first-dropped', ['C07'], [(TF, IT, IT.replace("                            [filled],\n", ""))]),
    ('c-refill', ['C07'], [(TF, IT, IT.replace("""                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
""", "                        all_elements = map(self.element_filler, v)\n"))]),
    ('c-list', ['C07'], [(TF, "        return type(initial)(elements)\n\n    def bind", "        return list(elements)\n\n    def bind")]),
    ('c-maxlen', ['C07'], [(TF, RD, "")]),
    ('c-deque-maxlen', ['C07'], [(TF, "    def reconstruct(self, elements, initial: deque):\n        return type(initial)(elements, initial.maxlen)", "    def reconstruct(self, elements, initial: deque):\n        return type(initial)(elements)")]),
    ('c-exact-str', ['C07'], [(TF, "        if isinstance(initial, str):\n", "        if type(initial) is str:\n")]),
    ('c-tuple-neg', ['C07'], [(TF, TT, TT.replace("self.sub_fillers[hollow_passes + 1:]", "self.sub_fillers[hollow_passes:]"))]),
    ('c-tuple-pass', ['C07'], [(TF, TT, TT.replace("v[:hollow_passes],", "v[:hollow_passes + 1],"))]),
    ('c-tuple-first', ['C07'], [(TF, TT, TT.replace("(if_(a) for (a, if_) in zip(v[hollow_passes + 1:],\n                                                            self.sub_fillers[hollow_passes + 1:]))", "v[hollow_passes + 1:]"))]),
    ('c-var-same', ['C07'], [(TF, TV, TV.replace("(inner_filler.__call__(a) for a in v[hollow_passes + 1:])", "v[hollow_passes + 1:]"))]),
    ('c-len-lt', ['C07'], [(TF, "if len(v) != len(self.sub_fillers):", "if len(v) < len(self.sub_fillers):")]),
    ('c-len-gone', ['C07'], [(TF, LEN, "                pass\n")]),
    ('c-map-keys', ['C07'], [(TF, "(self.key_filler(k), self.value_filler(v))", "(k, self.value_filler(v))")]),
    ('c-map-any', ['C07'], [(TF, "(k is not filled_k) or (v is not filled_v)", "(k is not filled_k) and (v is not filled_v)")]),
    ('c-map-eq', ['C07'], [(TF, "(k is not filled_k) or (v is not filled_v)", "(k != filled_k) or (v is not filled_v)")]),
    ('c-map-values-only', ['C07'], [(TF, "(k is not filled_k) or (v is not filled_v)", "v is not filled_v")]),
    ('c-map-pairs', ['C07'], [(TF, "        return type(initial)(dict(tuples))\n", "        return type(initial)(tuples)\n")]),
    ('c-map-ddict', ['C07'], [(TF, "        if isinstance(initial, defaultdict):\n            return type(initial)(initial.default_factory, tuples)\n", "")]),
    ('c-map-swapped', ['C07'], [(TF, "        self.key_filler = get_filler(self.key_type)\n        self.value_filler = get_filler(self.value_type)\n", "        self.key_filler = get_filler(self.value_type)\n        self.value_filler = get_filler(self.key_type)\n")]),
    ('c-map-inert-or', ['C07'], [(TF, "if not self.key_filler.is_inert() or not self.value_filler.is_inert():", "if not self.key_filler.is_inert() and not self.value_filler.is_inert():")]),
    ('c-map-hollow', ['C07'], [(TF, "if not self.key_filler.is_inert() or not self.value_filler.is_inert():", "if not self.key_filler.is_hollow() or not self.value_filler.is_hollow():")]),
    ('c-tuple-any', ['C07'], [(TF, "if not all(inner_filler.is_inert() for inner_filler in self.sub_fillers):", "if not any(inner_filler.is_inert() for inner_filler in self.sub_fillers):")]),
    ('c-tuple-first-inert', ['C07'], [(TF, "if not all(inner_filler.is_inert() for inner_filler in self.sub_fillers):", "if not all(inner_filler.is_inert() for inner_filler in self.sub_fillers[1:]):")]),
    ('c-bind-late', ['C07', 'C05'], [(TF, "        self.element_filler.bind(owner_cls)\n        if not self.element_filler.is_inert():\n", "        inert = self.element_filler.is_inert()\n        self.element_filler.bind(owner_cls)\n        if not inert:\n")]),
    ('c-refuse-elem', ['C06', 'C04'], [(TF, "        if not self.element_filler.is_inert():\n            if self.is_hollow():\n                raise TypeError('cannot use non-hollow inner fillers in a hollow filler')\n", "        if not self.element_filler.is_inert() and not self.is_hollow():\n")]),
    ('c-generic-last', ['C06'], [(TF, "            f.bind(owner_cls)\n            if not f.is_inert():\n                raise TypeError('A non-specialized", "            f.bind(owner_cls)\n        if fillers and not fillers[-1].is_inert():\n                raise TypeError('A non-specialized")]),
    ('c-generic-hollow', ['C06'], [(TF, "            if not f.is_inert():\n", "            if not f.is_hollow():\n")]),
    ('c-inert-validators', ['C04'], [(FL, "        return self.is_hollow() and not self.validators\n", "        return self.is_hollow()\n")]),
    ('c-inert-union', ['C04'], [(TF, "        return all(sf.is_inert() for sf in self.sub_fillers)\n", "        return all(sf.is_hollow() for sf in self.sub_fillers)\n")]),
    ('c-inert-union-any', ['C04'], [(TF, "        return all(sf.is_inert() for sf in self.sub_fillers)\n", "        return any(sf.is_inert() for sf in self.sub_fillers)\n")]),
    ('c-inert-wrap', ['C04'], [(TF, "        return self.inner_filler.is_inert()\n", "        return self.inner_filler.is_hollow()\n")]),
    ('c-var-3', ['C07'], [(TF, INIT_T, INIT_T.replace("len(self.inner_args) == 2 and ", "")), (TF, "        if len(self.inner_args) == 2 and self.inner_args[-1] is ...:\n            inner_filler", "        if len(self.inner_args) <= 2 and self.inner_args[-1] is ...:\n            inner_filler")]),
]
SAME = [
    ('c-comp', [(TF, IT, """                filled = [self.element_filler(e) for e in v]
                if all(a is b for a, b in zip(v, filled)):
                    return v
                return self.reconstruct(filled, v)
""")]),
    ('c-comp-any', [(TF, IT, """                filled = []
                for e in v:
                    filled.append(self.element_filler(e))
                if any(a is not b for a, b in zip(filled, v)):
                    return self.reconstruct(filled, v)
                return v
""")]),
    ('c-enumerate', [(TF, IT, IT.replace("                hollow_passes = 0  # the number of elements that filled identically\n                for element in v:", "                for hollow_passes, element in enumerate(v):").replace("                    if filled is element:\n                        hollow_passes += 1\n                    else:\n", "                    if filled is not element:\n"))]),
    ('c-filler-local', [(TF, IT, "                ef = self.element_filler\n" + IT.replace("self.element_filler", "ef"))]),
    ('c-method', [(TF, "            @self.inner_filler.validators.append\n            def inner_validator(v):\n" + IT, "            self.inner_filler.validators.append(self._fill_elements)\n\n    def _fill_elements(self, v):\n" + IT.replace("\n        ", "\n")[8:])]),
    ('c-tuple-index', [(TF, TT, TT.replace("(if_(a) for (a, if_) in zip(v[hollow_passes + 1:],\n                                                            self.sub_fillers[hollow_passes + 1:]))", "[f(a) for f, a in zip(self.sub_fillers[hollow_passes + 1:], v[hollow_passes + 1:])]"))]),
    ('c-tuple-comp', [(TF, "                    hollow_passes = 0  # the number of elements that filled identically\n" + TT, """                    filled = [f(e) for f, e in zip(self.sub_fillers, v)]
                    if all(a is b for a, b in zip(filled, v)):
                        return v
                    return type(v)(filled)
""")]),
    ('c-len-helper', [(TF, LEN, """                def check_length(v):
                    expected = len(self.sub_fillers)
                    if len(v) == expected:
                        return v
                    raise ValueError(f'must be a {expected}-tuple')

                self.inner_filler.validators.append(check_length)
""")]),
    ('c-map-loop', [(TF, MP, """                tuples = []
                for k, v in value.items():
                    tuples.append((self.key_filler(k), self.value_filler(v)))
                unchanged = all(k is a and v is b for (k, v), (a, b) in zip(value.items(), tuples))
                return value if unchanged else self.reconstruct(tuples, value)
""")]),
    ('c-map-changed', [(TF, MP, """                changed = False
                tuples = []
                for k, v in value.items():
                    fk, fv = self.key_filler(k), self.value_filler(v)
                    if fk is not k or fv is not v:
                        changed = True
                    tuples.append((fk, fv))
                if not changed:
                    return value
                return self.reconstruct(tuples, value)
""")]),
    ('c-map-demorgan', [(TF, "if not self.key_filler.is_inert() or not self.value_filler.is_inert():", "if not (self.key_filler.is_inert() and self.value_filler.is_inert()):")]),
    ('c-early-return', [(TF, "        if not self.element_filler.is_inert():\n            if self.is_hollow():\n", "        inert = self.element_filler.is_inert()\n        if not inert:\n            if self.inner_filler.is_hollow():\n")]),
    ('c-tuple-any-not', [(TF, "if not all(inner_filler.is_inert() for inner_filler in self.sub_fillers):", "if any(not f.is_inert() for f in self.sub_fillers):")]),
    ('c-generic-one', [(TF, "        fillers = [get_filler(it) for it in self.inner_types]\n        for f in fillers:\n            f.bind(owner_cls)\n", "        for it in self.inner_types:\n            f = get_filler(it)\n            f.bind(owner_cls)\n")]),
    ('c-inert-if', [(FL, "        return self.is_hollow() and not self.validators\n", "        if self.validators:\n            return False\n        return self.is_hollow()\n")]),
    ('c-inert-len', [(FL, "        return self.is_hollow() and not self.validators\n", "        return self.is_hollow() and len(self.validators) == 0\n")]),
    ('c-var-flag', [(TF, INIT_T, "        self.any_length = len(self.inner_args) == 2 and self.inner_args[-1] is ...\n        if self.any_length:\n            self.sub_fillers = (get_filler(self.inner_args[0]),)\n        else:\n            self.sub_fillers = tuple(map(get_filler, self.inner_args))\n")]),
    ('c-rd-order', [(TF, "        if isinstance(initial, str):\n            # a string cannot be constructed from an iterable of its elements\n            return type(initial)(''.join(elements))\n" + RD, RD + "        if isinstance(initial, str):\n            # a string cannot be constructed from an iterable of its elements\n            return type(initial)(''.join(elements))\n")]),
]
