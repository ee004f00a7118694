S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
BUGS = [
    ('b2-get-strict-add', ['C14'], [(S, "            if s in mapping:\n                raise ValueError(f'key {s} cannot be overridden in map')\n", "            if mapping.get(s) is not None:\n                raise ValueError(f'key {s} cannot be overridden in map')\n")]),
    ('b2-get-rename', ['C14'], [(S, "            if s not in mapping:\n                continue\n", "            if not mapping.get(s):\n                continue\n")]),
    ('b2-get-target', ['C14'], [(S, """            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, v in self.keys_to_add""", """            if mapping.get(d) is not None:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, v in self.keys_to_add""")]),
    # C01
    ('b2-kwargs-len', ['C01'], [(R, "        if not (kwargs.keys() <= cls._fields.keys()):\n", "        if len(kwargs) > len(cls._fields):\n"), (R, "                values[k] = cls._fields[k].filler(v)\n", "                values[k] = cls._fields[k].filler(v) if k in cls._fields else v\n")]),
    ('b2-hasattr-known', ['C01'], [(R, "        if not (kwargs.keys() <= cls._fields.keys()):\n", "        if not all(hasattr(cls, k) for k in kwargs):\n"), (R, "                values[k] = cls._fields[k].filler(v)\n", "                values[k] = cls._fields[k].filler(v) if k in cls._fields else v\n")]),
    ('b2-replacement-type', ['C01'], [(R, "            if replacement is not None:\n", "            if isinstance(replacement, cls):\n")]),
    ('b2-default-filled', ['C01', 'C21'], [(R, "            values[k] = cls._fields[k].make_default()\n", "            values[k] = cls._fields[k].filler(cls._fields[k].make_default())\n")]),
    ('b2-slots-update', ['C01'], [(R, "        self.__dict__.update(values)\n", "        self.__dict__.update((k, v) for k, v in values.items() if v is not None)\n")]),
    ('b2-required-none', ['C01'], [(R, "        if not (cls._required_keys <= kwargs.keys()):\n", "        if not (cls._required_keys <= kwargs.keys()) and not kwargs:\n")]),
    # C02
    ('b2-type-name', ['C02', 'C28'], [(SF, "        if type(v) == self.origin:\n            return TypeMatch.exact\n", "        if type(v).__name__ == self.origin.__name__:\n            return TypeMatch.exact\n")]),
    ('b2-cached-check', ['C02'], [(SF, "        if type(v) == self.origin:\n            return TypeMatch.exact\n        return TypeMatch.inexact if isinstance(v, self.origin) else None\n", "        if type(v) == self.origin:\n            return TypeMatch.exact\n        if not isinstance(v, self.origin):\n            return None\n        if self.type_checking_style is TypeCheckStyle.check:\n            return TypeMatch.exact\n        return TypeMatch.inexact\n")]),
    # C03
    ('b2-coercer-on-hollow-union', ['C03'], [(FF, "                    try:\n                        coerced = coercer(arg)\n", "                    try:\n                        coerced = arg = coercer(arg)\n")]),
    ('b2-coercer-typeerror', ['C03'], [(FF, "                    except Exception:\n                        if i == len(self.coercers) - 1:\n                            raise\n", "                    except (TypeError, ValueError):\n                        if i == len(self.coercers) - 1:\n                            raise\n")]),
    ('b2-coercer-last', ['C03'], [(FF, "                    except Exception:\n                        if i == len(self.coercers) - 1:\n                            raise\n", "                    except Exception:\n                        if coercer is self.coercers[-1]:\n                            raise\n                        arg = arg if i else arg\n"), (FF, "                        arg = coerced\n                        break\n", "                        arg = coerced\n")]),
    # C04
    ('b2-validators-inexact', ['C04'], [(FF, "        for validator in self.validators:\n            arg = validator(arg)\n", "        for validator in self.validators:\n            validated = validator(arg)\n            if validated is not None:\n                arg = validated\n")]),
    ('b2-validators-reapply', ['C04'], [(FF, "        for validator in self.validators:\n            arg = validator(arg)\n", "        for validator in reversed(self.validators):\n            arg = validator(arg)\n")]),
    ('b2-union-hollow', ['C04'], [(TF, "        if self.is_inert():\n            return FillingSuccess(arg, TypePassKind.hollow)\n", "        if self.is_hollow():\n            return FillingSuccess(arg, TypePassKind.hollow)\n")]),
    ('b2-elem-inert', ['C04'], [(TF, "        if not self.element_filler.is_inert():\n", "        if not self.element_filler.is_hollow():\n")]),
    # C05
    ('b2-token-overrides', ['C05'], [(FF, "        if isinstance(token, TypeCheckStyle):\n            self.type_checking_style = token\n            return\n", "        if isinstance(token, TypeCheckStyle):\n            if self.type_checking_style is TypeCheckStyle.default:\n                self.type_checking_style = token\n            return\n")]),
    # C06
    ('b2-final-frozen', ['C06'], [(F, "            if not owner.is_frozen():\n", "            if not owner.is_frozen() and not args:\n")]),
    ('b2-inner-first', ['C06'], [(TF, "        fillers = [get_filler(it) for it in self.inner_types]\n", "        fillers = [get_filler(it) for it in self.inner_types[:1]]\n")]),
    ('b2-hollow-coercers', ['C06'], [(FF, "        if self.type_checking_style == TypeCheckStyle.hollow and self.coercers:\n", "        if owner_cls.default_type_check_style() == TypeCheckStyle.hollow and self.type_checking_style == TypeCheckStyle.hollow and self.coercers:\n")]),
    ('b2-dumb-apply', ['C06'], [(G, "        raise TypeError(f'cannot have tokens for origin type {self.origin}')\n", "        if isinstance(token, (CoercionToken, ValidationToken, TypeCheckStyle)):\n            raise TypeError(f'cannot have tokens for origin type {self.origin}')\n"), (G, "from records.fillers.filler import", "from records.fillers.coercers import CoercionToken\nfrom records.fillers.validators import ValidationToken\nfrom records.fillers.filler import")]),
    ('b2-strict-abstract', ['C06'], [(SF, "        if self.type_checking_style == TypeCheckStyle.check_strict and isabstract(self.origin):\n", "        if owner_cls.default_type_check_style() == TypeCheckStyle.check_strict and isabstract(self.origin):\n")]),
    # C07
    ('b2-zip-short', ['C07'], [(TF, "                    if len(v) != len(self.sub_fillers):\n", "                    if len(v) < len(self.sub_fillers):\n")]),
    ('b2-keep-key', ['C07'], [(TF, "                        (k is not filled_k) or (v is not filled_v)\n", "                        v is not filled_v\n")]),
    ('b2-reconstruct-copy', ['C07'], [(TF, "        if isinstance(initial, deque):\n            return type(initial)(elements, initial.maxlen)\n", "")]),
    ('b2-dict-type', ['C07'], [(TF, "        return type(initial)(dict(tuples))\n", "        return dict(tuples)\n")]),
    ('b2-empty-shortcut', ['C07'], [(TF, "                for element in v:\n                    filled = self.element_filler(element)\n", "                for element in v or ():\n                    if not element and hollow_passes:\n                        return v\n                    filled = self.element_filler(element)\n")]),
    # C09
    ('b2-union-first-exact', ['C09'], [(TF, "            if success.type_pass_kind < best_key:\n", "            if success.type_pass_kind is TypePassKind.no_coerce_strict:\n                return success\n            if success.type_pass_kind < best_key:\n")]),
    ('b2-union-nan', ['C09'], [(TF, "        if len(best_results) > 1 and any(r is not best_results[0] for r in best_results[1:]):\n", "        if len(best_results) > 1 and best_results[0] is not best_results[-1]:\n")]),
    ('b2-union-error', ['C09'], [(TF, "                if not best_results and i + 1 == len(self.sub_fillers):\n                    raise\n", "                if i + 1 == len(self.sub_fillers) and best_key is float('inf'):\n                    raise\n")]),
    ('b2-union-type-key', ['C09'], [(TF, "            except Exception:\n                if not best_results", "            except (TypeError, ValueError):\n                if not best_results")]),
    # C10
    ('b2-frozen-parent', ['C10'], [(R, "        cls._frozen = frozen\n", "        cls._frozen = frozen or getattr(cls, '_frozen', False)\n")]),
    ('b2-setattr-private', ['C10'], [(R, "        if a in RecordBase.__slots__:\n", "        if a.startswith('_'):\n")]),
    ('b2-setattr-missing', ['C10'], [(R, "        if a in RecordBase.__slots__:\n", "        if a in RecordBase.__slots__ or a not in self._fields:\n")]),
    # C11
    ('b2-eq-sub', ['C11'], [(R, "        if type(self) != type(other):\n            return False\n        if type", "        if not isinstance(other, type(self)):\n            return False\n        if type")]),
    ('b2-hash-shared', ['C11'], [(R, "        return self.__dict__, {'_hash': None}\n", "        return self.__dict__, {'_hash': self._hash}\n")]),
    ('b2-hash-include', ['C11'], [(R, "            self._hash = hash(tuple(self.to_dict().values()))\n", "            self._hash = hash((id(type(self)), *(id(v) for v in self.to_dict().values())))\n")]),
    # C12
    ('b2-order-sub', ['C12'], [(R, "        cls._ordered = ordered\n", "        cls._ordered = ordered or getattr(cls, '_ordered', False)\n")]),
    ('b2-ge-not-lt', ['C12'], [(R, "        return self.__ordering_key() >= other.__ordering_key()\n", "        return not self.__ordering_key() < other.__ordering_key()\n")]),
    ('b2-key-set', ['C12'], [(R, "        for k, f in type(self)._fields.items():\n            if exclude_from_ordering in f.tags:\n", "        for k, f in sorted(type(self)._fields.items()):\n            if exclude_from_ordering in f.tags:\n")]),
    # C13
    ('b2-default-is', ['C13'], [(R, "                   or include_defaults or not (f.has_default and f.is_default(v))\n", "                   or include_defaults or not f.has_default or not f.is_default(v) and bool(v)\n")]),
    ('b2-missing-default', ['C13'], [(R, "                    if include_defaults and field.has_default:\n", "                    if include_defaults and field.has_default and not field.default_is_factory:\n")]),
    ('b2-wl-blacklist', ['C13'], [(R, "            return f.name in whitelist_keys or not (f.tags & blacklist_tags)\n", "            return not (f.tags & blacklist_tags)\n")]),
    ('b2-sort-minus', ['C13'], [(R, "            if sort == -1:\n", "            if sort is not True and sort < 0:\n")]),
    # C15
    ('b2-factory-own-cls', ['C15'], [(S, "        return self.Bound(self, owner, Select.empty)\n", "        return self.Bound(self, type(instance) if instance else owner, Select.empty)\n")]),
    ('b2-shortcut-selected', ['C15'], [(S, "        if not select and self._shortcut:\n", "        if self._shortcut and not (select and select.keys_to_add):\n")]),
    ('b2-export-args', ['C15'], [(S, "(*self.export_args, *args), {**self.export_kwargs, **kwargs},\n                              self.select_)", "args or self.export_args, {**self.export_kwargs, **kwargs},\n                              self.select_)")]),
    # C16
    ('b2-parse-same', ['C16'], [(R, "        elif len(successes) > 1:\n", "        elif any(s is not successes[0] for s in successes):\n")]),
    ('b2-parse-first-type', ['C16'], [(R, "            else:\n                successes.append(r)\n", "            else:\n                if isinstance(r, cls):\n                    successes.append(r)\n")]),
    ('b2-parse-error-type', ['C16'], [(R, "            raise TypeError(f'multiple unary", "            raise ParseFailure(f'multiple unary")]),
    # C17
    ('b2-parse-none', ['C17'], [(R, "                if parsing is not None:\n                    return parsing\n                raise TypeError(f'class", "                if parsing:\n                    return parsing\n                raise TypeError(f'class")]),
    ('b2-ambig', ['C17'], [(R, "        if parsing is not None:\n            raise TypeError(f'positional", "        if parsing is not None and parsing != self:\n            raise TypeError(f'positional")]),
    ('b2-unary-none', ['C17'], [(R, "        if arg is not NO_ARG:\n            # handle", "        if arg is not NO_ARG and arg is not None:\n            # handle")]),
    # C19
    ('b2-json-io', ['C19'], [(R, "        return extras.json.load(v, **kwargs)\n", "        return extras.json.loads(v.read(), **kwargs)\n")]),
    ('b2-io-truth', ['C19'], [(R, "        if io is None:\n            return extras.json.dumps", "        if not io:\n            return extras.json.dumps")]),
    # C20
    ('b2-parent-order', ['C20'], [(R, "            cls._fields = FieldDict({**parent_fields, **cls._fields})\n", "            cls._fields = FieldDict({**cls._fields, **parent_fields})\n")]),
    ('b2-bind-owner', ['C20'], [(R, "            if field.owner is not cls:\n                continue\n", "            if field.filler.owner is not None:\n                continue\n")]),
    ('b2-parents-direct', ['C20'], [(R, "if issubclass(b, RecordBase) and b != RecordBase]", "if type(b) is type and b.__base__ is RecordBase]")]),
    # C21
    ('b2-default-none', ['C21'], [(F, "        return self.default is not NO_DEFAULT\n", "        return self.default not in (NO_DEFAULT, None)\n")]),
    ('b2-callable-default', ['C21'], [(F, "        if isinstance(default, Factory):\n            return default.func, True\n", "        if isinstance(default, Factory):\n            return default.func, True\n        if isinstance(default, (list, dict, set)):\n            return default.copy, True\n")]),
    # C22
    ('b2-deepcopy-frozen', ['C22'], [(R, "        d = self.__copy_values()\n        d = deepcopy(d, memo)\n", "        if self.is_frozen():\n            return self\n        d = self.__copy_values()\n        d = deepcopy(d, memo)\n")]),
    ('b2-copy-default', ['C22'], [(R, "        own = {k for k, f in type(self)._fields.items() if getattr(self, k, f.default) is not f.default}\n", "        own = {k for k, f in type(self)._fields.items() if getattr(self, k, f.default) != f.default}\n")]),
    ('b2-instance-sub', ['C22'], [(R, "        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):\n", "        if cls.is_frozen() and not maps and isinstance(v, cls):\n")]),
    # C23
    ('b2-err-base', ['C23'], [(R, "                    parent_error = type(e)(msg)\n                except Exception:\n", "                    parent_error = type(e)(msg)\n                except TypeError:\n")]),
    ('b2-err-nocause', ['C23'], [(R, "                raise parent_error from e\n", "                raise parent_error from e.__cause__\n")]),
    # C24
    ('b2-eval-type', ['C24'], [(SF, "            if not isinstance(v, str):\n                raise TypeError\n            try:\n                # an", "            if not isinstance(v, (str, bytes)) and not hasattr(v, 'co_code'):\n                raise TypeError\n            try:\n                # an")]),
    ('b2-whole-int', ['C24'], [(SF, "                return origin(round(v), *self.args, **self.kwargs)\n", "                return origin(v, *self.args, **self.kwargs)\n")]),
    ('b2-bool-eq', ['C24'], [(SF, "        if v == 1:\n            return True\n        raise TypeError\n", "        if v == 1 or isinstance(v, int):\n            return True\n        raise TypeError\n")]),
    ('b2-unpack-consumed', ['C24'], [(SF, "            v = tuple(v)\n            if len(self._type_constraints) == 2", "            if len(self._type_constraints) == 2")]),
    ('b2-map-constraint', ['C24'], [(SF, "                if tc is None or not isinstance(a, tc):\n", "                if tc is not None and not isinstance(a, tc):\n")]),
    ('b2-compose-order', ['C24'], [(C, "        functors.reverse()\n", "")]),
    # C25
    ('b2-within-none', ['C25'], [(BV, "        if self.l_eq:\n            if not (self.lt >= v):\n", "        if self.l_eq and self.lt:\n            if not (self.lt >= v):\n")]),
    ('b2-clamp-rev', ['C25'], [(BV, "        return min(max(v, self.ge), self.le)\n", "        return self.ge if v <= self.ge else self.le if v >= self.ge and v > self.le - 1 else v\n")]),
    # C26
    ('b2-assert-truthy', ['C26'], [(V, "        if not self.assert_(v):\n", "        if self.assert_(v) is False:\n")]),
    ('b2-match', ['C26'], [(BV, "        return bool(self.pattern.fullmatch(v))\n", "        m = self.pattern.match(v)\n        return bool(m) and m.end() >= len(v) - v.endswith('\\n')\n")]),
    ('b2-warn-once', ['C26'], [(V, "            if self.warn is True:\n", "            if self.warn is True or not self.warn.handlers:\n")]),
    # C27
    ('b2-memo-parser', ['C27'], [(R, "            else:\n                successes.append(r)\n", "            else:\n                successes.append(r)\n                cls._last_parser = m\n")]),
    ('b2-union-lastgood', ['C27'], [(TF, "        return FillingSuccess(best_results[0], best_key)\n", "        self.applied.clear()\n        return FillingSuccess(best_results[0], best_key)\n")]),
    # C28
    ('b2-subclass-any', ['C28'], [(G, "        blt_supertype = next((k for (k, v) in builtin_filler_map.items() if issubclass(origin, k)), None)\n", "        blt_supertype = next((k for (k, v) in builtin_filler_map.items() if k in origin.__bases__), object)\n")]),
    ('b2-literal-eq', ['C28'], [(TF, "                if v not in self.possible_values.get(type(v), ()):\n", "                if not any(v in pvs for pvs in self.possible_values.values()):\n")]),
    ('b2-none-bool', ['C28'], [(SF, "        return (v is None) and TypeMatch.exact\n", "        return (not v) and TypeMatch.exact\n")]),
    # C29
    ('b2-fi-kwargs-first', ['C29'], [(R, "        d.update(ChainMap(*maps), **kwargs)\n", "        d.update(ChainMap(*maps, kwargs))\n")]),
    ('b2-fi-maybe', ['C29'], [(R, "                missing_ok.add(new)\n                missing_ok.add(old)\n", "                missing_ok.add(new)\n")]),
    ('b2-fm-kwargs', ['C29'], [(R, "        return ChainMap(*maps, dict(**kwargs))\n", "        return ChainMap(dict(**kwargs), *maps)\n")]),
]
SAME = [
    ('b2-dict-comp', [(R, "        self.__dict__.update(values)\n", "        self.__dict__.update({k: v for k, v in values.items()})\n")]),
    ('b2-dict-gen', [(R, "        self.__dict__.update(values)\n", "        self.__dict__.update((k, v) for k, v in values.items())\n")]),
    ('b2-get-sentinel', [(S, '''        for s, v in self.keys_to_maybe_add:
            if s in mapping:
                continue
            mapping[s] = v
''', '''        for s, v in self.keys_to_maybe_add:
            if mapping.get(s, MISSING) is MISSING:
                mapping[s] = v
'''), (S, "Select.empty = Select()\n", "Select.empty = Select()\nMISSING = object()\n")]),
    ('b2-clamp-if', [(BV, '''        return min(max(v, self.ge), self.le)
''', '''        if self.ge > v:
            return min(self.ge, self.le)
        return min(v, self.le)
''')]),
]
