S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
D, TC = 'utils/decorators.py', 'utils/typing_compatible.py'
SAME = [
    ('b7-clamp-order', [(BV, "        return min(max(v, self.ge), self.le)\n", "        return max(self.ge, min(self.le, v))\n")]),
]
BUGS = [
    # C01
    ('b7-values-setdefault', ['C01'], [(R, "        for k in cls._optional_keys.difference(kwargs):\n            values[k] = cls._fields[k].make_default()\n", "        for k in cls._optional_keys:\n            if values.get(k) is None:\n                values[k] = cls._fields[k].make_default()\n")]),
    ('b7-replacement-truthy', ['C01'], [(R, "            if replacement is not None:\n                self = replacement\n", "            if replacement:\n                self = replacement\n")]),
    ('b7-redundant-first', ['C01'], [(R, "        if not (kwargs.keys() <= cls._fields.keys()):\n", "        if len(kwargs) > len(cls._fields):\n")]),
    ('b7-required-count', ['C01'], [(R, "        if not (cls._required_keys <= kwargs.keys()):\n", "        if len(kwargs) < len(cls._required_keys):\n")]),
    ('b7-private-arg', ['C01'], [(R, "        if not (kwargs.keys() <= cls._fields.keys()):\n            redundant = kwargs.keys() - cls._fields.keys()\n", "        kwargs = {k: v for k, v in kwargs.items() if k in cls._fields or not k.startswith('_')}\n        if not (kwargs.keys() <= cls._fields.keys()):\n            redundant = kwargs.keys() - cls._fields.keys()\n")]),
    # C02/C03
    ('b7-check-once', ['C02'], [(FF, "                        tc = self.type_check(coerced)\n                        if not tc \\\n", "                        tc = self.type_check(coerced) if coerced is not arg else TypeMatch.exact\n                        if not tc \\\n")]),
    ('b7-inexact-enum', ['C02'], [(FF, "            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:\n", "            elif tp and (self.type_checking_style is TypeCheckStyle.check or not self.coercers):\n")]),
    ('b7-continue-arg', ['C03'], [(FF, "                    except Exception:\n                        if i == len(self.coercers) - 1:\n                            raise\n", "                    except Exception:\n                        if i == len(self.coercers) - 1:\n                            raise\n                        if type(arg) is str:\n                            arg = arg.strip()\n")]),
    ('b7-typeerror-only', ['C03'], [(FF, "                    except Exception:\n                        if i == len(self.coercers) - 1:\n                            raise\n", "                    except (TypeError, ValueError, LookupError, ArithmeticError, AttributeError):\n                        if i == len(self.coercers) - 1:\n                            raise\n")]),
    ('b7-none-coerced', ['C03'], [(FF, "                        coerced = coercer(arg)\n", "                        coerced = coercer(arg)\n                        if coerced is None:\n                            continue\n")]),
    ('b7-apply-front-strict', ['C03'], [(FF, "            self.coercers.append(self.get_coercer(coercion_token))\n            return\n", "            self.coercers.insert(0 if self.type_checking_style is TypeCheckStyle.check_strict else len(self.coercers), self.get_coercer(coercion_token))\n            return\n")]),
    # C04
    ('b7-validators-break', ['C04'], [(FF, "        for validator in self.validators:\n            arg = validator(arg)\n", "        for validator in self.validators:\n            validated = validator(arg)\n            if validated is None:\n                break\n            arg = validated\n")]),
    ('b7-validators-set', ['C04'], [(FF, "            self.validators.append(self.get_validator(validation_token))\n            return\n", "            validator = self.get_validator(validation_token)\n            if validator not in self.validators:\n                self.validators.append(validator)\n            return\n")]),
    ('b7-both-tokens', ['C04'], [(FF, "            return\n        validation_token = _as_instance(token, ValidationToken)\n", "            return\n        validation_token = _as_instance(token, ValidationToken) if self.type_checking_style is not TypeCheckStyle.hollow else None\n")]),
    ('b7-union-hollow-validators', ['C04'], [(TF, "        if self.is_inert():\n            return FillingSuccess(arg, TypePassKind.hollow)\n        best_results", "        if self.is_hollow():\n            return FillingSuccess(arg, TypePassKind.hollow)\n        best_results")]),
    # C05
    ('b7-default-late', ['C05'], [(FF, "        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = owner_cls.default_type_check_style()\n", "        if self.type_checking_style == TypeCheckStyle.default or not self.args:\n            self.type_checking_style = owner_cls.default_type_check_style()\n")]),
    ('b7-style-last-only', ['C05'], [(FF, "        if isinstance(token, TypeCheckStyle):\n            self.type_checking_style = token\n", "        if isinstance(token, TypeCheckStyle):\n            if self.type_checking_style is TypeCheckStyle.default:\n                self.type_checking_style = token\n")]),
    # C06
    ('b7-dumb-inner', ['C06'], [(G, "            if not inner_filler.is_inert():\n", "            if not inner_filler.is_hollow():\n")]),
    ('b7-dumb-default-ok', ['C06'], [(G, "        if owner_cls.default_type_check_style() is not TypeCheckStyle.hollow:\n", "        if owner_cls.default_type_check_style() is TypeCheckStyle.check_strict:\n")]),
    ('b7-final-frozen-late', ['C06'], [(F, "            if not owner.is_frozen():\n", "            if not owner.is_frozen() and not args:\n")]),
    ('b7-hollow-inner-any', ['C06', 'C04'], [(TF, "            if not all(inner_filler.is_inert() for inner_filler in self.sub_fillers):\n                if self.is_hollow():\n", "            if not all(inner_filler.is_inert() for inner_filler in self.sub_fillers):\n                if self.is_hollow() and not any(inner_filler.is_inert() for inner_filler in self.sub_fillers):\n")]),
    # C07
    ('b7-split-off', ['C07'], [(TF, "        return islice(i, ignore_ind), islice(i, 1, None)\n", "        return islice(i, ignore_ind), i\n")]),
    ('b7-tuple-tail-fillers', ['C07'], [(TF, "                                                            self.sub_fillers[hollow_passes + 1:]))\n", "                                                            self.sub_fillers[hollow_passes:]))\n")]),
    ('b7-deque-maxlen', ['C07'], [(TF, "        if isinstance(initial, deque):\n            return type(initial)(elements, initial.maxlen)\n        return type(initial)(elements)\n", "        if type(initial) is deque:\n            return deque(elements, initial.maxlen)\n        return type(initial)(elements)\n")]),
    ('b7-iter-eq', ['C07'], [(TF, "                    filled = self.element_filler(element)\n                    if filled is element:\n", "                    filled = self.element_filler(element)\n                    if filled is element or filled == element:\n")]),
    # C08
    ('b7-from-mapping-first', ['C08'], [(R, "        return ChainMap(*maps, dict(**kwargs))\n", "        if len(maps) == 1 and isinstance(maps[0], dict):\n            for k, v in kwargs.items():\n                maps[0].setdefault(k, v)\n            return maps[0]\n        return ChainMap(*maps, dict(**kwargs))\n")]),
    ('b7-eval-kwargs', ['C27'], [(SF, "            ns = {**self.kwargs, origin.__name__: origin}\n", "            ns.setdefault(origin.__name__, origin)\n")]),
    # C09
    ('b7-union-first-exact', ['C09'], [(TF, "            if success.type_pass_kind < best_key:\n                best_results = [success.value]\n                best_key = success.type_pass_kind\n", "            if success.type_pass_kind < best_key:\n                best_results = [success.value]\n                best_key = success.type_pass_kind\n                if best_key == TypePassKind.no_coerce_strict:\n                    break\n")]),
    ('b7-union-hash-tie', ['C09'], [(TF, "        if len(best_results) > 1 and any(r is not best_results[0] for r in best_results[1:]):\n", "        if len(best_results) > 1 and best_key != TypePassKind.hollow and any(r is not best_results[0] for r in best_results[1:]):\n")]),
    ('b7-union-err', ['C09'], [(TF, "                if not best_results and i + 1 == len(self.sub_fillers):\n                    raise\n", "                if not any(best_results) and i + 1 == len(self.sub_fillers):\n                    raise\n")]),
    # C10
    ('b7-frozen-parent', ['C10'], [(R, "        if frozen:\n            cls.__setattr__ = RecordBase.__setattr__\n", "        if frozen and '__setattr__' not in cls.__dict__:\n            cls.__setattr__ = RecordBase.__setattr__\n")]),
    # C11
    ('b7-hash-recompute', ['C11'], [(R, "            self._hash = hash(tuple(self.to_dict().values()))\n", "            self._hash = hash(tuple(self.to_dict(include_defaults=True, sort=True).items()) + (id(type(self)),))\n")]),
    ('b7-hash-str', ['C11'], [(R, "            self._hash = hash(tuple(self.to_dict().values()))\n", "            self._hash = hash(repr(self))\n")]),
    ('b7-eq-subset', ['C11'], [(R, "        for name in self._fields:\n            if getattr(self, name) != getattr(other, name):\n", "        for name in self._required_keys or self._fields:\n            if getattr(self, name) != getattr(other, name):\n")]),
    ('b7-eq-falsy', ['C11'], [(R, "            if getattr(self, name) != getattr(other, name):\n                return False\n        return True\n", "            if (getattr(self, name) or None) != (getattr(other, name) or None):\n                return False\n        return True\n")]),
    # C12
    ('b7-lt-sets', ['C12'], [(R, "        return self.__ordering_key() < other.__ordering_key()\n", "        return self.__ordering_key()[:len(self._required_keys) or None] < other.__ordering_key()[:len(self._required_keys) or None]\n")]),
    ('b7-order-own-fields', ['C12'], [(R, "        for k, f in type(self)._fields.items():\n            if exclude_from_ordering", "        for k, f in sorted(type(self)._fields.items(), key=lambda kf: kf[1].owner is not type(self)):\n            if exclude_from_ordering")]),
    ('b7-other-type', ['C12'], [(R, "        if not isinstance(other, type(self)):\n            return NotImplemented\n        return self.__ordering_key() > other", "        if type(other) is not type(self):\n            return NotImplemented\n        return self.__ordering_key() > other")]),
    # C13
    ('b7-export-callable-sort', ['C13'], [(R, "            if sort == -1:\n                name_values = sorted(name_values, reverse=True)\n", "            if sort == -1:\n                name_values = reversed(list(name_values))\n")]),
    ('b7-whitelist-substr', ['C13'], [(R, "        if isinstance(whitelist_keys, str):\n            whitelist_keys = frozenset([whitelist_keys])\n", "        if isinstance(whitelist_keys, str) and whitelist_keys not in cls._fields:\n            whitelist_keys = frozenset([whitelist_keys])\n")]),
    ('b7-missing-default', ['C13'], [(R, "                    if include_defaults and field.has_default:\n", "                    if (include_defaults or field.name in whitelist_keys) and field.has_default:\n")]),
    # C14
    # C15
    ('b7-factory-select-twice', ['C15'], [(S, "        mapping = self.func(cls, *args, _select=select, **kwargs)\n        mapping = select(mapping)\n        return cls(**mapping)\n", "        mapping = self.func(cls, *args, _select=select, **kwargs)\n        if not kwargs:\n            mapping = select(mapping)\n        return cls(**mapping)\n")]),
    ('b7-shortcut-kw', ['C15'], [(S, "            ret = self._shortcut(cls, *args, **kwargs)\n", "            ret = self._shortcut(cls, *args)\n")]),
    ('b7-export-merge-order', ['C15'], [(S, "(*self.export_args, *args), {**self.export_kwargs, **kwargs},\n", "(*self.export_args, *args), {**kwargs, **self.export_kwargs},\n")]),
    # C16
    ('b7-parse-same', ['C16'], [(R, "            else:\n                successes.append(r)\n", "            else:\n                if r not in successes:\n                    successes.append(r)\n")]),
    ('b7-parse-own', ['C16'], [(R, "        for name in dir(cls):\n            v = getattr_static(cls, name)\n            if getattr(v, '__parser__', False):\n", "        for name in dir(cls):\n            v = getattr_static(cls, name)\n            if getattr(v, '__parser__', False) and not name.startswith('_'):\n")]),
    # C17
    ('b7-unary-parse-type', ['C17'], [(R, "        if parsing is not None:\n            raise TypeError(f'positional argument", "        if parsing is not None and parsing != self:\n            raise TypeError(f'positional argument")]),
    ('b7-parse-any-error', ['C17'], [(R, "                except ParseFailure:\n", "                except (ParseFailure, TypeError):\n")]),
    # C18
    ('b7-parse-pickle', ['C18'], [(R, "        return extras.json.loads(v, **kwargs)\n", "        if isinstance(v, bytes) and v[:1] == b'\\x80':\n            v = extras.pickle.loads(v)\n        return extras.json.loads(v, **kwargs)\n")]),
    # C19
    ('b7-json-io-default', ['C19'], [(R, "        if io is None:\n            return extras.json.dumps(v, *args, **kwargs)\n", "        if not io:\n            return extras.json.dumps(v, *args, **kwargs)\n")]),
    # C20
    ('b7-bind-parent', ['C20'], [(R, "            if field.owner is not cls:\n                continue\n            field.filler.bind(cls)\n", "            if field.filler.owner:\n                continue\n            field.filler.bind(cls)\n")]),
    ('b7-own-first', ['C20'], [(R, "            cls._fields = FieldDict({**parent_fields, **cls._fields})\n", "            cls._fields = FieldDict({**cls._fields, **parent_fields})\n")]),
    # C21
    ('b7-default-eq', ['C21'], [(F, "        return self.default is not NO_DEFAULT\n", "        return self.default not in (NO_DEFAULT, None)\n")]),
    ('b7-factory-type', ['C21'], [(F, "        if isinstance(default, Factory):\n            return default.func, True\n", "        if isinstance(default, (Factory, type)):\n            return getattr(default, 'func', default), True\n")]),
    # C22
    ('b7-copy-default-eq', ['C22'], [(R, "if getattr(self, k, f.default) is not f.default}\n", "if getattr(self, k, f.default) != f.default}\n")]),
    ('b7-deepcopy-frozen', ['C22'], [(R, "        if memo is None:\n            memo = {}\n", "        if memo is None:\n            memo = {}\n        if self.is_frozen() and self._hash is not None:\n            return self\n")]),
    # C23
    ('b7-cause-missing', ['C23'], [(R, "                raise parent_error from e\n", "                raise parent_error from (e.__cause__ or e)\n")]),
    ('b7-value-error', ['C23'], [(R, "                    parent_error = type(e)(msg)\n", "                    parent_error = (type(e) if type(e).__module__ == 'builtins' else ValueError)(msg)\n")]),
    # C24
    ('b7-whole-round', ['C24'], [(SF, "            if isclose(mod, 0) or isclose(mod, 1):\n", "            if isclose(mod, 0, abs_tol=1e-3) or isclose(mod, 1):\n")]),
    ('b7-map-unhashable', ['C24'], [(C, "        if v in self.value_map:\n            return self.value_map[v]\n", "        if self.value_map.get(v) is not None:\n            return self.value_map[v]\n")]),
    ('b7-unpack-zip', ['C24'], [(SF, "                if len(v) != len(self._type_constraints) \\\n", "                if len(v) > len(self._type_constraints) \\\n")]),
    ('b7-signed-bits', ['C24'], [(SF, "            args = ((v.bit_length() + 7 + signed) // 8,)\n", "            args = ((v.bit_length() + 8) // 8,)\n")]),
    # C25
    ('b7-within-eq', ['C25'], [(BV, "        if ge > lt or ((not g_eq or not l_eq) and ge == lt):\n", "        if ge > lt or (not g_eq and not l_eq and ge == lt):\n")]),
    # C26
    ('b7-warn-logger', ['C26'], [(V, "            if self.warn is True:\n", "            if self.warn == True or not hasattr(self.warn, 'warning'):\n")]),
    ('b7-err-class', ['C26'], [(V, "        if isinstance(self.err, Exception):\n            return self.err\n", "        if isinstance(self.err, Exception) and not self.warn:\n            return self.err\n")]),
    # C27
    ('b7-filler-cache', ['C27'], [(G, "    origin, args = split_annotation(stored_type)\n    return get_annotated_filler(origin, args)\n", "    try:\n        return _cache[stored_type]\n    except (KeyError, TypeError):\n        pass\n    origin, args = split_annotation(stored_type)\n    ret = get_annotated_filler(origin, args)\n    if not args and not origin.__class__ is type:\n        return ret\n    try:\n        _cache[stored_type] = ret\n    except TypeError:\n        pass\n    return ret\n\n\n_cache = {}\n")]),
    # C28
    ('b7-newtype-args', ['C28'], [(G, "            return get_annotated_filler(new_origin, (*new_args, *args))\n", "            return get_annotated_filler(new_origin, args or new_args)\n")]),
    # C29
    ('b7-inst-update', ['C29'], [(R, "        d.update(ChainMap(*maps), **kwargs)\n", "        for m in maps:\n            d.update(m)\n        d.update(kwargs)\n")]),
    ('b7-inst-maybe-rename', ['C29'], [(R, "                missing_ok.add(new)\n                missing_ok.add(old)\n", "                missing_ok.add(old)\n")]),
]
