S, R, F = 'select.py', 'record.py', 'field.py'
FF = 'fillers/filler.py'
TF = 'fillers/builtin_fillers/typing_fillers.py'
SF = 'fillers/builtin_fillers/std_fillers.py'
BV = 'fillers/builtin_validators.py'
V, C, G, U = 'fillers/validators.py', 'fillers/coercers.py', 'fillers/get_filler.py', 'fillers/util.py'
BUGS = [
    ('b9-pickle-any-record', ['C19'], [(R, "        ret = extras.pickle.loads(v, *args, **kwargs)\n        if not isinstance(ret, cls):\n", "        ret = extras.pickle.loads(v, *args, **kwargs)\n        if not isinstance(ret, (cls, RecordBase)):\n")]),
    ('b9-pickle-no-parse', ['C19'], [(R, "        ret = extras.pickle.load(v, *args, **kwargs)\n        if not isinstance(ret, cls):\n            return cls.parse(ret)\n", "        ret = extras.pickle.load(v, *args, **kwargs)\n        if not isinstance(ret, cls):\n            return cls(**ret)\n")]),
    ('b9-parsing-falsy', ['C17'], [(R, "                if parsing is not None:\n                    return parsing\n                raise TypeError(f'class {cls.__qualname__} accepts", "                if parsing:\n                    return parsing\n                raise TypeError(f'class {cls.__qualname__} accepts")]),
    ('b9-parse-dedupe', ['C16'], [(R, "            else:\n                successes.append(r)\n", "            else:\n                if r not in successes:\n                    successes.append(r)\n")]),
    ('b9-parse-own-type', ['C16'], [(R, "            except Exception:\n                pass\n            else:\n                successes.append(r)\n", "            except Exception:\n                pass\n            else:\n                if isinstance(r, cls):\n                    successes.append(r)\n")]),
    ('b9-frozen-hash-sub', ['C11'], [(R, "        if type(self) != type(other):\n            return False\n        if type(self)", "        if type(self)._fields != type(other)._fields:\n            return False\n        if type(self)")]),
    ('b9-chainmap-order', ['C29'], [(R, "        return ChainMap(*maps, dict(**kwargs))\n", "        return ChainMap(*reversed(maps), dict(**kwargs))\n")]),
    ('b9-inst-maps-first', ['C29'], [(R, "        d.update(ChainMap(*maps), **kwargs)\n        return d\n", "        return {**ChainMap(*maps), **d, **kwargs}\n")]),
    ('b9-sort-values', ['C13'], [(R, "                name_values = sorted(name_values, reverse=True)\n", "                name_values = reversed(list(name_values))\n")]),
    ('b9-default-missing-export', ['C13', 'C29'], [(R, "                    if include_defaults and field.has_default:\n", "                    if field.has_default:\n")]),
    ('b9-copy-own', ['C22'], [(R, "if getattr(self, k, f.default) is not f.default}", "if getattr(self, k, f.default) != f.default}")]),
    ('b9-order-tuple', ['C12'], [(R, "            if exclude_from_ordering in f.tags:\n                continue\n            ret.append(getattr(self, k))\n", "            if exclude_from_ordering in f.tags or f.owner is not type(self) and f.has_default:\n                continue\n            ret.append(getattr(self, k))\n")]),
    ('b9-getstate-hash', ['C11'], [(R, "        return self.__dict__, {'_hash': None}\n", "        return self.__dict__, {'_hash': self._hash if self.is_frozen() else None}\n")]),
    ('b9-json-io-select', ['C19'], [(R, "        extras.json.dump(v, io, *args, **kwargs)\n", "        extras.json.dump(v, io, **kwargs)\n")]),
    ('b9-export-positional', ['C15'], [(S, "        mapping = cls._to_dict(instance, *export_args, **export_kwargs)\n        mapping = select(mapping)\n        return self.func(mapping, *args, **kwargs)\n", "        mapping = cls._to_dict(instance, *export_args, **export_kwargs)\n        mapping = select(mapping) if mapping else mapping\n        return self.func(mapping, *args, **kwargs)\n")]),
    ('b9-shortcut-none', ['C15'], [(S, "            if ret is not NotImplemented:\n                return ret\n        return super().run", "            if ret is not NotImplemented and ret is not None:\n                return ret\n        return super().run")]),
    ('b9-shortcut-select', ['C15'], [(S, "        if not select and self._shortcut:\n", "        if (not select or not select.keys_to_add) and self._shortcut:\n")]),
    ('b9-select-own', ['C14'], [(S, "            if d in mapping:\n                raise ValueError(f'key {d} cannot be overridden in map')\n            mapping[d] = mapping.pop(s)\n        for s, d in self.keys_to_maybe_rename:", "            if d in mapping and d != s:\n                raise ValueError(f'key {d} cannot be overridden in map')\n            mapping[d] = mapping.pop(s)\n        for s, d in self.keys_to_maybe_rename:")]),
    ('b9-bool-chain', ['C14'], [(S, "                self.keys_to_maybe_rename,\n            ), None) is not None\n", "                self.keys_to_maybe_rename,\n            ), None) not in (None, '')\n")]),
    ('b9-annot-call', ['C04'], [(FF, "        if self.type_checking_style is TypeCheckStyle.hollow and not self.validators:\n            return arg\n", "        if self.type_checking_style is TypeCheckStyle.hollow and (arg is None or not self.validators):\n            return arg\n")]),
    ('b9-validator-none', ['C04'], [(FF, "            arg = validator(arg)\n\n", "            validated = validator(arg)\n            if validated is not None:\n                arg = validated\n\n")]),
    ('b9-coercer-same', ['C03'], [(FF, "                        coerced = coercer(arg)\n                        tc = self.type_check(coerced)\n", "                        coerced = coercer(arg)\n                        if coerced is arg:\n                            break\n                        tc = self.type_check(coerced)\n")]),
    ('b9-union-last-raise', ['C09'], [(TF, "                if not best_results and i + 1 == len(self.sub_fillers):\n                    raise\n                continue\n", "                if i + 1 == len(self.sub_fillers):\n                    raise\n                continue\n")]),
    ('b9-union-eq', ['C09'], [(TF, "any(r is not best_results[0] for r in best_results[1:])", "any(r is not best_results[0] and r != best_results[0] for r in best_results[1:])")]),
    ('b9-union-inert-any', ['C04', 'C09'], [(TF, "        if self.is_inert():\n            return FillingSuccess(arg, TypePassKind.hollow)\n", "        if self.is_hollow():\n            return FillingSuccess(arg, TypePassKind.hollow)\n")]),
    ('b9-typecheck-late', ['C05'], [(FF, "        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = owner_cls.default_type_check_style()\n", "        if self.type_checking_style == TypeCheckStyle.default:\n            self.type_checking_style = owner_cls.default_type_check_style() if not self.validators else TypeCheckStyle.hollow\n")]),
    ('b9-style-first', ['C05'], [(FF, "        if isinstance(token, TypeCheckStyle):\n            self.type_checking_style = token\n            return\n", "        if isinstance(token, TypeCheckStyle):\n            if self.type_checking_style is TypeCheckStyle.default:\n                self.type_checking_style = token\n            return\n")]),
    ('b9-required-order', ['C01'], [(R, "        if not (cls._required_keys <= kwargs.keys()):\n", "        if len(kwargs) < len(cls._required_keys):\n")]),
    ('b9-default-given-none', ['C21'], [(R, "            values[k] = cls._fields[k].make_default()\n", "            values[k] = cls._fields[k].filler(cls._fields[k].make_default())\n")]),
]
SAME = []
