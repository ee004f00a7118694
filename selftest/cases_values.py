R = 'record.py'
EQH = """        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
            # both hashes are already known, and differ
            return False
"""
EQL = """        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
"""
KEY = """        for k, f in type(self)._fields.items():
            if exclude_from_ordering in f.tags:
                continue
            ret.append(getattr(self, k))
        return ret
"""
BUGS = [
    ('v-isinstance', ['C11'], [(R, "        if type(self) != type(other):\n            return False", "        if not isinstance(other, type(self)):\n            return False")]),
    ('v-eq-hash-true', ['C11'], [(R, EQH, EQH + "        if type(self).is_frozen() and None not in (self._hash, other._hash):\n            return True\n")]),
    ('v-eq-hash-force', ['C11'], [(R, EQH, "        if type(self).is_frozen() and self._hash != other._hash:\n            return False\n")]),
    ('v-eq-required-only', ['C11'], [(R, "        for name in self._fields:\n            if getattr(self, name)", "        for name in self._required_keys:\n            if getattr(self, name)")]),
    ('v-eq-first', ['C11'], [(R, EQL, "        for name in self._fields:\n            return getattr(self, name) == getattr(other, name)\n        return True\n")]),
    ('v-eq-or', ['C11'], [(R, "            if getattr(self, name) != getattr(other, name):\n", "            if getattr(self, name) != getattr(other, name) and self._fields[name].tags == set():\n")]),
    ('v-eq-none', ['C11'], [(R, "            if getattr(self, name) != getattr(other, name):\n", "            if getattr(self, name) is not None and getattr(self, name) != getattr(other, name):\n")]),
    ('v-hash-id', ['C11'], [(R, "hash(tuple(self.to_dict().values()))", "hash((id(self), *self.to_dict().values()))")]),
    ('v-hash-repr', ['C11'], [(R, "hash(tuple(self.to_dict().values()))", "hash(repr(self))")]),
    ('v-hash-types', ['C11'], [(R, "hash(tuple(self.to_dict().values()))", "hash(tuple((type(x), x) for x in self.to_dict().values()))")]),
    ('v-hash-keepother', ['C11'], [(R, "            self._hash = hash(tuple(self.to_dict().values()))\n        return self._hash", "            self._hash = hash(type(self))\n            return hash(tuple(self.to_dict().values()))\n        return self._hash")]),
    ('v-state', ['C11'], [(R, "        return self.__dict__, {'_hash': None}", "        return self.__dict__, {'_hash': self._hash}")]),
    ('v-state-none', ['C11'], [(R, "    def __getstate__(self):\n        # the cached hash is only valid in the current process, so it must never be pickled\n        return self.__dict__, {'_hash': None}\n", "")]),
    ('v-hash-unset', ['C11'], [(R, "            cls.__hash__ = None\n", "            cls.__hash__ = object.__hash__\n")]),
    ('v-hash-inherit', ['C11'], [(R, "            cls.__hash__ = RecordBase.__hash__\n", "            pass\n")]),
    ('o-tags-eq', ['C12'], [(R, "            if exclude_from_ordering in f.tags:", "            if f.tags == {exclude_from_ordering}:")]),
    ('o-no-exclude', ['C12'], [(R, "            if exclude_from_ordering in f.tags:", "            if False:")]),
    ('o-defaults', ['C12'], [(R, "            if exclude_from_ordering in f.tags:", "            if exclude_from_ordering in f.tags or f.is_default(getattr(self, k)):")]),
    ('o-sorted', ['C12'], [(R, "type(self)._fields.items():\n            if exclude", "sorted(type(self)._fields.items()):\n            if exclude")]),
    ('o-set', ['C12'], [(R, "            ret.append(getattr(self, k))\n        return ret", "            ret.append(getattr(self, k))\n        return frozenset(ret)")]),
    ('o-le-lt', ['C12'], [(R, "        return self.__ordering_key() <= other.__ordering_key()", "        return self.__ordering_key() < other.__ordering_key()")]),
    ('o-ge-swap', ['C12'], [(R, "        return self.__ordering_key() >= other.__ordering_key()", "        return other.__ordering_key() >= self.__ordering_key()")]),
    ('o-notimpl-first', ['C12'], [(R, "        self._check_comparable()\n        if not isinstance(other, type(self)):\n            return NotImplemented\n        return self.__ordering_key() > ", "        if not isinstance(other, type(self)):\n            return NotImplemented\n        self._check_comparable()\n        return self.__ordering_key() > ")]),
    ('o-no-check', ['C12'], [(R, "        self._check_comparable()\n        if not isinstance(other, type(self)):\n            return NotImplemented\n        return self.__ordering_key() >= ", "        if not isinstance(other, type(self)):\n            return NotImplemented\n        return self.__ordering_key() >= ")]),
    ('o-recordbase', ['C12'], [(R, "        if not isinstance(other, type(self)):\n            return NotImplemented\n        return self.__ordering_key() >= ", "        if not isinstance(other, RecordBase):\n            return NotImplemented\n        return self.__ordering_key() >= ")]),
    ('o-check-any-base', ['C12'], [(R, "        if not cls._ordered:\n", "        if not any(getattr(c, '_ordered', False) for c in cls.__mro__):\n")]),
    ('p-copy-self', ['C22'], [(R, "        if self.is_frozen():\n            return self\n", "        if self.is_frozen() or not self._required_keys:\n            return self\n")]),
    ('p-deep-nomemo', ['C22'], [(R, "        d = deepcopy(d, memo)", "        d = deepcopy(d)")]),
    ('p-deep-frozen', ['C22'], [(R, "        if memo is None:\n            memo = {}\n", "        if self.is_frozen():\n            return self\n        if memo is None:\n            memo = {}\n")]),
    ('p-deep-falsy', ['C22'], [(R, "        if memo is None:\n            memo = {}\n", "        memo = dict(memo or {})\n")]),
    ('p-deep-shallow', ['C22'], [(R, "        d = deepcopy(d, memo)", "        d = dict(d)")]),
    ('p-deep-class', ['C22'], [(R, "        return self.from_mapping(d)", "        return type(self).__mro__[1].from_mapping(d)")]),
    ('p-inst-kwargs', ['C22'], [(R, "        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):", "        if cls.is_frozen() and not kwargs and isinstance(v, cls):")]),
    ('p-inst-frozen', ['C22'], [(R, "        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):", "        if not maps and not kwargs and isinstance(v, cls):")]),
    ('p-inst-anyrec', ['C22'], [(R, "        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):", "        if cls.is_frozen() and not maps and not kwargs and isinstance(v, RecordBase):")]),
]
SAME = [
    ('v-all', [(R, EQL, "        return all(getattr(self, name) == getattr(other, name) for name in self._fields)\n")]),
    ('v-any', [(R, EQL, "        return not any(getattr(self, n) != getattr(other, n) for n in type(self)._fields)\n")]),
    ('v-nested', [(R, "        if type(self) != type(other):\n            return False\n" + EQH + EQL, "        if type(self) is type(other):\n            if type(self).is_frozen():\n                mine, theirs = self._hash, other._hash\n                if mine is not None and theirs is not None and mine != theirs:\n                    return False\n            for name in type(self)._fields.keys():\n                if not (getattr(self, name) == getattr(other, name)):\n                    break\n            else:\n                return True\n        return False\n")]),
    ('v-nohash', [(R, EQH, "")]),
    ('v-hash-local', [(R, "        if self._hash is None:\n            self._hash = hash(tuple(self.to_dict().values()))\n        return self._hash", "        ret = self._hash\n        if ret is None:\n            values = tuple(self.to_dict().values())\n            self._hash = ret = hash(values)\n        return ret")]),
    ('v-hash-type', [(R, "hash(tuple(self.to_dict().values()))", "hash((type(self), *self.to_dict().values()))")]),
    ('v-hash-all', [(R, "hash(tuple(self.to_dict().values()))", "hash(tuple(getattr(self, k) for k in self._fields))")]),
    ('v-state-nn', [(R, "        return self.__dict__, {'_hash': None}", "        state = dict(self.__dict__)\n        slots = {}\n        slots['_hash'] = None\n        return state, slots")]),
    ('o-comp', [(R, "        f: RecordField\n        ret = []\n" + KEY, "        return [getattr(self, k) for k, f in type(self)._fields.items() if exclude_from_ordering not in f.tags]\n")]),
    ('o-tuple', [(R, "            ret.append(getattr(self, k))\n        return ret", "            ret.append(getattr(self, k))\n        return tuple(ret)")]),
    ('o-swap', [(R, "        return self.__ordering_key() > other.__ordering_key()", "        mine, theirs = self.__ordering_key(), other.__ordering_key()\n        return theirs < mine")]),
    ('o-nested', [(R, "        if not isinstance(other, type(self)):\n            return NotImplemented\n        return self.__ordering_key() > other.__ordering_key()", "        if isinstance(other, type(self)):\n            return self.__ordering_key() > other.__ordering_key()\n        return NotImplemented")]),
    ('o-field-name', [(R, KEY, "        for f in self._fields.values():\n            if exclude_from_ordering not in f.tags:\n                ret.append(getattr(self, f.name))\n        return ret\n")]),
    ('o-helper', [(R, "        self._check_comparable()\n        if not isinstance(other, type(self)):\n            return NotImplemented\n        return self.__ordering_key() < other.__ordering_key()", "        return self._compare(other, lambda a, b: a < b)\n\n    def _compare(self, other, op):\n        self._check_comparable()\n        if not isinstance(other, type(self)):\n            return NotImplemented\n        return op(self.__ordering_key(), other.__ordering_key())")]),
    ('p-deep-inline', [(R, "        d = deepcopy(d, memo)\n        return self.from_mapping(d)", "        return type(self).from_mapping(deepcopy(d, memo))")]),
    ('p-ternary', [(R, "        if self.is_frozen():\n            return self\n        return type(self).from_mapping(self.__copy_values())", "        return self if type(self)._frozen else self.from_mapping(self.__copy_values())")]),
    ('p-inst-nested', [(R, "        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):\n            return v\n        return NotImplemented", "        if maps or kwargs:\n            return NotImplemented\n        if not cls.is_frozen() or not isinstance(v, cls):\n            return NotImplemented\n        return v")]),
]
