S = 'select.py'
BUGS = [
    ('sel-add-skips', ['C14'], [(S, "raise ValueError(f'key {s} cannot be overridden in map')\n            mapping[s] = v", "continue\n            mapping[s] = v")]),
    ('sel-maybe-rename-overwrites', ['C14'], [(S, """            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, v in self.keys_to_add""", """            mapping[d] = mapping.pop(s)
        for s, v in self.keys_to_add""")]),
    ('sel-maybe-rename-get', ['C14'], [(S, "            mapping[d] = mapping.pop(s)\n        for s, v in self.keys_to_add", "            mapping[d] = mapping[s]\n        for s, v in self.keys_to_add")]),
    ('sel-remove-lenient', ['C14'], [(S, "mapping.pop(kti)\n", "mapping.pop(kti, None)\n")]),
    ('sel-order', ['C14'], [(S, """        for s, v in self.keys_to_add:
            if s in mapping:
                raise ValueError(f'key {s} cannot be overridden in map')
            mapping[s] = v
""", ""), (S, "        for kti in self.keys_to_remove:\n", """        for s, v in self.keys_to_add:
            if s in mapping:
                raise ValueError(f'key {s} cannot be overridden in map')
            mapping[s] = v
        for kti in self.keys_to_remove:
""")]),
    ('sel-bool-misses-one', ['C14'], [(S, "                self.keys_to_maybe_remove,\n                self.keys_to_rename,", "                self.keys_to_rename,")]),
    ('sel-merge-order', ['C14'], [(S, "chain(self.keys_to_rename, other.keys_to_rename)", "chain(other.keys_to_rename, self.keys_to_rename)")]),
    ('sel-merge-wrong-kind', ['C14'], [(S, "chain(self.keys_to_maybe_add, other.keys_to_maybe_add)", "chain(self.keys_to_maybe_add, other.keys_to_add)")]),
    ('sel-merge-drops-self', ['C14'], [(S, "ret = ret._merge(other)", "ret = self._merge(other)")]),
    ('sel-snapshot', ['C14'], [(S, "self.keys_to_remove = tuple(keys_to_remove)", "self.keys_to_remove = keys_to_remove")]),
    ('sel-str', ['C14'], [(S, "if isinstance(keys_to_maybe_remove, str):\n            keys_to_maybe_remove = (keys_to_maybe_remove,)", "pass")]),
    ('sel-early-stop', ['C14'], [(S, "            if s not in mapping:\n                continue", "            if s not in mapping:\n                break")]),
    ('sel-cache-stale', ['C14'], [(S, "self._bool = None\n", "self._bool = bool(self.keys_to_add)\n")]),
    ('sel-return-orig', ['C14'], [(S, "            mapping[s] = v\n\n        return mapping", "            mapping[s] = v\n\n        return dict()")]),
]
SAME = [
    ('sel-del', [(S, "mapping.pop(kti)\n", "del mapping[kti]\n")]),
    ('sel-if-in-pop', [(S, "mapping.pop(kti, None)", "if kti in mapping:\n                del mapping[kti]")]),
    ('sel-setdefault', [(S, "            if s in mapping:\n                continue\n            mapping[s] = v", "            mapping.setdefault(s, v)")]),
    ('sel-notin', [(S, "            if s in mapping:\n                continue\n            mapping[s] = v", "            if s not in mapping:\n                mapping[s] = v")]),
    ('sel-copy', [(S, "mapping = dict(mapping)", "mapping = {**mapping}")]),
    ('sel-helper', [(S, """        for s, d in self.keys_to_rename:
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
""", """        for s, d in self.keys_to_rename:
            self._rename(mapping, s, d)
"""), (S, "    def __bool__(self):", """    @staticmethod
    def _rename(m, old, new):
        if new in m:
            raise ValueError(f'key {new} cannot be overridden in map')
        value = m[old]
        del m[old]
        m[new] = value

    def __bool__(self):""")]),
    ('sel-try', [(S, "mapping.pop(kti, None)", "try:\n                del mapping[kti]\n            except KeyError:\n                pass")]),
    ('sel-bool-any', [(S, """            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
""", """            self._bool = bool(self.keys_to_add or self.keys_to_maybe_add or self.keys_to_remove
                              or self.keys_to_maybe_remove or self.keys_to_rename or self.keys_to_maybe_rename)
""")]),
    ('sel-bool-any2', [(S, """            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
""", """            self._bool = any(len(x) > 0 for x in (self.keys_to_add, self.keys_to_maybe_add, self.keys_to_remove,
                              self.keys_to_maybe_remove, self.keys_to_rename, self.keys_to_maybe_rename))
""")]),
    ('sel-merge-plus', [(S, "keys_to_add=tuple(chain(self.keys_to_add, other.keys_to_add))", "keys_to_add=self.keys_to_add + other.keys_to_add"),
                        (S, "keys_to_remove=tuple(chain(self.keys_to_remove, other.keys_to_remove))", "keys_to_remove=(*self.keys_to_remove, *other.keys_to_remove)")]),
    ('sel-merge-all', [(S, """        ret = self
        for other in others:
            ret = ret._merge(other)
        if kwargs:
            ret = ret._merge(type(self)(**kwargs))
        return ret
""", """        extra = (type(self)(**kwargs),) if kwargs else ()
        ret = self
        for other in chain(others, extra):
            ret = ret._merge(other)
        return ret
""")]),
    ('sel-tuple-helper', [(S, """        if isinstance(keys_to_add, Mapping):
            keys_to_add = tuple(keys_to_add.items())
""", ""), (S, "self.keys_to_add = tuple(keys_to_add)", "self.keys_to_add = self._pairs(keys_to_add)"),
                          (S, "    def _merge(self", """    @staticmethod
    def _pairs(x):
        if isinstance(x, Mapping):
            return tuple(x.items())
        return tuple(x)

    def _merge(self""")]),
    ('sel-items-loop', [(S, """        for s, d in self.keys_to_rename:
            if d in mapping:
""", """        for pair in self.keys_to_rename:
            s, d = pair
            if d in mapping:
""")]),
]
