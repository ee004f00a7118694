S = 'select.py'
BUGS = [
    ('b-select-twice', ['C15'], [(S, "        mapping = self.func(cls, *args, _select=select, **kwargs)\n        mapping = select(mapping)", "        mapping = select(self.func(cls, *args, _select=select, **kwargs))\n        mapping = select(mapping)")]),
    ('b-select-dropped', ['C15'], [(S, "        mapping = self.func(cls, *args, _select=select, **kwargs)\n        mapping = select(mapping)", "        mapping = self.func(cls, *args, _select=select, **kwargs)")]),
    ('b-no-_select', ['C15'], [(S, "self.func(cls, *args, _select=select, **kwargs)", "self.func(cls, *args, **kwargs)")]),
    ('b-inplace-select', ['C15'], [(S, "            return type(self)(self.descriptor, self.owner, self.export_args, self.export_kwargs,\n                              self.select_.merge(*selects, **kwargs))", "            self.select_ = self.select_.merge(*selects, **kwargs)\n            return self")]),
    ('b-inplace-kwargs', ['C15'], [(S, "            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},", "            self.export_kwargs.update(kwargs)\n            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), self.export_kwargs,")]),
    ('b-kwargs-precedence', ['C15'], [(S, "{**self.export_kwargs, **kwargs}", "{**kwargs, **self.export_kwargs}")]),
    ('b-lose-exportargs', ['C15'], [(S, "self.owner, self.export_args, self.export_kwargs,\n                              self.select_.merge", "self.owner, (), self.export_kwargs,\n                              self.select_.merge")]),
    ('b-lose-select', ['C15'], [(S, "                              self.select_)\n", "                              Select.empty)\n")]),
    ('b-merge-fresh', ['C15'], [(S, "self.owner_cls, self.select_.merge(*selects, **kwargs)", "self.owner_cls, Select.empty.merge(*selects, **kwargs)")]),
    ('b-shortcut-always', ['C15'], [(S, "if not select and self._shortcut:", "if self._shortcut:")]),
    ('b-shortcut-falsish', ['C15'], [(S, "if ret is not NotImplemented:", "if ret is not NotImplemented and ret:")]),
    ('b-bound-class', ['C15'], [(S, "            return type(self)(self.descriptor, self.owner, (*self", "            return Exporter.Bound(self.descriptor, self.owner, (*self")]),
    ('b-shortcut-inplace', ['C15'], [(S, "        return type(self)(self.func, sc)", "        self._shortcut = sc\n        return self")]),
    ('b-shortcut-class', ['C15'], [(S, "        return type(self)(self.func, sc)", "        return SelectableShortcutFactory(self.func, sc)")]),
    ('b-noarg-order', ['C15'], [(S, "(*export_args, *args), {**export_kwargs, **kwargs}, select", "(*args, *export_args), {**export_kwargs, **kwargs}, select")]),
    ('b-select-after', ['C15'], [(S, "        mapping = cls._to_dict(instance, *export_args, **export_kwargs)\n        mapping = select(mapping)\n        return self.func(mapping, *args, **kwargs)", "        mapping = cls._to_dict(instance, *export_args, **export_kwargs)\n        return select(self.func(mapping, *args, **kwargs))")]),
    ('b-select-before-shortcut', ['C15'], [(S, "            if ret is not NotImplemented:\n                return ret\n", "            return ret\n")]),
    ('b-get-cache', ['C15'], [(S, "        return self.Bound(self, owner, Select.empty)", "        b = self.Bound(self, owner, Select.empty)\n        b.select_ = Select(keys_to_remove='x')\n        return b")]),
    ('b-default-mutable', ['C15'], [(S, "            return self.BoundToClass(self, owner, (), {}, Select.empty)", "            return self.BoundToClass(self, owner, (), self.shared, Select.empty)")]),
]
SAME = [
    ('b-inline-run', [(S, "        mapping = self.func(cls, *args, **kwargs)\n        mapping = select(mapping)\n        return cls(**mapping)", "        return cls(**select(self.func(cls, *args, **kwargs)))")]),
    ('b-derive-helper', [(S, """            return type(self)(self.descriptor, self.owner, self.export_args, self.export_kwargs,
                              self.select_.merge(*selects, **kwargs))""", """            return self._derive(select=self.select_.merge(*selects, **kwargs))

        def _derive(self, select=None, args=None, kwargs=None):
            return type(self)(self.descriptor, self.owner,
                              self.export_args if args is None else args,
                              self.export_kwargs if kwargs is None else kwargs,
                              self.select_ if select is None else select)""")]),
    ('b-copy-update', [(S, "            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},\n                              self.select_)", "            new_kwargs = dict(self.export_kwargs)\n            new_kwargs.update(kwargs)\n            return type(self)(self.descriptor, self.owner, tuple(self.export_args) + args, new_kwargs,\n                              self.select_)")]),
    ('b-shortcut-nested', [(S, "        if not select and self._shortcut:\n            ret = self._shortcut(cls, *args, **kwargs)\n            if ret is not NotImplemented:\n                return ret\n        return super()", "        if self._shortcut is not None and not select:\n            result = self._shortcut(cls, *args, **kwargs)\n            if result is NotImplemented:\n                return super().run(cls, args, kwargs, select)\n            return result\n        return super()")]),
    ('b-specialized-super', [(S, "        mapping = self.func(cls, *args, _select=select, **kwargs)\n        mapping = select(mapping)\n        return cls(**mapping)", "        kwargs = {**kwargs, '_select': select}\n        return super().run(cls, args, kwargs, select)")]),
    ('b-rename-attrs', [(S, "            self.owner_cls = owner_cls\n", "            self.owner_ = owner_cls\n"), (S, "self.descriptor.run(self.owner_cls,", "self.descriptor.run(self.owner_,"), (S, "type(self)(self.descriptor, self.owner_cls,", "type(self)(self.descriptor, self.owner_,")]),
]
