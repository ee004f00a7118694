R = 'record.py'
S = 'fillers/builtin_fillers/std_fillers.py'
V = 'fillers/builtin_validators.py'
FI = "        d.update(ChainMap(*maps), **kwargs)\n"
FM = "        return ChainMap(*maps, dict(**kwargs))\n"
FJ = "        return extras.json.loads(v, **kwargs)\n"
TJ = "        if io is None:\n            return extras.json.dumps(v, *args, **kwargs)\n        extras.json.dump(v, io, *args, **kwargs)\n"
TP = "        if io is None:\n            return extras.pickle.dumps(self, *args, **kwargs)\n        extras.pickle.dump(self, io, *args, **kwargs)\n"
FP = "        ret = extras.pickle.loads(v, *args, **kwargs)\n        if not isinstance(ret, cls):\n            return cls.parse(ret)\n        return ret\n"
EV = "                ret = eval(v, {'__builtins__': dict(ns)})\n"
BUGS = [
    ('maps-reversed', ['C29'], [(R, FI, "        for m in maps:\n            d.update(m)\n        d.update(kwargs)\n")]),
    ('maps-dropped-kw', ['C29'], [(R, FI, "        d.update(ChainMap(*maps))\n")]),
    ('object-on-top', ['C29'], [(R, "        d = cls._to_dict(v, _rev_select=_select)\n" + FI,
                                 "        d = {**ChainMap(*maps), **kwargs}\n        d.update(cls._to_dict(v, _rev_select=_select))\n")]),
    ('no-select', ['C29'], [(R, "cls._to_dict(v, _rev_select=_select)", "cls._to_dict(v)")]),
    ('mapping-reversed', ['C29'], [(R, FM, "        return ChainMap(*reversed(maps), dict(**kwargs))\n")]),
    ('mapping-merge-loop', ['C29'], [(R, FM, "        ret = dict(kwargs)\n        for m in maps:\n            ret.update(m)\n        return ret\n")]),
    ('unspecialised', ['C29'], [(R, "    @SpecializedShortcutFactory\n    @classmethod\n    def from_instance", "    @SelectableShortcutFactory\n    @classmethod\n    def from_instance")]),
    ('pickle-parser', ['C18'], [(R, "    @classmethod\n    def from_pickle(cls", "    @parser\n    @classmethod\n    def from_pickle(cls")]),
    ('json-falls-back', ['C18'], [(R, FJ, "        try:\n            return extras.json.loads(v, **kwargs)\n        except ValueError:\n            return extras.pickle.loads(v)\n")]),
    ('parse-unpickles', ['C18'], [(R, "        successes = []\n", "        if isinstance(v, bytes):\n            v = cls.from_pickle(v)\n        successes = []\n")]),
    ('helper-unpickles', ['C18'], [(R, FJ, "        return cls._decode(v)\n\n    @staticmethod\n    def _decode(v):\n        p = extras.pickle\n        return p.loads(v)\n")]),
    ('eval-own-namespace', ['C18'], [(S, EV, "                ret = eval(v)\n")]),
    ('eval-builtins-kept', ['C18'], [(S, EV, "                ret = eval(v, dict(ns))\n")]),
    ('eval-module', ['C18'], [(S, EV, "                ret = eval(v, {'__builtins__': {**globals(), **ns}})\n")]),
    ('literal-eval-compiles', ['C18'], [(S, "v = literal_eval(v)", "v = eval(compile(v, 'x', 'eval'))")]),
    ('default-eval', ['C18'], [(S, "class BoolFiller(SimpleFiller[bool]):", "class BoolFiller(SimpleFiller[bool]):\n    fallback = Eval()\n")]),
    ('json-direct', ['C19'], [(R, "import records.extras as extras\n", "import json\nimport records.extras as extras\n"), (R, FJ, "        return json.loads(v, **kwargs)\n")]),
    ('json-frozen', ['C19'], [(R, "import records.extras as extras\n", "import records.extras as extras\nfrom records.extras import json\n"), (R, FJ, "        return json.loads(v, **kwargs)\n")]),
    ('json-default-arg', ['C19'], [(R, "    def from_json(cls, v, **kwargs):", "    def from_json(cls, v, _loads=extras.json.loads, **kwargs):"), (R, FJ, "        return _loads(v, **kwargs)\n")]),
    ('json-args-dropped', ['C19'], [(R, TJ, TJ.replace("dump(v, io, *args, **kwargs)", "dump(v, io, **kwargs)"))]),
    ('json-falsish-io', ['C19'], [(R, TJ, TJ.replace("if io is None:", "if not io:"))]),
    ('json-result-lost', ['C19'], [(R, TJ, TJ.replace("return extras.json.dumps", "extras.json.dumps"))]),
    ('pickle-dump-json', ['C19'], [(R, TP, TP.replace("extras.pickle.dump(self, io", "extras.json.dump(self, io"))]),
    ('pickle-dict', ['C19'], [(R, TP, TP.replace("dumps(self,", "dumps(self.to_dict(),"))]),
    ('re-cached', ['C19'], [(V, "greatest = _Greatest()\n", "greatest = _Greatest()\n_compile = extras.re.compile\n"), (V, "extras.re.compile(pattern)", "_compile(pattern)")]),
    ('unpickled-any', ['C19'], [(R, FP, "        return extras.pickle.loads(v, *args, **kwargs)\n")]),
]
SAME = [
    ('maps-loop', [(R, FI, "        for m in reversed(maps):\n            d.update(m)\n        d.update(kwargs)\n")]),
    ('maps-literal', [(R, FI + "        return d\n", "        return {**d, **ChainMap(*maps), **kwargs}\n")]),
    ('maps-if', [(R, FI, "        if maps:\n            d.update(ChainMap(*maps))\n        if kwargs:\n            d.update(kwargs)\n")]),
    ('mapping-dict', [(R, FM, "        return {**kwargs, **ChainMap(*maps)}\n")]),
    ('mapping-chain2', [(R, FM, "        layers = (*maps, kwargs)\n        return ChainMap(*layers)\n")]),
    ('mapping-loop', [(R, FM, "        ret = dict(kwargs)\n        for m in reversed(maps):\n            ret.update(m)\n        return ret\n")]),
    ('pickle-helper', [(R, FP, "        return cls._unpickled(extras.pickle.loads(v, *args, **kwargs))\n\n    @classmethod\n    def _unpickled(cls, ret):\n        if isinstance(ret, cls):\n            return ret\n        return cls.parse(ret)\n")]),
    ('pickle-loader', [(R, FP, "        return cls._load_with(extras.pickle.loads, v, *args, **kwargs)\n\n    @classmethod\n    def _load_with(cls, load, v, *args, **kwargs):\n        ret = load(v, *args, **kwargs)\n        if not isinstance(ret, cls):\n            return cls.parse(ret)\n        return ret\n")]),
    ('json-alias', [(R, FJ, "        json = extras.json\n        return json.loads(v, **kwargs)\n")]),
    ('json-from-package', [(R, "import records.extras as extras\n", "from records import extras\n")]),
    ('json-else', [(R, TJ, "        if io is not None:\n            extras.json.dump(v, io, *args, **kwargs)\n        else:\n            return extras.json.dumps(v, *args, **kwargs)\n")]),
    ('json-return-dump', [(R, TJ, "        json = extras.json\n        return json.dumps(v, *args, **kwargs) if io is None else json.dump(v, io, *args, **kwargs)\n")]),
    ('eval-named-globals', [(S, EV, "                scope = dict(__builtins__={**ns})\n                ret = eval(v, scope)\n")]),
    ('eval-locals', [(S, EV, "                ret = eval(v, {'__builtins__': {}}, dict(ns))\n")]),
    ('eval-copy', [(S, "        ns = self.kwargs\n        if self.add_bound:\n            ns = {**self.kwargs, origin.__name__: origin}\n", "        ns = dict(self.kwargs)\n        if self.add_bound:\n            ns[origin.__name__] = origin\n")]),
    ('re-local', [(V, "        self.pattern = extras.re.compile(pattern)", "        compile_ = extras.re.compile\n        self.pattern = compile_(pattern)")]),
]
