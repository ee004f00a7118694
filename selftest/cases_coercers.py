SF = 'fillers/builtin_fillers/std_fillers.py'
CO = 'fillers/coercers.py'
UT = 'fillers/util.py'
VA = 'fillers/validators.py'
LOOSE = """        if self._type_constraint is not None and not isinstance(v, self._type_constraint):
            raise TypeError(f'must be of type {self._type_constraint}')
        return origin(v, *self.args, **self.kwargs)
"""
UNP = """            v = tuple(v)
            if len(self._type_constraints) == 2 and self._type_constraints[1] is ...:
                if any(not isinstance(i, self._type_constraints[0]) for i in v):
                    raise TypeError(f'all arguments must be instances of {self._type_constraints[0]}')
            else:
                if len(v) != len(self._type_constraints) \\
                        or any(not isinstance(i, tc) for (i, tc) in zip(v, self._type_constraints)):
                    raise TypeError
"""
UMAP = """            for k, a in v.items():
                tc = self._type_constraints.get(k)
                if tc is None or not isinstance(a, tc):
                    raise TypeError
"""
WHOLE = """        if isinstance(v, Rational):
            if v.denominator == 1:
                return origin(v.numerator, *self.args, **self.kwargs)
        elif isinstance(v, Real):
            mod = v % 1
            if isclose(mod, 0) or isclose(mod, 1):
                return origin(round(v), *self.args, **self.kwargs)
        elif isinstance(v, Complex):
            if v.imag == 0:
                return self.func_args(origin, v.real)
        raise TypeError
"""
TOB = """        if not self.args and ('length' not in self.kwargs):
            signed = self.kwargs.get('signed', False)
            args = ((v.bit_length() + 7 + signed) // 8,)
        else:
            args = self.args
"""
MAP = """        if v in self.value_map:
            return self.value_map[v]
        if v in self.factory_map:
            return self.factory_map[v]()
        raise TypeError
"""
COMP = """        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()

        def ret(v):
            for f in functors:
                v = f(v)
            return v

        return ret
"""
BOOL = """        if v == 0:
            return False
        if v == 1:
            return True
        raise TypeError
"""
INST = """    wrapped = unwrap(obj)
    if isinstance(wrapped, type) and issubclass(wrapped, cls):
        return obj()
"""
BUGS = [
    ('co-loose-noargs', ['C24'], [(SF, LOOSE, LOOSE.replace("origin(v, *self.args, **self.kwargs)", "origin(v, *self.args)"))]),
    ('co-loose-same-type', ['C24'], [(SF, LOOSE, LOOSE.replace("        return origin(v", "        if type(v) is origin:\n            return v\n        return origin(v"))]),
    ('co-loose-fallback', ['C24'], [(SF, LOOSE, LOOSE.replace("        return origin(v, *self.args, **self.kwargs)", "        try:\n            return origin(v, *self.args, **self.kwargs)\n        except TypeError:\n            return origin(v)"))]),
    ('co-loose-truth', ['C24'], [(SF, LOOSE, LOOSE.replace("is not None and not", "and not"))]),
    ('co-loose-none', ['C24'], [(SF, LOOSE, LOOSE.replace("not isinstance(v, self._type_constraint)", "v is not None and not isinstance(v, self._type_constraint)"))]),
    ('co-loose-class', ['C24'], [(SF, "            ret._type_constraint = item\n            return ret\n", "            cls._type_constraint = item\n            return ret\n")]),
    ('co-unp-len', ['C24'], [(SF, UNP, UNP.replace("len(v) != len(self._type_constraints)", "len(v) > len(self._type_constraints)"))]),
    ('co-unp-all', ['C24'], [(SF, UNP, UNP.replace("any(not isinstance(i, tc) for (i, tc)", "all(not isinstance(i, tc) for (i, tc)"))]),
    ('co-unp-nolen', ['C24'], [(SF, UNP, UNP.replace("len(v) != len(self._type_constraints) \\\n                        or ", ""))]),
    ('co-unp-iter', ['C24'], [(SF, UNP, UNP.replace("            v = tuple(v)\n", "").replace("                if len(v) !=", "                v = tuple(v)\n                if len(v) !="))]),
    ('co-unp-first', ['C24'], [(SF, UNP, UNP.replace("for i in v)", "for i in v[:1])"))]),
    ('co-unp-any-exact', ['C24'], [(SF, UNP, UNP.replace("isinstance(i, self._type_constraints[0])", "isinstance(v, self._type_constraints[0])"))]),
    ('co-unp-order', ['C24'], [(SF, "        return origin(*v, *self.args, **self.kwargs)", "        return origin(*self.args, *v, **self.kwargs)")]),
    ('co-umap-unknown', ['C24'], [(SF, UMAP, UMAP.replace("tc is None or not isinstance(a, tc)", "tc is not None and not isinstance(a, tc)"))]),
    ('co-umap-missing', ['C24'], [(SF, UMAP, """            for k, tc in self._type_constraints.items():
                if not isinstance(v.get(k), tc):
                    raise TypeError
""")]),
    ('co-umap-break', ['C24'], [(SF, UMAP, UMAP.replace("                    raise TypeError\n", "                    raise TypeError\n                break\n"))]),
    ('co-whole-int', ['C24'], [(SF, WHOLE, WHOLE.replace("origin(round(v),", "origin(int(v),"))]),
    ('co-whole-v', ['C24'], [(SF, WHOLE, WHOLE.replace("origin(round(v),", "origin(v,"))]),
    ('co-whole-imag', ['C24'], [(SF, WHOLE, WHOLE.replace("            if v.imag == 0:\n                return", "            return"))]),
    ('co-whole-imag-close', ['C24'], [(SF, WHOLE, WHOLE.replace("v.imag == 0", "isclose(v.imag, 0)"))]),
    ('co-whole-den', ['C24'], [(SF, WHOLE, WHOLE.replace("            if v.denominator == 1:\n                return", "            return"))]),
    ('co-whole-half', ['C24'], [(SF, WHOLE, WHOLE.replace("isclose(mod, 0) or isclose(mod, 1)", "isclose(mod, 0) or mod > 0.5"))]),
    ('co-whole-tol', ['C24'], [(SF, WHOLE, WHOLE.replace("isclose(mod, 1)", "isclose(mod, 1, abs_tol=0.1)"))]),
    ('co-whole-noargs', ['C24'], [(SF, WHOLE, WHOLE.replace("round(v), *self.args, **self.kwargs", "round(v)"))]),
    ('co-whole-order', ['C24'], [(SF, WHOLE, WHOLE.replace("        if isinstance(v, Rational):", "        if isinstance(v, Real) and not isinstance(v, Rational) and v == 0:\n            return origin()\n        if isinstance(v, Rational):"))]),
    ('co-tob-signed', ['C24'], [(SF, TOB, TOB.replace(" + 7 + signed) // 8", " + 7) // 8"))]),
    ('co-tob-six', ['C24'], [(SF, TOB, TOB.replace("+ 7 +", "+ 6 +"))]),
    ('co-tob-len', ['C24'], [(SF, TOB, TOB.replace("if not self.args and ('length' not in self.kwargs)", "if not self.args"))]),
    ('co-tob-and-or', ['C24'], [(SF, TOB, TOB.replace("if not self.args and ('length' not in self.kwargs)", "if 'length' not in self.kwargs"))]),
    ('co-tob-any', ['C24'], [(SF, "        if not isinstance(v, Integral):\n            raise type\n", "")]),
    ('co-bool-truth', ['C24'], [(SF, BOOL, "        if v == 0:\n            return False\n        return True\n")]),
    ('co-bool-bool', ['C24'], [(SF, BOOL, "        return bool(v)\n")]),
    ('co-bool-neg', ['C24'], [(SF, BOOL, BOOL.replace("v == 1", "v in (1, -1)"))]),
    ('co-false-none', ['C24'], [(SF, "        if not v:\n            return origin(*", "        if v is None:\n            return origin(*")]),
    ('co-false-pass', ['C24'], [(SF, "            return origin(*self.args, **self.kwargs)\n        raise TypeError", "            return origin(v, *self.args, **self.kwargs)\n        raise TypeError")]),
    ('co-map-get', ['C24'], [(CO, MAP, MAP.replace("        raise TypeError\n", "        return self.value_map.get(v)\n"))]),
    ('co-map-try', ['C24'], [(CO, MAP, "        try:\n            return self.value_map[v]\n        except KeyError:\n            pass\n        if v in self.factory_map:\n            return self.factory_map[v]()\n        raise TypeError\n")]),
    ('co-map-nocall', ['C24'], [(CO, MAP, MAP.replace("self.factory_map[v]()", "self.factory_map[v]"))]),
    ('co-map-arg', ['C24'], [(CO, MAP, MAP.replace("self.factory_map[v]()", "self.factory_map[v](v)"))]),
    ('co-map-v', ['C24'], [(CO, MAP, MAP.replace("        raise TypeError\n", "        return v\n"))]),
    ('co-map-none-value', ['C24'], [(CO, MAP, MAP.replace("        if v in self.value_map:\n            return self.value_map[v]\n", "        r = self.value_map.get(v)\n        if r is not None:\n            return r\n"))]),
    ('co-call-args', ['C24'], [(CO, "        return self.func(v, *self.args, **self.kwargs)", "        return self.func(*self.args, v, **self.kwargs)")]),
    ('co-call-kw', ['C24'], [(CO, "        return self.func(v, *self.args, **self.kwargs)", "        return self.func(v, *self.args)")]),
    ('co-cm-kw', ['C24'], [(CO, "            return func(v, *self.args, **self.kwargs)", "            return func(v, *self.args, *self.kwargs)")]),
    ('co-cm-type', ['C24'], [(CO, "func = getattr(cls, self.method)", "func = getattr(type(filler), self.method)")]),
    ('co-comp-order', ['C24'], [(CO, COMP, COMP.replace("        functors.reverse()\n", ""))]),
    ('co-comp-one', ['C24'], [(CO, COMP, COMP.replace("                v = f(v)\n            return v", "                v = f(v)\n                break\n            return v"))]),
    ('co-comp-skip', ['C24'], [(CO, COMP, COMP.replace("                v = f(v)\n", "                try:\n                    v = f(v)\n                except TypeError:\n                    pass\n"))]),
    ('co-comp-orig', ['C24'], [(CO, COMP, COMP.replace("            for f in functors:\n                v = f(v)\n            return v", "            r = v\n            for f in functors:\n                r = f(v)\n            return r"))]),
    ('co-eval-nonstr', ['C24'], [(SF, "            if not isinstance(v, str):\n                raise TypeError\n            try:\n                # an evaluated", "            try:\n                # an evaluated")]),
    ('co-eval-none', ['C24'], [(SF, "            except Exception as e:\n                raise TypeError from e\n\n            return ret", "            except Exception as e:\n                return None\n\n            return ret")]),
    ('co-loose-abstract', ['C06'], [(SF, "        if (not isinstance(origin, type)) or isabstract(origin):", "        if not isinstance(origin, type):")]),
    ('co-literal-any', ['C06'], [(SF, "        if origin not in {int, str, float, complex, set, tuple, dict, list, bool}:", "        if isabstract(origin):")]),
    ('co-inst-none', ['C06'], [(UT, INST, "")]),
    ('co-inst-any', ['C06'], [(UT, INST, INST.replace("isinstance(wrapped, type) and issubclass(wrapped, cls)", "wrapped is not obj"))]),
    ('co-inst-class', ['C06'], [(UT, "    elif isinstance(obj, type) and issubclass(obj, cls):\n        return obj()\n", "    elif isinstance(obj, type):\n        return obj()\n")]),
    ('co-val-args', ['C04'], [(VA, "        return self.func(v, *self.args, **self.kwargs)", "        return self.func(v, **self.kwargs)")]),
    ('co-callback-origin', ['C06'], [('fillers/filler.py', "            return token(self.origin, self)\n        raise TypeError(token)  # pragma: no cover\n\n    def get_v", "            return token(self.origin, None)\n        raise TypeError(token)  # pragma: no cover\n\n    def get_v")]),
]
SAME = [
    ('co-loose-var', [(SF, LOOSE, """        constraint = self._type_constraint
        if constraint is None or isinstance(v, constraint):
            return origin(v, *self.args, **self.kwargs)
        raise TypeError(f'must be of type {constraint}')
""")]),
    ('co-loose-helper', [(SF, LOOSE, "        self._check(v)\n        return origin(v, *self.args, **self.kwargs)\n\n    def _check(self, v):\n        if self._type_constraint is None:\n            return\n        if not isinstance(v, self._type_constraint):\n            raise TypeError(f'must be of type {self._type_constraint}')\n")]),
    ('co-unp-all2', [(SF, UNP, """            v = tuple(v)
            constraints = self._type_constraints
            if len(constraints) == 2 and constraints[1] is ...:
                if not all(isinstance(i, constraints[0]) for i in v):
                    raise TypeError(f'all arguments must be instances of {constraints[0]}')
            elif len(v) != len(constraints):
                raise TypeError
            else:
                for i, tc in zip(v, constraints):
                    if not isinstance(i, tc):
                        raise TypeError
""")]),
    ('co-unp-list', [(SF, UNP, UNP.replace("tuple(v)", "list(v)"))]),
    ('co-umap-in', [(SF, UMAP, """            for k, a in v.items():
                if k not in self._type_constraints:
                    raise TypeError
                if not isinstance(a, self._type_constraints[k]):
                    raise TypeError
""")]),
    ('co-umap-any', [(SF, UMAP, """            if any(k not in self._type_constraints or not isinstance(v[k], self._type_constraints[k]) for k in v):
                raise TypeError
""")]),
    ('co-umap-all', [(SF, UMAP, """            constraints = self._type_constraints
            if not all(k in constraints and isinstance(a, constraints[k]) for k, a in v.items()):
                raise TypeError
""")]),
    ('co-whole-flat', [(SF, WHOLE, """        if isinstance(v, Rational) and v.denominator == 1:
            return origin(v.numerator, *self.args, **self.kwargs)
        if isinstance(v, Rational):
            raise TypeError
        if isinstance(v, Real):
            mod = v % 1
            if not (isclose(mod, 0) or isclose(mod, 1)):
                raise TypeError
            return origin(round(v), *self.args, **self.kwargs)
        if not isinstance(v, Complex) or v.imag != 0:
            raise TypeError
        return self.func_args(origin, v.real)
""")]),
    ('co-whole-any', [(SF, WHOLE, WHOLE.replace("isclose(mod, 0) or isclose(mod, 1)", "any(isclose(mod, m) for m in (0, 1))"))]),
    ('co-whole-var', [(SF, WHOLE, """        whole = None
        if isinstance(v, Rational):
            if v.denominator == 1:
                whole = v.numerator
        elif isinstance(v, Real):
            mod = v % 1
            if isclose(mod, 0) or isclose(mod, 1):
                whole = round(v)
        elif isinstance(v, Complex):
            if v.imag == 0:
                return self.func_args(origin, v.real)
        if whole is None:
            raise TypeError
        return origin(whole, *self.args, **self.kwargs)
""")]),
    ('co-tob-early', [(SF, TOB, """        args = self.args
        if not args and 'length' not in self.kwargs:
            bits = v.bit_length() + 7
            if self.kwargs.get('signed'):
                bits += 1
            args = (bits // 8,)
""")]),
    ('co-tob-or', [(SF, TOB, """        if self.args or 'length' in self.kwargs:
            args = self.args
        else:
            signed = self.kwargs.get('signed', False)
            args = ((v.bit_length() + 7 + signed) // 8,)
""")]),
    ('co-tob-typeerror', [(SF, "            raise type\n", "            raise TypeError(f'not an integer: {v}')\n")]),
    ('co-bool-in', [(SF, BOOL, "        if v in (0, 1):\n            return v == 1\n        raise TypeError\n")]),
    ('co-bool-dict', [(SF, BOOL, "        if v != 0 and v != 1:\n            raise TypeError\n        return bool(v)\n")]),
    ('co-bool-elif', [(SF, BOOL, "        if v == 0:\n            return False\n        elif v == 1:\n            return True\n        else:\n            raise TypeError\n")]),
    ('co-false-if', [(SF, "        if not v:\n            return origin(*self.args, **self.kwargs)\n        raise TypeError", "        if v:\n            raise TypeError\n        return origin(*self.args, **self.kwargs)")]),
    ('co-map-else', [(CO, MAP, """        if v in self.value_map:
            return self.value_map[v]
        elif v not in self.factory_map:
            raise TypeError(v)
        factory = self.factory_map[v]
        return factory()
""")]),
    ('co-map-none', [(CO, "        self.value_map = value_map or {}\n        self.factory_map = factory_map or {}\n", "        self.value_map = {} if value_map is None else value_map\n        self.factory_map = {} if factory_map is None else factory_map\n")]),
    ('co-map-copy', [(CO, "        self.value_map = value_map or {}\n        self.factory_map = factory_map or {}\n", "        self.value_map = dict(value_map or {})\n        self.factory_map = dict(factory_map or {})\n")]),
    ('co-call-lambda', [(CO, "        return self.func(v, *self.args, **self.kwargs)\n\n    def __call__(self, *_):\n        return self.inner\n", "        return self.func(v, *self.args, **self.kwargs)\n\n    def __call__(self, *_):\n        return lambda v: self.func(v, *self.args, **self.kwargs)\n")]),
    ('co-cm-partial', [(CO, "        func = getattr(cls, self.method)\n\n        def ret(v):\n            return func(v, *self.args, **self.kwargs)\n\n        return ret\n", "        func = getattr(cls, self.method)\n        return lambda v: func(v, *self.args, **self.kwargs)\n")]),
    ('co-cm-late', [(CO, "            return func(v, *self.args, **self.kwargs)\n\n        return ret", "            args, kwargs = self.args, self.kwargs\n            return func(v, *args, **kwargs)\n\n        return ret")]),
    ('co-comp-reversed', [(CO, COMP, COMP.replace("        functors.reverse()\n", "").replace("in functors:", "in reversed(functors):"))]),
    ('co-comp-slice', [(CO, COMP, COMP.replace("        functors.reverse()\n", "").replace("in functors:", "in functors[::-1]:"))]),
    ('co-comp-revlist', [(CO, COMP, COMP.replace("        functors.reverse()\n", "").replace("for t in self.inner_coercers]", "for t in reversed(self.inner_coercers)]"))]),
    ('co-comp-init-rev', [(CO, COMP, COMP.replace("        functors.reverse()\n", "")), (CO, "for ic in inner_coercers]", "for ic in reversed(inner_coercers)]")]),
    ('co-comp-loop', [(CO, COMP, """        functors = []
        for t in reversed(self.inner_coercers):
            functors.append(filler.get_coercer(t))

        def ret(v):
            result = v
            for f in functors:
                result = f(result)
            return result

        return ret
""")]),
    ('co-comp-reduce', [(CO, COMP, """        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()
        return lambda v: reduce(lambda x, f: f(x), functors, v)
"""), (CO, "from typing import", "from functools import reduce\nfrom typing import")]),
    ('co-eval-direct', [(SF, "            try:\n                # an evaluated expression can reach its builtins, they must not be shared with later evaluations\n                ret = eval(v, {'__builtins__': dict(ns)})\n            except Exception as e:\n                raise TypeError from e\n\n            return ret\n", "            try:\n                return eval(v, {'__builtins__': dict(ns)})\n            except Exception as e:\n                raise TypeError(f'could not evaluate {v!r}') from e\n")]),
    ('co-literal-frozen', [(SF, "        if origin not in {int, str, float, complex, set, tuple, dict, list, bool}:", "        if origin not in (bool, int, str, float, complex, set, tuple, dict, list):")]),
    ('co-literal-const', [(SF, "        if origin not in {int, str, float, complex, set, tuple, dict, list, bool}:", "        if origin not in _LITERALS:"), (SF, "class LiteralEval(", "_LITERALS = frozenset({int, str, float, complex, set, tuple, dict, list, bool})\n\n\nclass LiteralEval(")]),
    ('co-abstract-split', [(SF, "        if (not isinstance(origin, type)) or isabstract(origin):\n            raise TypeError(f'cannot use loose coercer with non-concrete type {origin}')\n", "        if not isinstance(origin, type):\n            raise TypeError(f'cannot use loose coercer with {origin}')\n        if isabstract(origin):\n            raise TypeError(f'cannot use loose coercer with non-concrete type {origin}')\n")]),
    ('co-inst-order', [(UT, "    elif isinstance(obj, type) and issubclass(obj, cls):\n        return obj()\n" + INST, "    wrapped = unwrap(obj)\n    if isinstance(wrapped, type) and issubclass(wrapped, cls):\n        return obj()\n")]),
    ('co-inst-ternary', [(UT, "        return obj()\n    return None\n", "        return obj()\n    else:\n        return None\n")]),
    ('co-partial-args', [(SF, "        self.args = args\n        self.kwargs = kwargs\n\n    @staticmethod", "        self.args, self.kwargs = tuple(args), dict(kwargs)\n\n    @staticmethod")]),
    ('co-origin-lambda', [(SF, "        return partial(self.func_args, origin)", "        return lambda v: self.func_args(origin, v)")]),
]

BUGS += [
    ('co-eval-ask', ['C24'], [(SF, "        if args and args[0] is ...:", "        if args:")]),
    ('co-eval-kw', ['C24'], [(SF, "            ns = {**self.kwargs, origin.__name__: origin}", "            ns = {origin.__name__: origin}")]),
    ('co-eval-second', ['C24'], [(SF, "            (k.__name__, k) for k in args\n", "            (k.__name__, k) for k in args[1:]\n")]),
    ('co-dumb-inner', ['C06'], [('fillers/get_filler.py', "            if not inner_filler.is_inert():", "            if not inner_filler.is_hollow():")]),
]
