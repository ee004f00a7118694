TF = 'fillers/builtin_fillers/typing_fillers.py'
FL = 'fillers/filler.py'
LP = """            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and i + 1 == len(self.sub_fillers):
                    raise
                continue
            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
                best_results.append(success.value)
"""
TIE = "        if len(best_results) > 1 and any(r is not best_results[0] for r in best_results[1:]):\n            raise ValueError('multiple sub-fillers matched')\n"
RET = "        return FillingSuccess(best_results[0], best_key)\n"
BIND = "        for sf in self.sub_fillers:\n            for t in chain(self.args, self.applied):\n                sf.apply(t)\n\n            sf.bind(owner_cls)\n"
BUGS = [
    ('u-le', ['C09'], [(TF, LP, LP.replace("kind < best_key", "kind <= best_key"))]),
    ('u-gt', ['C09'], [(TF, LP, LP.replace("elif success.type_pass_kind == best_key", "elif success.type_pass_kind != best_key"))]),
    ('u-else', ['C09'], [(TF, LP, LP.replace("elif success.type_pass_kind == best_key:", "else:"))]),
    ('u-nokey', ['C09'], [(TF, LP, LP.replace("                best_results = [success.value]\n", "                best_results.append(success.value)\n"))]),
    ('u-tie-eq', ['C09'], [(TF, TIE, TIE.replace("r is not best_results[0]", "r != best_results[0]"))]),
    ('u-tie-none', ['C09'], [(TF, TIE, "")]),
    ('u-tie-many', ['C09'], [(TF, TIE, TIE.replace("> 1", "> 2"))]),
    ('u-tie-always', ['C09'], [(TF, TIE, "        if len(best_results) > 1:\n            raise ValueError('multiple sub-fillers matched')\n")]),
    ('u-tie-last', ['C09'], [(TF, TIE, TIE.replace("best_results[1:]", "best_results[2:]"))]),
    ('u-type-error', ['C09'], [(TF, LP, LP.replace("except Exception", "except TypeError"))]),
    ('u-break', ['C09'], [(TF, LP, LP + "                break\n")]),
    ('u-exact-break', ['C09'], [(TF, LP, LP.replace("                best_key = success.type_pass_kind\n            elif", "                best_key = success.type_pass_kind\n                if best_key is TypePassKind.no_coerce_strict:\n                    break\n            elif"))]),
    ('u-raise-first', ['C09'], [(TF, LP, LP.replace("if not best_results and i + 1 == len(self.sub_fillers):", "if i + 1 == len(self.sub_fillers):"))]),
    ('u-arg', ['C09'], [(TF, RET, "        return FillingSuccess(arg, best_key)\n")]),
    ('u-kind', ['C09'], [(TF, RET, "        return FillingSuccess(best_results[0], TypePassKind.no_coerce)\n")]),
    ('u-shortcut', ['C09'], [(TF, "        if self.is_inert():\n            return FillingSuccess(arg", "        if self.is_hollow():\n            return FillingSuccess(arg")]),
    ('u-start', ['C09'], [(TF, "best_key = float('inf')", "best_key = TypePassKind.hollow")]),
    ('u-kinds', ['C09'], [(FL, "    coerce = 2\n    hollow = 3\n", "    coerce = 3\n    hollow = 2\n")]),
    ('u-tokens-first', ['C09'], [(TF, BIND, "        for sf in self.sub_fillers:\n            for t in self.args:\n                sf.apply(t)\n\n            sf.bind(owner_cls)\n")]),
    ('u-tokens-one', ['C09'], [(TF, BIND, "        for i, sf in enumerate(self.sub_fillers):\n            for t in chain(self.args, self.applied if not i else ()):\n                sf.apply(t)\n\n            sf.bind(owner_cls)\n")]),
]
SAME = [
    ('u-try-else', [(TF, LP, """            try:
                success = sub_filler.fill(arg)
            except Exception:
                if i == len(self.sub_fillers) - 1 and not best_results:
                    raise
            else:
                value, kind = success
                if kind == best_key:
                    best_results.append(value)
                elif kind < best_key:
                    best_results, best_key = [value], kind
""")]),
    ('u-last-error', [(TF, "        best_key = float('inf')\n", "        best_key = float('inf')\n        error = None\n"), (TF, "        for i, sub_filler in enumerate(self.sub_fillers):\n" + LP, "        for sub_filler in self.sub_fillers:\n" + LP.replace("except Exception:", "except Exception as e:").replace("                if not best_results and i + 1 == len(self.sub_fillers):\n                    raise\n", "                error = e\n")), (TF, TIE, "        if not best_results:\n            raise error\n" + TIE)]),
    ('u-continue', [(TF, LP, LP.replace("            if success.type_pass_kind < best_key:", "            if success.type_pass_kind > best_key:\n                continue\n            if success.type_pass_kind < best_key:").replace("            elif success.type_pass_kind == best_key:", "            else:"))]),
    ('u-tie-all', [(TF, TIE, "        if not all(r is best_results[0] for r in best_results):\n            raise ValueError('multiple sub-fillers matched')\n")]),
    ('u-tie-loop', [(TF, TIE, "        first = best_results[0]\n        for r in best_results[1:]:\n            if r is not first:\n                raise ValueError('multiple sub-fillers matched')\n")]),
    ('u-two-phase', [(TF, "        best_results = []\n        best_key = float('inf')\n        for i, sub_filler in enumerate(self.sub_fillers):\n" + LP, """        successes = []
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                successes.append(sub_filler.fill(arg))
            except Exception:
                if not successes and i + 1 == len(self.sub_fillers):
                    raise
        best_key = min(s.type_pass_kind for s in successes)
        best_results = [s.value for s in successes if s.type_pass_kind == best_key]
""")]),
    ('u-none-start', [(TF, "best_key = float('inf')", "best_key = None"), (TF, LP, LP.replace("if success.type_pass_kind < best_key", "if best_key is None or success.type_pass_kind < best_key"))]),
    ('u-bind-two', [(TF, BIND, "        for sf in self.sub_fillers:\n            for t in self.args:\n                sf.apply(t)\n            for t in self.applied:\n                sf.apply(t)\n            sf.bind(owner_cls)\n")]),
    ('u-bind-list', [(TF, BIND, "        tokens = [*self.args, *self.applied]\n        for sf in self.sub_fillers:\n            for t in tokens:\n                sf.apply(t)\n            sf.bind(owner_cls)\n")]),
    ('u-helper', [(TF, "    def bind(self, owner_cls):\n        super().bind(owner_cls)\n" + BIND, "    def _apply_all(self, sf):\n        for t in chain(self.args, self.applied):\n            sf.apply(t)\n\n    def bind(self, owner_cls):\n        super().bind(owner_cls)\n        for sf in self.sub_fillers:\n            self._apply_all(sf)\n            sf.bind(owner_cls)\n")]),
]
