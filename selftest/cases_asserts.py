BV = 'fillers/builtin_validators.py'
VA = 'fillers/validators.py'
ASSERT = """        if self.g_eq:
            if not (self.ge <= v):
                return False
        else:
            if not (self.ge < v):
                return False

        if self.l_eq:
            if not (self.lt >= v):
                return False
        else:
            if not (self.lt > v):
                return False

        return True
"""
WINIT = "        if ge > lt or ((not g_eq or not l_eq) and ge == lt):\n"
CL = "        return min(max(v, self.ge), self.le)\n"
CINIT = "        if self.ge > self.le:\n"
INNER = "        if not self.assert_(v):\n            self._raise()\n        return v\n"
EXC = """        if isinstance(self.err, Exception):
            return self.err
        if self.warn:
            return UserWarning(self.err)
        return ValueError(self.err)
"""
RAISE = """        exc = self._exc()
        if self.warn:
            if self.warn is True:
                warnings.warn(exc)
            else:
                self.warn.warning(exc)
        else:
            raise exc
"""
FM = "        return bool(self.pattern.fullmatch(v))\n"
BUGS = [
    ('as-lower-excl', ['C25'], [(BV, "            if not (self.ge <= v):", "            if not (self.ge < v):")]),
    ('as-lower-incl', ['C25'], [(BV, "            if not (self.ge < v):", "            if not (self.ge <= v):")]),
    ('as-upper-excl', ['C25'], [(BV, "            if not (self.lt >= v):", "            if not (self.lt > v):")]),
    ('as-upper-incl', ['C25'], [(BV, "            if not (self.lt > v):", "            if not (self.lt >= v):")]),
    ('as-nan', ['C25'], [(BV, "            if not (self.ge <= v):", "            if self.ge > v:")]),
    ('as-nan-upper', ['C25'], [(BV, "            if not (self.lt > v):", "            if self.lt <= v:")]),
    ('as-flags-swapped', ['C25'], [(BV, "        self.g_eq = g_eq\n        self.l_eq = l_eq\n", "        self.g_eq = l_eq\n        self.l_eq = g_eq\n")]),
    ('as-upper-default', ['C25'], [(BV, "g_eq=True, l_eq=False", "g_eq=True, l_eq=True")]),
    ('as-empty-accepted', ['C25'], [(BV, WINIT, "        if ge > lt:\n")]),
    ('as-empty-and', ['C25'], [(BV, WINIT, "        if ge > lt or (not (g_eq or l_eq) and ge == lt):\n")]),
    ('as-point-refused', ['C25'], [(BV, WINIT, "        if ge >= lt:\n")]),
    ('as-no-init', ['C25'], [(BV, WINIT, "        if False:\n")]),
    ('as-only-if-lower', ['C25'], [(BV, ASSERT, "        if self.ge is least or self.lt is greatest:\n            return True\n" + ASSERT)]),
    ('as-clamp-swapped', ['C25'], [(BV, CL, "        return max(min(v, self.ge), self.le)\n")]),
    ('as-clamp-lower', ['C25'], [(BV, CL, "        return max(v, self.ge)\n")]),
    ('as-clamp-init', ['C25'], [(BV, CINIT, "        if self.ge >= self.le:\n")]),
    ('as-clamp-noinit', ['C25'], [(BV, CINIT, "        if self.ge is self.le:\n")]),
    ('as-least', ['C25'], [(BV, "    def __lt__(self, other):\n        return True\n", "    def __lt__(self, other):\n        return False\n")]),
    ('as-greatest', ['C25'], [(BV, "    def __gt__(self, other):\n        return True\n", "    def __gt__(self, other):\n        return not self == other and other > 0\n")]),
    ('as-neginf', ['C25'], [(BV, "least = _Least()", "least = float('-inf')")]),
    ('as-default-zero', ['C25'], [(BV, "def __init__(self, ge: Any = least, lt", "def __init__(self, ge: Any = 0, lt")]),
    ('as-truthy-bound', ['C25'], [(BV, "        self.ge = ge\n        self.lt = lt\n", "        self.ge = ge or least\n        self.lt = lt\n")]),
    ('as-clamp-truthy', ['C25'], [(BV, "        self.ge = ge\n        self.le = le\n", "        self.ge = ge or least\n        self.le = le\n")]),
    ('as-result', ['C26'], [(VA, INNER, "        r = self.assert_(v)\n        if not r:\n            self._raise()\n        return r\n")]),
    ('as-none-ok', ['C26'], [(VA, INNER, "        if self.assert_(v) is False:\n            self._raise()\n        return v\n")]),
    ('as-no-return', ['C26'], [(VA, INNER, "        if self.assert_(v):\n            return v\n        self._raise()\n")]),
    ('as-warn-raise', ['C26'], [(VA, RAISE, RAISE.replace("        else:\n            raise exc\n", "        raise exc\n"))]),
    ('as-warn-truthy', ['C26'], [(VA, RAISE, RAISE.replace("if self.warn is True", "if self.warn"))]),
    ('as-warn-error', ['C26'], [(VA, RAISE, RAISE.replace(".warning(exc)", ".error(exc)"))]),
    ('as-warn-value', ['C26'], [(VA, EXC, EXC.replace("UserWarning(self.err)", "ValueError(self.err)"))]),
    ('as-exc-str', ['C26'], [(VA, EXC, EXC.replace("isinstance(self.err, Exception)", "isinstance(self.err, ValueError)"))]),
    ('as-exc-warn-first', ['C26'], [(VA, EXC, """        if self.warn:
            return UserWarning(self.err)
        if isinstance(self.err, Exception):
            return self.err
        return ValueError(self.err)
""")]),
    ('as-exc-default', ['C26'], [(VA, EXC, EXC.replace("ValueError(self.err)", "ValueError('validation failed')"))]),
    ('as-match', ['C26'], [(BV, FM, "        return bool(self.pattern.match(v))\n")]),
    ('as-search', ['C26'], [(BV, FM, "        return bool(self.pattern.search(v))\n")]),
    ('as-group', ['C26'], [(BV, FM, "        m = self.pattern.fullmatch(v)\n        return bool(m and m.group())\n")]),
    ('as-re-cached', ['C26'], [(BV, "extras.re.compile(pattern)", "extras.re.compile(pattern, 2)")]),
    ('as-truth-none', ['C26'], [(BV, "        return bool(v)", "        return v is not None")]),
    ('as-kwargs-dropped', ['C26'], [(BV, "        super().__init__(**kwargs)\n        self.pattern", "        super().__init__()\n        self.pattern")]),
    ('as-call-warn-dropped', ['C26'], [(VA, "        super().__init__(**kwargs)\n        self.func", "        super().__init__(err=kwargs.get('err', 'validation failed'))\n        self.func")]),
    ('as-warn-once', ['C26'], [(VA, RAISE, RAISE.replace("                warnings.warn(exc)\n", "                warnings.warn(exc)\n                self.warn = None\n"))] ) if False else
    ('as-warn-none', ['C26'], [(VA, RAISE, RAISE.replace("                warnings.warn(exc)\n", "                pass\n"))]),
]
SAME = [
    ('as-clamp-max', [(BV, CL, "        return min(max(self.ge, v), self.le)\n")]),
    ('as-clamp-min', [(BV, CL, "        return min(self.le, max(v, self.ge))\n")]),
    ('as-chain', [(BV, ASSERT, """        lower = self.ge <= v if self.g_eq else self.ge < v
        upper = v <= self.lt if self.l_eq else v < self.lt
        return bool(lower and upper)
""")]),
    ('as-helper', [(BV, ASSERT, """        return self._above(v) and self._below(v)

    def _above(self, v):
        return self.ge <= v if self.g_eq else self.ge < v

    def _below(self, v):
        if self.l_eq:
            return self.lt >= v
        return self.lt > v
""")]),
    ('as-operators', [(BV, ASSERT, "        return self.low_op(self.ge, v) and self.high_op(self.lt, v)\n"),
                      (BV, "        self.g_eq = g_eq\n        self.l_eq = l_eq\n", "        self.g_eq = g_eq\n        self.l_eq = l_eq\n        self.low_op = operator.le if g_eq else operator.lt\n        self.high_op = operator.ge if l_eq else operator.gt\n"),
                      (BV, "from typing import Any", "import operator\nfrom typing import Any")]),
    ('as-early', [(BV, ASSERT, """        if self.g_eq and not self.ge <= v:
            return False
        if not self.g_eq and not self.ge < v:
            return False
        if self.l_eq:
            return self.lt >= v
        return self.lt > v
""")]),
    ('as-winit', [(BV, WINIT, "        if ge > lt or (ge == lt and not (g_eq and l_eq)):\n")]),
    ('as-winit-split', [(BV, WINIT + "            raise ValueError('the lower bound must not be greater then the upper bound')\n", """        if ge > lt:
            raise ValueError('the lower bound must not be greater then the upper bound')
        if ge == lt:
            if not (g_eq and l_eq):
                raise ValueError('the bounds allow no value')
""")]),
    ('as-winit-first', [(BV, "        self.ge = ge\n        self.lt = lt\n        self.g_eq", WINIT + "            raise ValueError('bad bounds')\n        self.ge = ge\n        self.lt = lt\n        self.g_eq"), (BV, "        self.l_eq = l_eq\n" + WINIT + "            raise ValueError('the lower bound must not be greater then the upper bound')\n", "        self.l_eq = l_eq\n")]),
    ('as-clamp-if', [(BV, CL, """        if v < self.ge:
            return self.ge
        if v > self.le:
            return self.le
        return v
""")]),
    ('as-clamp-ternary', [(BV, CL, "        return self.ge if v < self.ge else self.le if v > self.le else v\n")]),
    ('as-clamp-steps', [(BV, CL, "        at_least = max(v, self.ge)\n        return min(at_least, self.le)\n")]),
    ('as-clamp-lambda', [(BV, "    def __call__(self, *_):\n        return self.inner\n\n\nclass Cyclic", "    def __call__(self, *_):\n        return lambda v: self.inner(v)\n\n\nclass Cyclic")]),
    ('as-inner-pos', [(VA, INNER, "        if self.assert_(v):\n            return v\n        self._raise()\n        return v\n")]),
    ('as-raise-flat', [(VA, RAISE, """        exc = self._exc()
        if not self.warn:
            raise exc
        channel = warnings.warn if self.warn is True else self.warn.warning
        channel(exc)
""")]),
    ('as-raise-elif', [(VA, RAISE, """        exc = self._exc()
        if self.warn is True:
            warnings.warn(exc)
        elif self.warn:
            self.warn.warning(exc)
        else:
            raise exc
""")]),
    ('as-exc-class', [(VA, EXC, """        if isinstance(self.err, Exception):
            return self.err
        cls = UserWarning if self.warn else ValueError
        return cls(self.err)
""")]),
    ('as-warn-text', [(VA, RAISE, RAISE.replace("warnings.warn(exc)", "warnings.warn(exc, stacklevel=2)"))]),
    ('as-fm-none', [(BV, FM, "        return self.pattern.fullmatch(v) is not None\n")]),
    ('as-fm-direct', [(BV, FM, "        match = self.pattern.fullmatch(v)\n        return match is not None\n")]),
    ('as-sentinel', [(BV, "    def __ge__(self, other):\n        return self == other\n", "    def __ge__(self, other):\n        return self is other\n")]),
    ('as-slots', [(BV, "class _Least:", "class _Least(object):")]),
]
