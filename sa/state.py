"""
Abstract state of the path-sensitive value-flow analysis: environments, abstract heap of freshly created containers,
attribute overlay, branch facts and the ordered effects of one control-flow path.
"""
from .terms import T, K, kval, is_k, mk_not, kbool, TRUE, FALSE, NONE, is_fixed, contains, walk, subst, show


class Limit(Exception):
    """the function has more paths or nesting than the analysis follows"""


class Sig:
    """a non-local exit"""
    __slots__ = ('kind', 'val', 'cause', 'node')

    def __init__(self, kind, val=None, cause=None, node=None):
        self.kind, self.val, self.cause, self.node = kind, val, cause, node

    def __repr__(self):
        return f'{self.kind}({show(self.val) if self.val is not None else ""})'


NEXT = Sig('next')
BREAK = Sig('break')
CONTINUE = Sig('continue')


class Ev:
    """one effect on a path"""
    __slots__ = ('kind', 'a', 'node', 'fn')

    def __init__(self, kind, a, node=None, fn=None):
        self.kind, self.a, self.node, self.fn = kind, a, node, fn

    def __repr__(self):
        if self.kind == 'loop':
            return f'<loop {self.a[0]} {self.a[1]}>'
        return f'<{self.kind} ' + ', '.join(show(x) if isinstance(x, (T, tuple)) else str(x) for x in self.a) + '>'


class HObj:
    """a container or instance created on the analysed path; log = what was put into it, in order"""
    __slots__ = ('kind', 'log', 'cls', 'node', 'src')

    def __init__(self, kind, log=(), cls=None, node=None, src=None):
        self.kind, self.log, self.cls, self.node = kind, tuple(log), cls, node
        self.src = src      # what it is an unmodified copy of

    def add(self, *ops):
        return HObj(self.kind, self.log + ops, self.cls, self.node)

    def __repr__(self):
        return f'{self.kind}{list(self.log)}'


class LoopSum:
    """what one arbitrary iteration of a loop can do"""
    count = 0

    def __init__(self, L, dom, node, fn):
        self.L, self.dom, self.node, self.fn = L, dom, node, fn
        self.paths = []    # [IterPath]
        self.init = {}     # loc -> value before the loop
        self.phi = {}      # loc -> T('phi', L, loc)
        self.fin = {}      # loc -> set of constants (automaton variables)
        self.heap = set()  # heap objects changed by the loop

    def __repr__(self):
        return f'LoopSum({show(self.dom)}, {len(self.paths)} paths)'


class IterPath:
    def __init__(self, idx, head, facts, events, sig, out, steps, ops, nhead, st):
        self.idx = idx
        self.head = head        # valuation of the automaton variables at the loop head
        self.facts = facts      # facts learnt in this iteration
        self.events = events
        self.sig = sig
        self.out = out
        self.steps = steps      # loc -> new value (only changed ones), for paths that go on to the next iteration
        self.ops = ops          # heap obj -> ops appended
        self.nhead = nhead
        self.st = st
        self.skip = False       # the element was left out of what is iterated

    @property
    def goes_on(self):
        return self.sig.kind in ('next', 'continue')

    def __repr__(self):
        return f'IterPath({self.idx}: {dict(self.facts)} -> {self.sig})'


class St:
    __slots__ = ('frames', 'heap', 'over', 'facts', 'events', 'tries', 'types', 'ver', 'counts', 'exc', 'stack',
                 'nfid', 'noid', 'gens', 'hooks', 'yields')

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.over = {}
        self.facts = {}
        self.events = ()
        self.tries = ()
        self.types = {}
        self.ver = {}
        self.counts = {}
        self.exc = ()
        self.stack = ()
        self.nfid = 1
        self.noid = 1
        self.gens = {}
        self.hooks = None
        self.yields = ()

    def copy(self):
        n = St.__new__(St)
        n.frames = dict(self.frames)
        n.heap = dict(self.heap)
        n.over = dict(self.over)
        n.facts = dict(self.facts)
        n.events = self.events
        n.tries = self.tries
        n.types = dict(self.types)
        n.ver = dict(self.ver)
        n.counts = dict(self.counts)
        n.exc = self.exc
        n.stack = self.stack
        n.nfid, n.noid = self.nfid, self.noid
        n.gens = dict(self.gens)
        n.hooks = self.hooks
        n.yields = self.yields
        return n

    # -- facts ------------------------------------------------------------------------------------------------------
    def known(self, t):
        """True/False/None"""
        if t.op == 'not':
            r = self.known(t.a[0])
            return None if r is None else not r
        if t.op == 'k':
            try:
                return bool(kval(t))
            except Exception:
                return None
        r = self.facts.get(t)
        if r is not None:
            return r
        return self._infer(t)

    def _infer(self, t):
        f = self.facts
        op = t.op
        if op == 'is':
            x, y = t.a
            for a, b in ((x, y), (y, x)):
                if not is_fixed(a):
                    continue
                if is_k(a, None) and f.get(T('truthy', b)):
                    return False
                for k, v in f.items():
                    if v and k.op == 'is':
                        for p, q in (k.a, k.a[::-1]):
                            if q is b and is_fixed(p) and p is not a:
                                return False
                    if v and k.op == 'eq' and is_k(k.a[0]) and k.a[1] is b and is_k(a, None):
                        return False
                    if v and k.op == 'isinstance' and k.a[0] is b and is_k(a, None) \
                            and not (k.a[1].op == 'typeof' or show(k.a[1]) == 'builtins.object'):
                        return False
                if is_k(a, None) and b.op in ('typeof', 'tuple', 'fstr', 'seqt'):
                    return False
        elif op == 'truthy':
            x = t.a[0]
            if f.get(T('is', x, NONE)):
                return False
            o = x.a[0] if x.op == 'ver' else x
            if o.op == 'obj' and self.heap.get(o.a[0]) is not None and o.a[0] in self.heap:
                log = self.heap[o.a[0]].log
                if log and all(op[0] == 'loop' and f.get(T('truthy', op[1].dom)) is False for op in log):
                    return False
            for k, v in f.items():
                if v and k.op == 'len_ge' and k.a[0] is x:
                    return True
                if v and k.op == 'leneq' and k.a[0] is x:
                    return k.a[1] > 0
                if v and k.op in ('is', 'eq'):
                    for e, y in (k.a, k.a[::-1]):
                        if y is x and is_k(e):
                            return bool(kval(e))
                        if k.op == 'is' and y is x and e.op in ('enum', 'class', 'sentinel', 'fn'):
                            return not (e.op == 'enum' and e.a[2] == 0)
                if v and k.op == 'in' and k.a[1] is x:
                    return True
        elif op == 'len_ge':
            s, n = t.a
            if f.get(T('truthy', s)) is False:
                return False
            for k, v in f.items():
                if k.op == 'len_ge' and k.a[0] is s:
                    if v and k.a[1] >= n:
                        return True
                    if not v and k.a[1] <= n:
                        return False
                if v and k.op == 'leneq' and k.a[0] is s:
                    return k.a[1] >= n
        elif op == 'leneq':
            s, n = t.a
            if f.get(T('truthy', s)) is False:
                return False
            for k, v in f.items():
                if k.op == 'len_ge' and k.a[0] is s:
                    if v and k.a[1] > n:
                        return False
                    if not v and k.a[1] <= n:
                        return False
                if v and k.op == 'leneq' and k.a[0] is s and k.a[1] != n:
                    return False
            if self.known(T('len_ge', s, n) if n > 1 else T('truthy', s)) and self.known(T('len_ge', s, n + 1)) is False:
                return True
        elif op == 'eq':
            a, b = t.a
            for a, b in ((a, b), (b, a)):
                if not is_k(a):
                    continue
                for k, v in f.items():
                    if not v or k.op not in ('eq', 'is'):
                        continue
                    for c, y in (k.a, k.a[::-1]):
                        if y is b and is_k(c) and kval(c) != kval(a):
                            return False
                        if k.op == 'is' and y is b and is_k(c):
                            return True
        elif op == 'isinstance':
            x, c = t.a
            if f.get(T('is', x, NONE)) and c.op in ('class',):
                return False
            for k, v in f.items():
                if k.op == 'isinstance' and k.a[0] is x and v and self.hooks is not None:
                    if self.hooks.subclass(k.a[1], c):
                        return True
                if k.op == 'is' and v and self.hooks is not None:
                    for p, q in (k.a, k.a[::-1]):
                        if q.op == 'typeof' and q.a[0] is x and self.hooks.subclass(p, c):
                            return True
        elif op == 'lt':
            a, b = t.a
            if f.get(T('lt', b, a)) or f.get(T('le', b, a)) and False:
                return False
            e = T('eq', a, b) if T('eq', a, b) in f else T('eq', b, a)
            if f.get(e):
                return False
        return None

    def assume(self, t, val):
        """-> new state or None if the branch is infeasible"""
        while t.op == 'not':
            t, val = t.a[0], not val
        k = self.known(t)
        if k is not None:
            if k != val:
                return None
            if t in self.facts or t.op == 'k':
                return self
        n = self.copy()
        n.facts[t] = val
        # two facts that together settle a third: keep only consistent states
        for k2, v2 in list(self.facts.items()):
            if k2.op in ('is', 'truthy', 'len_ge', 'leneq', 'eq', 'isinstance', 'lt'):
                r = n._infer(k2)
                if r is not None and r != v2:
                    return None
        return n

    # -- effects ----------------------------------------------------------------------------------------------------
    def emit(self, kind, *a, node=None):
        n = self.copy()
        n.events = self.events + (Ev(kind, a, node, self.stack[-1] if self.stack else None),)
        return n

    def alloc(self, kind, log=(), cls=None, node=None):
        n = self.copy()
        oid = n.noid
        n.noid += 1
        o = T('obj', oid)
        n.heap[oid] = HObj(kind, log, cls, node, self.copied(kind, log, cls))
        return n, o

    def copied(self, kind, log, cls=None):
        """the term that a container filled like this is an exact copy of"""
        if len(log) == 1 and log[0][0] in ('ext', 'upd') and cls is None and kind in ('set', 'dict', 'copy') and \
                log[0][1].op in ('sym', 'attr', 'ver', 'bin', 'keys'):
            src = log[0][1]
            while src.op == 'keys':
                src = src.a[0]
            return self.versioned(src)

    def log(self, o, *ops):
        n = self.copy()
        h = n.heap[o.a[0]]
        n.heap[o.a[0]] = h.add(*ops) if h.log else HObj(h.kind, ops, h.cls, h.node, self.copied(h.kind, ops, h.cls))
        n.ver[o] = n.ver.get(o, 0) + 1
        return n

    def h(self, o):
        if isinstance(o, T) and o.op == 'obj':
            return self.heap.get(o.a[0])
        return None

    def bump(self, base):
        n = self.copy()
        n.ver[base] = n.ver.get(base, 0) + 1
        return n

    def versioned(self, t):
        v = self.ver.get(t, 0)
        return T('ver', t, v) if v else t

    # -- variables --------------------------------------------------------------------------------------------------
    def setvar(self, fid, name, val):
        n = self.copy()
        fr = n.frames[fid]
        n.frames[fid] = (dict(fr[0], **{name: val}), fr[1])
        return n

    def getvar(self, fid, name):
        return self.frames[fid][0].get(name)
