"""
Shared parts of the rules: obligations, decision tables over path summaries, loop helpers.

A rule looks at the path summaries of the functions that implement one guarantee.  ``decide`` evaluates a decision table:
every valuation of the table's conditions that a path does not exclude must have the outcome the path shows.
"""
import ast

from ..terms import (T, K, kval, is_k, mk_not, mk_is, mk_cmp, TRUE, FALSE, NONE, sym, show, subst, contains, walk, len_ge)
from ..state import Limit, Sig
from ..interp import Interp, Path, MUTATORS
from ..program import Program, AnalysisBroken, Cls

SELF, ARG, CLS = sym('self'), sym('arg'), sym('cls')


def A(b, *names):
    for n in names:
        b = T('attr', b, n)
    return b


def C(f, *args, **kws):
    return T('call', f, tuple(args), tuple(kws.items()))


def G(name):
    return T('glob', name)


def is_call(t, f=None):
    return isinstance(t, T) and t.op == 'call' and (f is None or t.a[0] is f)


def is_attr(t, name=None, base=None):
    return isinstance(t, T) and t.op == 'attr' and (name is None or t.a[1] == name) and (base is None or t.a[0] is base)


UNKNOWN_OPS = {'unknown', 'havoc', 'opaque', 'undef'}


def murky(t):
    """does the value involve something the analysis could not follow"""
    return isinstance(t, T) and contains(t, lambda x: x.op in UNKNOWN_OPS)


class Violation:
    def __init__(self, rule, where, loc, msg, path=None, key=None):
        self.rule, self.where, self.loc, self.msg, self.path = rule, where, loc, msg, path
        self.key = key or f'{rule}@{where}'

    def as_dict(self):
        return {'rule': self.rule, 'function': self.where, 'location': self.loc, 'message': self.msg,
                'path': self.path, 'key': self.key}


class Ctx:
    """one run of one property's rules"""

    def __init__(self, prog, prop, thorough=False):
        self.P, self.prop, self.thorough = prog, prop, thorough
        self.obligations = []     # (rule, where, text, 'ok'|'violated'|'undecided')
        self.violations = []
        self.undecided = []
        self.functions = set()
        self.paths = 0
        self.iter_paths = 0
        self.valuations = 0
        self.sites = 0
        self.assumptions = []
        self.rules = {}
        self._cache = {}

    # -- bookkeeping --------------------------------------------------------------------------------------------------
    def loc(self, node, m=None):
        if node is None:
            return ''
        try:
            return self.P.loc(node, m)
        except Exception:
            return f'line {getattr(node, "lineno", "?")}'

    def ok(self, rule, where, text=''):
        self.obligations.append((rule, where, text, 'ok'))

    def bad(self, rule, where, msg, node=None, path=None, key=None):
        if isinstance(node, str):
            loc = node
        else:
            loc = self.loc(node)
        v = Violation(rule, where, loc, msg, describe(path) if path is not None else None, key)
        self.obligations.append((rule, where, msg, 'violated'))
        self.violations.append(v)

    def undec(self, rule, where, msg):
        self.obligations.append((rule, where, msg, 'undecided'))
        self.undecided.append(f'{rule} {where}: {msg}')

    def check(self, cond, rule, where, msg, node=None, path=None, key=None):
        if cond:
            self.ok(rule, where, msg)
        elif cond is None:
            self.undec(rule, where, msg)
        else:
            self.bad(rule, where, msg, node, path, key)
        return cond

    # -- summaries ----------------------------------------------------------------------------------------------------
    def interp(self, opaque=(), inline_attrs=(), open_truth=()):
        return Interp(self.P, opaque=opaque, inline_attrs=inline_attrs, open_truth=open_truth)

    def summ(self, cls, name, opaque=(), inline_attrs=(), args=None, kwargs=(), st=None, recv=None, I=None, after=None,
             open_truth=()):
        """path summaries of a method, or None if the method has more paths than the analysis follows"""
        I = I or self.interp(opaque, inline_attrs, open_truth)
        cname = cls if isinstance(cls, str) else cls.qual
        try:
            ps = I.run_method(cls, name, args=args, kwargs=kwargs, st=st, recv=recv, after=after)
        except Limit as e:
            self.undec('analysis-limit', f'{cname}.{name}', str(e))
            return None
        self.note(I, ps)
        return ps

    def run(self, node, args=(), kwargs=(), st=None, I=None, opaque=(), inline_attrs=()):
        I = I or self.interp(opaque, inline_attrs)
        try:
            ps = I.run(node, args, kwargs, st)
        except Limit as e:
            self.undec('analysis-limit', getattr(node, 'name', '?'), str(e))
            return None
        self.note(I, ps)
        return ps

    def call(self, I, f, args, kws, st, node):
        """summaries of calling a closure captured on a path"""
        try:
            r = I.call(f, list(args), list(kws), st, node)
        except Limit as e:
            self.undec('analysis-limit', show(f), str(e))
            return None
        ps = [Path(s, v if isinstance(v, Sig) else Sig('return', v)) for s, v in r]
        self.note(I, ps)
        return ps

    def note(self, I, ps):
        self.functions |= I.visited
        self.sites += I.sites
        I.sites = 0
        self.paths += len(ps)

    def where(self, cls, name):
        c = cls if isinstance(cls, Cls) else self.P.cls_named(cls)
        f = c.lookup(name)
        return f'{f[0].qual if f and hasattr(f[0], "qual") else c.qual}.{name}'

    def node(self, cls, name):
        c = cls if isinstance(cls, Cls) else self.P.cls_named(cls)
        f = c.lookup(name)
        return f[1] if f else None

    # -- decision tables ----------------------------------------------------------------------------------------------
    def decide(self, rule, where, paths, atoms, table, observe, node=None, key=None, st_of=lambda p: p.st, what='path'):
        """
        atoms: [(name, term | path -> term)];  table(valuation dict) -> None (any outcome), an outcome or a set of them;
        observe(path) -> outcome (None: this path's outcome could not be classified -> undecided)
        """
        okay = True
        n = 0
        for p in paths:
            o = observe(p)
            vals = [({}, st_of(p))]
            for nm, t in atoms:
                tt = t(p) if callable(t) and not isinstance(t, T) else t
                nxt = []
                for v, s in vals:
                    if tt is None:
                        nxt.append((v, s))
                        continue
                    for b in (True, False):
                        s2 = s.assume(tt, b)
                        if s2 is not None:
                            nxt.append((dict(v, **{nm: b}), s2))
                vals = nxt
            for v, s in vals:
                n += 1
                exp = table(v)
                if exp is None:
                    continue
                if not isinstance(exp, (set, frozenset)):
                    exp = {exp}
                if o is None:
                    self.undec(rule, where, f'outcome not classified: {show(p.sig.val)}')
                    okay = okay and None
                    break
                if o not in exp:
                    desc = ', '.join(('' if b else 'not ') + k for k, b in v.items())
                    self.bad(rule, where, f'when [{desc}] the outcome is {o!r}, expected {sorted(map(str, exp))}',
                             p.sig.node or node, p, key)
                    okay = False
                    break
        self.valuations += n
        if okay:
            self.ok(rule, where, f'{len(paths)} {what}s, {n} valuations agree with the decision table')
        return okay


def describe(p):
    try:
        f = [('' if v else 'not ') + show(k) for k, v in p.facts.items()]
        return {'conditions': f[:40], 'outcome': str(p.sig)[:400]}
    except Exception:
        return str(p)[:400]


def loops(p):
    return [e for e in p.events if e.kind == 'loop']


def all_loops(events):
    for e in events:
        if e.kind == 'loop':
            yield e
            for ip in e.a[0].paths:
                yield from all_loops(ip.events)


def all_events(events, into=('loop',)):
    """events of a path, including those of every iteration path of its loops"""
    seen = set()
    for e in events:
        yield e
        if e.kind == 'loop' and id(e.a[0]) not in seen:
            seen.add(id(e.a[0]))
            for ip in e.a[0].paths:
                yield from all_events(ip.events)


def exc_class(t):
    """dotted name of the class of a raised exception value, if it is constructed on the path"""
    if not isinstance(t, T):
        return None
    if t.op == 'call':
        return exc_class_of(t.a[0])
    if t.op == 'obj':
        return None
    return exc_class_of(t)


def exc_class_of(f):
    if f.op == 'glob':
        return f.a[0]
    if f.op == 'class':
        return f.a[0]
    return None


REGISTRY = {}


def rule(prop, name, text):
    """register a rule of a property"""
    def deco(f):
        REGISTRY.setdefault(prop, []).append((name, text, f))
        return f
    return deco


def unver(t):
    """strip version marks (the same container after a mutation)"""
    return subst(t, lambda x: unver(x.a[0]) if x.op == 'ver' else None)


# -- contents of containers built on a path ---------------------------------------------------------------------------
class Entry:
    """something put into a container: directly (dom None) or once per iteration path of a loop"""

    def __init__(self, op, dom=None, facts=None, ip=None, S=None, allowed=None):
        self.op, self.dom, self.facts, self.ip, self.S = op, dom, facts or {}, ip, S
        self.allowed = allowed

    def __repr__(self):
        return f'Entry({self.op}, dom={show(self.dom) if self.dom is not None else None})'


def contents(log, p=None):
    """
    flatten the log of a container -> (entries, loops) where loops = [(S, {iteration path: [ops]})]; loop ops that were
    cut short (prefix) are flagged by returning complete=False
    """
    entries, lps, complete = [], [], True
    for op in log:
        if op[0] == 'loop':
            S, o = op[1], op[2]
            per = {}
            for ip in S.paths:
                if not ip.goes_on:
                    continue
                ops = []
                for k, v in ip.ops.items():
                    if k is o:
                        ops = list(v)
                per[ip] = ops
                for x in ops:
                    entries.append(Entry(x, S.dom, ip.facts, ip, S))
            lps.append((S, per))
        elif op[0] == 'prefix':
            complete = False
        else:
            entries.append(Entry(op))
    return entries, lps, complete


def allowed_paths(S, how):
    """iteration paths that can have run when the loop ended the way the event says"""
    if how and how[0] == 'done':
        return [ip for ip in S.paths if ip.idx in how[1]] if len(how) > 1 else list(S.paths)
    return [ip for ip in S.paths if ip.goes_on]


def path_fact(p, pred):
    """value of the first fact satisfying pred, else None"""
    for k, v in p.facts.items():
        if pred(k):
            return v
    return None
