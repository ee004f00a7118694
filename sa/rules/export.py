"""What an export contains: RecordBase._to_dict, plain (C13) and under a select (C29)."""
import itertools
from .base import *

OBJ = sym('obj')
FIELDS = A(CLS, '_fields')
OPTIONAL = A(CLS, '_optional_keys')
REQUIRED = A(CLS, '_required_keys')
WL, BL, SORT, INCL, SEL = (sym(x) for x in ('whitelist_keys', 'blacklist_tags', 'sort', 'include_defaults', '_rev_select'))
TAG = T('class', 'records.tags.Tag')
STR = G('builtins.str')
PAIRKINDS = {'keys_to_rename', 'keys_to_maybe_rename', 'keys_to_add', 'keys_to_maybe_add'}


def paths_for(ctx, select):
    key = ('to_dict', select)
    if key not in ctx._cache:
        I = ctx.interp()
        st = I.new_state().assume(T('truthy', SEL), select)
        if select:
            for t in (SORT, INCL, WL, BL):
                st = st.assume(T('truthy', t), False)
            st = st.assume(T('isinstance', BL, TAG), False).assume(T('isinstance', WL, STR), False)
        ctx._cache[key] = ctx.summ('RecordBase', '_to_dict', I=I, st=st)
    return ctx._cache[key]


class Unknown(Exception):
    pass


def collect(p, v):
    """
    the loop that fills the returned dict -> (S, obj, entry(ip) -> [(key, value)], sort) where sort is None or
    (key function, reverse, element kind)
    """
    h = p.st.h(v)
    if h is None or h.kind != 'dict' and h.kind != 'list':
        raise Unknown(f'the result is {show(v)}')
    log = list(h.log)
    if h.kind == 'dict' and len(log) == 1 and log[0][0] == 'upd' and p.st.h(log[0][1]) is not None:
        return collect(p, log[0][1])
    if len(log) != 1 or log[0][0] != 'loop':
        raise Unknown(f'the result is built by {log}'[:200])
    S, o = log[0][1], log[0][2]
    dom = S.dom
    if dom.op == 'sorted' or dom.op == 'obj' and is_sorted(p, dom):
        src, kf, rev = dom.a if dom.op == 'sorted' else is_sorted(p, dom)
        per = {ip: list(ip.ops.get(o, ())) for ip in S.paths if ip.goes_on}
        for ops in per.values():
            e = T('elem', S.dom, S.L)
            if h.kind == 'dict':
                good = [x[0] == 'set' and x[1] is T('item', e, K(0)) and x[2] is T('item', e, K(1)) for x in ops]
            else:
                good = [x == ('one', e) for x in ops]
            if good != [True]:
                raise Unknown('the sorted pairs are changed when collected')
        if src.op in ('items',):
            src = src.a[0]
        S2, o2, ent, srt = collect(p, src)
        if srt is not None:
            raise Unknown('sorted twice')
        return S2, o2, ent, (kf, rev)

    if S.dom.op != 'sorted':
        # pairs collected in a list first: judge the loop that collected them, provided they are passed on unchanged
        for n, hh in p.st.heap.items():
            if hh.kind == 'list' and len(hh.log) == 1 and hh.log[0][0] == 'loop' and hh.log[0][1] is not S and \
                    hh.log[0][1].dom is S.dom and hh.log[0][2] is not o:
                S0, o0 = hh.log[0][1], hh.log[0][2]
                mine = {tuple(subst(x, {S.L: S0.L}) for x in e) for ip in S.paths if ip.goes_on
                        for e in pairs_of(ip, o)}
                if all(len(pairs_of(ip, o)) == 1 for ip in S.paths if ip.goes_on) and mine <= {
                        tuple(e) for ip in S0.paths if ip.goes_on for e in pairs_of(ip, o0)}:
                    return S0, o0, lambda ip: pairs_of(ip, o0), None
    return S, o, lambda ip: pairs_of(ip, o), None


def pairs_of(ip, o):
    out = []
    for x in ip.ops.get(o, ()):
        if x[0] == 'set':
            out.append((x[1], x[2]))
        elif x[0] == 'one' and x[1].op == 'tuple' and len(x[1].a[0]) == 2:
            out.append(x[1].a[0])
        else:
            raise Unknown(f'collected by {x}'[:200])
    return out


def is_sorted(p, t):
    h = p.st.h(t)
    if h is not None and len(h.log) == 1 and h.log[0][0] == 'sorted':
        return h.log[0][1:]
    return None


def mock_attr(ctx, name):
    c = ctx.P.cls_named('_MockField')
    v = c.attrs.get(name) if c else None
    if isinstance(v, ast.Constant):
        return bool(v.value)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('frozenset', 'set') and not v.args:
        return False
    if isinstance(v, (ast.Tuple, ast.List, ast.Set)):
        return bool(v.elts)
    raise Unknown(f'value of the stand-in field\'s {name}')


class KeyEval:
    """one arbitrary key k: which container built before the extraction loop holds it, and what becomes of it"""

    def __init__(self, ctx, p, cats):
        self.ctx, self.p, self.c, self.memo = ctx, p, cats, {}

    def member(self, c, at=None):
        """status of k in container c (before loop summary `at`): False | True | 'field' | ('mock', same name)"""
        u = unver(c)
        if u is FIELDS:
            return 'field' if self.c['F'] else False
        if u is OPTIONAL:
            return self.c['OPT']
        if u is REQUIRED:
            return self.c['F'] and not self.c['OPT']
        key = (u, at)
        if key in self.memo:
            return self.memo[key]
        h = self.p.st.h(u)
        if h is None:
            raise Unknown(f'membership in {show(c)}')
        s = False
        for op in h.log:
            if op[0] == 'loop' and op[1] is at:
                break
            s = self.apply(u, op, s)
        self.memo[key] = s
        return s

    def apply(self, u, op, s, sub=None):
        if op[0] in ('upd', 'ext'):
            x = op[1]
            if x.op in ('keys', 'items'):
                x = x.a[0]
            if x.op in ('set', 'bin'):
                raise Unknown(f'{op[0]} {show(x)}')
            m = self.member(x)
            return m if m else s
        if op[0] == 'mut' and op[1] in ('update',) and len(op[2]) == 1:
            m = self.member(op[2][0])
            return m if m else s
        if op[0] == 'loop':
            return self.loop(u, op[1], s)
        raise Unknown(f'operation {op[0]}')

    def loop(self, u, S, s):
        d = S.dom
        if not (is_attr(d, base=SEL) and d.a[1] in self.ctx_attrs()):
            raise Unknown(f'loop over {show(d)}')
        kind = self.ctx_attrs()[d.a[1]]
        e = T('elem', d, S.L)
        roles = []
        if kind in PAIRKINDS:
            if self.c[kind, 0]:
                roles.append(T('item', e, K(0)))
            if self.c[kind, 1]:
                roles.append(T('item', e, K(1)))
        elif self.c[kind, 0]:
            roles.append(e)
        for r in roles:
            res = set()
            for ip in S.paths:
                ok = True
                for f, v in ip.facts.items():
                    if f.op == 'in' and unver(f.a[0]) is r:
                        m = s if unver(f.a[1]) is u else self.member(f.a[1], S)
                        ok = ok and bool(m) == v
                    elif f.op == 'in' and unver(f.a[0]) in (T('item', e, K(0)), T('item', e, K(1))):
                        continue   # about the other key of the pair
                    elif f.op == 'raises' or contains(f, lambda x: x is r):
                        raise Unknown(f'condition {show(f)}')
                if not ok:
                    continue
                if not ip.goes_on:
                    raise Unknown('loop left early')
                t = s
                for o in ip.ops.get(u, ()):
                    o = tuple(unver(x) if isinstance(x, T) else x for x in o)
                    if len(o) > 1 and isinstance(o[1], T) and o[1] is not r:
                        continue
                    if o[0] == 'set':
                        t = self.value(o[2], r)
                    elif o[0] == 'one':
                        t = True
                    elif o[0] in ('pop', 'del'):
                        t = False
                    elif o[0] == 'mut' and o[1] in ('discard', 'remove', 'add') and len(o[2]) == 1:
                        if unver(o[2][0]) is r:
                            t = o[1] == 'add'
                    elif o[0] == 'mut' and o[1] == 'update' and len(o[2]) == 1 and unver(o[2][0]) is e:
                        t = True
                    elif o[0] == 'ext' and unver(o[1]) is e:
                        t = True
                    else:
                        raise Unknown(f'operation {o}'[:120])
                res.add(t)
            if len(res) != 1:
                raise Unknown('ambiguous loop')
            s = res.pop()
        return s

    def value(self, v, r):
        if v.op == 'struct':
            d = dict(v.a[1])
            n = d.get('name')
            return 'mock', n is not None and unver(n) is r
        if v.op == 'item' and unver(v.a[0]) is FIELDS and unver(v.a[1]) is r:
            return 'field' if self.c['F'] else False
        raise Unknown(f'extracts by {show(v)}')

    def ctx_attrs(self):
        from .selects import attr_of, KINDS
        m = attr_of(self.ctx)
        return {a: k for k, a in m.items()} or {k: k for k in KINDS}

    # -- the extraction loop ------------------------------------------------------------------------------------------
    def outcomes(self, S, entry, status, missing, deflt, W=False, B=False, D=False):
        """set of outcomes (outcome, iteration path, unclassified facts) of the iterations consistent with the situation"""
        dom = unver(S.dom)
        base = dom.a[0] if dom.op in ('values', 'items', 'keys') else dom
        e = T('elem', S.dom, S.L)
        out = []
        hasdef = self.c['OPT'] if status == 'field' else mock_attr(self.ctx, 'has_default')
        tagged = B if status == 'field' else mock_attr(self.ctx, 'tags') and B

        def field(t):
            t = unver(t)
            return t.op == 'item' and t.a[0] is unver(base) and t.a[1].op == 'elem'

        def name(t):
            t = unver(t)
            return is_attr(t, 'name') and field(t.a[0]) or t.op == 'elem' and t.a[1] is S.L

        def got(t):
            t = unver(t)
            return t.op == 'getattr' and t.a[0] is OBJ and name(t.a[1])
        for ip in S.paths:
            ok, odd = True, []
            st = ip.st
            for f, v in ip.facts.items():
                g = unver(f)
                val = None
                if g.op == 'in' and name(g.a[0]):
                    if g.a[1] is WL:
                        val = W if self.p.st.known(T('isinstance', WL, STR)) is False else 'substring test'
                    elif only(self.p, g.a[1], WL):
                        val = W
                    else:
                        try:
                            val = bool(self.member(f.a[1]))
                        except Unknown:
                            val = None
                elif g.op == 'eq' and any(name(x) for x in g.a) and WL in g.a:
                    val = W if self.p.st.known(T('isinstance', WL, STR)) else None
                elif g.op == 'truthy':
                    x = g.a[0]
                    if x.op == 'bin' and x.a[0] == '&' and any(is_attr(y, 'tags') and field(y.a[0]) for y in x.a[1:3]) and \
                            any(self.black(y) for y in x.a[1:3]):
                        val = tagged
                    elif x.op == 'bin' and x.a[0] == '&' and BL in x.a and any(is_attr(y, 'tags') for y in x.a[1:3]):
                        val = 'a single tag used as a set of tags'
                    elif is_attr(x, 'tags') and field(x.a[0]):
                        if v or not tagged:
                            continue
                        val = True
                    elif is_call(x) and is_attr(x.a[0], 'isdisjoint') and len(x.a[1]) == 1 and \
                            any(is_attr(y, 'tags') for y in (x.a[0].a[0], x.a[1][0])) and \
                            any(self.black(y) for y in (x.a[0].a[0], x.a[1][0])):
                        val = not tagged
                    elif is_attr(x, 'has_default') and field(x.a[0]):
                        val = hasdef
                    elif is_call(x) and is_attr(x.a[0], 'is_default') and field(x.a[0].a[0]) and len(x.a[1]) == 1 and \
                            got(x.a[1][0]):
                        val = deflt
                    elif x is INCL:
                        val = D
                    elif x in (BL, SORT):
                        val = None if v or x is SORT else (False if not B else True)
                        if x is SORT or v:
                            continue
                    elif x is WL:
                        if v:
                            continue
                        val = bool(W)
                    elif x is SEL:
                        continue
                elif g.op == 'in' and g.a[0] is BL and is_attr(g.a[1], 'tags'):
                    val = tagged
                elif g.op == 'raises' and got(g.a[0]):
                    val = bool(missing)
                elif g.op == 'raises' and name(g.a[0]):
                    val = False
                elif g.op == 'excis' and g.a[0].op == 'exc' and got(g.a[0].a[0]):
                    val = {'builtins.AttributeError': missing is True, 'builtins.Exception': True, 'builtins.BaseException': True,
                           }.get(show(g.a[1]), False) if missing else None
                elif g.op == 'hasattr' and missing is True and g.a[0] is OBJ and name(g.a[1]):
                    val = not missing
                elif g.op == 'isinstance' and g.a[0] in (WL, BL) or g.op in ('callable', 'eq') and SORT in g.a:
                    continue
                elif g.op == 'is' and NONE in g.a and any(field(x) for x in g.a):
                    val = False
                elif g.op == 'isinstance' and field(g.a[0]) and 'MockField' in show(g.a[1]):
                    val = status != 'field'
                elif g.op in ('le', 'lt', 'eq') and any(is_attr(y, 'tags') and field(y.a[0]) for y in g.a) and \
                        any(self.black(y) for y in g.a):
                    continue
                if isinstance(val, str):
                    out.append((val, ip, []))
                    ok = False
                    break
                if val is None:
                    odd.append(f)
                elif val != v:
                    ok = False
                    break
            if not ok:
                continue
            if ip.sig.kind == 'raise':
                out.append(('raise', ip, odd))
                continue
            if not ip.goes_on:
                out.append((f'leaves the loop ({ip.sig.kind})', ip, odd))
                continue
            ent = entry(ip)
            if not ent:
                out.append(('skip', ip, odd))
            elif len(ent) == 1 and name(ent[0][0]) and got(ent[0][1]):
                out.append(('value' if not missing else 'value?', ip, odd))
            elif len(ent) == 1 and name(ent[0][0]) and is_call(unver(ent[0][1])) and \
                    is_attr(unver(ent[0][1]).a[0], 'make_default'):
                out.append(('default', ip, odd))
            elif any(murky(y) for x in ent for y in x):
                raise Unknown('value not followed')
            else:
                out.append((f'{[(show(a), show(b)) for a, b in ent]}'[:160], ip, odd))
        return out

    def black(self, y):
        if y is BL:
            return self.p.st.known(T('isinstance', BL, TAG)) is False
        return only(self.p, y, BL)


def only(p, t, x):
    """a fresh collection holding just x, or a copy of x"""
    h = p.st.h(unver(t))
    if h is None:
        if t.op == 'tuple':
            return t.a[0] == (x,)
        return False
    if len(h.log) != 1:
        return False
    op = h.log[0]
    if op[0] == 'one':
        return unver(op[1]) is x
    if op[0] == 'ext':
        return unver(op[1]) is x or only(p, op[1], x)
    return False


def dirty(odd):
    """conditions that may stand for one of the classified ones"""
    for f in odd:
        if murky(f) or contains(f, lambda x: x in (WL, BL, INCL) or x.op == 'attr' and x.a[1] in (
                'tags', 'has_default', 'default', 'is_default', '_optional_keys', '_required_keys', 'make_default')
                ):
            return True
    return False


def judge(ctx, rule, where, ev, S, entry, sit, exp, node):
    """compare the outcomes of the consistent iterations with what is expected -> False on a violation"""
    res = ev.outcomes(S, entry, **sit)
    if not res:
        ctx.undec(rule, where, f'no iteration covers {sit}')
        return None
    for o, ip, odd in res:
        ctx.valuations += 1
        if o not in exp:
            if dirty(odd):
                ctx.undec(rule, where, f'depends on {[show(x) for x in odd][:3]}')
                return None
            d = dict(sit, **{k if isinstance(k, str) else k[0] + ('' if not k[1] else ' (new name)'): v
                             for k, v in ev.c.items() if v})
            ctx.bad(rule, where, f'when {d} the outcome is {o!r}, expected {sorted(exp)}', ip.sig.node or S.node, key=None)
            return False
    return True


# -- C13 --------------------------------------------------------------------------------------------------------------
NOCATS = {(k, i): False for k in ('keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename',
                                  'keys_to_add', 'keys_to_maybe_add') for i in (0, 1)}


@rule('C13', 'export-table', 'a field is exported exactly if it is whitelisted, or has no blacklisted tag and differs from its'
                             ' default or defaults are included; a missing attribute is an error unless the field has a default')
def r_table(ctx):
    ps = paths_for(ctx, False)
    if ps is None:
        return
    w, node = 'RecordBase._to_dict', ctx.node('RecordBase', '_to_dict')
    n = 0
    for p in ps:
        if not p.returns:
            continue
        n += 1
        try:
            S, o, entry, srt = collect(p, p.value)
            d = unver(S.dom)
            if (d.a[0] if d.op in ('values', 'items', 'keys') else d) is not FIELDS:
                if murky(d) or d.op == 'obj':
                    raise Unknown(f'loop over {show(d)}')
                ctx.bad('export-table', w, f'exports the elements of {show(d)} instead of the class\'s fields', S.node or node, p)
                return
            fine = True
            for W, B, D, opt, missing, deflt in itertools.product((False, True), (False, True), (False, True), (False, True),
                                                                     (False, True, 'other error'), (False, True)):
                if deflt and (missing or not opt):
                    continue
                ev = KeyEval(ctx, p, dict(NOCATS, F=True, OPT=opt))
                if not W and B:
                    exp = {'skip'}
                elif missing:
                    exp = {'raise'} if not opt or missing is not True else {'default'} if D else {'skip'}
                else:
                    exp = {'value'} if W or D or not deflt else {'skip'}
                r = judge(ctx, 'export-table', w, ev, S, entry, dict(status='field', missing=missing, deflt=deflt, W=W, B=B,
                                                                   D=D), exp, node)
                if r is False:
                    return
                if r is None:
                    fine = None
                    break
            if fine:
                ctx.ok('export-table', w, f'{len(S.paths)} iteration paths agree with the table')
        except Unknown as e:
            ctx.undec('export-table', w, str(e))
    ctx.check(n > 0 or None, 'export-table', w, 'the export returns', node)


@rule('C13', 'export-order', 'sorting only orders the exported pairs: by name, backwards for -1, by the caller\'s key of the name')
def r_order(ctx):
    ps = paths_for(ctx, False)
    if ps is None:
        return
    w, node = 'RecordBase._to_dict', ctx.node('RecordBase', '_to_dict')

    def observe(p):
        try:
            S, o, entry, srt = collect(p, p.value)
        except Unknown:
            return None
        if srt is None:
            return 'definition order'
        kf, rev = srt
        r = p.st.known(rev) if isinstance(rev, T) else rev
        if not isinstance(r, bool) and is_k(rev):
            r = bool(kval(rev))
        if not isinstance(r, bool):
            return None
        k = None
        if isinstance(kf, T) and not is_k(kf, None):
            I = ctx.interp()
            probe = T('tuple', (sym('name'), sym('value')))
            if kf is SORT:
                return 'by the key of the whole pair'
            q = ctx.call(I, kf, [probe], [], p.st, node) or []
            vs = {x.value for x in q if x.returns}
            if len(vs) != 1:
                if any(contains(f, lambda x: x is sym('name')) for x in q for f in x.facts if f not in p.facts and not murky(f)):
                    return 'by a key that depends on what the name or its key is'
                return None
            if len(q) != 1:
                return None
            k = vs.pop()
        if k is None or k is probe_name(k) or k.op == 'tuple' and k.a[0][:1] == (sym('name'),):
            s = 'by name'
        elif k is C(SORT, sym('name')):
            s = 'by key'
        elif murky(k):
            return None
        else:
            s = f'by {show(k)}'
        return s + (' backwards' if r else '')
    split = []
    for p in ps:
        if not p.returns:
            continue
        try:
            rev = (collect(p, p.value)[3] or (None, None))[1]
        except Unknown:
            rev = None
        if isinstance(rev, T) and not is_k(rev) and p.st.known(rev) is None:
            split += [Path(s, p.sig) for s in (p.st.assume(rev, True), p.st.assume(rev, False)) if s is not None]
        else:
            split.append(p)
    ctx.decide('export-order', w, split,
               [('sort', T('truthy', SORT)), ('-1', mk_cmp('eq', SORT, K(-1))), ('callable', T('callable', SORT))],
               lambda v: 'definition order' if not v['sort'] else 'by name backwards' if v['-1'] else
               'by key' if v['callable'] else 'by name', observe, node)


def probe_name(k):
    return sym('name')


# -- C29 --------------------------------------------------------------------------------------------------------------
def expected(c, missing, deflt):
    RM, MRM = c['keys_to_remove', 0], c['keys_to_maybe_remove', 0]
    RO, RN = c['keys_to_rename', 0], c['keys_to_rename', 1]
    MRO, MRN = c['keys_to_maybe_rename', 0], c['keys_to_maybe_rename', 1]
    AD, MAD = c['keys_to_add', 0], c['keys_to_maybe_add', 0]
    F, OPT = c['F'], c['OPT']
    if AD and (RN or MRN):
        return None
    if missing:
        if RM or RO:
            return {'raise', 'skip'}
        if MRO or RN or MRN or MAD or AD or not F or OPT:
            return {'skip'}
        return {'raise', 'skip'}
    if RM or RO or MRO:
        return {'value'}
    if AD:
        return {'skip', 'value'} if MRM else {'skip'}
    if F:
        if MAD and not (RN or MRN):
            return {'value'}
        return {'value', 'skip'} if deflt else {'value'}
    if RN or MRN:
        return {'skip', 'value'} if MRM else {'skip'}
    return {'skip', 'value'} if MAD or MRM else {'skip'}


@rule('C29', 'select-extraction', 'what is taken from the object fits the select: removed and renamed keys under their old'
                                  ' names, values of optional additions, added keys not at all; nothing else may be missing')
def r_select(ctx):
    ps = paths_for(ctx, True)
    if ps is None:
        return
    w, node = 'RecordBase._to_dict', ctx.node('RecordBase', '_to_dict')
    slots = [('keys_to_remove', 0), ('keys_to_maybe_remove', 0), ('keys_to_rename', 0), ('keys_to_rename', 1),
             ('keys_to_maybe_rename', 0), ('keys_to_maybe_rename', 1), ('keys_to_add', 0), ('keys_to_maybe_add', 0)]
    for p in ps:
        if not p.returns:
            continue
        try:
            S, o, entry, srt = collect(p, p.value)
            d = unver(S.dom)
            base = d.a[0] if d.op in ('values', 'items', 'keys') else d
            n = 0
            fine = True
            for bits in itertools.product((False, True), repeat=len(slots)):
                if sum(bits) > 3:
                    continue
                for F, OPT in ((False, False), (True, False), (True, True)):
                    c = dict(NOCATS, F=F, OPT=OPT)
                    c.update(zip(slots, bits))
                    ev = KeyEval(ctx, p, c)
                    status = ev.member(base)
                    for missing, deflt in ((True, False), (False, False), (False, True)):
                        if deflt and not OPT:
                            continue
                        exp = expected(c, missing, deflt)
                        if exp is None:
                            continue
                        if not status:
                            if 'skip' not in exp:
                                ctx.bad('select-extraction', w, f'an attribute that is {cats(c)} is not taken from the object',
                                        node, p)
                                return
                            continue
                        if isinstance(status, tuple) and not status[1]:
                            ctx.bad('select-extraction', w, f'a key that is {cats(c)} is taken under a different name', node, p)
                            return
                        n += 1
                        r = judge(ctx, 'select-extraction', w, ev, S, entry,
                                  dict(status='field' if status == 'field' else 'mock', missing=missing, deflt=deflt),
                                  exp, node)
                        if r is False:
                            return
                        if r is None:
                            fine = None
                            break
                    if fine is None:
                        break
                if fine is None:
                    break
            if fine:
                ctx.ok('select-extraction', w, f'{n} situations of one key agree with selecting over the attributes')
        except Unknown as e:
            ctx.undec('select-extraction', w, str(e))


def cats(c):
    names = {('keys_to_remove', 0): 'removed', ('keys_to_maybe_remove', 0): 'removed if present',
             ('keys_to_rename', 0): 'renamed', ('keys_to_rename', 1): 'the new name of a rename',
             ('keys_to_maybe_rename', 0): 'renamed if present', ('keys_to_maybe_rename', 1): 'the new name of an optional rename',
             ('keys_to_add', 0): 'added', ('keys_to_maybe_add', 0): 'added if missing', 'F': 'a field',
             'OPT': 'with a default'}
    return ', '.join(n for k, n in names.items() if c.get(k)) or 'an ordinary key'
