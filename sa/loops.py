"""Loops, comprehensions and generators: one arbitrary iteration, loop-carried values as phi terms."""
import ast

from .terms import (T, K, kval, is_k, mk_not, mk_is, mk_cmp, kbool, TRUE, FALSE, NONE, BOOL_OPS, sym, show, subst, contains,
                    walk)
from .state import St, Sig, NEXT, BREAK, CONTINUE, Ev, LoopSum, IterPath, Limit
from .exprs import seq, strip_keys

UNROLL = 8


class LoopMixin:
    # -- statements -------------------------------------------------------------------------------------------------
    def s_For(self, s, st):
        def go(x, d):
            def body(y, elem, pos):
                out = []
                for z, sg in self.assign(s.target, elem, y, s):
                    out.extend(self.exec(s.body, z) if sg.kind == 'next' else [(z, sg)])
                return out
            out = []
            for y, sig in self.iterate(d, x, body, s):
                if sig.kind == 'next':
                    out.extend(self.exec(s.orelse, y))
                elif sig.kind == 'break':
                    out.append((y, NEXT))
                else:
                    out.append((y, sig))
            return out
        return seq(self.ev(s.iter, st), go)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        c = self.counter_while(s, st)
        if c is not None:
            res = self.iterate(c, st, lambda y, e, p: self.exec(s.body, y), s, want_ind=s.test)
            if res is not None:
                return self.finish_while(s, res)

        def body(y, elem, pos):
            out = []
            for z, b in self.branch(s.test, y):
                if isinstance(b, Sig):
                    out.append((z, b))
                elif b:
                    out.extend(self.exec(s.body, z))
                else:
                    out.append((z, Sig('done')))
            return out
        n = st.counts.get(('while', id(s)), 0)
        st = st.copy()
        st.counts[('while', id(s))] = n + 1
        fid, info = self.frame(st)
        dom = T('while', info.qual, n)
        return self.finish_while(s, self.sym_loop(st, dom, lambda y, L: [(y, NONE, NONE)], body, s, is_while=True))

    def finish_while(self, s, res):
        out = []
        for y, sig in res:
            if sig.kind in ('next', 'done'):
                out.extend(self.exec(s.orelse, y))
            elif sig.kind == 'break':
                out.append((y, NEXT))
            else:
                out.append((y, sig))
        return out

    def counter_while(self, s, st):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], type(t.ops[0]).__name__
        if isinstance(r, ast.Name) and not isinstance(l, ast.Name) or op in ('Gt',):
            l, r = r, l
            op = {'Gt': 'Lt', 'Lt': 'Gt', 'NotEq': 'NotEq'}.get(op)
        if op not in ('Lt', 'NotEq') or not isinstance(l, ast.Name):
            return None
        if not is_k(self.lookup_name(l.id, st) or NONE, 0):
            return None
        res = self.ev(r, st)
        if len(res) != 1 or isinstance(res[0][1], Sig) or res[0][1].op != 'len':
            return None
        return res[0][1].a[0]

    # -- iteration --------------------------------------------------------------------------------------------------
    def iterate(self, v, st, body, node, want_ind=None):
        """run body(st, elem, pos) for the elements of v -> [(st, NEXT on exhaustion | BREAK | other signal)]"""
        items = self.static_items(v, st)
        h = st.h(v)
        if v.op == 'empty':
            items = ()
        if h is not None and h.kind == 'dict' and all(o[0] == 'set' and is_k(o[1]) for o in h.log):
            items = tuple(o[1] for o in h.log)
        if v.op in ('items', 'values', 'keys'):
            hm = st.h(v.a[0])
            if v.a[0].op == 'empty':
                items = ()
            elif hm is not None and hm.kind == 'dict' and all(o[0] == 'set' and is_k(o[1]) for o in hm.log):
                items = tuple({'items': T('tuple', (o[1], o[2])), 'keys': o[1], 'values': o[2]}[v.op] for o in hm.log)
            elif hm is not None and hm.kind == 'dict' and len(hm.log) == 1 and hm.log[0][0] == 'upd':
                v = T(v.op, hm.log[0][1])
        if items is not None and len(items) <= UNROLL and want_ind is None:
            return self.unroll([(x, K(i)) for i, x in enumerate(items)], st, body)
        op = v.op
        if op == 'gen':
            return self.iter_gen(v, st, body)
        if op == 'chain' or op == 'seqt':
            return self.iter_ops(v.a[0], st, body, node)
        if op == 'iter1':
            return self.iterate(v.a[0], st, body, node)
        if op == 'map':
            f, xs = v.a[0], v.a[1]
            if len(xs) == 1:
                return self.iterate(xs[0], st, lambda y, e, p: self.calling(f, [e], y, node,
                                                                            lambda z, w: body(z, w, p)), node)
            return self.iterate(T('zip', xs), st, lambda y, e, p: self.calling(
                f, list(self.static_items(e, y) or [T('star', e)]), y, node, lambda z, w: body(z, w, p)), node)
        if op == 'filter':
            f, x = v.a

            def fbody(y, e, p):
                if is_k(f, None):
                    tr = self.truth(e, y)
                else:
                    tr = seq(self.call(f, [e], [], y, node), lambda z, w: self.truth(w, z))
                out = []
                for z, b in tr:
                    out.extend([(z, b)] if isinstance(b, Sig) else body(z, e, p) if b else [(z, NEXT)])
                return out
            return self.iterate(x, st, fbody, node)
        if op == 'filterfalse':
            f, x = v.a

            def ffbody(y, e, p):
                tr = self.truth(e, y) if is_k(f, None) else seq(self.call(f, [e], [], y, node),
                                                                lambda z, w: self.truth(w, z))
                out = []
                for z, b in tr:
                    out.extend([(z, b)] if isinstance(b, Sig) else body(z, e, p) if not b else [(z, NEXT)])
                return out
            return self.iterate(x, st, ffbody, node)
        if op == 'enumerate':
            start = v.a[1]

            def ebody(y, e, p):
                i = p
                if not is_k(start, 0):
                    i = K(kval(p) + kval(start)) if is_k(p) and is_k(start) and kval(p) is not None else \
                        T('bin', '+', p, start)
                return body(y, T('tuple', (i, e)), p)
            return self.iterate(v.a[0], st, ebody, node)
        if op == 'rangelen':
            return self.iterate(v.a[0], st, lambda y, e, p: body(y, p, p), node)
        if op == 'zip':
            return self.iter_zip(v, st, body, node)
        if op == 'reversed':
            hh = st.h(v.a[0])
            it = self.static_items(v.a[0], st)
            if it is not None:
                return self.unroll([(x, K(i)) for i, x in enumerate(reversed(it))], st, body)
        h = st.h(v)
        if h is not None and h.kind in ('list', 'tuple', 'copy') and h.log and \
                not any(o[0] in ('prefix', 'set', 'del', 'pop') for o in h.log):
            muts = [o for o in h.log if o[0] == 'mut']
            if not muts:
                if len(h.log) <= UNROLL:
                    t = self.truth_term(v, st) if len(h.log) == 1 and h.log[0][0] == 'loop' else None
                    out = self.iter_ops(h.log, st, body, node)
                    if t is not None and st.known(t) is True and self.loop_skips(*h.log[0][1:3]):
                        # what is not empty has an element that was not left out
                        out = [(x, sig) for x, sig in out if sig.kind != 'next' or not self.all_skipped(x, st)]
                    return out
            elif len(muts) == 1 and h.log[-1] == ('mut', 'reverse', ()) and len(h.log) == 2:
                return self.iter_op(h.log[0], st, body, node, rev=True)
        return self.generic(v, st, body, node, want_ind)

    def calling(self, f, args, st, node, k):
        out = []
        for x, v in self.call(f, args, [], st, node):
            out.extend([(x, v)] if isinstance(v, Sig) else k(x, v))
        return out

    def unroll(self, items, st, body):
        cur, out = [st], []
        for e, p in items:
            nxt = []
            for x in cur:
                for y, sig in body(x, e, p):
                    if sig.kind in ('next', 'continue'):
                        nxt.append(y)
                    else:
                        out.append((y, sig))
            cur = nxt
            if len(cur) + len(out) > 4000:
                raise Limit('too many paths')
        return out + [(x, NEXT) for x in cur]

    def iter_ops(self, ops, st, body, node):
        cur, out = [st], []
        for i, o in enumerate(ops):
            nxt = []
            for x in cur:
                for y, sig in self.iter_op(o, x, body, node, pos=K(i) if all(p[0] == 'one' for p in ops[:i]) else None):
                    if sig.kind in ('next', 'continue'):
                        nxt.append(y)
                    else:
                        out.append((y, sig))
            cur = nxt
        return out + [(x, NEXT) for x in cur]

    def iter_op(self, o, st, body, node, rev=False, pos=None):
        if o[0] == 'one':
            return body(st, o[1], pos or T('opaque', 'pos'))
        if o[0] == 'ext':
            v = o[1]
            if rev:
                v = v.a[0] if v.op == 'reversed' else T('reversed', v)
            return self.iterate(v, st, body, node)
        if o[0] == 'sorted':
            return self.generic(T('sorted', *o[1:]), st, body, node)
        if o[0] == 'loop':
            S, obj = o[1], o[2]
            dom = S.dom
            if rev:
                dom = dom.a[0] if dom.op == 'reversed' else T('reversed', dom)
            alts = self.loop_alts(S, obj)
            if alts is None or dom.op == 'while':
                return self.generic(T('loopres', S.L), st, body, node)

            def elem_fn(y, L):
                out = []
                m = {S.L: L}
                if rev:
                    m = lambda t: L if t is S.L else T('elem', dom, L) if t.op == 'elem' and t.a[1] is S.L and \
                        t.a[0] is S.dom else None
                for facts, val in alts + skips:
                    z = y
                    for a, b in facts:
                        z = z.assume(subst(a, m), b)
                        if z is None:
                            break
                    if z is not None:
                        # an element that was left out takes part in no iteration
                        out.append((z, None if val is None else subst(val, m),
                                    T('opaque', 'pos') if skips else T('idx', L, dom)))
                return out
            skips = self.loop_skips(S, obj)
            return self.sym_loop(st, dom, elem_fn, body, node)
        return self.generic(T('opaque', str(o[0])), st, body, node)

    def all_skipped(self, x, st):
        new = [e for e in x.events[len(st.events):] if e.kind == 'loop']
        if len(new) != 1 or new[0].a[1][0] != 'done':
            return False
        S = new[0].a[0]
        return all(S.paths[i].skip for i in new[0].a[1][1])

    def loop_skips(self, S, obj):
        """[(facts, None)] of the iterations that append nothing to obj"""
        return [(tuple((k, b) for k, b in p.facts.items() if not contains(
            k, lambda y: y.op == 'obj' and y in S.heap or y.op == 'phi' and y.a[0] is S.L)), None)
            for p in S.paths if p.goes_on and not p.ops.get(obj)]

    def loop_alts(self, S, obj):
        """[(facts, appended value)] if every iteration appends at most one element to obj"""
        out = []
        for p in S.paths:
            if not p.goes_on:
                continue
            ops = p.ops.get(obj, ())
            if not ops:
                continue
            if len(ops) != 1 or ops[0][0] != 'one':
                return None
            # what was known of a container the loop was filling is not known of it any more
            facts = tuple((k, b) for k, b in p.facts.items() if not contains(
                k, lambda y: y.op == 'obj' and y in S.heap or y.op == 'phi' and y.a[0] is S.L))
            out.append((facts, ops[0][1]))
        return out

    def mapped_elem(self, obj, L, st):
        return None

    def iter_zip(self, v, st, body, node):
        parts = v.a[0]
        stat = [self.static_items(p, st) for p in parts]
        if all(x is not None for x in stat):
            return self.unroll([(T('tuple', t), K(i)) for i, t in enumerate(zip(*stat))], st, body)
        # zip(x, xs) with counters collapses to the sequence itself
        real = [p for p in parts if p.op not in ('count',) and not (p.op == 'rangelen')]
        doms = []
        lens = {self.b_builtins_len([d], [], st, node)[0][1]
                for d in (self.zip_dom(p, st) for p in parts if p.op != 'repeat') if d is not None}
        parts = [T('repeat', p.a[0], None) if p.op == 'repeat' and p.a[1] in lens else p for p in parts]
        for p in parts:
            d = self.zip_dom(p, st)
            if d is not None and d not in doms:
                doms.append(d)
        dom = doms[0] if len(doms) == 1 else T('zip', tuple(doms))

        def elem_fn(y, L):
            alts = [(y, [])]
            for p in parts:
                na = []
                for z, acc in alts:
                    for w, e in self.elem_of(p, L, dom, z):
                        na.append((w, acc + [e]))
                alts = na
            return [(z, T('tuple', tuple(acc)), T('idx', L, dom)) for z, acc in alts]
        return self.sym_loop(st, dom, elem_fn, body, node)

    def zip_dom(self, p, st):
        """the collection whose elements drive a zipped part"""
        if p.op in ('count',) or p.op == 'repeat' and p.a[1] is None:
            return None
        if p.op in ('rangelen', 'items', 'keys', 'values', 'enumerate', 'iter1'):
            return self.zip_dom(p.a[0], st)
        h = st.h(p)
        if h is not None and len(h.log) == 1 and h.log[0][0] == 'loop':
            S, obj = h.log[0][1], h.log[0][2]
            if self.loop_alts(S, obj) is not None and all(q.goes_on and q.ops.get(obj) for q in S.paths):
                return S.dom
        if h is not None and len(h.log) == 1 and h.log[0][0] == 'ext':
            return self.zip_dom(h.log[0][1], st)
        return st.versioned(p)

    def elem_of(self, p, L, dom, st):
        """-> [(st, element of zipped part p at loop position L)]"""
        if p.op == 'count':
            return [(st, T('idx', L, dom))]
        if p.op == 'rangelen':
            return [(st, T('idx', L, dom))]
        if p.op == 'repeat':
            return [(st, p.a[0])]
        if p.op == 'iter1':
            return self.elem_of(p.a[0], L, dom, st)
        if p.op == 'enumerate':
            return [(s, T('tuple', (T('idx', L, dom), e))) for s, e in self.elem_of(p.a[0], L, dom, st)]
        if p.op in ('items', 'keys', 'values'):
            k = T('elem', p.a[0], L)
            x = T('item', st.versioned(p.a[0]), k)
            return [(st, {'items': T('tuple', (k, x)), 'keys': k, 'values': x}[p.op])]
        h = st.h(p)
        if h is not None and len(h.log) == 1 and h.log[0][0] == 'loop':
            S, obj = h.log[0][1], h.log[0][2]
            alts = self.loop_alts(S, obj)
            if alts is not None and all(q.goes_on and q.ops.get(obj) for q in S.paths):
                out = []
                for facts, val in alts:
                    z = st
                    for a, b in facts:
                        z = z.assume(subst(a, {S.L: L}), b)
                        if z is None:
                            break
                    if z is not None:
                        out.append((z, subst(val, {S.L: L})))
                return out
        if h is not None and len(h.log) == 1 and h.log[0][0] == 'ext':
            return self.elem_of(h.log[0][1], L, dom, st)
        return [(st, T('elem', st.versioned(p), L))]

    def generic(self, v, st, body, node, want_ind=None):
        if v.op in ('items', 'keys', 'values'):
            m = v.a[0]
            dom = st.versioned(m)

            def elem_fn(y, L):
                k = T('elem', dom, L)
                x = T('item', y.versioned(m) if m in y.ver else dom, k)
                x = T('item', dom, k)
                return [(y, {'items': T('tuple', (k, x)), 'keys': k, 'values': x}[v.op], T('idx', L, dom))]
        else:
            dom = st.versioned(v)

            def elem_fn(y, L):
                return [(y, T('elem', dom, L), T('idx', L, dom))]
        return self.sym_loop(st, dom, elem_fn, body, node, want_ind=want_ind)

    # -- the loop itself --------------------------------------------------------------------------------------------
    def sym_loop(self, st, dom, elem_fn, body, node, is_while=False, want_ind=None):
        n = st.counts.get(dom, 0)
        L = T('L', dom, n)
        base = st.copy()
        base.counts[dom] = n + 1
        hv = st.h(dom)
        if not is_while:
            t = self.truth_term(dom, st) if dom.op not in ('zip', 'reversed', 'sorted', 'loopres') else None
            if t is not None and st.known(t) is False:
                return [(base, NEXT)]
        else:
            t = None
        fin, phi, ind, new = {}, {}, {}, set()
        heapch, verch = set(), set()
        for rnd in range(8):
            S = LoopSum(L, dom, node, st.stack[-1] if st.stack else None)
            S.init = {l: self.loc_get(base, l) for l in list(fin) + list(phi) + list(ind)}
            start = {l: S.init[l] for l in fin}
            work, seen, results = [start], [start], []
            changed = False
            while work:
                val = work.pop()
                head = base.copy()
                for l in phi:
                    self.loc_set(head, l, T('phi', L, l))
                for l, c in ind.items():
                    self.loc_set(head, l, self.counter(c, T('idx', L, dom)))
                for l in fin:
                    self.loc_set(head, l, val[l])
                for o in heapch:
                    head.heap[o.a[0]] = head.heap[o.a[0]].add(('prefix', S))
                for b in verch:
                    head.ver[b] = base.ver.get(b, 0) + 1
                head.events = ()
                for h2, elem, pos in elem_fn(head, L):
                    for s2, sig in self.settled([(h2, NEXT)] if elem is None else body(h2, elem, pos), head, base, phi):
                        results.append((val, head, s2, sig, elem is None))
                        if len(results) > 3000:
                            raise Limit('too many loop paths')
                        if sig.kind not in ('next', 'continue'):
                            continue
                        nval = dict(val)
                        for l, v in self.changes(head, s2):
                            if l in fin:
                                if self.const(v):
                                    nval[l] = v
                                else:
                                    changed = True
                                    phi[l] = True
                                    del fin[l]
                                    break
                            elif l in phi:
                                pass
                            elif l in ind:
                                c = ind[l]
                                want = self.plus(T('idx', L, dom), c + 1) if type(c) is int else \
                                    T('bin', '-', self.counter(c, T('idx', L, dom)), K(1))
                                if v is not want:
                                    changed = True
                                    phi[l] = True
                                    del ind[l]
                                    break
                            elif l in new:
                                pass
                            else:
                                changed = True
                                init = self.loc_get(base, l)
                                if init is None:
                                    new.add(l)
                                elif self.const(init) and self.const(v) and type(kval(v) if is_k(v) else 0) is not int:
                                    fin[l] = True
                                else:
                                    phi[l] = True
                                break
                        for o in self.heap_changes(head, s2):
                            if o not in heapch:
                                heapch.add(o)
                                changed = True
                        for b in self.ver_changes(head, s2):
                            if b not in verch:
                                verch.add(b)
                                changed = True
                        if changed:
                            break
                        nv = {l: nval[l] for l in fin}
                        if nv not in seen:
                            if len(seen) > 12:
                                for l in list(fin):
                                    phi[l] = True
                                fin.clear()
                                changed = True
                                break
                            seen.append(nv)
                            work.append(nv)
                    if changed:
                        break
                if changed:
                    break
            if not changed:
                # induction variables
                for l in list(phi):
                    p = T('phi', L, l)
                    vals = [self.loc_get(s2, l) for v, h, s2, sig, skip in results if sig.kind in ('next', 'continue')]
                    init = self.loc_get(base, l)
                    if vals and all(v is T('bin', '+', p, K(1)) for v in vals) and is_k(init) and \
                            type(kval(init)) is int and not is_while:
                        del phi[l]
                        ind[l] = kval(init)
                        changed = True
                    elif vals and all(v is T('bin', '-', p, K(1)) for v in vals) and not is_while and \
                            init.op == 'len' and init.a[0] is dom:
                        del phi[l]
                        ind[l] = init
                        changed = True
                if not changed:
                    break
        else:
            raise Limit('loop does not stabilise')
        if want_ind is not None:
            # a counting while loop: only if the counter in its test really counts the elements
            names = [x.id for x in ast.walk(want_ind) if isinstance(x, ast.Name)]
            if not any(l[0] == 'var' and l[2] in names for l in ind):
                return None
        S.phi = {l: T('phi', L, l) for l in phi}
        S.fin, S.ind, S.heap = set(fin), dict(ind), set(heapch)
        S.init = {l: self.loc_get(base, l) for l in list(fin) + list(phi) + list(ind)}
        return self.loop_out(S, base, start, seen, results, fin, phi, ind, new, heapch, verch, t, is_while)

    def settled(self, results, head, base, phi):
        """the results of a round, with a flag that was set to the outcome of a test being either True or False"""
        for s2, sig in results:
            if sig.kind not in ('next', 'continue'):
                yield s2, sig
                continue
            states = [s2]
            for l, v in self.changes(head, s2):
                if l in phi or v.op not in BOOL_OPS or self.loc_get(base, l) not in (TRUE, FALSE):
                    continue
                nxt = []
                for y in states:
                    for b in (True, False):
                        z = y.assume(v, b)
                        if z is not None:
                            z = z.copy()
                            self.loc_set(z, l, kbool(b))
                            nxt.append(z)
                states = nxt
            for y in states:
                yield y, sig

    def whole_copy(self, S, o, nexts, st):
        """the operation that filling a container in this loop amounts to, if every round puts in just its element"""
        dom = S.dom
        if not isinstance(dom, T) or dom.op in ('zip', 'loopres', 'while', 'enumerate') or not nexts:
            return None
        kind = st.heap[o.a[0]].kind
        el = T('elem', dom, S.L)
        if kind in ('list', 'set') and all(p.ops.get(o) == (('one', el),) for p in nexts):
            return ('ext', dom)
        if kind == 'dict' and all(p.ops.get(o) == (('set', el, T('item', dom, el)),) for p in nexts):
            return ('upd', dom)
        return None

    def loop_out(self, S, base, start, seen, results, fin, phi, ind, new, heapch, verch, t, is_while):
        S.init_head = dict(start)
        L, dom = S.L, S.dom
        out = []
        for val, head, s2, sig, skip in results:
            facts = {k: v for k, v in s2.facts.items() if k not in base.facts}
            steps, ops = {}, {}
            nv = None
            if sig.kind in ('next', 'continue'):
                nv = dict(val)
                for l, v in self.changes(head, s2):
                    if l in fin:
                        nv[l] = v
                    steps[l] = v
            for o in heapch:
                was, now = head.heap[o.a[0]].log, s2.heap[o.a[0]].log
                ops[o] = now[len(was):] if now[:len(was)] == was else (('reset',),) + now
                if was and now[:len(was)] != was and now[len(now) - len(was):] == was and \
                        all(x[0] == 'one' for x in now[:len(now) - len(was)]):
                    ops[o] = tuple(('pre', x[1]) for x in now[:len(now) - len(was)])
            p = IterPath(len(S.paths), val, facts, s2.events, sig, None, steps, ops, nv, s2)
            p.skip = skip
            S.paths.append(p)
        rev = set()
        for o in heapch:
            mine = [p.ops.get(o, ()) for p in S.paths]
            if any(x[0] == 'pre' for ops in mine for x in ops):
                # a list that only grows at its front holds what was put in, last first
                only = all(len(ops) <= 1 and all(x[0] == 'pre' for x in ops) for ops in mine) and \
                    not base.heap[o.a[0]].log and all(p.goes_on for p in S.paths)
                for p in S.paths:
                    p.ops[o] = tuple(('one', x[1]) if only else x if x[0] != 'pre' else ('mut', 'insert', (K(0), x[1]))
                                     for x in p.ops.get(o, ()))
                if only:
                    rev.add(o)
        for p in S.paths:
            if p.goes_on:
                continue
            x = p.st.copy()
            x.events = base.events + (Ev('loop', (S, ('exit', p.idx)), S.node, S.fn),) + tuple(p.events)
            if t is not None:
                x = x.assume(t, True)
            for within in self.subset_tests(S, base, ()):
                if x is not None and p.facts.get(T('in', T('elem', dom, L), within)) is False:
                    x = x.assume(T('le', strip_keys(dom), within), False)
            if x is not None:
                out.append((x, p.sig))
        if is_while:
            return out
        last = T('last', L)
        for v in seen:
            # which iterations can lie on a run that is in valuation v at the end
            allowed = self.allowed(S, start, v)
            nexts = [S.paths[i] for i in allowed]
            x = base.copy()
            empty = not nexts or all(p.facts.get(last) is False for p in nexts)
            if v != start:
                if empty:
                    continue
                if t is not None:
                    x = x.assume(t, True)
            elif empty and t is not None:
                x = x.assume(t, False)
            elif empty and dom.op == 'zip':
                pass
            if x is None:
                continue
            if not empty or v != start:
                for l in fin:
                    self.loc_set(x, l, v[l])
                for l, c in ind.items():
                    self.loc_set(x, l, K(0) if type(c) is not int else self.plus(T('len', dom), c))
                for l in list(phi) + list(new):
                    self.loc_set(x, l, self.fold(S, l, nexts, self.loc_get(base, l)))
                for o in heapch:
                    if any(p.ops.get(o) for p in nexts):
                        x.heap[o.a[0]] = x.heap[o.a[0]].add(self.whole_copy(S, o, nexts, x) or ('loop', S, o))
                        if o in rev:
                            x.heap[o.a[0]] = x.heap[o.a[0]].add(('mut', 'reverse', ()))
                        x.ver[o] = x.ver.get(o, 0) + 1
                for b in verch:
                    x.ver[b] = base.ver.get(b, 0) + 1
            x.events = base.events + (Ev('loop', (S, ('done', tuple(allowed), v == start)), S.node, S.fn),)
            for within in self.subset_tests(S, base, verch):
                inside = T('in', T('elem', dom, L), within)
                whole = T('le', strip_keys(dom), within)
                if x is None:
                    break
                if all(p.facts.get(inside) is True for p in nexts):
                    x = x.assume(whole, True)
                elif v != start and not self.allowed(S, start, v, lambda p: p.facts.get(inside) is not False):
                    x = x.assume(whole, False)
            if x is not None:
                out.append((x, NEXT))
        return out

    def subset_tests(self, S, base, verch):
        """the containers that every element of the loop's domain is tested for membership in"""
        if S.dom.op in ('zip', 'reversed', 'sorted', 'loopres', 'while'):
            return []
        out = []
        for p in S.paths:
            for k in p.facts:
                if k.op == 'in' and k.a[0] is T('elem', S.dom, S.L) and k.a[1] not in out and \
                        not contains(k.a[1], lambda y: y is S.L):
                    out.append(k.a[1])
        return [w for w in out if all(w is not b and not (w.op == 'ver' and w.a[0] is b) for b in verch)]

    def allowed(self, S, start, v, only=lambda p: True):
        def key(d):
            return tuple(sorted(((str(k), show(x)) for k, x in d.items())))
        fw, bw = {key(start)}, {key(v)}
        ch = True
        while ch:
            ch = False
            for p in S.paths:
                if p.goes_on and only(p):
                    if key(p.head) in fw and key(p.nhead) not in fw:
                        fw.add(key(p.nhead))
                        ch = True
                    if key(p.nhead) in bw and key(p.head) not in bw:
                        bw.add(key(p.head))
                        ch = True
        ok = fw & bw
        return [p.idx for p in S.paths if p.goes_on and only(p) and key(p.head) in ok and key(p.nhead) in ok]

    def fold(self, S, l, nexts, init):
        p = T('phi', S.L, l)
        steps = []
        for q in nexts:
            v = q.steps.get(l, p)
            if v not in steps:
                steps.append(v)
        if steps == [p]:
            return init
        if len(steps) == 1:
            return T('fold', S.L, init if init is not None else T('unbound'), subst(steps[0], {p: T('acc', S.L)}))
        return T('phiout', S.L, T('loc', str(l[-1])), init if init is not None else T('unbound'), tuple(
            subst(s, {p: T('acc', S.L)}) for s in steps))

    def const(self, v):
        return is_k(v) or v.op in ('enum', 'sentinel', 'class')

    def counter(self, c, idx):
        """a variable that counts up from c, or down from the length of the domain"""
        return self.plus(idx, c) if type(c) is int else T('bin', '-', c, idx)

    def plus(self, t, c):
        return t if c == 0 else T('bin', '+', t, K(c))

    def loc_get(self, st, l):
        if l[0] == 'var':
            return st.frames[l[1]][0].get(l[2])
        return st.over.get((l[1], l[2]))

    def loc_set(self, st, l, v):
        if l[0] == 'var':
            fr = st.frames[l[1]]
            st.frames[l[1]] = (dict(fr[0], **{l[2]: v}), fr[1])
        else:
            st.over[(l[1], l[2])] = v

    def changes(self, a, b):
        out = []
        for fid, (vars_, info) in a.frames.items():
            nb = b.frames.get(fid)
            if nb is None or nb[0] is vars_:
                continue
            for k, v in nb[0].items():
                if vars_.get(k) is not v:
                    out.append((('var', fid, k), v))
        for k, v in b.over.items():
            if a.over.get(k) is not v:
                out.append((('over',) + k, v))
        return out

    def heap_changes(self, a, b):
        return [T('obj', o) for o, h in a.heap.items() if b.heap[o].log != h.log]

    def ver_changes(self, a, b):
        return [k for k, v in b.ver.items() if a.ver.get(k, 0) != v]

    # -- comprehensions and generators ------------------------------------------------------------------------------
    def comp_frame(self, e, st):
        from .interp import FrameInfo
        fid, info = self.frame(st)
        fi = FrameInfo(fid, info.module, info.cls, e, info.qual)
        fi.locals = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        fi.first = None
        st = st.copy()
        my = st.nfid
        st.nfid += 1
        st.frames[my] = ({}, fi)
        return st, my

    def comp(self, e, st, emit):
        """run the generators of a comprehension; emit(st) -> [(st, sig)] for every element"""
        st, my = self.comp_frame(e, st)
        outer = st.stack
        return seq(self.ev(e.generators[0].iter, st),
                   lambda x, d: self.comp_with(e, x, d, my, outer, emit))

    def comp_with(self, e, st, first, my, outer, emit):
        x = st.copy()
        x.stack = outer + ((outer[-1][0], my),)

        def level(i, x, dom):
            g = e.generators[i]

            def body(z, elem, pos):
                out = []
                for w, sg in self.assign(g.target, elem, z, g.target):
                    if sg.kind != 'next':
                        out.append((w, sg))
                        continue

                    def inner(u):
                        if i + 1 == len(e.generators):
                            return emit(u)
                        return seq(self.ev(e.generators[i + 1].iter, u), lambda q, d2: level(i + 1, q, d2))
                    out.extend(self.conds(g.ifs, w, inner))
                return out
            return self.iterate(dom, x, body, e)
        return [(self._restack(y, outer), sg) for y, sg in level(0, x, first)]

    def _restack(self, st, stack):
        st = st.copy()
        st.stack = stack
        return st

    def conds(self, ifs, st, k):
        cur, out = [st], []
        for c in ifs:
            nxt = []
            for x in cur:
                for y, b in self.branch(c, x):
                    if isinstance(b, Sig):
                        out.append((y, b))
                    elif b:
                        nxt.append(y)
                    else:
                        out.append((y, NEXT))
            cur = nxt
        for x in cur:
            out.extend(k(x))
        return out

    def e_ListComp(self, e, st, kind='list'):
        st, o = st.alloc(kind, node=e)

        def emit(x):
            return [(y, v) if isinstance(v, Sig) else (y.log(o, ('one', v)), NEXT) for y, v in self.ev(e.elt, x)]
        return [(x, sg if sg.kind != 'next' else o) for x, sg in self.comp(e, st, emit)]

    def e_SetComp(self, e, st):
        return self.e_ListComp(e, st, 'set')

    def e_DictComp(self, e, st):
        st, o = st.alloc('dict', node=e)

        def emit(x):
            return [(y, v) if isinstance(v, Sig) else (y.log(o, ('set', v[0], v[1])), NEXT)
                    for y, v in self.ev_many([e.key, e.value], x)]
        return [(x, sg if sg.kind != 'next' else o) for x, sg in self.comp(e, st, emit)]

    def e_GeneratorExp(self, e, st):
        def go(x, d):
            x, my = self.comp_frame(e, x)
            g = T('gen', my)
            x.gens[my] = ('exp', e, my, x.stack, d)
            return [(x, g)]
        return seq(self.ev(e.generators[0].iter, st), go)

    def iter_gen(self, v, st, body):
        g = st.gens.get(v.a[0])
        if g is None:
            return self.generic(T('opaque', 'gen'), st, body, None)
        if g[0] == 'exp':
            _, e, my, stack, d = g
            outer = st.stack

            def emit(x):
                def go(y, val):
                    y = self._restack(y, outer)
                    return [(self._restack(z, stack + ((stack[-1][0], my),)), sg) for z, sg in
                            body(y, val, T('opaque', 'pos'))]
                return seq(self.ev(e.elt, x), go)
            x = st.copy()
            x.stack = stack
            return [(self._restack(y, outer), sg) for y, sg in self.comp_with(e, x, d, my, stack, emit)]
        _, node, my, stack = g
        outer, oy, ot, oe = st.stack, st.yields, st.tries, st.exc

        def handler(x, val):
            istack, iy, it, ie = x.stack, x.yields, x.tries, x.exc
            x = x.copy()
            x.stack, x.yields, x.tries, x.exc = outer, oy, ot + it[len(ot):] if False else ot, oe
            out = []
            for y, sg in body(x, val, T('opaque', 'pos')):
                y = y.copy()
                y.stack, y.yields, y.tries, y.exc = istack, iy, it, ie
                if sg.kind in ('next', 'continue'):
                    out.append((y, NONE))
                else:
                    out.append((y, Sig('genexit', sg)))
            return out
        x = st.copy()
        x.stack = stack
        x.yields = oy + (handler,)
        out = []
        for y, sg in self.exec(node.body, x):
            y = y.copy()
            y.stack, y.yields, y.tries, y.exc = outer, oy, ot, oe
            if sg.kind == 'genexit':
                out.append((y, sg.val))
            elif sg.kind in ('return', 'next'):
                out.append((y, NEXT))
            else:
                out.append((y, sg))
        return out

    def e_Yield(self, e, st):
        def go(x, v):
            if not x.yields:
                return [(x.emit('yield', v, node=e), NONE)]
            return x.yields[-1](x, v)
        return seq(self.ev(e.value, st) if e.value is not None else [(st, NONE)], go)

    def e_YieldFrom(self, e, st):
        def go(x, v):
            def body(y, elem, pos):
                if not y.yields:
                    return [(y.emit('yield', elem, node=e), NEXT)]
                return [(z, w if isinstance(w, Sig) else NEXT) for z, w in y.yields[-1](y, elem)]
            return [(y, NONE if sg.kind == 'next' else sg) for y, sg in self.iterate(v, x, body, e)]
        return seq(self.ev(e.value, st), go)
