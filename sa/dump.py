"""python3 -m sa.dump Class.method [opaque,...] [-i inlineattr,..] : print the path summaries of one function (debugging aid)"""
import sys
from .program import Program
from .interp import Interp
from .terms import show


SEEN = set()


def loops(events, ind='      '):
    for e in events:
        if e.kind == 'loop':
            S = e.a[0]
            key = repr([(ip.facts, ip.sig) for ip in S.paths])
            if key in SEEN:
                print(f'{ind}LOOP {S.L} (seen) {e.a[1]}')
                continue
            SEEN.add(key)
            print(f'{ind}LOOP {S.L} dom={show(S.dom)} init={ {k: show(v) for k, v in S.init.items()} }')
            for ip in S.paths:
                fs = ', '.join(('' if v else 'not ') + show(k) for k, v in ip.facts.items())
                print(f'{ind}  #{ip.idx} [{fs}] head={ip.head} ev={[x for x in ip.events if x.kind != "loop"]} ops={ip.ops} steps={ip.steps} -> {ip.sig}')
                loops(ip.events, ind + '    ')


def main():
    P = Program()
    tgt = sys.argv[1]
    opq = [x for x in (sys.argv[2].split(',') if len(sys.argv) > 2 else []) if x]
    inl = sys.argv[4].split(',') if len(sys.argv) > 4 else ()
    I = Interp(P, opaque=opq, inline_attrs=inl)
    if '.' in tgt and not tgt.startswith('records.'):
        c, m = tgt.rsplit('.', 1)
        paths = I.run_method(c, m)
    else:
        paths = I.run(P.fn(tgt), [__import__('sa.terms', fromlist=['sym']).sym(a.arg) for a in P.fn(tgt).args.args])
    for i, p in enumerate(paths):
        print(i, p)
        for o, h in p.st.heap.items():
            if h.log:
                print('     ', o, h)
        loops(p.events)


if __name__ == '__main__':
    main()
