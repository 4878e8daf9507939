"""Print the dataflow outcomes of one function (debugging aid)."""
import sys
import time
sys.path.insert(0, '/verif')
from sa.flow import Config, Flow, Raised, sym  # noqa
from sa.loader import Program  # noqa
from sa import terms  # noqa

LEG = {}


def show(t):
    """show with long shared call terms abbreviated"""
    def ab(x):
        if isinstance(x, tuple) and x and x[0] == 'a' and x[1] in ('call', 'parsed', 'msg', 'comp', 'dcomp', 'fold', 'm:split'):
            if x not in LEG:
                LEG[x] = None
                body = terms.show(('a',) + tuple(ab(y) for y in x[1:]))
                LEG[x] = '$%d' % len(LEG)
                print('        [%s = %s]' % (LEG[x], body[:600]))
            return ('s', LEG[x] or '$rec', None)
        if isinstance(x, tuple):
            return tuple(ab(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(ab(y) for y in x)
        return x
    return terms.show(ab(t))



def pev(e, ind='     '):
    if e[0] == 'loop':
        print(ind, 'LOOP', show(e[1])[:200], e[6] or '')
        for p, evs in e[2]:
            print(ind, '  when', [(b, show(a)) for a, b in p])
            for x in evs:
                pev(x, ind + '      ')
        return
    def sh(x):
        try:
            return x if isinstance(x, str) else show(x)
        except Exception:
            return repr(x)
    print(ind, 'ev', e[0], sh(e[1]), sh(e[2]) if e[2] else '', [sh(x) for x in e[3]] if isinstance(e[3], tuple) and e[3] and isinstance(e[3][0], tuple) else (sh(e[3]) if e[3] else ''),
          (sh(e[4]) if e[4] and e[0] != 'call' else e[4] or ''), '@%s' % (e[5][1] if e[5] else ''), 'RAISES ' + e[6][1] if e[6] and e[6][0] == 'raised' else '')


def dump(fl, res, facts=True, events=True, w=400):
    for s, v in res:
        if isinstance(v, Raised):
            print('-> RAISE', fl.exc_class(s, v.exc), show(s.fields.get((v.exc, 'args'), ('t', ())))[:w])
        else:
            print('->', show(fl.freeze(s, v))[:w * 2], {k[1]: show(fl.freeze(s, x))[:w] for k, x in s.fields.items() if k[0] == v})
        if facts:
            for a, b in s.facts.items():
                print('     ', '+' if b else '-', show(a)[:w])
        if events:
            for e in s.events:
                pev(e)
        if s.imprecise:
            print('   IMPR', s.imprecise)


if __name__ == '__main__':
    p = Program()
    key = sys.argv[1]
    fi = p.func(key)
    cfg = Config()
    fl = Flow(p, cfg)
    t = time.time()
    args = []
    for i, a in enumerate(fi.params):
        c = fi.cls.key if fi.cls and i == 0 and fi.kind != 'staticmethod' else None
        for o in sys.argv[2:]:
            if o.startswith(a + ':'):
                c = o.split(':', 1)[1]
        if fi.kind == 'classmethod' and i == 0:
            args.append(('k', fi.cls.key))
            continue
        args.append(sym(a, c))
    res = fl.run(key, args)
    dump(fl, res)
    print('%.2fs %d outcomes, %d inlined' % (time.time() - t, len(res), len(fl.inlined)))
