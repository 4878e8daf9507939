"""Rule framework: obligations, findings, evidence."""
import json
import os
import time

from .flow import Budget, Config, Flow, Raised, sym  # noqa
from .loader import AnchorMissing, Program  # noqa
from .terms import (A, AND, C, FALSE, NONE, NOT, OR, TRUE, eq, is_formula, isA, isC, le, lt, show, subterms, truth)  # noqa

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MSG = 'openid.message.Message'


class Ctx(object):
    def __init__(self, pid, tier='quick', root='/repo'):
        self.pid, self.tier = pid, tier
        self.p = Program(root)
        self.findings, self.obligations, self.passed = [], 0, 0
        self.functions, self.outcomes, self.call_sites = set(), 0, 0
        self.rules, self.samples, self.runs = {}, [], []
        self.t0 = time.time()

    # ---- analyses
    def flow(self, **kw):
        fl = Flow(self.p, Config(**kw))
        return fl

    def run(self, fl, key, args, kw=(), setup=None):
        before = fl.call_sites
        res = fl.run(key, args, kw, setup)
        self.functions |= fl.inlined
        self.functions.add(key)
        self.outcomes += len(res)
        self.call_sites += fl.call_sites - before
        self.runs.append('%s: %d outcomes, %d functions' % (key, len(res), len(fl.inlined)))
        return res

    def cont(self, fl, st, key, args, kw=()):
        """analyse function `key` from the state another analysis ended in (its effects and branch facts forgotten)"""
        st = st.copy()
        st.events, st.facts = (), {}
        before = fl.call_sites
        res = fl.call_func(st, ('f', key, ()), list(args), tuple(kw), None)
        self.functions |= fl.inlined
        self.functions.add(key)
        self.outcomes += len(res)
        self.call_sites += fl.call_sites - before
        self.runs.append('%s: %d outcomes, %d functions' % (key, len(res), len(fl.inlined)))
        return res

    def parallel(self, fn, items):
        """run fn(ctx, item) for every item in forked workers and join what they found"""
        items = list(items)
        import multiprocessing
        ctxm = multiprocessing.get_context('fork')
        global _JOB
        _JOB = (self, fn, items)
        errors = []
        with ctxm.Pool(min(8, len(items), os.cpu_count() or 1)) as pool:
            for r in pool.map(_work, range(len(items)), 1):
                if r[0] == 'err':
                    errors.append(r)
                sub = r[-1]
                for f in sub['findings']:
                    if f not in self.findings:
                        self.findings.append(f)
                self.obligations += sub['obligations']
                self.passed += sub['passed']
                self.functions |= sub['functions']
                self.outcomes += sub['outcomes']
                self.call_sites += sub['call_sites']
                for k, (a, b) in sub['rules'].items():
                    x = self.rules.setdefault(k, [0, 0])
                    x[0] += a
                    x[1] += b
                self.samples = (self.samples + sub['samples'])[:6]
                self.runs += sub['runs']
        for r in errors:
            raise {'anchor': AnchorMissing, 'budget': Budget}.get(r[1], RuntimeError)(r[2])

    def seen(self, *keys):
        self.functions.update(keys)

    # ---- obligations
    def ob(self, ok, rule, construct, msg, where=None):
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.passed += 1
            r[1] += 1
        else:
            f = {'rule': rule, 'construct': construct, 'message': msg, 'where': where or self.where(construct)}
            if not any(x['rule'] == rule and x['construct'] == construct and x['message'] == msg for x in self.findings):
                self.findings.append(f)
        return ok

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, str) else show(s)[:300])

    def where(self, construct):
        fi = self.p.funcs.get(construct)
        if fi:
            return '%s:%d' % (fi.mod.relpath, fi.node.lineno)
        ci = self.p.classes.get(construct)
        if ci:
            return '%s:%d' % (ci.mod.relpath, ci.node.lineno)
        return ''


_JOB = None


def _work(i):
    import sys
    import traceback
    sys.setrecursionlimit(20000)
    ctx, fn, items = _JOB
    sub = Ctx.__new__(Ctx)
    sub.pid, sub.tier, sub.p, sub.t0 = ctx.pid, ctx.tier, ctx.p, ctx.t0
    sub.findings, sub.obligations, sub.passed = [], 0, 0
    sub.functions, sub.outcomes, sub.call_sites = set(), 0, 0
    sub.rules, sub.samples, sub.runs = {}, [], []
    err = ()
    try:
        fn(sub, items[i])
    except AnchorMissing as e:
        err = 'err', 'anchor', str(e)
    except Budget as e:
        err = 'err', 'budget', str(e)
    except Exception:
        err = 'err', 'crash', traceback.format_exc()
    return (err or ('ok',)) + ({k: getattr(sub, k) for k in ('findings', 'obligations', 'passed', 'functions', 'outcomes', 'call_sites', 'rules', 'samples', 'runs')},)


# ---------------------------------------------------------------- term helpers
def ARG(m, key, ns='$OPENID'):
    return A('arg', m, C(ns), C(key))


def is_exc(v):
    return isinstance(v, Raised)


def cls_of(fl, st, v):
    """class key of a returned value or raised exception"""
    if isinstance(v, Raised):
        return fl.exc_class(st, v.exc)
    return fl.type_of(st, v)


def field(fl, st, obj, name):
    """value of obj.name in st (frozen); None when it has several or no values"""
    res = fl.get_attr(st.copy(), obj, name)
    if len(res) == 1 and not isinstance(res[0][1], Raised):
        return fl.freeze(res[0][0], res[0][1])
    return None


def rawfield(fl, st, obj, name):
    res = fl.get_attr(st.copy(), obj, name)
    if len(res) == 1 and not isinstance(res[0][1], Raised):
        return res[0][1]
    return None


def entails(fl, st, f, val=True):
    """the facts of st force formula f to have truth value val"""
    if not is_formula(f) and f not in (TRUE, FALSE):
        f = truth(f)
    return not fl.assume(st.copy(), f, not val)


def entails_facts(fl, facts, f, val=True):
    from .flow import State
    st = State()
    st.frames = [('<q>', {}, (None, None, ()))]
    st.facts = dict(facts)
    return entails(fl, st, f, val)


def cases(fl, st, v, val=True):
    """states of st in which value v is true (false)"""
    return fl.assume(st.copy(), fl.truth_of(st, v), val)


def notnone(fl, st, t):
    return entails(fl, st, eq(t, NONE), False) or entails(fl, st, truth(t), True)


def isnone(fl, st, t):
    return entails(fl, st, eq(t, NONE), True) or entails(fl, st, truth(t), False)


def facts(st, op=None, val=None):
    for a, v in st.facts.items():
        if (op is None or a[1] == op) and (val is None or v == val):
            yield a, v


def flat(events, guard=()):
    """(event, enclosing loop guards) in order, loops flattened"""
    for e in events:
        if e[0] == 'loop':
            for p, evs in e[2]:
                for x in flat(evs, guard + ((e[1], p, e[7]),)):
                    yield x
        else:
            yield e, guard


def calls(st, name=None, ok=True):
    """call events; ok: only the ones that returned"""
    out = []
    for e, g in flat(st.events):
        if e[0] == 'call' and (name is None or e[1] == name or (isinstance(name, (set, tuple, list)) and e[1] in name)):
            if ok and isinstance(e[6], tuple) and e[6] and e[6][0] == 'raised':
                continue
            out.append(e)
    return out


def has(t, leaf):
    return any(x == leaf for x in subterms(t))


def hascall(t, name):
    return any(isA(x, 'call') and x[2] == name for x in subterms(t))


def hasop(t, *ops):
    return any(isA(x) and x[1] in ops for x in subterms(t))


def words(*ws):
    """keep-predicate: atoms mentioning one of the given words"""
    memo = {}

    def k(a):
        r = memo.get(a)
        if r is None:
            s = repr(a)
            r = memo[a] = any(w in s for w in ws)
        return r
    return k


def named(*ns):
    """keep-predicate for events: calls of the given names (last component); '=kind' keeps another event kind"""
    s = {n for n in ns if not n.startswith('=')}
    kinds = {n[1:] for n in ns if n.startswith('=')}
    return lambda e: e[0] in kinds or (e[0] == 'call' and (e[1] in s or e[1].split('.')[-1] in s))
