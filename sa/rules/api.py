"""C35: the store interface, optional arguments and iteration."""
import ast

from . import prop
from ..core import *  # noqa: F401,F403
from ..flow import Budget
from ..terms import C, NONE
from .store import AS, H, SALT, SqlStore, TS, U
from .xri import why

IFACE = 'openid.store.interface.OpenIDStore'


def params(fi):
    """(required, optional: name -> default node, star) of a function, receiver removed"""
    a = fi.node.args
    names = [x.arg for x in a.args]
    opt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    opt.update((k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)
    req = [n for n in names if n not in opt] + [k.arg for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return req, opt


def public(name):
    return not name.startswith('_') or name == '__init__'


def library(key):
    return key.startswith('openid.') and not key.startswith('openid.test')


def kind(fi):
    for d in fi.node.decorator_list:
        n = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''
        if n in ('classmethod', 'staticmethod', 'property'):
            return n
    return 'method'


def is_none(node):
    return isinstance(node, ast.Constant) and node.value is None


def signature(p, key):
    """(required, optional) of a public function or of a class's constructor"""
    fi = p.funcs[key]
    req, opt = params(fi)
    if fi.cls and kind(fi) != 'staticmethod':
        req = req[1:]
    return req, opt


def omissions(opt):
    """sets of optional arguments that are given: none of them, and all but one whose default is None"""
    nones = [n for n, d in opt.items() if is_none(d)]
    out = [()]
    for n in nones:
        rest = tuple(x for x in opt if x != n)
        if rest not in out:
            out.append(rest)
    return out if nones else []


def programs(p, thorough=False):
    """[(title, construct, parameter names, source of the body)]"""
    out = []
    methods = {}
    for key in sorted(p.classes):
        if library(key) and public(key.rsplit('.', 1)[-1]):
            for k in reversed([x for x in p.mro(key) if x in p.classes]):
                for n, a in p.classes[k].attrs.items():
                    if a[0] == 'func' and public(n):
                        methods.setdefault(key, {})[n] = a[1].key
    for key, fi in sorted(p.funcs.items()):
        if library(key) and not fi.cls and public(key.rsplit('.', 1)[-1]) and '<' not in key:
            mod = fi.mod.name
            if key != mod + '.' + key.rsplit('.', 1)[-1]:
                continue
            req, opt = signature(p, key)
            for given in omissions(opt):
                names = req + list(given)
                out.append((key, key, mod, None, names, 'target.%s(%s)' % (key.rsplit('.', 1)[-1], call(req, given)),
                            (req + list(opt), 'target.%s(%s)' % (key.rsplit('.', 1)[-1], call(req, opt)))))
    for cls, ms in sorted(methods.items()):
        mod = p.classes[cls].mod.name
        short = cls[len(mod) + 1:]
        init = ms.get('__init__')
        ireq, iopt = signature(p, init) if init else ([], {})
        for given in omissions(iopt):
            out.append((cls, init, mod, None, ireq + list(given), 'target.%s(%s)' % (short, call(ireq, given)), (ireq + list(iopt), 'target.%s(%s)' % (short, call(ireq, iopt)))))
        for n, key in sorted(ms.items()):
            if n == '__init__' or kind(p.funcs[key]) == 'property':
                continue
            req, opt = signature(p, key)
            args = ['m_' + x for x in req]
            every = args + ['m_' + x for x in opt]
            if kind(p.funcs[key]) != 'method':
                for given in omissions(opt):
                    out.append((cls + '.' + n, key, mod, None, args + ['m_' + g for g in given], 'target.%s.%s(%s)' % (short, n, call(req, given, 'm_')), (every, 'target.%s.%s(%s)' % (short, n, call(req, opt, 'm_')))))
                continue
            for given in omissions(opt):
                out.append((cls + '.' + n, key, mod, cls, ['self'] + args + ['m_' + g for g in given], 'self.%s(%s)' % (n, call(req, given, 'm_')), (['self'] + every, 'self.%s(%s)' % (n, call(req, opt, 'm_')))))
            if init and any(is_none(d) for d in iopt.values()):
                for given in [()]:
                    out.append((cls + '().' + n, key, mod, None, ['i_' + x for x in ireq] + ['i_' + g for g in given] + args,
                                'target.%s(%s).%s(%s)' % (short, call(ireq, given, 'i_'), n, call(req, (), 'm_')),
                                (['i_' + x for x in ireq + list(iopt)] + every, 'target.%s(%s).%s(%s)' % (short, call(ireq, iopt, 'i_'), n, call(req, opt, 'm_')))))
                for m, mkey in sorted(ms.items()):
                    if m in ('__init__', n) or kind(p.funcs[mkey]) != 'method' or not mutates(p.funcs[mkey]) or size(p, mkey) > 20 or size(p, key) > (40 if thorough else 20):
                        continue
                    mreq, mopt = signature(p, mkey)
                    text = 'o = target.%s(%%s)\n    o.%s(%s)\n    return o.%s(%s)' % (short, m, call(mreq, (), 'k_'), n, call(req, (), 'm_'))
                    names = ['k_' + x for x in mreq] + args + ['i_' + x for x in ireq]
                    out.append((cls + '().' + m + '.' + n, key, mod, None, names, text % call(ireq, (), 'i_'), (names + ['i_' + x for x in iopt], text % call(ireq, iopt, 'i_'))))
    return out


def size(p, key):
    return sum(isinstance(n, ast.stmt) for n in ast.walk(p.funcs[key].node))


def mutates(fi):
    """does a method change its object?"""
    me = fi.params[0] if fi.params else None

    def mine(e):
        while isinstance(e, (ast.Attribute, ast.Subscript)):
            e = e.value
        return isinstance(e, ast.Name) and e.id == me
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            for t in getattr(n, 'targets', None) or [n.target]:
                if isinstance(t, (ast.Attribute, ast.Subscript)) and mine(t):
                    return True
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, (ast.Attribute, ast.Subscript)) and mine(n.func.value):
            return True
    return False


def call(req, given, prefix=''):
    return ', '.join([prefix + r for r in req] + ['%s=%s%s' % (g, prefix, g) for g in given])


CASES = []


def none_errors(ctx, client, names, cls, body, mod):
    """{(line, operation): (class, facts)} of operations on None that Python refuses"""
    ctx.p.client(client, 'import %s as target\n\n\ndef run(%s):\n    %s\n' % (mod, ', '.join(names), body if '\n' in body else 'return ' + body))
    fl = ctx.flow(none_errors=True, max_states=300, max_ticks=4000 if ctx.tier == 'quick' and '\n' in body else 12000, msg_prims=False)
    args = [sym(n, cls if n == 'self' else None) for n in names]
    out = {}
    for st, v in ctx.run(fl, client + '.run', args):
        if is_exc(v):
            a = st.fields.get((v.exc, 'args'))
            if a and a[0] == 't' and len(a[1]) > 1 and a[1][0] == C('$none') and not any(b and f[1] == 'eq' and f[3] == NONE and f[2][0] == 's' for f, b in st.facts.items()):
                out.setdefault((a[1][2][2], a[1][1][2]), (cls_of(fl, st, v), why(st)))
    return out


def omitted_case(ctx, i):
    title, construct, mod, cls, names, body, full = CASES[i]
    try:
        bad = none_errors(ctx, 'api_case%d' % i, names, cls, body, mod)
        if bad:             # errors that are there with every argument given are not the default's
            fullnames, fullbody = full
            for k in none_errors(ctx, 'api_full%d' % i, fullnames, cls, fullbody, mod):
                bad.pop(k, None)
    except Budget:
        ctx.sample('not explored (too many paths): %s' % ' '.join(body.split()))
        return
    text = ['%s (%s) at line %s when %s' % (c, what, line, w) for (line, what), (c, w) in sorted(bad.items())]
    ctx.ob(not bad, 'optional arguments can be omitted', construct or title, '%s: %s' % ('; '.join(x.strip() for x in body.split('\n')), '; '.join(text[:2])))


def stores(p):
    """the concrete stores of the library: classes that derive from the interface, or offer some of its operations, and
    from which no other class of the library derives"""
    ops = set(operations(p)) - {'cleanup'}
    out = []
    for k in sorted(p.classes):
        if library(k) and k != IFACE:
            names = set(n for c in p.mro(k) if c in p.classes and c != IFACE for n in p.classes[c].attrs)
            if IFACE in p.mro(k)[1:] or len(ops & names) > 3:
                out.append(k)
    return [k for k in out if not any(k in p.mro(o)[1:] for o in out)]


def operations(p):
    """{operation of the interface: (required, optional)}"""
    out = {}
    for n, a in p.classes[IFACE].attrs.items():
        if a[0] == 'func' and public(n) and kind(a[1]) == 'method':
            out[n] = signature(p, a[1].key)
    return out


STORE_CASES = []


def store_case(ctx, i):
    cls, op, args, body = STORE_CASES[i]
    where = next((ctx.p.class_attr(c, op) for c in [cls] if ctx.p.class_attr(c, op)), None)
    construct = where[1].key if where and where[0] == 'func' else cls + '.' + op
    key = 'api_store%d' % i
    ctx.p.client(key, CLIENT % (''.join(', ' + a for a in args), body))
    fl = ctx.flow(msg_prims=False)
    types = {'server_url': 'str', 'salt': 'str', 'timestamp': 'int', 'handle': 'str', 'association': 'openid.association.Association', 'assoc': 'openid.association.Association'}
    bad = []
    n = 0
    for st, v in ctx.run(fl, key + '.run', [sym('store', cls)] + [sym(a, types.get(a)) for a in args]):
        n += 1
        if is_exc(v) and cls_of(fl, st, v) in ('TypeError', 'AttributeError', 'NotImplementedError', 'NameError'):
            bad.append('%s when %s' % (cls_of(fl, st, v), why(st)))
        for e in st.events:
            if e[0] == 'call' and e[1] == '.' + op and e[2] == sym('store', cls):
                bad.append('the operation is not there')
    ctx.ob(n and not bad, 'every store provides every operation of the interface', construct, '%s on a %s ends in %s' % (body, cls.rsplit('.', 1)[-1], '; '.join(sorted(set(bad))[:2]) or 'nothing'))


def sql_case(ctx, cls):
    """on a database store as constructed, each operation can succeed: every statement and function it needs is there"""
    ss = SqlStore(ctx, cls.rsplit('.', 1)[-1])
    values = {'server_url': U, 'association': AS, 'handle': H, 'timestamp': TS, 'salt': SALT}
    for i, (_, op, args, body) in enumerate(forms(ctx.p, cls)):
        key = 'api_%s%d' % (ss.name, i)
        ctx.p.client(key, CLIENT % (''.join(', ' + a for a in args), body))
        n = [v for st, v in ctx.cont(ss.fl, ss.cold, key + '.run', [ss.obj] + [values.get(a, sym(a)) for a in args]) if not is_exc(v)]
        ctx.ob(n, 'every store provides every operation of the interface', cls + '.' + op, 'no path of %s on a new store succeeds' % body)


CLIENT = 'def run(store%s):\n    return %s\n'


def forms(p, cls):
    """calls of each operation: with and without its optional arguments, these by position and by name"""
    for op, (req, opt) in sorted(operations(p).items()):
        for given, form in [((), ''), (tuple(opt), 'p'), (tuple(opt), 'k')] if opt else [((), '')]:
            text = ', '.join(list(req) + [('%s=%s' % (g, g) if form == 'k' else g) for g in given])
            yield cls, op, list(req) + list(given), 'store.%s(%s)' % (op, text)


def store_interface(ctx):
    every = stores(ctx.p)
    sql = [c for c in every if 'openid.store.sqlstore.SQLStore' in ctx.p.mro(c)]
    STORE_CASES[:] = [f for c in every if c not in sql for f in forms(ctx.p, c)]
    ctx.parallel(store_case, list(range(len(STORE_CASES))))
    ctx.parallel(sql_case, sql)


PAIRS = [('next', '__next__'), ('__nonzero__', '__bool__')]


def iteration(ctx):
    """the two names of a protocol operation, and what __iter__ returns"""
    for key in sorted(ctx.p.classes):
        if not library(key):
            continue
        names = set()
        unknown = False
        for k in ctx.p.mro(key):
            if k in ctx.p.classes:
                names |= set(ctx.p.classes[k].attrs)
            elif k.rsplit('.', 1)[-1] == 'Iterator':
                names |= {'next', '__next__'}
            elif k not in ('object', 'builtins.object', 'x:object'):
                unknown = True
        own = set(ctx.p.classes[key].attrs)
        for two, three in PAIRS:
            if {two, three} & own and not unknown:
                ctx.ob(two in names and three in names, 'an operation has its name in each Python version', key, 'has only one of %s and %s' % (two, three))
        if '__iter__' in own and ctx.p.classes[key].attrs['__iter__'][0] == 'func':
            fi = ctx.p.classes[key].attrs['__iter__'][1]
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
                ctx.ob(True, 'iterable objects return an iterator', fi.key, '')
                continue
            fl = ctx.flow(msg_prims=False)
            bad = []
            for st, v in ctx.run(fl, fi.key, [sym('self', key)]):
                if v == sym('self', key):
                    if not {'next', '__next__'} <= names:
                        bad.append('itself, which has no next() on every Python version')
                elif is_exc(v):
                    bad.append('nothing: it raises %s' % cls_of(fl, st, v))
            bad += ['what is no iterator at line %d' % r.lineno for r in ast.walk(fi.node) if isinstance(r, ast.Return) and no_iterator(ctx.p, fi, r.value)]
            ctx.ob(not bad, 'iterable objects return an iterator', fi.key, '__iter__ returns %s' % '; '.join(sorted(set(bad))))


def no_iterator(p, fi, e, depth=0):
    """is the value of an expression certainly no iterator (a container, or a view of one)?"""
    if isinstance(e, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Constant, ast.JoinedStr, ast.Compare)) or e is None:
        return True
    if isinstance(e, ast.Name):
        values = [a.value for a in ast.walk(fi.node) if isinstance(a, ast.Assign) for t in a.targets if isinstance(t, ast.Name) and t.id == e.id]
        return bool(values) and all(no_iterator(p, fi, v, depth) for v in values)
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Name):
            return f.id in ('list', 'tuple', 'dict', 'set', 'frozenset', 'sorted', 'str', 'len', 'bool', 'range')
        if isinstance(f, ast.Attribute):
            own = isinstance(f.value, ast.Name) and fi.cls and f.value.id == fi.params[0] and p.class_attr(fi.cls, f.attr)
            if own and own[0] == 'func' and depth < 4:
                return all(no_iterator(p, own[1], r.value, depth + 1) for r in ast.walk(own[1].node) if isinstance(r, ast.Return)) and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(own[1].node))
            return not own and f.attr in ('keys', 'values', 'items')
    return False


@prop('C35', 100, technique='interface conformance over the class hierarchy, and symbolic execution of every public constructor, function and method with its optional arguments omitted, in which an operation on None that Python refuses is an error',
      explain='each operation exists with compatible parameters on every store; no omitted optional argument reaches an operation that its default does not support')
def c35(ctx):
    CASES[:] = programs(ctx.p, ctx.tier == 'thorough')
    ctx.parallel(omitted_case, list(range(len(CASES))))
    store_interface(ctx)
    iteration(ctx)
