"""Rules about the bundled extensions (C32, C33)."""
import itertools

from ..core import *  # noqa: F401,F403
from . import prop
from .xri import why

AX = 'openid.extensions.ax'
AXERR, NOTAX = AX + '.AXError', AX + '.NotAXMessage'
TR = 'openid.server.trustroot.TrustRoot'
TYPES = ['http://type/%d' % i for i in range(3)]
UNLIMITED = 'unlimited'


def val(st, fl, v):
    """a comparable python value of a result: dicts, lists and constants are unwrapped, anything else is its term"""
    vw = fl.view(st, v)
    if vw is not None:
        if vw[0] == 'dict':
            return {val(st, fl, k): val(st, fl, x) for k, x in vw[1]}
        out = [val(st, fl, x) for x in vw[1]]
        return tuple(out) if vw[0] == 'tuple' or v[0] == 't' else out
    f = fl.freeze(st, v)
    if f[0] == 't':
        return tuple(val(st, fl, x) for x in f[1])
    return f[2] if isC(f) else f


def brief(x):
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (brief(k), brief(v)) for k, v in sorted(x.items(), key=repr))
    if isinstance(x, list):
        return '[%s]' % ', '.join(map(brief, x))
    if isinstance(x, tuple) and x and x[0] in ('a', 's', 'x', 'r', 'g', 'c', 't'):
        return show(x)
    return repr(x)


def pairs(d):
    """a python dict/list structure as a constant argument: tuples of pairs"""
    if isinstance(d, dict):
        return ('t', tuple(('t', (pairs(k), pairs(v))) for k, v in d.items()))
    if isinstance(d, (list,)):
        return ('t', tuple(pairs(x) for x in d))
    if isinstance(d, tuple):
        return d
    return C(d)


AXC = '''
from openid.extensions import ax

import modelvalue


class Msg(object):
    def __init__(self, args, openid):
        self.args = args
        self.openid = openid

    def getArgs(self, ns):
        return self.args

    def getArg(self, ns, key, default=None):
        return self.openid.get(key, default)

    def isOpenID1(self):
        return False

    def isOpenID2(self):
        return True


class Req(object):
    def __init__(self, message):
        self.message = message


class Reply(object):
    def __init__(self, args):
        self.args = args

    def extensionResponse(self, ns, signed):
        return self.args

    def getSignedNS(self, ns):
        return self.args


def request(args, openid):
    try:
        return ax.FetchRequest.fromOpenIDRequest(Req(Msg(dict(args), dict(openid))))
    except Exception:
        raise


def store_request(args, openid):
    try:
        return ax.StoreRequest.fromOpenIDRequest(Req(Msg(dict(args), dict(openid))))
    except Exception:
        raise


def reply(args):
    try:
        return ax.FetchResponse.fromSuccessResponse(Reply(dict(args)))
    except Exception:
        raise


def store_reply(args):
    try:
        return ax.StoreResponse.fromSuccessResponse(Reply(dict(args)))
    except Exception:
        raise


def no_reply():
    return [ax.FetchResponse.fromSuccessResponse(Reply(None)), ax.StoreResponse.fromSuccessResponse(Reply(None))]


def info(alias):
    try:
        return ax.AttrInfo('type', alias=alias)
    except Exception:
        raise


def build(url, attributes, data):
    wanted = ax.FetchRequest(url)
    for type_uri, count, required, alias in attributes:
        wanted.add(ax.AttrInfo(type_uri, count, required, alias))
    answer = ax.FetchResponse(wanted)
    for type_uri, values in data:
        answer.setValues(type_uri, list(values))
    return answer


def respond(url, attributes, data):
    try:
        return build(url, attributes, data).getExtensionArgs()
    except Exception:
        raise


def roundtrip(url, attributes, data):
    args = build(url, attributes, data).getExtensionArgs()
    again = ax.FetchResponse()
    again.parseExtensionArgs(args)
    return (again.data, again.update_url)


def free(url, data):
    answer = ax.FetchResponse(update_url=url)
    for type_uri, values in data:
        for value in values:
            answer.addValue(type_uri, value)
    again = ax.FetchResponse()
    again.parseExtensionArgs(answer.getExtensionArgs())
    return (again.data, again.update_url)


def stored(data):
    wanted = ax.StoreRequest()
    for type_uri, values in data:
        wanted.setValues(type_uri, list(values))
    again = ax.StoreRequest()
    again.parseExtensionArgs(wanted.getExtensionArgs())
    return again.data


def requested(url, attributes):
    wanted = ax.FetchRequest(url)
    for type_uri, count, required, alias in attributes:
        wanted.add(ax.AttrInfo(type_uri, count, required, alias))
    again = ax.FetchRequest()
    again.parseExtensionArgs(wanted.getExtensionArgs())
    return ([(a.type_uri, a.count, a.required) for a in again.iterAttrs()], again.update_url)


def single(values, default):
    holder = ax.FetchResponse()
    holder.setValues('t', list(values))
    try:
        return holder.getSingle('t', default)
    except Exception:
        raise


def missing(default):
    return ax.FetchResponse().getSingle('t', default)


def answered(ok, error):
    first = ax.StoreResponse(ok, error)
    again = ax.StoreResponse()
    again.parseExtensionArgs(first.getExtensionArgs())
    return (again.succeeded(), again.error_message)
'''


def flow(ctx, **kw):
    ctx.p.client('ax_client', AXC)
    return ctx.flow(max_states=20000, peel=6, **kw)


def attrs_of(fl, st, r):
    """{type: (alias, count, required)} of a parsed request"""
    d = rawfield(fl, st, r, 'requested_attributes')
    vw = fl.view(st, d) if d is not None else None
    if vw is None or vw[0] != 'dict':
        return None
    return {val(st, fl, k): tuple(val(st, fl, rawfield(fl, st, a, f)) for f in ('alias', 'count', 'required')) for k, a in vw[1]}


def update_case(ctx, case):
    """update_url against the realm (or return_to) of the request"""
    realm, ret, has_url = case
    where = AX + '.FetchRequest.fromOpenIDRequest'
    fl = flow(ctx, opaque={TR + '.parse', TR + '.validateURL'}, pure_calls={TR + '.parse', TR + '.validateURL'}, pure_raises={TR + '.parse': [], TR + '.validateURL': []}, typed_calls={'parse': TR})
    url, R, T_ = sym('url', 'x:str'), sym('realm', 'x:str'), sym('return_to', 'x:str')
    args = {'mode': 'fetch_request'}
    if has_url:
        args['update_url'] = url
    openid = {}
    if realm:
        openid['realm'] = R
    if ret:
        openid['return_to'] = T_
    base = R if realm else T_ if ret else None
    accepted = 0
    for st, v in ctx.run(fl, 'ax_client.request', [pairs(args), pairs(openid)]):
        parses = [x for f in st.facts for x in subterms(f) if isA(x) and TR + '.parse' in (x[1], x[2] if len(x) > 2 else None)]
        valid = [(f, b) for f, b in st.facts.items() for x in [f[2] if isA(f, 'truthy') else f] if isA(x) and TR + '.validateURL' in (x[1], x[2] if len(x) > 2 else None)]
        if is_exc(v):
            cls = cls_of(fl, st, v)
            known = has_url and (base is None or st.facts.get(A('truthy', base)) is False or st.facts.get(eq(base, C(''))) is True or any(isA(f) and f[1] in ('is', 'eq') and NONE in f[2:] and b and any(p in f for p in parses) for f, b in st.facts.items()) or
                                 any(not b for f, b in valid) or any(b is False and isA(f, 'truthy') and f[2] in parses for f, b in st.facts.items()))
            ctx.ob(fl.exc_match(cls, AXERR) and known, 'a request is refused only for an update URL outside its realm', where, 'raises %s (%s)' % (cls, why(st)))
            continue
        if v == NONE or fl.freeze(st, v) == NONE:
            ctx.ob(False, 'a fetch request is recognised', where, 'returns None')
            continue
        accepted += 1
        got = rawfield(fl, st, v, 'update_url')
        got = fl.freeze(st, got) if got is not None else NONE
        if not has_url:
            ctx.ob(got == NONE, 'a request without update URL has none', where, 'has %s' % show(got))
            continue
        ctx.ob(got == url, 'the update URL is the one in the message', where, 'is %s' % show(got))
        if st.facts.get(A('truthy', url)) is False or st.facts.get(eq(url, C(''))) is True:
            continue
        ok = base is not None and any(b and has(f, url) and any(has(f, p) and has(p, base) for p in parses) for f, b in valid)
        ctx.ob(ok, "an accepted update URL lies under the request's realm", where, 'is accepted without being matched against the %s (%s)' % ('realm' if realm else 'return address', why(st)))
    ctx.ob(accepted > 0 , 'a fetch request is recognised', where, 'no path accepts one')


def good_count(fl, st, count):
    """the facts leave room for a count that is well-formed"""
    return fl.assume(st.copy(), A('truthy', count), False) and fl.assume(st.copy(), eq(count, C('')), True) or fl.assume(st.copy(), eq(count, C(UNLIMITED)), True) or \
        [s2 for s in fl.assume(st.copy(), A('intlike', count), True) for s2 in fl.assume(s, le(A('int', count), C(0)), False)]


def parse_case(ctx, case):
    """one shape of fetch request arguments; see PARSE"""
    args, want = case
    where = AX + '.FetchRequest.parseExtensionArgs'
    fl = flow(ctx)
    count, mode = sym('count', 'x:str'), sym('mode', 'x:str')
    full = {k: {'?count': count, '?mode': mode}.get(x, x) for k, x in args.items()}
    desc = brief(args)
    n = 0
    for st, v in ctx.run(fl, 'ax_client.request', [pairs(full), pairs({})]):
        if '?mode' in args.values():
            m = st.facts.get(eq(mode, C('fetch_request')))
            empty = st.facts.get(A('truthy', mode)) is False or st.facts.get(eq(mode, C(''))) is True
            if m is False:
                if is_exc(v):
                    ctx.ob(fl.exc_match(cls_of(fl, st, v), AXERR) and not empty, 'a message of another mode is refused', where, '%s raises %s' % (desc, cls_of(fl, st, v)))
                else:
                    ctx.ob(fl.freeze(st, v) == NONE and empty, 'a message of another mode is refused', where, '%s is accepted with another mode (%s)' % (desc, why(st)))
                continue
        bad = None
        c = 1
        if '?count' in args.values():
            if st.facts.get(A('truthy', count)) is False or st.facts.get(eq(count, C(''))) is True:
                c = 1
            elif st.facts.get(eq(count, C(UNLIMITED))) is True:
                c = (UNLIMITED, count)
            elif st.facts.get(A('intlike', count)) is True:
                neg = [b for b in (True, False) if fl.assume(st.copy(), le(A('int', count), C(0)), b)]
                if neg == [True]:
                    bad = 'the count is not positive'
                elif neg == [False]:
                    c = A('int', count)
                else:
                    c = bad = 'open'
            elif st.facts.get(A('intlike', count)) is False and st.facts.get(eq(count, C(UNLIMITED))) is False:
                bad = 'the count is not a number'
            else:
                c = bad = 'open'
        if is_exc(v):
            cls = cls_of(fl, st, v)
            ctx.ob((want is None or '?count' in args.values() and not good_count(fl, st, count)) and (fl.exc_match(cls, 'ValueError') or fl.exc_match(cls, 'KeyError')), 'a well-formed request is accepted', where, '%s raises %s (%s)' % (desc, cls, why(st)))
            continue
        if fl.freeze(st, v) == NONE:
            ctx.ob(False, 'a fetch request is recognised', where, '%s gives None (%s)' % (desc, why(st)))
            continue
        n += 1
        if want is None:
            ctx.ob(False, 'a malformed request is refused', where, '%s is accepted' % desc)
            continue
        ctx.ob(bad is None, 'a request with a malformed count is refused', where, '%s is accepted although %s (%s)' % (desc, bad, why(st)))
        if bad is not None:
            continue
        got = attrs_of(fl, st, v)
        exp = {t: (a, c if k == '?' else k, r) for t, (a, k, r) in want.items()}
        ok = got is not None and set(got) == set(exp) and all(g[0] == e[0] and (g[1] in e[1] if isinstance(e[1], tuple) and e[1][0] == UNLIMITED else g[1] == e[1]) and g[2] == e[2] for t in exp for g, e in [(got[t], exp[t])])
        ctx.ob(ok, 'the attributes read are those written in the request', where, '%s gives %s instead of %s' % (desc, brief(got), brief(exp)))
    ctx.ob(n > 0 or want is None, 'a well-formed request is accepted', where, '%s is never accepted' % desc)


T0, T1, T2 = TYPES
M_ = {'mode': 'fetch_request'}
PARSE = [
    (dict(M_), {}),
    (dict(M_, required=''), {}),
    ({'mode': '?mode', 'type.a': T0, 'required': 'a'}, {T0: ('a', 1, True)}),
    (dict(M_, **{'type.a': T0, 'required': 'a'}), {T0: ('a', 1, True)}),
    (dict(M_, **{'type.a': T0, 'if_available': 'a'}), {T0: ('a', 1, False)}),
    (dict(M_, **{'type.a': T0, 'count.a': '?count', 'required': 'a'}), {T0: ('a', '?', True)}),
    (dict(M_, **{'type.a': T0, 'count.a': '?count', 'if_available': 'a'}), {T0: ('a', '?', False)}),
    (dict(M_, **{'type.a': T0, 'type.b': T1, 'required': 'a', 'if_available': 'b'}), {T0: ('a', 1, True), T1: ('b', 1, False)}),
    (dict(M_, **{'type.a': T0, 'type.b': T1, 'required': 'b', 'if_available': 'a'}), {T0: ('a', 1, False), T1: ('b', 1, True)}),
    (dict(M_, **{'type.a': T0, 'type.b': T1, 'required': 'a,b'}), {T0: ('a', 1, True), T1: ('b', 1, True)}),
    (dict(M_, **{'type.a': T0, 'type.b': T1, 'if_available': 'b,a', 'count.b': '?count'}), {T0: ('a', 1, False), T1: ('b', '?', False)}),
    (dict(M_, **{'type.a': T0, 'count.a': '3', 'required': 'a'}), {T0: ('a', 3, True)}),
    (dict(M_, **{'type.a': T0, 'count.a': 'unlimited', 'required': 'a'}), {T0: ('a', UNLIMITED, True)}),
    # refused
    (dict(M_, **{'type.a': T0}), None),
    (dict(M_, **{'type.a': T0, 'type.b': T1, 'required': 'a'}), None),
    (dict(M_, **{'type.a': T0, 'type.b': T1, 'if_available': 'b'}), None),
    (dict(M_, **{'type.a': T0, 'required': 'b'}), None),
    (dict(M_, **{'type.a': T0, 'required': 'a', 'if_available': 'c'}), None),
    (dict(M_, **{'required': 'a'}), None),
    (dict(M_, **{'type.a': T0, 'type.b': T0, 'required': 'a,b'}), None),
    (dict(M_, **{'type.a.b': T0, 'required': 'a.b'}), None),
    (dict(M_, **{'type.a,b': T0, 'required': 'a,b'}), None),
    (dict(M_, **{'type.a': T0, 'count.a': '0', 'required': 'a'}), None),
    (dict(M_, **{'type.a': T0, 'count.a': '-1', 'required': 'a'}), None),
    (dict(M_, **{'type.a': T0, 'count.a': 'many', 'required': 'a'}), None),
]


def info_rule(ctx):
    where = AX + '.AttrInfo'
    fl = flow(ctx)
    a = sym('alias', 'x:str')
    for st, v in ctx.run(fl, 'ax_client.info', [a]):
        marks = [st.facts.get(A('in', C(c), a)) for c in ',.']
        if is_exc(v):
            ctx.ob(True in marks and fl.exc_match(cls_of(fl, st, v), AXERR), 'an alias is refused only for a comma or period', where, 'raises %s (%s)' % (cls_of(fl, st, v), why(st)))
        else:
            ctx.ob(marks == [False, False], 'an attribute alias has no comma and no period', where, 'is accepted (%s)' % why(st))


def single_rule(ctx):
    where = AX + '.AXKeyValueMessage.getSingle'
    fl = flow(ctx)
    dv = sym('default', 'x:str')
    vs = [sym('v%d' % i, 'x:str') for i in range(3)]
    for n in range(4):
        for st, v in ctx.run(fl, 'ax_client.single', [('t', tuple(vs[:n])), dv]):
            if is_exc(v):
                ctx.ob(n > 1 and fl.exc_match(cls_of(fl, st, v), AXERR), 'a single value is refused only if there are several', where, '%d values: raises %s' % (n, cls_of(fl, st, v)))
            else:
                ctx.ob(n < 2 and fl.freeze(st, v) == [dv, vs[0]][min(n, 1)], 'the single value of an attribute is its only value or the default', where, '%d values: %s' % (n, show(fl.freeze(st, v))))
    for st, v in ctx.run(fl, 'ax_client.missing', [dv]):
        ctx.ob(not is_exc(v) and fl.freeze(st, v) == dv, 'the single value of an attribute is its only value or the default', where, 'a missing attribute gives %s' % brief(v))
    for st, v in ctx.run(fl, 'ax_client.no_reply', []):
        ctx.ob(not is_exc(v) and val(st, fl, v) == [None, None], 'a response without the extension gives nothing', AX, 'gives %s' % brief(v))


def respond_case(ctx, case):
    """(count kind of each requested attribute, alias given?, number of values of each type or None, extra type?)"""
    kinds, aliased, values, extra = case
    where = AX + '.FetchResponse.getExtensionArgs'
    fl = flow(ctx)
    url = sym('url', 'x:str')
    counts = [C(UNLIMITED) if k == 'u' else sym('count%d' % i, 'x:int') for i, k in enumerate(kinds)]
    attrs = [[C(TYPES[i]), c, C(bool(i % 2)), C('al%d' % i) if aliased else NONE] for i, c in enumerate(counts)]
    data = {TYPES[i]: [sym('v%d_%d' % (i, j), 'x:str') for j in range(n)] for i, n in enumerate(values) if n is not None}
    if extra:
        data['http://type/extra'] = [sym('x', 'x:str')]
    arg_attrs = ('t', tuple(('t', tuple(a)) for a in attrs))
    desc = 'counts %s, %s values%s' % ([('unlimited' if k == 'u' else 'any') for k in kinds], list(values), ', one not requested' if extra else '')
    n = 0
    for fn in ('respond', 'roundtrip'):
        for st, v in ctx.run(fl, 'ax_client.' + fn, [url, arg_attrs, pairs(data)]):
            over = [i for i, k in enumerate(kinds) if k != 'u' and not entails(fl, st, lt(counts[i], C(values[i] or 0)), False)]
            surely = [i for i in over if entails(fl, st, lt(counts[i], C(values[i] or 0)), True)]
            if is_exc(v):
                cls = cls_of(fl, st, v)
                ok = extra and fl.exc_match(cls, 'KeyError') or surely and fl.exc_match(cls, AXERR)
                ctx.ob(ok, 'a response is refused only for attributes or values that were not requested', where, '%s: raises %s (%s)' % (desc, cls, why(st)))
                continue
            n += 1
            ctx.ob(not extra, 'a response carries only attributes that were requested', where, '%s: is written' % desc)
            ctx.ob(not over, 'a response carries at most the requested number of values', where, '%s: is written although more values than requested may be present (%s)' % (desc, why(st)))
            if extra:
                continue
            got = val(st, fl, v)
            nourl = st.facts.get(A('truthy', url)) is False or st.facts.get(eq(url, C(''))) is True
            if fn == 'roundtrip':
                exp = ({TYPES[i]: data.get(TYPES[i], []) for i in range(len(kinds))}, None if nourl else url)
                ctx.ob(got == exp, 'values are read back as they were written', where, '%s: reading back gives %s' % (desc, brief(list(got) if isinstance(got, tuple) else got)))
                continue
            if not isinstance(got, dict):
                ctx.ob(False, 'a response is a set of arguments', where, 'is %s' % brief(got))
                continue
            exp = {'mode': 'fetch_response'}
            if not nourl:
                exp['update_url'] = url
            bytype = {x: k[5:] for k, x in got.items() if isinstance(k, str) and k.startswith('type.')}
            ctx.ob(set(bytype) == set(TYPES[:len(kinds)]), 'every requested attribute is reported, with zero values if there are none', where, '%s: the types are %s' % (desc, brief(sorted(map(str, bytype)))))
            for i in range(len(kinds)):
                al = bytype.get(TYPES[i])
                if aliased:
                    ctx.ob(al == 'al%d' % i, 'the response uses the aliases of the request', where, 'uses %s for the alias al%d' % (al, i))
                exp['type.%s' % al] = TYPES[i]
                vs = data.get(TYPES[i], [])
                exp['count.%s' % al] = str(len(vs))
                for j, x in enumerate(vs):
                    exp['value.%s.%d' % (al, j + 1)] = x
            ctx.ob(got == exp, 'the arguments of a response are exactly its types, counts and values', where, '%s: the arguments are %s' % (desc, brief(got)))
    ctx.ob(n > 0 or extra, 'a response within the request can be written', where, '%s: never' % desc)


def read_case(ctx, case):
    """reading key-value messages"""
    fn, mode, args, want = case
    where = AX + '.AXKeyValueMessage.parseExtensionArgs'
    fl = flow(ctx)
    marks = {'?count': sym('count', 'x:str'), '?mode': sym('mode', 'x:str'), '?v': sym('v', 'x:str'), '?w': sym('w', 'x:str')}
    full = {k: marks.get(x, x) for k, x in dict(args, mode=mode).items()}
    a = [pairs(full)] + ([pairs({})] if fn == 'store_request' else [])
    desc = brief(dict(args, mode=mode))
    n = 0
    for st, v in ctx.run(fl, 'ax_client.' + fn, a):
        right = {'reply': 'fetch_response', 'store_request': 'store_request'}[fn]
        if mode == '?mode' and st.facts.get(eq(marks['?mode'], C(right))) is False or mode not in ('?mode', right):
            nothing = not is_exc(v) and fl.freeze(st, v) == NONE
            empty = mode == '' or st.facts.get(A('truthy', marks['?mode'])) is False or st.facts.get(eq(marks['?mode'], C(''))) is True
            ctx.ob(nothing and empty or is_exc(v) and fl.exc_match(cls_of(fl, st, v), AXERR), 'a message of another mode is refused', where, '%s is read (%s)' % (desc, why(st)))
            continue
        if is_exc(v):
            cls = cls_of(fl, st, v)
            badcount = '?count' in args.values() and (st.facts.get(A('intlike', marks['?count'])) is False or fl.exc_match(cls, 'KeyError'))
            ctx.ob((want is None or badcount) and (fl.exc_match(cls, 'KeyError') or fl.exc_match(cls, 'ValueError')), 'well-formed values are read', where, '%s raises %s (%s)' % (desc, cls, why(st)))
            continue
        n += 1
        if '?count' in args.values():
            ctx.ob(st.facts.get(A('intlike', marks['?count'])) is True, 'a count that is not a number is refused', where, '%s is read (%s)' % (desc, why(st)))
            continue
        if want is None:
            ctx.ob(False, 'malformed values are refused', where, '%s is read' % desc)
            continue
        got = val(st, fl, rawfield(fl, st, v, 'data'))
        exp = {t: [marks.get(x, x) for x in vs] for t, vs in want.items()}
        if '?v' in args.values() and any(k.count('.') == 1 and x == '?v' for k, x in args.items()) and (st.facts.get(eq(marks['?v'], C(''))) is True or st.facts.get(A('truthy', marks['?v'])) is False):
            exp = {t: [] if vs == ['?v'] else exp[t] for t, vs in want.items()}
        ctx.ob(got == exp, 'the values read are those in the message', where, '%s gives %s' % (desc, brief(got)))
    ctx.ob(n > 0 or want is None or mode not in ('?mode', {'reply': 'fetch_response', 'store_request': 'store_request'}[fn]), 'well-formed values are read', where, '%s is never read' % desc)


READS = [
    ({}, {}),
    ({'type.a': T0, 'value.a': '?v'}, {T0: ['?v']}),
    ({'type.a': T0, 'count.a': '0'}, {T0: []}),
    ({'type.a': T0, 'count.a': '1', 'value.a.1': '?v'}, {T0: ['?v']}),
    ({'type.a': T0, 'count.a': '2', 'value.a.1': '?v', 'value.a.2': '?w'}, {T0: ['?v', '?w']}),
    ({'type.a': T0, 'count.a': '1', 'value.a.1': '?v', 'value.a.2': '?w'}, {T0: ['?v']}),
    ({'type.a': T0, 'type.b': T1, 'count.a': '1', 'value.a.1': '?v', 'value.b': 'x'}, {T0: ['?v'], T1: ['x']}),
    ({'type.a': T0, 'count.a': '?count', 'value.a.1': '?v'}, {}),
    ({'type.a': T0}, None),
    ({'type.a': T0, 'count.a': '2', 'value.a.1': '?v'}, None),
    ({'type.a': T0, 'count.a': '1', 'value.a': '?v'}, None),
    ({'type.a': T0, 'count.a': 'x', 'value.a.1': '?v'}, None),
    ({'type.a.b': T0, 'value.a.b': '?v'}, None),
    ({'type.a,b': T0, 'value.a,b': '?v'}, None),
    ({'type.a': T0, 'type.b': T0, 'value.a': '?v', 'value.b': '?w'}, None),
]


@prop('C32', 100, technique='exact symbolic execution of attribute-exchange reading and writing over every listed message shape with symbolic counts, values, modes and addresses',
      explain='request and response shapes with up to 2 attributes and 2 values each (thorough: 3), symbolic counts; each path is compared with the rule the path facts imply')
def c32(ctx):
    deep = ctx.tier == 'thorough'
    ctx.parallel(update_case, list(itertools.product((True, False), repeat=3)))
    ctx.parallel(parse_case, PARSE)
    info_rule(ctx)
    single_rule(ctx)
    sizes = (None, 0, 1, 2, 3) if deep else (None, 0, 1, 2)
    shapes = [((k,), al, (n,), False) for k in 'nu' for al in (True, False) for n in sizes]
    shapes += [((k, m), al, (a, b), False) for k in 'nu' for m in 'nu' for al in (True, False) for a in sizes[:4] for b in (sizes[:4] if deep else (None, 1, 2))]
    shapes += [((), True, (), True), (('n',), True, (1,), True), (('u',), False, (None,), True)]
    ctx.parallel(respond_case, shapes)
    ctx.parallel(read_case, [(fn, m, a, w) for fn, m in (('reply', 'fetch_response'), ('store_request', 'store_request')) for a, w in READS] +
                 [('reply', '?mode', READS[1][0], READS[1][1]), ('store_request', '?mode', READS[1][0], READS[1][1]), ('reply', 'store_request', {}, {}), ('store_request', 'fetch_response', {}, {})])


# ---------------------------------------------------------------- C33

SREG, PAPE, PAPE2 = 'openid.extensions.sreg', 'openid.extensions.pape', 'openid.extensions.draft.pape2'
FIELDS = ['fullname', 'nickname', 'dob', 'email', 'gender', 'postcode', 'country', 'language', 'timezone']
POLICIES = ['http://schemas.openid.net/pape/policies/2007/06/%s' % x for x in ('multi-factor-physical', 'multi-factor', 'phishing-resistant')]
NIST = 'http://csrc.nist.gov/publications/nistpubs/800-63/SP800-63V1_0_2.pdf'
JISA = 'http://www.jisa.or.jp/spec/auth_level.html'

EXT = '''
from openid.extensions import pape, sreg
from openid.extensions.draft import pape2

import modelvalue


class Names(object):
    def __init__(self, uri):
        self.uri = uri

    def getAlias(self, uri):
        return 'sreg' if uri == self.uri else None

    def addAlias(self, uri, alias, implicit=False):
        return alias


class Msg(object):
    def __init__(self, args, ns, openid1):
        self.args = args
        self.ns = ns
        self.openid1 = openid1
        self.namespaces = Names(ns)

    def copy(self):
        return self

    def getArgs(self, ns):
        return dict(self.args) if ns == self.ns else {}

    def isOpenID1(self):
        return self.openid1

    def isOpenID2(self):
        return not self.openid1


class Request(object):
    def __init__(self, message):
        self.message = message


class Response(object):
    def __init__(self, message):
        self.message = message

    def getSignedNS(self, ns):
        return self.message.getArgs(ns) or None

    def extensionResponse(self, ns, signed):
        return self.message.getArgs(ns)

    def isOpenID1(self):
        return self.message.isOpenID1()


def sent(ext, openid1=False):
    return Msg(ext.getExtensionArgs(), ext.ns_uri, openid1)


def sreg_request(required, optional, policy):
    first = sreg.SRegRequest(list(required), list(optional), policy)
    again = sreg.SRegRequest.fromOpenIDRequest(Request(sent(first)))
    return [again.required, again.optional, again.policy_url, again.ns_uri == first.ns_uri]


def sreg_request_old(required, optional, policy):
    first = sreg.SRegRequest(list(required), list(optional), policy, sreg.ns_uri_1_0)
    again = sreg.SRegRequest.fromOpenIDRequest(Request(sent(first)))
    return [again.required, again.optional, again.policy_url, again.ns_uri == first.ns_uri]


def sreg_response(data, ns):
    first = sreg.SRegResponse(dict(data), ns)
    again = sreg.SRegResponse.fromSuccessResponse(Response(sent(first)))
    return None if again is None else [again.data, again.ns_uri == first.ns_uri]


def sreg_unsigned(data, ns):
    first = sreg.SRegResponse(dict(data), ns)
    again = sreg.SRegResponse.fromSuccessResponse(Response(sent(first)), False)
    return None if again is None else [again.data, again.ns_uri == first.ns_uri]


def sreg_extract(required, optional, data):
    wanted = sreg.SRegRequest(list(required), list(optional))
    answer = sreg.SRegResponse.extractResponse(wanted, dict(data))
    return [answer.getExtensionArgs(), answer.ns_uri == wanted.ns_uri]


def sreg_extract_old(required, optional, data):
    wanted = sreg.SRegRequest(list(required), list(optional), None, sreg.ns_uri_1_0)
    answer = sreg.SRegResponse.extractResponse(wanted, dict(data))
    return [answer.getExtensionArgs(), answer.ns_uri == wanted.ns_uri]


def pape_request(policies, age, levels, openid1):
    first = pape.Request(list(policies), age, list(levels))
    again = pape.Request.fromOpenIDRequest(Request(sent(first, openid1)))
    return [again.preferred_auth_policies, again.max_auth_age, again.preferred_auth_level_types]


def pape_response(policies, time, levels, openid1):
    first = pape.Response(list(policies), time, dict(levels))
    again = pape.Response.fromSuccessResponse(Response(sent(first, openid1)))
    return [again.auth_policies, again.auth_time, again.auth_levels]


def pape_alias(uri, level, alias, openid1):
    first = pape.Response()
    first.setAuthLevel(uri, level, alias)
    again = pape.Response.fromSuccessResponse(Response(sent(first, openid1)))
    return again.auth_levels


def pape2_request(policies, age):
    first = pape2.Request(list(policies), age)
    again = pape2.Request.fromOpenIDRequest(Request(sent(first)))
    return [again.preferred_auth_policies, again.max_auth_age]


def pape2_response(policies, time, level):
    first = pape2.Response(list(policies), time, level)
    again = pape2.Response.fromSuccessResponse(Response(sent(first)))
    return [again.auth_policies, again.auth_time, again.nist_auth_level]
'''

# the same programs, through a real message and its wire form
WIRE = EXT.replace("""def sent(ext, openid1=False):
    return Msg(ext.getExtensionArgs(), ext.ns_uri, openid1)
""", """def sent(ext, openid1=False):
    message = real.Message(real.OPENID2_NS)
    return real.Message.fromPostArgs(ext.toMessage(message).toPostArgs())
""").replace("import modelvalue\n", "from openid import message as real\nfrom openid.extensions import ax\nimport modelvalue\n", 1) + '''

def ax_reply(url, values):
    first = ax.FetchResponse(update_url=url)
    for type_uri, some in values:
        first.setValues(type_uri, list(some))
    again = ax.FetchResponse.fromSuccessResponse(Response(sent(first)))
    return [again.data, again.update_url]


def ax_request(uri, count, required):
    first = ax.FetchRequest()
    first.add(ax.AttrInfo(uri, count, required))
    again = ax.FetchRequest.fromOpenIDRequest(Request(sent(first)))
    return [[attr.type_uri, attr.count, attr.required] for attr in again.iterAttrs()]


def old_sreg(cls, required, optional, version):
    message = real.Message(version)
    cls(list(required), list(optional)).toMessage(message)
    again = cls.fromOpenIDRequest(Request(real.Message.fromPostArgs(message.toPostArgs())))
    return [again.required, again.optional]


def sreg_1(required, optional, version):
    return old_sreg(sreg.SRegRequest, required, optional, version)
'''


def wire_cases(cases):
    """the programs with a real message in OpenID 2; simple registration in OpenID 1 when its alias is registered"""
    out = [('wire_client',) + c for c in cases if not (c[0] in ('pape_request', 'pape_response', 'pape_alias') and c[2][-1] == TRUE)]
    one = sym('one', 'x:str')
    out.append(('wire_client', 'ax_reply', AX + '.FetchResponse', [NONE, pairs({T0: [one, sym('two', 'x:str')]})], [{T0: [one, sym('two', 'x:str')]}, None]))
    for count in (1, 3, 'unlimited'):
        for req in (True, False):
            out.append(('wire_client', 'ax_request', AX + '.FetchRequest', [C(T0), C(count), C(req)], [[T0, count, req]]))
    for version in ('http://openid.net/signon/1.0', 'http://openid.net/signon/1.1'):
        for req, opt in (([], ['email']), (['nickname', 'dob'], []), (['email'], ['country', 'language'])):
            out.append(('wire_client', 'sreg_1', SREG + '.SRegRequest', [pairs(req), pairs(opt), C(version)], [req, opt]))
    return out


def ext_cases(deep):
    """[(client function, where, arguments, expected value or function(state, flow) -> value)]"""
    out = []
    url, age, time = sym('policy', 'x:str'), sym('age', 'x:int'), sym('time', 'x:str')

    def empty(st, s):
        return st.facts.get(A('truthy', s)) is False or st.facts.get(eq(s, C(''))) is True
    lists = [([], [])] + [([f], []) for f in FIELDS] + [([], [f]) for f in FIELDS] + [(FIELDS[:2], FIELDS[2:4]), (FIELDS, []), ([], FIELDS), (FIELDS[4:], FIELDS[:4])]
    if deep:
        lists += [([f], [g]) for f in FIELDS for g in FIELDS if f != g]
    for fn in ('sreg_request', 'sreg_request_old'):
        for req, opt in lists:
            out.append((fn, SREG + '.SRegRequest', [pairs(req), pairs(opt), url], lambda st, fl, req=req, opt=opt: [req, opt, None if empty(st, url) else url, True]))
        out.append((fn, SREG + '.SRegRequest', [pairs(['email']), pairs([]), NONE], [['email'], [], None, True]))
    vals = {f: sym('v_' + f, 'x:str') for f in FIELDS}
    for ns in ('http://openid.net/sreg/1.0', 'http://openid.net/extensions/sreg/1.1'):
        for fn in ('sreg_response', 'sreg_unsigned'):
            for some in [[f] for f in FIELDS] + [FIELDS, FIELDS[::2], FIELDS[1::2]]:
                d = {f: vals[f] for f in some}
                out.append((fn, SREG + '.SRegResponse', [pairs(d), C(ns)], [d, True]))
    for req, opt in lists[:12] + lists[19:23]:
        d = {f: vals[f] for f in FIELDS}
        for fn in ('sreg_extract', 'sreg_extract_old'):
            out.append((fn, SREG + '.SRegResponse', [pairs(req), pairs(opt), pairs(d)], [{f: d[f] for f in req + opt}, True]))
    out.append(('sreg_extract', SREG + '.SRegResponse', [pairs(FIELDS), pairs([]), pairs({'email': vals['email']})], [{'email': vals['email']}, True]))
    pols = [[], POLICIES[:1], POLICIES[1:], POLICIES]
    levels = [[], [NIST], [JISA], [NIST, JISA], ['http://levels/custom'], ['http://levels/one', NIST, 'http://levels/two']]
    for one in (True, False):
        for p in pols:
            for l in levels:
                for a in (NONE, age):
                    out.append(('pape_request', PAPE + '.Request', [pairs(p), a, pairs(l), C(one)], [p, None if a == NONE else ('number', age), l]))
                    if a == NONE and not p and not l:
                        out.pop()
        for p in pols:
            for l in levels:
                d = {u: sym('level%d' % i, 'x:str') for i, u in enumerate(l)}
                for t in (NONE, time):
                    out.append(('pape_response', PAPE + '.Response', [pairs(p), t, pairs(d), C(one)], lambda st, fl, p=p, t=t, d=d: [p, None if t == NONE or empty(st, time) else time, d]))
        for alias in ('nist', 'other'):
            out.append(('pape_alias', PAPE + '.Response', [C(NIST), sym('level', 'x:str'), C(alias), C(one)], {NIST: sym('level', 'x:str')}))
    for p in pols:
        for a in (NONE, age):
            out.append(('pape2_request', PAPE2 + '.Request', [pairs(p), a], [p, None if a == NONE else ('number', age)]))
        for t in (NONE, time):
            for n in (None, 0, 1, 4):
                out.append(('pape2_response', PAPE2 + '.Response', [pairs(p), t, C(n)], lambda st, fl, p=p, t=t, n=n: [p, None if t == NONE or empty(st, time) else time, n]))
    return out


def numeric_eq(got, want):
    if isinstance(want, tuple) and len(want) == 2 and want[0] == 'number':
        n = want[1]
        return got in (n, A('int', n), A('int', A('str', n)), A('int', A('fmt', C('s'), n)))
    if isinstance(want, list):
        return isinstance(got, list) and len(got) == len(want) and all(numeric_eq(g, w) for g, w in zip(got, want))
    return got == want


def ext_case(ctx, case):
    client, fn, where, args, want = case
    ctx.p.client('ext_client', EXT)
    ctx.p.client('ax_client', AXC)
    ctx.p.client('wire_client', WIRE)
    fl = ctx.flow(max_states=20000, peel=6, msg_prims=client != 'wire_client')
    n = 0
    reg = A('m:get', ('g', 'openid.message.registered_aliases', None), C('sreg'), NONE)
    for st, v in ctx.run(fl, client + '.' + fn, args):
        if fn == 'sreg_1' and (not entails(fl, st, eq(reg, C('http://openid.net/extensions/sreg/1.1')), True) or
                               any(b and f[1] == 'eq' and f[2] == reg and f[3][0] == 'g' for f, b in st.facts.items())):
            continue            # importing the module registers the alias
        if is_exc(v):
            if cls_of(fl, st, v) == 'ValueError' and fn in ('pape_response', 'pape2_response') and any(not b and 'match' in repr(f) for f, b in st.facts.items()):
                continue        # a malformed time is refused by the writer
            ctx.ob(False, 'what the extension writes can be read', where, '%s%s raises %s (%s)' % (fn, brief([val(st, fl, a) for a in args]), cls_of(fl, st, v), why(st)))
            continue
        n += 1
        w = want(st, fl) if callable(want) else want
        got = val(st, fl, v)
        ctx.ob(numeric_eq(got, w), 'what the extension writes is read back unchanged', where, '%s%s reads back as %s' % (fn, brief([val(st, fl, a) for a in args]), brief(got)))
    ctx.ob(n > 0, 'what the extension writes can be read', where, '%s%s: no path' % (fn, brief(args)))


def ax_cases():
    out = []
    url = sym('url', 'x:str')
    v = [sym('v%d' % i, 'x:str') for i in range(3)]

    def nourl(st):
        return st.facts.get(A('truthy', url)) is False or st.facts.get(eq(url, C(''))) is True
    for data in ({}, {T0: v[:1]}, {T0: v[:2], T1: v[2:]}, {T0: v}):
        out.append(('free', AX + '.FetchResponse', [url, pairs(data)], lambda st, fl, data=data: (data, None if nourl(st) else url)))
    for data in ({}, {T0: []}, {T0: v[:1]}, {T0: v[:2], T1: v[2:]}, {T0: v, T1: []}):
        out.append(('stored', AX + '.StoreRequest', [pairs(data)], data))
    for attrs in ([], [(T0, 1, True, 'a')], [(T0, 1, False, None)], [(T0, 5, True, None), (T1, 'unlimited', False, 'b')], [(T0, 2, False, 'a'), (T1, 1, True, 'b'), (T2, 3, True, None)],
                  [(T0, 1, True, 'a'), (T1, 1, True, None)], [(T0, 1, False, 'a'), (T1, 4, False, 'c')]):
        out.append(('requested', AX + '.FetchRequest', [url, ('t', tuple(('t', tuple(C(x) for x in a)) for a in attrs))],
                    lambda st, fl, attrs=attrs: ([(t, c, r) for t, c, r, _ in attrs], None if nourl(st) else url)))
    err = sym('error', 'x:str')
    out.append(('answered', AX + '.StoreResponse', [TRUE, NONE], (True, None)))
    out.append(('answered', AX + '.StoreResponse', [FALSE, NONE], (False, None)))
    out.append(('answered', AX + '.StoreResponse', [FALSE, err], lambda st, fl: (False, None if st.facts.get(A('truthy', err)) is False or st.facts.get(eq(err, C(''))) is True else err)))
    return out


@prop('C33', 300, technique='exact symbolic execution of write-then-read programs for every bundled extension, with symbolic values, over the listed combinations of optional attributes; the object read is compared with the object written',
      explain='each extension object is written and read back through its own entry points, in the namespace it declares')
def c33(ctx):
    cases = [('ext_client',) + c for c in ext_cases(ctx.tier == 'thorough')] + [('ax_client',) + c for c in ax_cases()]
    cases += wire_cases(ext_cases(False))
    CASES[:] = cases
    ctx.parallel(ext_index, list(range(len(cases))))


CASES = []


def ext_index(ctx, i):
    ext_case(ctx, CASES[i])
