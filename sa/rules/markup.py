"""C34: generated forms and addresses."""
from . import prop
from ..core import *          # noqa: F401,F403
from ..terms import A, C, NONE, T, eq, isA, isC, truth
from .extensions import brief, pairs, val
from .xri import why

MSG = 'openid.message.Message'
SRV = 'openid.server.server.'
AUTH = 'openid.consumer.consumer.AuthRequest'
APPEND = 'openid.oidutil.appendArgs'
AUTO = 'openid.oidutil.autoSubmitHTML'
ESCAPING = {'urlencode', 'quote_plus', 'quote'}

TREE = '''
import modelvalue

from openid import message as real
from openid import oidutil


class Element(object):
    def __init__(self, tag, attrib=None, nsmap=None, **extra):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.attrib.update(extra)
        self.children = []
        self.text = None
        self.tail = None

    def append(self, child):
        self.children.append(child)

    def extend(self, children):
        self.children.extend(children)

    def insert(self, index, child):
        self.children.insert(index, child)

    def set(self, name, value):
        self.attrib[name] = value

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def items(self):
        return self.attrib.items()


def element(tag, attrib=None, nsmap=None, **extra):
    return Element(tag, attrib, nsmap, **extra)


def sub(parent, tag, attrib=None, nsmap=None, **extra):
    child = Element(tag, attrib, nsmap, **extra)
    parent.append(child)
    return child


def leaf(child):
    return (child.tag, dict(child.attrib), len(child.children), child.text, child.tail)


def show(form):
    return (form.tag, dict(form.attrib), [leaf(child) for child in form.children], form.text, form.tail)


def serialised(form, encoding=None, method='xml', **options):
    return modelvalue.markup(show(form), encoding, method)


def markup(version, fields, action, attrs, submit):
    message = real.Message(version)
    for ns, key, value in fields:
        message.setArg(ns, key, value)
    args = message.toPostArgs()
    if attrs is None:
        return [args, message.toFormMarkup(action, submit_text=submit)]
    return [args, message.toFormMarkup(action, dict(attrs), submit)]


def plain(version, fields, action):
    message = real.Message(version)
    for ns, key, value in fields:
        message.setArg(ns, key, value)
    return [message.toPostArgs(), message.toFormMarkup(action)]


def address(version, fields, base):
    message = real.Message(version)
    for ns, key, value in fields:
        message.setArg(ns, key, value)
    return [message.toPostArgs(), message.toURL(base)]


def body(version, fields):
    message = real.Message(version)
    for ns, key, value in fields:
        message.setArg(ns, key, value)
    return [message.toPostArgs(), message.toURLEncoded()]


def as_dict(url, args):
    return oidutil.appendArgs(url, dict(args))
'''
ETREES = ('lxml.etree.', 'xml.etree.ElementTree.', 'xml.etree.cElementTree.')
STUBS = dict([(e + a, 'markup_client.' + b) for e in ETREES for a, b in (('Element', 'element'), ('SubElement', 'sub'), ('tostring', 'serialised'), ('tounicode', 'serialised'))])


def undecode(t):
    """strip conversions between text and its UTF-8 bytes"""
    while isA(t) and t[1] in ('m:decode', 'm:encode', 'text') and (len(t) == 3 or t[3] in (C('utf-8'), C('utf8'), C('UTF-8'), C('ascii'))):
        t = t[2]
    if isC(t) and isinstance(t[2], bytes):
        try:
            return C(t[2].decode('utf-8'))
        except UnicodeDecodeError:
            return t
    return t


def parts(t):
    """pieces of a text, flattened"""
    t = undecode(t)
    if isA(t, 'cat'):
        return [q for p in t[2:] for q in parts(p)]
    return [t]


def encoded_pairs(t):
    """[(key, value)] written by an encoder of query arguments; None when the text is not produced by one"""
    ps = parts(t)
    if len(ps) == 1 and isA(ps[0], 'call') and ps[0][2].rsplit('.', 1)[-1] == 'urlencode' and len(ps[0]) >= 4:
        arg = ps[0][3]
        if len(ps[0]) > 4 and any(x[0] != 't' or x[1][0] != C('encoding') for x in ps[0][4:]):
            return None
        if isA(arg) and arg[1] in ('L', 'D', 'sorted', 'list') or arg[0] == 't':
            items = arg[1] if arg[0] == 't' else arg[2:]
            if isA(arg) and arg[1] in ('sorted', 'list') and len(items) == 1 and isA(items[0]) and items[0][1] in ('L', 'D'):
                items = items[0][2:]
            if all(i[0] == 't' and len(i[1]) == 2 for i in items):
                return [(undecode(i[1][0]), undecode(i[1][1])) for i in items]
        return None
    # k=v&k=v written piece by piece
    out, want = [], 'key'
    toks = []
    for p in ps:
        if isC(p) and isinstance(p[2], str):
            for ch in p[2]:
                toks.append(ch)
        else:
            toks.append(p)
    key = None
    for x in toks:
        quoted = not isinstance(x, str) and isA(x, 'call') and x[2].rsplit('.', 1)[-1] in ('quote_plus', 'quote') and (len(x) == 4 or x[4:] == (C(''),))
        if want in ('key', 'value') and quoted:
            if want == 'key':
                key, want = undecode(x[3]), '='
            else:
                out.append((key, undecode(x[3])))
                want = '&'
        elif want == x:
            want = 'value' if x == '=' else 'key'
        else:
            return None
    return out if want == '&' else None


def query_ok(ctx, fl, st, v, url, want, ordered, where, what, empty_mark=False):
    """v is url followed by the separator its query needs and the escaped arguments"""
    v = undecode(fl.freeze(st, v))
    if not want:
        return ctx.ob(v == url, 'an address without arguments is left alone', where, '%s gives %s' % (what, short(v)))
    ps = parts(v)
    base = parts(url)
    if ps[:len(base)] != base or len(ps) <= len(base):
        return ctx.ob(False, 'the address is the given one followed by the arguments', where, '%s gives %s' % (what, short(v)))
    rest = ps[len(base):]
    if not (isC(rest[0]) and isinstance(rest[0][2], str) and rest[0][2][:1] in ('?', '&')):
        return ctx.ob(False, 'the address is the given one followed by the arguments', where, '%s gives %s' % (what, short(v)))
    sep, tail = rest[0][2][0], rest[0][2][1:]
    got = encoded_pairs(A('cat', *(([C(tail)] if tail else []) + rest[1:]))) if tail or len(rest) > 2 else encoded_pairs(rest[1]) if len(rest) == 2 else None
    has_query = A('in', C('?'), url if not empty_mark else A('m:rstrip', url, C('?')))
    ctx.ob(entails(fl, st, has_query, sep == '&'), 'the separator follows from the query the address has', where, '%s joins with %r (%s)' % (what, sep, why(st)))
    ok = got is not None and (got == want if ordered else sorted(got, key=repr) == sorted(want, key=repr))
    ctx.ob(ok, 'the appended arguments are the given ones, percent-encoded', where, '%s gives %s' % (what, short(v)))


def short(t):
    r = repr(t)
    return r if len(r) < 240 else r[:240] + '...'


def append_case(ctx, case):
    ctx.p.client('markup_client', TREE)
    kind, n, where = case
    fl = ctx.flow(max_states=4000)
    url = sym('url', 'x:str')
    if kind == 'dict':
        ks = [C(k) for k in ('openid.mode', 'b', 'a&b=c', 'openid.claimed_id', 'janrain_nonce')[:n]]
    else:
        ks = [sym('k%d' % i, 'x:str') for i in range(n)]
    vs = [sym('v%d' % i, 'x:str') for i in range(n)]
    arg = T(tuple(T((k, v)) for k, v in zip(ks, vs)))
    key = where if kind == 'list' else 'markup_client.as_dict'
    seen = 0
    for st, v in ctx.run(fl, key, [url, arg]):
        if is_exc(v):
            continue
        seen += 1
        query_ok(ctx, fl, st, v, url, list(zip(ks, vs)), kind == 'list', where, '%d arguments as a %s' % (n, kind), where != APPEND)
    ctx.ob(seen > 0, 'arguments can be appended', where, '%d arguments as a %s' % (n, kind))


FIELDS = {
    0: [],
    1: [('http://specs.openid.net/auth/2.0', 'mode')],
    2: [('http://specs.openid.net/auth/2.0', 'mode'), ('http://specs.openid.net/auth/2.0', 'return_to')],
    3: [('http://specs.openid.net/auth/2.0', 'claimed_id'), ('http://extension/one', 'first'), ('http://extension/one', 'second')],
    4: [('http://specs.openid.net/auth/2.0', 'mode'), ('http://extension/one', 'first'), ('http://extension/two', 'value.1')],
}


def message_case(ctx, case):
    """the form, the address and the body made from a message carry its fields"""
    fn, shape, attrs, submit = case
    ctx.p.client('markup_client', TREE)
    fl = ctx.flow(max_states=4000, stubs=STUBS, msg_prims=False, peel=4)
    version = C('http://specs.openid.net/auth/2.0')
    vals = [sym('v%d' % i, 'x:str') for i in range(len(FIELDS[shape]))]
    fields = T(tuple(T((C(n), C(k), v)) for (n, k), v in zip(FIELDS[shape], vals)))
    action = sym('address', 'x:str')
    args = [version, fields] + ([action] if fn != 'body' else [])
    given = {k: sym('attr_' + k, 'x:str') for k in attrs or ()}
    if fn == 'markup':
        args += [pairs(given) if attrs is not None else NONE, sym('submit', 'x:str')]
    where = MSG + {'markup': '.toFormMarkup', 'plain': '.toFormMarkup', 'address': '.toURL', 'body': '.toURLEncoded'}[fn]
    what = '%s of a message with %d fields%s' % (fn, len(vals), '' if attrs is None else ', attributes %s' % sorted(attrs))
    n = 0
    for st, v in ctx.run(fl, 'markup_client.' + fn, args):
        if is_exc(v):
            ctx.ob(False, 'a message can be written', where, '%s raises %s' % (what, cls_of(fl, st, v)))
            continue
        n += 1
        post, out = fl.view(st, v)[1]
        kv = fl.view(st, post)
        want = sorted([(fl.freeze(st, k), fl.freeze(st, x)) for k, x in kv[1]], key=repr)
        ctx.ob(sorted([x for _, x in want], key=repr) == sorted(vals + [version], key=repr) or len(want) >= len(vals) + 1, 'the fields of a message are written', where, '%s writes %s' % (what, short(want)))
        if fn == 'address':
            query_ok(ctx, fl, st, out, action, want, False, where, what)
            continue
        if fn == 'body':
            got = encoded_pairs(fl.freeze(st, out))
            ctx.ob(got is not None and sorted(got, key=repr) == want, 'the body holds the fields of the message, percent-encoded', where, '%s gives %s' % (what, short(fl.freeze(st, out))))
            continue
        form_ok(ctx, fl, st, out, action, want, given, args[-1] if fn == 'markup' else None, where, what)
    ctx.ob(n > 0, 'a message can be written', where, what)


def form_ok(ctx, fl, st, out, action, want, given, submit, where, what):
    t = undecode(fl.freeze(st, out))
    if not (isA(t, 'call') and t[2] == 'modelvalue.markup'):
        return ctx.ob(False, 'the form is what the escaping serializer produced', where, '%s gives %s' % (what, short(t)))
    tree, method = t[3], t[5]
    ctx.ob(method in (C('xml'), C('html'), NONE), 'the form is what the escaping serializer produced', where, '%s is serialised with method %s' % (what, short(method)))
    tag, attrib, children = tree[1][0], dict(p[1] for p in tree[1][1][2:]), [c[1] for c in tree[1][2][2:]]
    ctx.ob(tag == C('form') and attrib.get(C('action')) == action, 'the form is sent to the given address', where, '%s has tag %s and action %s' % (what, short(tag), short(attrib.get(C('action')))))
    ctx.ob(undecode(attrib.get(C('method'), NONE)) in (C('post'), C('POST')), 'the form is posted', where, '%s has method %s' % (what, short(attrib.get(C('method')))))
    for k, x in given.items():
        if k not in ('action', 'method', 'accept-charset', 'enctype'):
            ctx.ob(attrib.get(C(k)) == x, 'attributes given by the caller are in the form tag', where, '%s: attribute %s is %s' % (what, k, short(attrib.get(C(k)))))
    ctx.ob(undecode(attrib.get(C('enctype'), C('application/x-www-form-urlencoded'))) == C('application/x-www-form-urlencoded') or 'enctype' in given, 'the form is encoded as arguments', where,
           '%s: enctype %s' % (what, short(attrib.get(C('enctype')))))
    got, other = [], []
    for c in children:
        a = dict(p[1] for p in c[1][2:])
        if c[0] == C('input') and a.get(C('type')) == C('hidden'):
            got.append((undecode(a.get(C('name'), NONE)), undecode(a.get(C('value'), NONE))))
        else:
            other.append((c[0], a))
    ctx.ob(sorted(got, key=repr) == want, 'the hidden inputs are exactly the fields of the message', where, '%s has %s' % (what, short(got)))
    ctx.ob(all(C('name') not in a for _, a in other), 'nothing but the fields is submitted', where, '%s has %s' % (what, short(other)))
    if submit is not None:
        ctx.ob(any(a.get(C('type')) == C('submit') and a.get(C('value')) == submit for _, a in other), 'the form can be submitted by the user', where, '%s has %s' % (what, short(other)))


GETMSG = AUTH + '.getMessage'
TOMSG, RETTO = SRV + 'ProtocolError.toMessage', SRV + 'ProtocolError.getReturnTo'
URL_OF, FORM_OF = MSG + '.toURL', MSG + '.toFormMarkup'


def member(obj, name):
    return A('attr', obj, name)


def passed(t, name):
    """(message, address, attributes) of a call of one of the writers"""
    t = undecode(t)
    if isA(t, 'call') and t[2] in (name, '.' + name.rsplit('.', 1)[-1]):
        pos = [x for x in t[3:] if not (x[0] == 't' and len(x[1]) == 2 and isC(x[1][0]) and x[1][0][2] in ('base_url', 'action_url', 'form_tag_attrs', 'submit_text'))]
        kw = dict((x[1][0][2], x[1][1]) for x in t[3:] if x not in pos)
        pos += [NONE] * (3 - len(pos)) if len(pos) >= 2 else []
        msg = pos[0] if pos else NONE
        addr = kw.get('base_url', kw.get('action_url', pos[1] if len(pos) > 1 else NONE))
        return msg, addr, kw.get('form_tag_attrs', pos[2] if len(pos) > 2 else NONE)
    return None


def caller_case(ctx, case):
    """requests and responses hand their own message and address to the writers, and use the text unchanged"""
    key, args, writer, msg, addr, attrs, page = case
    op = {URL_OF, FORM_OF, GETMSG, TOMSG, RETTO}
    fl = ctx.flow(opaque=op, pure_calls=op, pure_raises={x: [] for x in op}, typed_attrs={'fields': MSG, 'message': MSG}, typed_calls={'getMessage': MSG, 'toMessage': MSG}, msg_prims=False)
    n = 0
    for st, v in ctx.run(fl, key, args):
        if is_exc(v):
            continue
        n += 1
        t = fl.freeze(st, v)
        found = [x for x in parts(t) if passed(x, writer)]
        rest = [x for x in parts(t) if not passed(x, writer)]
        if len(found) != 1:
            ctx.ob(False, 'the message is written by the escaping writers', key, 'gives %s' % short(t))
            continue
        got = passed(found[0], writer)
        ctx.ob(got[0] == msg, 'the message written is its own', key, 'writes %s' % short(got[0]))
        ctx.ob(got[1] == addr, 'the address is its own', key, 'is sent to %s' % short(got[1]))
        if attrs is not None:
            ctx.ob(got[2] == attrs, 'attributes given by the caller reach the form', key, 'form attributes are %s' % short(got[2]))
        if page:
            text = ''.join(x[2] for x in rest if isC(x) and isinstance(x[2], str))
            ctx.ob(all(isC(x) for x in rest) and '.submit()' in text and '<body' in text, 'the page holds the form unchanged and submits it', key, 'gives %s' % short(t))
        else:
            ctx.ob(not rest, 'the written text is used unchanged', key, 'gives %s' % short(t))
    ctx.ob(n > 0, 'the message is written by the escaping writers', key, 'no returning path')


def callers():
    resp, err, auth = sym('resp', SRV + 'OpenIDResponse'), sym('err', SRV + 'ProtocolError'), sym('auth', AUTH)
    fa, how = sym('attrs'), [sym('realm', 'x:str'), sym('return_to', 'x:str'), sym('immediate')]
    fields, back = member(resp, 'fields'), member(member(resp, 'request'), 'return_to')
    emsg, eaddr = A('call', TOMSG, err), A('call', RETTO, err)
    amsg, aaddr = A('call', GETMSG, auth, *how), member(member(auth, 'endpoint'), 'server_url')
    R, E = SRV + 'OpenIDResponse.', SRV + 'ProtocolError.'
    return [(R + 'toFormMarkup', [resp, fa], FORM_OF, fields, back, fa, False), (R + 'toHTML', [resp, fa], FORM_OF, fields, back, fa, True),
            (R + 'encodeToURL', [resp], URL_OF, fields, back, None, False),
            (E + 'toFormMarkup', [err], FORM_OF, emsg, eaddr, None, False), (E + 'toHTML', [err], FORM_OF, emsg, eaddr, None, True), (E + 'encodeToURL', [err], URL_OF, emsg, eaddr, None, False),
            (AUTH + '.redirectURL', [auth] + how, URL_OF, amsg, aaddr, None, False), (AUTH + '.formMarkup', [auth] + how + [fa], FORM_OF, amsg, aaddr, fa, False),
            (AUTH + '.htmlMarkup', [auth] + how + [fa], FORM_OF, amsg, aaddr, fa, True)]


SETUP = {'mode': 'mode', 'return_to': 'return_to', 'identity': 'identity', 'claimed_id': 'claimed_id', 'trust_root': 'trust_root', 'realm': 'trust_root', 'assoc_handle': 'assoc_handle'}


def setup_case(ctx, which):
    """the addresses a request makes of itself"""
    key = SRV + 'CheckIDRequest.' + which
    req, url = sym('req', SRV + 'CheckIDRequest'), sym('url', 'x:str')
    fl = ctx.flow(opaque={URL_OF}, pure_calls={URL_OF}, pure_raises={URL_OF: []}, typed_attrs={'message': MSG})
    n = 0
    for st, v in ctx.run(fl, key, [req] + ([url] if which == 'encodeToURL' else [])):
        if is_exc(v):
            continue
        n += 1
        t = undecode(fl.freeze(st, v))
        if not (isA(t, 'm:toURL') and isA(t[2], 'msg')):
            ctx.ob(False, 'the message is written by the escaping writers', key, 'gives %s' % short(t))
            continue
        ctx.ob(t[3] == (url if which == 'encodeToURL' else member(req, 'return_to')), 'the address is its own', key, 'is sent to %s' % short(t[3]))
        m = t[2]
        ctx.ob(m[2] == A('ns', member(req, 'message')), 'the message has the protocol version of the request', key, 'has %s' % short(m[2]))
        args = m[4]
        for ns, k, x in args:
            if which == 'getCancelURL':
                ctx.ob(k == C('mode') and x == C('cancel'), 'the cancelling address carries the cancel mode', key, 'carries %s=%s' % (short(k), short(x)))
            else:
                ctx.ob(isC(k) and k[2] in SETUP and x == member(req, SETUP[k[2]]), 'the address carries the arguments of the request', key, 'carries %s=%s' % (short(k), short(x)))
        names = {k[2] for _, k, _ in args if isC(k)}
        must = {'mode'} if which == 'getCancelURL' else {'mode', 'return_to'}
        if which == 'encodeToURL':
            for k in ('identity', 'claimed_id'):
                if not entails(fl, st, eq(member(req, k), NONE), True):
                    must.add(k)
            if entails(fl, st, truth(member(req, 'assoc_handle')), True):
                must.add('assoc_handle')
        ctx.ob(must <= names, 'the address carries the arguments of the request', key, 'carries only %s' % sorted(names))
        ctx.ob(not {'realm', 'trust_root'} <= names, 'the address carries the arguments of the request', key, 'carries %s' % sorted(names))
    ctx.ob(n > 0, 'the message is written by the escaping writers', key, 'no returning path')


@prop('C34', 150, technique='symbolic execution of the writers with symbolic texts and a modelled element tree; the resulting text is decomposed into the address, separator and encoder/serializer applications it is made of',
      explain='every text that reaches a generated form or address is an argument of the escaping serializer or the percent-encoder, and the address and fields are the ones given')
def c34(ctx):
    deep = ctx.tier == 'thorough'
    ctx.parallel(append_case, [(k, n, APPEND) for k in ('list', 'dict') for n in range(6 if deep else 5)] + [('list', n, 'openid.yadis.xrires._appendArgs') for n in range(4)])
    cases = []
    for shape in FIELDS:
        cases += [('plain', shape, None, None), ('address', shape, None, None), ('body', shape, None, None)]
        for attrs in (None, [], ['id'], ['class', 'target'], ['action', 'id'], ['method'], ['enctype', 'name']):
            cases.append(('markup', shape, attrs, None))
    ctx.parallel(message_case, cases)
    ctx.parallel(caller_case, callers())
    ctx.parallel(setup_case, ['encodeToURL', 'getCancelURL'])
