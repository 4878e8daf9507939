"""Fetching and discovery rules (C28, C29)."""
import ast

from ..core import *  # noqa: F401,F403
from ..terms import T
from . import prop
from .message import walk_funcs
from .consumer import reachable
from .store import entails_any, guard_facts, state_with

F = 'openid.fetchers'
FETCHER, RESPONSE, WRAPPER = F + '.HTTPFetcher', F + '.HTTPResponse', F + '.ExceptionWrappingFetcher'
FETCHERR = F + '.HTTPFetchingError'
URINORM = 'openid.urinorm.urinorm'
NETWORK = ('requests', 'pycurl', 'httplib2', 'socket', 'http.client', 'httplib', 'urllib2', 'ftplib', 'aiohttp', 'httpx', 'urllib3', 'ssl')
OPENERS = ('urlopen', 'urlretrieve', 'build_opener', 'URLopener', 'FancyURLopener', 'OpenerDirector')
REQ = ('get', 'post', 'put', 'head', 'options', 'delete', 'patch')


def kwget(e, *names):
    kw = dict(e[4] or ())
    for n in names:
        if n in kw:
            return kw[n]
    return None


def contact(e, prev):
    """(url term, library checks the scheme itself) when the event contacts a server, else None"""
    if e[0] != 'call':
        return None
    name, recv, a = e[1], e[2], e[3]
    last = name.split('.')[-1]
    ref = recv[1].split('.')[-1] if recv and recv[0] in ('g', 'x', 'f', 's') and isinstance(recv[1], str) else ''
    if name == '<value>':
        last = ref
    if last in ('urlopen', 'urlretrieve') or (last == 'open' and recv and (hascall(recv, 'six.moves.urllib.request.build_opener') or hascall(recv, 'urllib.request.build_opener'))):
        u = a[0] if a else kwget(e, 'url', 'fullurl')
        if u is not None and isA(u, 'call') and str(u[2]).endswith('.Request'):
            kws = {x[1][0][2]: x[1][1] for x in u[3:] if x[0] == 't' and len(x[1]) == 2 and isC(x[1][0])}
            pos = [x for x in u[3:] if not (x[0] == 't' and len(x[1]) == 2 and isC(x[1][0]))]
            u = pos[0] if pos else kws.get('url')
        return u, False
    sess = recv is not None and (hascall(recv, 'requests.Session') or hascall(recv, 'requests.session'))
    if name.startswith('requests.') or sess:
        if last == 'request':
            return (a[1] if len(a) > 1 else kwget(e, 'url')), True
        if last in REQ:
            return (a[0] if a else kwget(e, 'url')), True
        return None
    if last == 'request' and name.startswith('.'):
        return (a[0] if a else kwget(e, 'uri', 'url')), False
    if last in ('perform', 'perform_rb', 'perform_rs') and name.startswith('.'):
        for p in reversed(prev):
            if p[0] == 'call' and p[1] == '.setopt' and p[2] == recv and p[3] and p[3][0] == ('x', 'pycurl.URL'):
                return p[3][1], False
        return NONE, False
    return None


def sequences(events, facts_=frozenset(), before=()):
    """(event, events before it on the same path, branch facts of the loops around it)"""
    before = list(before)
    for e in events:
        if e[0] == 'loop':
            for p, evs in e[2]:
                for x in sequences(evs, facts_ | frozenset(guard_facts([(e[1], p, e[7])])), before):
                    yield x
        else:
            yield e, list(before), facts_
            before.append(e)


def norm_of(u):
    """the address before normalisation"""
    while isA(u, 'call') and u[2] == URINORM:
        u = u[3]
    return u


def scheme_facts(u):
    out = []
    for x in (u, A('m:lower', u)):
        out += [A('m:startswith', x, C('http://')), A('m:startswith', x, C('https://'))]
    return out


def allowed(fl, st, facts_, u):
    s = state_with(st, facts_)
    parsed_ = [t for a in s.facts for t in subterms(a) if isA(t, 'attr') and t[3] == 'scheme' and has(t, u) or isA(t, 'getitem') and t[3] == C(0) and isA(t[2], 'call') and 'urlparse' in str(t[2][2]) and has(t, u)]
    fs = scheme_facts(u) + scheme_facts(norm_of(u))
    for t in parsed_:
        fs += [eq(t, C('http')), eq(t, C('https'))]
    return entails_any(fl, s, fs)


def fetcher_classes(ctx):
    out = []
    for k in sorted(ctx.p.subclasses(FETCHER)):
        ca = ctx.p.class_attr(k, 'fetch')
        if k in (FETCHER, WRAPPER) or not ca or ca[1][0] != 'func' or ca[1][1].key.startswith((FETCHER + '.', WRAPPER + '.')):
            continue
        out.append((k, ca[1][1].key))
    return out


CLIENT = '''
from openid import fetchers


def one(fetcher, url, body, headers):
    try:
        return fetcher.fetch(url, body, headers)
    except Exception:
        raise


def wrapped(inner, url, body, headers):
    w = fetchers.ExceptionWrappingFetcher(inner)
    try:
        return w.fetch(url, body, headers)
    except Exception:
        raise


def package(url, body, headers):
    return fetchers.fetch(url, body, headers)


def default_of(f):
    fetchers.setDefaultFetcher(f)
    return fetchers.getDefaultFetcher()
'''
EVENTS = ('.perform', '<value>', '.setopt', '.request', '.mount', '.open')


REQUEST = 'six.moves.urllib.request.Request'     # building a request contacts nobody


def check_fetcher(ctx, item):
    cls, key = item
    u, b, h = sym('url', 'x:str'), sym('body', 'x:bytes'), sym('headers')
    fl = ctx.flow(keep=words('http', 'scheme', 'code', 'status'), pure_calls={URINORM}, opaque={URINORM}, pure_raises={URINORM: ['ValueError'], REQUEST: ['ValueError']},
                  typed_attrs={'urlopen': 'x:urlopen'}, clock=True)
    me = sym('fetcher', cls)
    n = replies = 0
    for st, v in ctx.run(fl, 'fetchclient.one', [me, u, b, h]):
        seq = list(sequences(st.events))
        con = []
        for e, prev, fs in seq:
            if e[0] == 'call' and e[1] == '.mount':
                ctx.ob(False, 'no handler for other schemes is added', key, 'a transport adapter is mounted')
            if e[0] == 'call' and e[1] == '.setopt' and e[3] and e[3][0] == ('x', 'pycurl.FOLLOWLOCATION'):
                ctx.ob(e[3][1] in (FALSE, C(0)), 'redirects are followed by the fetcher itself', key, 'the library is told to follow redirects')
            c = contact(e, prev)
            if c is None:
                continue
            n += 1
            con.append((e, c[0]))
            if c[0] is None or c[0] == NONE:
                ctx.ob(False, 'the address contacted is known', key, 'a server is contacted without an address at line %s' % (e[5][1] if e[5] else '?'))
                continue
            if not c[1]:
                ctx.ob(allowed(fl, st, fs, c[0]), 'only http(s) addresses are contacted', key,
                       'line %d contacts %s without a check that it is an http or https address' % (e[5][1], show(norm_of(c[0]))[:120]))
        top = [(e, x) for e, x in con if any(e is y for y in st.events)]
        if top:
            ctx.ob(norm_of(con[0][1]) == u, 'the address asked for is the one contacted', key, 'first contacts %s' % show(con[0][1])[:120]) if con[0][1] is not None and not hasop(con[0][1], 'lv') else None
        if is_exc(v):
            continue
        replies += 1
        ctx.ob(cls_of(fl, st, v) == RESPONSE, 'a fetch returns a response or raises', key, 'returns %s' % show(fl.freeze(st, v))[:100])
        if not ctx.ob(bool(top), 'a response comes from the server', key, 'a response is returned without contacting the server'):
            continue
        e = top[-1][0]
        failed = isinstance(e[6], tuple) and e[6] and e[6][0] == 'raised'
        ctx.ob(not failed or e[6][1].endswith('HTTPError') and 'urllib' in e[6][1], 'a failed fetch raises', key, 'a response is returned after %s' % (e[6][1] if failed else ''))
        roots = {e[6]} if not failed else set()
        if e[2] is not None:
            roots.add(e[2])
        for a in ('status', 'final_url', 'body'):
            t = field(fl, st, v, a)
            okk = t is not None and (any(has(t, r) for r in roots if r[0] == 'a') or any(x[0] == 'r' and 'urllib' in str(fl.exc_class(st, x)) for x in subterms(t)))
            if a == 'final_url':
                okk = okk or t == norm_of(top[-1][1])
            if a == 'body' and e[1] == '.perform':
                okk = t is not None and hascall(t, 'six.BytesIO')
            if a == 'status':
                okk = okk or t == C(200) and any(x[1] == 'hasattr' and not b_ for x, b_ in st.facts.items())
            ctx.ob(okk, 'the response is what the server answered', key, '%s of the response is %s' % (a, show(t)[:120] if t is not None else 'unknown'))
    ctx.ob(n > 0, 'the fetcher contacts a server', key, 'no known call that contacts a server is reached')
    ctx.ob(replies > 0, 'a fetch returns a response or raises', key, 'no path returns a response')


def wrapping(ctx):
    fl = ctx.flow()
    u, b, h = sym('url', 'x:str'), sym('body', 'x:bytes'), sym('headers')
    inner = sym('inner')
    key = WRAPPER + '.fetch'
    raised = 0
    for st, v in ctx.run(fl, 'fetchclient.wrapped', [inner, u, b, h]):
        ev = [e for e, g in flat(st.events) if e[0] == 'call' and e[1] == '.fetch' and e[2] == inner]
        bad = [e for e in ev if isinstance(e[6], tuple) and e[6] and e[6][0] == 'raised']
        if is_exc(v):
            raised += bool(bad)
            ctx.ob(fl.exc_match(cls_of(fl, st, v), FETCHERR), 'every failure of a fetcher surfaces as a fetching error', key, 'raises %s' % cls_of(fl, st, v))
            continue
        ctx.ob(not bad, 'a failed fetch raises', key, 'a failed fetch returns %s' % show(fl.freeze(st, v))[:80])
        ctx.ob(len(ev) == 1 and fl.freeze(st, v) == ev[0][6], 'the wrapped response is returned', key, 'returns %s' % show(fl.freeze(st, v))[:80])
        if ev:
            given = list(ev[0][3]) + [x for k, x in ev[0][4] or ()]
            ctx.ob(given == [u, b, h], 'the arguments reach the fetcher', key, 'passes %s' % [show(x) for x in given])
    ctx.ob(raised > 0, 'every failure of a fetcher surfaces as a fetching error', key, 'failures of the fetcher are not caught')
    # the default fetcher is a wrapped one
    fl = ctx.flow()
    f = sym('f')
    key = F + '.setDefaultFetcher'
    n = 0
    for st, v in ctx.run(fl, key, [f]):
        if is_exc(v) or isnone(fl, st, f):
            continue
        for g, val in globals_written(fl, st, 'openid.fetchers._default_fetcher'):
            n += 1
            ctx.ob(cls_of(fl, st, val) == WRAPPER, 'the default fetcher wraps exceptions', key, 'the default fetcher becomes %s' % show(fl.freeze(st, val))[:80])
    ctx.ob(n > 0, 'the default fetcher wraps exceptions', key, 'the default fetcher is not set')
    SD, CR = F + '.setDefaultFetcher', F + '.createHTTPFetcher'
    fl = ctx.flow(opaque={SD, CR})
    key = F + '.getDefaultFetcher'
    n = 0
    for st, v in ctx.run(fl, key, []):
        for e in calls(st, SD, ok=False):
            n += 1
            w = kwget(e, 'wrap_exceptions') or (e[3][1] if len(e[3]) > 1 else TRUE)
            ctx.ob(w in (TRUE, C(1)), 'the default fetcher wraps exceptions', key, 'a default fetcher is made without wrapping its exceptions')
    fl = ctx.flow(opaque={key})
    k2 = F + '.fetch'
    for st, v in ctx.run(fl, 'fetchclient.package', [u, b, h]):
        if is_exc(v):
            continue
        ev = [e for e in calls(st) if e[1].split('.')[-1] == 'fetch']
        okk = len(ev) == 1 and ev[0][2] is not None and hascall(ev[0][2], key) and fl.freeze(st, v) == ev[0][6]
        ctx.ob(okk, 'package-level fetches use the default fetcher', k2, 'fetch goes to %s' % [show(e[2]) if e[2] else e[1] for e in ev])
        if ev:
            kw = dict(ev[0][4] or ())
            given = list(ev[0][3]) + [kw[x] for x in ('url', 'body', 'headers') if x in kw]
            ctx.ob(given == [u, b, h], 'the arguments reach the fetcher', k2, 'passes %s' % [show(x) for x in given])


def globals_written(fl, st, key):
    out = []
    for e, g in flat(st.events):
        if e[0] == 'setglobal' and '%s.%s' % (e[1], e[2]) == key:
            out.append((e, e[3]))
    return out


def network_lint(ctx):
    """network libraries are used by the fetchers only; the default fetcher is set by its setter only"""
    direct = {'_default_fetcher', 'createHTTPFetcher'} | {k.split('.')[-1] for k, _ in fetcher_classes(ctx)}
    for mod in list(ctx.p.mods.values()):
        if not mod.name.startswith('openid') or '.test' in mod.name or mod.name == F:
            continue
        hits = []
        for fn, cls, n in walk_funcs(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name in NETWORK or a.name.split('.')[0] in NETWORK:
                        hits.append((fn, n, a.name))
            elif isinstance(n, ast.ImportFrom):
                m = n.module or ''
                if not n.level and (m in NETWORK or m.split('.')[0] in NETWORK):
                    hits.append((fn, n, m))
                for a in n.names:
                    if a.name in OPENERS:
                        hits.append((fn, n, a.name))
            elif isinstance(n, ast.Attribute) and n.attr in OPENERS:
                hits.append((fn, n, n.attr))
            elif isinstance(n, ast.Attribute) and n.attr in direct:
                hits.append((fn, n, n.attr))
            elif isinstance(n, ast.Name) and n.id in direct and ctx.p.resolve_name(mod, n.id) is not None:
                r = ctx.p.resolve_name(mod, n.id)
                if r[0] in ('func', 'class') and r[1].key.startswith(F + '.'):
                    hits.append((fn, n, n.id))
        for fn, n, what in hits:
            ctx.ob(False, 'only the fetchers use the network', mod.name + ('.' + fn if fn else ''), 'uses %s directly' % what, '%s:%d' % (mod.relpath, n.lineno))
        ctx.ob(True, 'only the fetchers use the network', mod.name, '')


@prop('C28', 40, technique='dataflow outcomes of every fetcher with the address term of each contact and the branch facts before it; exception flow of the wrapper; import lint')
def c28(ctx):
    ctx.p.client('fetchclient', CLIENT)
    items = fetcher_classes(ctx)
    ctx.ob(len(items) >= 4, 'the bundled fetchers are found', FETCHER, 'only %s' % items)
    for it in items:
        check_fetcher(ctx, it)
    wrapping(ctx)
    network_lint(ctx)


# ---------------------------------------------------------------- C29
FT = F + '.fetch'
YD, XR, ET, CD = 'openid.yadis.discover', 'openid.yadis.xrires', 'openid.yadis.etxrd', 'openid.consumer.discover'
CC = 'openid.consumer.consumer'
DF, XRDSERR = YD + '.DiscoveryFailure', ET + '.XRDSError'
ROOT = C('{xri://$xrds}XRDS')
REPLY = '''
from openid import fetchers
from openid.yadis import discover as yd, etxrd, services, xrires
from openid.consumer import consumer, discover as cd
from openid.server import trustroot


def yadis(uri):
    try:
        return yd.discover(uri)
    except Exception:
        raise


def plain(uri):
    try:
        return cd.discoverNoYadis(uri)
    except Exception:
        raise


def query(proxy, name, types):
    try:
        return proxy.query(name, types)
    except Exception:
        raise


def post(msg, url):
    try:
        return consumer.makeKVPost(msg, url)
    except Exception:
        raise


def parse(text):
    try:
        return etxrd.parseXRDS(text)
    except Exception:
        raise


def endpoints(url, flt):
    try:
        return services.getServiceEndpoints(url, flt)
    except Exception:
        raise


def discover(url):
    try:
        return cd.discoverURI(url)
    except Exception:
        raise


def realm(url):
    try:
        return trustroot.getAllowedReturnURLs(url)
    except Exception:
        raise


def where(resp):
    try:
        return yd.whereIsYadis(resp)
    except Exception:
        raise


def from_xrds(uri, doc):
    try:
        return cd.OpenIDServiceEndpoint.fromXRDS(uri, doc)
    except Exception:
        raise


def from_html(uri, doc):
    try:
        return cd.OpenIDServiceEndpoint.fromHTML(uri, doc)
    except Exception:
        raise
'''
HTMLMETA = 'openid.yadis.parsehtml.findHTMLMeta'
LIBRAISES = {'lxml.etree.XML': ['lxml.etree.XMLSyntaxError'], 'lxml.etree.fromstring': ['lxml.etree.XMLSyntaxError'], 'lxml.etree.parse': ['lxml.etree.XMLSyntaxError', 'ValueError'],
             'lxml.html.document_fromstring': ['lxml.etree.ParserError', 'lxml.etree.XMLSyntaxError'], 'lxml.html.fromstring': ['lxml.etree.ParserError', 'lxml.etree.XMLSyntaxError'],
             FT: [FETCHERR]}
UNSEEN = {'Exception', 'IndexError', 'KeyError', 'TypeError'}     # kinds the model reports for operations on values it knows nothing about


def fetches(st):
    return [(e, fs) for e, prev, fs in sequences(st.events) if e[0] == 'call' and e[1] == FT and not (isinstance(e[6], tuple) and e[6][0] == 'raised')]


def holders(fl, st, v):
    return {t for t in reachable(fl, st, v) if t[0] == 'r'}


def held(t, d, fs=frozenset()):
    """conditions under which term t contains d (conditions of comprehensions are followed)"""
    if t == d:
        return [fs]
    if not isinstance(t, tuple):
        return []
    if len(t) == 2 and isinstance(t[0], frozenset):
        return held(t[1], d, fs | frozenset(x for x in t[0] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], bool)))
    return [x for y in t if isinstance(y, tuple) for x in held(y, d, fs)]


def believed(ctx, fl, res, key):
    """data of a reply is used on returning paths only under a success status"""
    n = 0
    for st, v in res:
        if is_exc(v):
            continue
        out = {fl.freeze(st, t) for t in [v] + [x for k, x in st.fields.items() if k[0] in holders(fl, st, v)]}
        for e, fs in fetches(st):
            r = e[6]
            data = {A('attr', r, x) for x in ('body', 'headers', 'final_url')}
            okst = [eq(A('attr', r, 'status'), C(200)), eq(A('attr', r, 'status'), C(206))]
            users = [(x, f2) for x, prev, f2 in sequences(st.events) if any(has(t, d) for t in list(x[3] or ()) + ([x[2]] if x[2] else []) for d in data)]
            for x, f2 in users:
                n += 1
                ctx.ob(entails_any(fl, state_with(st, f2), okst), 'only successful replies are believed', key,
                       'line %d uses the reply fetched at line %d without a success status' % (x[5][1], e[5][1]))
            for d, f2 in [(d, f2) for d in data for t in out for f2 in held(t, d)]:
                n += 1
                ctx.ob(entails_any(fl, state_with(st, f2 or fs), okst), 'only successful replies are believed', key,
                       'the result contains data of the reply fetched at line %d without a success status' % e[5][1])
    ctx.ob(n > 0, 'only successful replies are believed', key, 'no use of a reply is found')


def escapes(ctx, fl, res, key, allowed_, title):
    for st, v in res:
        if not is_exc(v):
            continue
        c = cls_of(fl, st, v)
        if c in UNSEEN:
            continue
        ctx.ob(any(fl.exc_match(c, a) for a in allowed_), title, key, 'raises %s' % c)


def direct_reply(ctx):
    key = CC + '.makeKVPost'
    SE = CC + '.ServerError'
    fl = ctx.flow(opaque={FT}, pure_raises={FT: [FETCHERR]})
    url = sym('url', 'x:str')
    res = ctx.run(fl, 'replyclient.post', [sym('msg', 'openid.message.Message'), url])
    seen = set()
    for st, v in res:
        c = cls_of(fl, st, v) if is_exc(v) else None
        fs = fetches(st)
        ctx.ob(len(fs) <= 1, 'a direct request is sent once', key, 'sent %d times' % len(fs))
        if is_exc(v):
            if c not in UNSEEN:
                ctx.ob(fl.exc_match(c, FETCHERR) or fl.exc_match(c, SE), 'an unusable direct reply is a server error or a transport error', key, 'raises %s' % c)
            if fl.exc_match(c, SE):
                seen.add('server')
                s = A('attr', fs[0][0][6], 'status') if fs else NONE
                ctx.ob(bool(fs) and entails(fl, st, eq(s, C(400)), True), 'only status 400 is an error of the server', key, 'raises ServerError for another status')
            continue
        if not ctx.ob(bool(fs), 'a direct reply comes from the server', key, 'returns without a request'):
            continue
        r = fs[0][0][6]
        s = A('attr', r, 'status')
        seen.add('message')
        ctx.ob(entails_any(fl, st, [eq(s, C(200)), eq(s, C(206))]), 'only successful replies are believed', key, 'a reply without success status is returned as a message')
        t = fl.freeze(st, v)
        ctx.ob(has(t, A('attr', r, 'body')) or any(has(x, A('attr', r, 'body')) for x in reachable(fl, st, v)), 'the message is the reply', key, 'returns %s' % show(t)[:100])
    ctx.ob(seen == {'server', 'message'}, 'direct replies are understood', key, 'found only %s' % sorted(seen))


XMLFUNCS = ('XML', 'fromstring', 'fromstringlist', 'parse', 'iterparse', 'XMLID', 'XMLParser', 'XMLPullParser', 'XMLTreeBuilder')
XMLMODS = ('xml.', 'xml', 'defusedxml', 'xmltodict', 'html5lib', 'bs4')


def parser_lint(ctx):
    """every XML parser is made without entity resolution and no parser is used without being given one"""
    n = 0
    for mod in list(ctx.p.mods.values()):
        if not mod.name.startswith('openid') or '.test' in mod.name:
            continue
        for fn, cls, node in walk_funcs(mod.tree):
            if not isinstance(node, ast.Call):
                continue
            f = node.func
            parts_ = []
            while isinstance(f, ast.Attribute):
                parts_.append(f.attr)
                f = f.value
            if not isinstance(f, ast.Name):
                continue
            r = ctx.p.resolve_name(mod, f.id)
            if r is None or r[0] != 'ext':
                continue
            full = '.'.join([r[1]] + parts_[::-1])
            where = '%s:%d' % (mod.relpath, node.lineno)
            con = mod.name + ('.' + fn if fn else '')
            if full.split('.')[0] == 'xml' or full.startswith(('defusedxml', 'xmltodict')):
                n += 1
                ctx.ob(full.split('.')[-1] not in XMLFUNCS + ('parseString',), 'documents are parsed without resolving entities', con, '%s resolves entities' % full, where)
            if not full.startswith('lxml.'):
                continue
            kws = {k.arg: k.value for k in node.keywords}
            last = full.split('.')[-1]
            if last in ('XMLParser', 'XMLPullParser', 'ETCompatXMLParser'):
                n += 1
                v = kws.get('resolve_entities')
                ctx.ob(isinstance(v, ast.Constant) and v.value is False, 'documents are parsed without resolving entities', con, 'an XML parser is made without resolve_entities=False', where)
                for k, bad in (('load_dtd', True), ('dtd_validation', True), ('attribute_defaults', True), ('no_network', False), ('huge_tree', True), ('recover', True)):
                    if k in kws:
                        ctx.ob(isinstance(kws[k], ast.Constant) and kws[k].value is not bad, 'documents are parsed without resolving entities', con, 'an XML parser is made with %s' % k, where)
            elif last == 'HTMLParser':
                n += 1
                v = kws.get('no_network')
                ctx.ob(v is None or isinstance(v, ast.Constant) and v.value is True, 'documents are parsed without network access', con, 'a HTML parser may use the network', where)
            elif full.startswith('lxml.etree.') and last in ('XML', 'fromstring', 'fromstringlist', 'parse', 'XMLID'):
                n += 1
                ctx.ob(len(node.args) > 1 or 'parser' in kws, 'documents are parsed without resolving entities', con, '%s is used with the default parser' % full, where)
            elif last in ('iterparse', 'XInclude', 'xinclude', 'XSLT'):
                ctx.ob(False, 'documents are parsed without resolving entities', con, '%s is used' % full, where)
    ctx.ob(n >= 2, 'documents are parsed without resolving entities', 'openid', 'no parser is found')


@prop('C29', 40, technique='dataflow: status facts dominating every use of a reply; exception-escape analysis of parsing and discovery; parser-option lint')
def c29(ctx):
    ctx.p.client('replyclient', REPLY)
    u = sym('uri', 'x:str')
    fl = ctx.flow(opaque={FT, HTMLMETA}, pure_raises={FT: [FETCHERR], HTMLMETA: ['openid.yadis.parsehtml.MetaNotFound', 'UnicodeError']})
    believed(ctx, fl, ctx.run(fl, 'replyclient.yadis', [u]), YD + '.discover')
    fl = ctx.flow(opaque={FT}, pure_raises=LIBRAISES)
    believed(ctx, fl, ctx.run(fl, 'replyclient.plain', [u]), CD + '.discoverNoYadis')
    fl = ctx.flow(opaque={FT, ET + '.parseXRDS', ET + '.getCanonicalID', ET + '.iterServices'}, pure_raises={FT: [FETCHERR]})
    believed(ctx, fl, ctx.run(fl, 'replyclient.query', [sym('proxy', XR + '.ProxyResolver'), sym('name', 'x:str'), sym('types')]), XR + '.ProxyResolver.query')
    fl = ctx.flow(keep=words('status'), opaque={FT, YD + '.whereIsYadis', ET + '.parseXRDS', ET + '.iterServices'}, pure_raises={FT: [FETCHERR], HTMLMETA: ['openid.yadis.parsehtml.MetaNotFound', 'UnicodeError'], ET + '.parseXRDS': [XRDSERR]})
    believed(ctx, fl, ctx.run(fl, 'replyclient.endpoints', [u, NONE]), 'openid.yadis.services.getServiceEndpoints')
    seen_ = {FT, YD + '.whereIsYadis', 'openid.yadis.services.applyFilter', CD + '.OpenIDServiceEndpoint.fromHTML', CD + '.normalizeURL', CD + '.getOPOrUserServices', URINORM}
    raises_ = {FT: [FETCHERR], 'openid.yadis.services.applyFilter': [XRDSERR, DF], CD + '.normalizeURL': [DF], CD + '.OpenIDServiceEndpoint.fromHTML': [], CD + '.getOPOrUserServices': [], URINORM: ['ValueError'], YD + '.whereIsYadis': []}
    fl = ctx.flow(keep=words('status'), opaque=seen_, pure_raises=raises_)
    believed(ctx, fl, ctx.run(fl, 'replyclient.discover', [u]), CD + '.discoverURI')
    believed(ctx, fl, ctx.run(fl, 'replyclient.realm', [u]), 'openid.server.trustroot.getAllowedReturnURLs')
    direct_reply(ctx)
    parser_lint(ctx)
    # XRDS documents
    key = ET + '.parseXRDS'
    fl = ctx.flow(pure_raises=LIBRAISES)
    n = bad = 0
    for st, v in ctx.run(fl, 'replyclient.parse', [sym('text', 'x:bytes')]):
        failed = [e for e, g in flat(st.events) if e[0] == 'call' and e[6] and e[6][0] == 'raised' and 'XMLSyntaxError' in e[6][1]]
        if is_exc(v):
            c = cls_of(fl, st, v)
            bad += bool(failed)
            if c not in UNSEEN:
                ctx.ob(fl.exc_match(c, XRDSERR), 'documents which are not XRDS documents are rejected', key, 'raises %s' % c)
            continue
        n += 1
        ctx.ob(not failed, 'documents which are not XRDS documents are rejected', key, 'a document which is not well-formed is accepted')
        ctx.ob(any(b and x[1] == 'eq' and ROOT in x[2:4] and any(isA(y, 'attr') and y[3] == 'tag' for y in x[2:4]) for x, b in st.facts.items()),
               'documents which are not XRDS documents are rejected', key, 'the root element is not compared with %s' % ROOT[2])
    ctx.ob(n > 0 and bad > 0, 'documents which are not XRDS documents are rejected', key, 'no outcome for %s' % ('valid documents' if not n else 'malformed documents'))
    # malformed documents never surface as other errors
    title = 'malformed replies are rejected with the documented error'
    parse_ = {FT: [FETCHERR], YD + '.discover': [FETCHERR, DF], ET + '.parseXRDS': [XRDSERR]}
    fl = ctx.flow(opaque={YD + '.discover', ET + '.parseXRDS'}, pure_raises=parse_, nullable={'text', 'get'}, typed_attrs={'text': 'x:str'})
    res = ctx.run(fl, 'replyclient.endpoints', [u, sym('flt')])
    escapes(ctx, fl, res, 'openid.yadis.services.getServiceEndpoints', [DF, FETCHERR], title)
    ctx.ob(any(is_exc(v) and fl.exc_match(cls_of(fl, st, v), DF) for st, v in res), title, 'openid.yadis.services.getServiceEndpoints', 'no discovery failure')
    fl = ctx.flow(nullable={'text', 'get'}, typed_attrs={'text': 'x:str'}, pure_raises=LIBRAISES, opaque={HTMLMETA})
    fl.cfg.pure_raises = dict(LIBRAISES, **{HTMLMETA: ['openid.yadis.parsehtml.MetaNotFound', 'UnicodeError']})
    escapes(ctx, fl, ctx.run(fl, 'replyclient.where', [sym('resp')]), YD + '.whereIsYadis', [], title)
    fl = ctx.flow(nullable={'text', 'get'}, typed_attrs={'text': 'x:str'}, pure_raises=LIBRAISES)
    escapes(ctx, fl, ctx.run(fl, 'replyclient.from_xrds', [u, sym('doc', 'x:bytes')]), CD + '.OpenIDServiceEndpoint.fromXRDS', [XRDSERR, DF], title)
    escapes(ctx, fl, ctx.run(fl, 'replyclient.from_html', [u, sym('doc', 'x:bytes')]), CD + '.OpenIDServiceEndpoint.fromHTML', [], title)
