"""Rules about XRI resolution and the order of discovered services (C30, C31)."""
import itertools

from ..core import *  # noqa: F401,F403
from ..terms import add, linear, subst
from . import prop

ETXRD, XRI, XRIRES = 'openid.yadis.etxrd', 'openid.yadis.xri', 'openid.yadis.xrires'
DISC = 'openid.consumer.discover'
FRAUD = ETXRD + '.XRDSFraud'
PRE = 'xri://'

# A stand-in for a parsed document: the part of the element interface the library uses.
ELEM = '''
from openid.yadis import etxrd


class Elem(object):
    def __init__(self, tag, text=None, attrib=None, kids=()):
        self.tag = tag
        self.text = text
        self.attrib = attrib or {}
        self.kids = list(kids)

    def findall(self, tag, namespaces=None):
        found = []
        for kid in self.kids:
            if kid.tag == tag:
                found.append(kid)
        return found

    def iterfind(self, tag, namespaces=None):
        return self.findall(tag)

    def find(self, tag, namespaces=None):
        for kid in self.kids:
            if kid.tag == tag:
                return kid
        return None

    def findtext(self, tag, default=None, namespaces=None):
        for kid in self.kids:
            if kid.tag == tag:
                return kid.text or ''
        return default

    def iterchildren(self, tag=None):
        return self.findall(tag) if tag is not None else list(self.kids)

    def getchildren(self):
        return list(self.kids)

    def __iter__(self):
        return iter(self.kids)

    def __len__(self):
        return len(self.kids)

    def __getitem__(self, index):
        return self.kids[index]

    def get(self, name, default=None):
        return self.attrib.get(name, default)


class Tree(Elem):
    def __init__(self, kids):
        Elem.__init__(self, etxrd.root_tag, None, None, kids)

    def getroot(self):
        return self


def shuffle(elements):
    return None

'''


def lower(t):
    """distribute str.lower over a concatenation with constant text"""
    if isC(t):
        return C(t[2].lower())
    if isA(t, 'cat'):
        return A('cat', *[lower(x) for x in t[2:]])
    return A('m:lower', t)


def canon(t):
    """one spelling for 'the text before the last !' and for 'there is a !'"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'c':
        return t
    t = tuple(canon(x) if isinstance(x, tuple) else frozenset(canon(y) for y in x) if isinstance(x, frozenset) else x for x in t)
    if not t or t[0] != 'a':
        return t
    op, a = t[1], t[2:]
    if op == 'm:lower' and isA(a[0], 'cat'):
        return lower(a[0])
    if op == 'getitem' and isA(a[0]) and a[0][1] in ('m:rpartition', 'm:rsplit') and len(a[0]) > 3 and a[0][3] == C('!'):
        x = a[0][2]
        if a[1] == C(0) and (a[0][1] == 'm:rpartition' or a[0][4:] == (C(1),)):
            return A('parent', x)
        if a[1] == C(1) and a[0][1] == 'm:rpartition':
            return A('bang', x)
    if op == 'slice' and a[1] in (NONE, C(0)) and isA(a[2]) and a[2][1] in ('m:rfind', 'm:rindex') and a[2][2] == a[0] and a[2][3] == C('!'):
        return A('parent', a[0])
    if op == 'truthy' and isA(a[0], 'bang'):
        return A('in', C('!'), a[0][2])
    if op == 'eq':
        for x, y in (a, a[::-1]):
            if isA(x, 'bang') and y == C('!'):
                return A('in', C('!'), x[2])
    return t


def why(st, n=6):
    return ', '.join('%s%s' % ('' if b else 'not ', show(f)) for f, b in list(st.facts.items())[-n:])[:300]


def canon_facts(st):
    out = {}
    for f, v in st.facts.items():
        f2 = canon(f)
        if isA(f2, 'eq'):
            for x, y in (f2[2:], f2[:1:-1]):
                if isA(x, 'bang') and y == C(''):
                    f2, v = A('in', C('!'), x[2]), not v
        if isA(f2) and f2[1] in ('le0', 'lt0', 'eq0'):
            for n in subterms(f2):
                if isA(n) and n[1] in ('m:rfind', 'm:find') and n[3] == C('!') and len(n) == 4:
                    f2, v = find_fact(f2, v, n)
                    break
        out[f2] = v
    return out


def find_fact(f, v, n):
    """a comparison of s.find('!') with a constant, as the membership it means"""
    def holds(k):
        t = subst(f, n, C(k))
        x = num_value(t[2])
        return None if x is None else {'le0': x <= 0, 'lt0': x < 0, 'eq0': x == 0}[f[1]] == v
    neg, zero, pos = holds(-1), holds(0), holds(1)
    member = A('in', C('!'), n[2])
    if neg is True and zero is False:
        return member, False
    if neg is False:
        return member, True
    return f, v


def num_value(t):
    d, c = linear(t)
    return c if not d else None


def same_eq(f, x, y):
    return isA(f, 'eq') and (f[2:] == (x, y) or f[2:] == (y, x))


def xri_of(st, text):
    """the terms a text in xri:// form may be given as in this state"""
    if isC(text):
        t = text[2] or ''
        return [C(t if t.startswith(PRE) else PRE + t)]
    if st.facts.get(A('truthy', text)) is False or st.facts.get(eq(text, C(''))) is True:
        return [C(PRE)]
    s = st.facts.get(A('m:startswith', text, C(PRE)))
    if s is True:
        return [text]
    return [A('cat', C(PRE), text)] if s is False else []


CHAIN = ELEM + '''
def chain(name, ids):
    xrds = []
    for entry in ids:
        if entry is None:
            xrds.append(Elem(etxrd.xrd_tag))
        else:
            xrds.append(Elem(etxrd.xrd_tag, None, None, [Elem(etxrd.canonicalID_tag, entry[0])]))
    try:
        return etxrd.getCanonicalID(name, Tree(xrds))
    except Exception:
        raise
'''


def chain_case(ctx, case):
    """one shape of a descriptor chain, parents first: '-' no CanonicalID, '0' an empty one, 's' any text"""
    where = '%s.getCanonicalID' % ETXRD
    ctx.p.client('xri_chain', CHAIN)
    fl = ctx.flow(opaque={XRI + '.rootAuthority'}, pure_calls={XRI + '.rootAuthority'}, pure_raises={XRI + '.rootAuthority': []}, typed_calls={'rootAuthority': 'x:str'}, max_states=4000)
    name = sym('name', 'x:str')
    texts = [None if k == '-' else NONE if k == '0' else sym('id%d' % i, 'x:str') for i, k in enumerate(case)]

    rows = ('t', tuple(NONE if t is None else ('t', (t,)) for t in texts))
    res = ctx.run(fl, 'xri_chain.chain', [name, rows])
    shape = 'chain of %d descriptors (%s)' % (len(case), ' '.join({'-': 'none', '0': 'empty', 's': 'id'}[k] for k in case) or 'no descriptor')
    ctx.ob(bool(res), 'resolving a chain has an outcome', where, '%s: no outcome' % shape)
    returned = 0
    for st, v in res:
        if is_exc(v):
            cls = cls_of(fl, st, v)
            if cls == FRAUD:
                facts = canon_facts(st)
                ctx.ob(fraud_reason(st, facts, texts), 'fraud is reported only for a chain that breaks the authority rule', where,
                       '%s is rejected although every identifier may come from its parent (path: %s)' % (shape, why(st)))
            else:
                ctx.ob(False, 'resolving a chain ends in an identifier, None or fraud', where, '%s raises %s' % (shape, cls))
            continue
        r = fl.freeze(st, v)
        if not case or case[-1] == '-':
            ctx.ob(r == NONE, 'no canonical identifier in the final descriptor: none is returned', where, '%s returns %s' % (shape, show(r)))
            continue
        returned += 1
        facts = canon_facts(st)
        ids = [xri_of(st, t) if t is not None else [C(PRE)] for t in texts]
        ctx.ob(canon(r) in ids[-1], 'the identifier returned is that of the final descriptor', where, '%s returns %s' % (shape, show(r)))
        child = [lower(x) for x in ids[-1]] or [NONE]
        for i in range(len(case) - 2, -1, -1):
            bad = step(facts, child, [lower(x) for x in ids[i]])
            ctx.ob(not bad, 'each identifier is a child of the one its parent publishes', where, '%s is accepted: %s (descriptor %d)' % (shape, bad, i + 1))
            child = [A('parent', x) for x in child] + [lower(x) for x in ids[i]]
        roots = {x for f in facts for x in subterms(f) if isA(x) and is_root(x, name)}
        bad = step(facts, child, list(roots))
        ctx.ob(not bad, 'the topmost identifier is a child of the root authority of the name', where, '%s is accepted: %s' % (shape, bad))
    if case and case[-1] != '-' and all(k == 's' for k in case):
        ctx.ob(returned > 0, 'a well-formed chain has an accepting path', where, '%s is never accepted' % shape)


def is_root(x, name):
    return (x[1] == 'call' and x[2] == XRI + '.rootAuthority' or XRI + '.rootAuthority' in str(x[1])) and name in x


def step(facts, child, parents):
    """None when the facts say that the child has a '!' and what precedes it is the parent; a message otherwise"""
    if not any(facts.get(A('in', C('!'), c)) is True or isC(c) and '!' in c[2] for c in child):
        return 'the identifier need not contain "!"'
    for c in child:
        for p in parents:
            if any(v and same_eq(f, A('parent', c), p) for f, v in facts.items()):
                return None
    return 'its parent part is not compared with %s' % ' or '.join(show(p) for p in parents)[:120]


def fraud_reason(st, facts, texts):
    for f, v in facts.items():
        if v:
            continue
        if isA(f, 'in') and f[2] == C('!'):
            return True
        if isA(f, 'eq') and any(isA(x, 'parent') for x in f[2:]):
            return True
    # constants are compared while analysing: an empty identifier contains no '!'
    return any(t is None or t == NONE or st.facts.get(A('truthy', t)) is False or st.facts.get(eq(t, C(''))) is True for t in texts)


def authority_rules(ctx):
    """providerIsAuthoritative and rootAuthority, for every text"""
    where = XRI + '.providerIsAuthoritative'
    fl = ctx.flow()
    prov, can = sym('provider', 'x:str'), sym('canonical', 'x:str')
    for st, v in ctx.run(fl, where, [prov, can]):
        if is_exc(v):
            ctx.ob(fl.exc_match(cls_of(fl, st, v), 'ValueError'), 'a canonical identifier without authority is refused', where, 'raises %s' % cls_of(fl, st, v))
            continue
        for st2, want in [(s, b) for b in (True, False) for s in fl.assume(st.copy(), fl.truth_of(st, v), b)]:
            facts = canon_facts(st2)
            same = [b for f, b in facts.items() if same_eq(f, A('parent', can), prov)]
            none = facts.get(A('in', C('!'), can)) is False
            ctx.ob(same == [want] or not want and none, 'a provider is authoritative exactly for the children of its own identifier', where,
                   'answers %s although the text before the last "!" is not compared so (%s)' % (want, why(st2)))
    root_rules(ctx)


SIMPLE = '!=@+$'


def root_rules(ctx):
    where = XRI + '.rootAuthority'
    fl = ctx.flow(max_states=4000)
    name = sym('name', 'x:str')
    seen = set()
    for st, v in ctx.run(fl, where, [name]):
        if is_exc(v):
            continue
        n = [name] if st.facts.get(A('m:startswith', name, C(PRE))) is False else \
            [A('slice', name, C(6), NONE, NONE), A('slice', name, C(6), NONE)] if st.facts.get(A('m:startswith', name, C(PRE))) is True else []
        auths = {a for x in n for a in (A('getitem', A('m:split', x, C('/'), C(1)), C(0)), A('getitem', A('m:split', x, C('/')), C(0)),
                                        A('getitem', A('m:partition', x, C('/')), C(0)))}
        r = fl.freeze(st, v)
        body = A('cat', *r[3:]) if isA(r, 'cat') and r[2] == C(PRE) and len(r) > 4 else r[3] if isA(r, 'cat') and r[2] == C(PRE) else r
        used = [a for a in auths if has(r, a) or any(has(f, a) for f in st.facts)]
        ok = kind = None
        for a in used:
            firsts = [A('getitem', a, C(0)), A('slice', a, NONE, C(1), NONE), A('slice', a, C(0), C(1), NONE)]
            first = {c: truth_char(st, firsts, a, c) for c in '(' + SIMPLE}
            kind = '(' if first['('] else next((c for c in SIMPLE if first[c]), None)
            if kind is None and all(first[c] is False for c in first):
                kind = 'other'
            if kind is None:
                # one test for all the one-character authorities
                kind = 'simple' if any(v is True and isA(f, 'in') and f[2] in firsts and isC(f[3]) and set(f[3][2]) <= set(SIMPLE + '(') for f, v in st.facts.items()) and first['('] is False else \
                    'other' if any(v is False and isA(f, 'in') and f[2] in firsts and isC(f[3]) and set(SIMPLE) <= set(f[3][2]) for f, v in st.facts.items()) and first['('] is False else None
            if kind == '(':
                ok = body in closing(a)
            elif kind in ('simple',) + tuple(SIMPLE):
                ok = body in firsts or isC(body) and body[2] == kind
            elif kind == 'other':
                ok = body in segments(a)
            if kind:
                break
        seen.add('simple' if kind and kind in SIMPLE else kind)
        ctx.ob(bool(ok), 'the root authority of a name is its first cross-reference, context symbol or segment', where,
               'for a name starting with %s the result is %s' % (kind or 'anything', show(r)[:160]))
    for k in ('(', 'simple', 'other'):
        ctx.ob(k in seen, 'each kind of name has a root authority', where, 'no path handles names of kind %s' % k)


def truth_char(st, firsts, a, c):
    for f, v in st.facts.items():
        if any(same_eq(f, x, C(c)) for x in firsts) or isA(f, 'm:startswith') and f[2] == a and f[3] == C(c):
            return v
        if isA(f, 'in') and f[2] in firsts and isC(f[3]) and v is False and c in f[3][2]:
            return False
        if any(v and isA(f, 'eq') and x in f[2:] for x in firsts):
            other = [y for y in f[2:] if y not in firsts]
            if other and isC(other[0]):
                return other[0][2] == c
    return None


def closing(a):
    out = []
    for m in ('m:find', 'm:index'):
        p = add(A(m, a, C(')')), C(1))
        out += [A('slice', a, NONE, p, NONE), A('slice', a, C(0), p, NONE), A('slice', a, NONE, p)]
    for m in ('m:partition', 'm:split'):
        out.append(A('cat', A('getitem', A(m, a, C(')')), C(0)), C(')')))
    out.append(A('cat', A('getitem', A('m:split', a, C(')'), C(1)), C(0)), C(')')))
    return out


def segments(a):
    def heads(x, ch):
        return [A('getitem', A('m:split', x, C(ch)), C(0)), A('getitem', A('m:split', x, C(ch), C(1)), C(0)), A('getitem', A('m:partition', x, C(ch)), C(0))]
    out = [y for p, q in ('!*', '*!') for x in heads(a, p) for y in heads(x, q)]
    for p, q in ('!*', '*!'):
        s = A('m:split', a, C(p))
        e = A('elem', s)
        for inner in (A('m:split', e, C(q)), A('m:split', e, C(q), C(1))):
            for val in (A('*', A('list', inner)), A('*', inner)):
                out.append(A('getitem', A('comp', s, ((frozenset(), (val,)),)), C(0)))
    for rx in ('[!*]', '[*!]', '!|\\*', '\\*|!', '[!\\*]', '[\\*!]'):
        for rest in ((), (C(1),)):
            out.append(A('getitem', A('call', 're.split', C(rx), a, *rest), C(0)))
            out.append(A('getitem', A('m:split', A('call', 're.compile', C(rx)), a, *rest), C(0)))
    return out


RESOLVE = ELEM + '''
from openid.consumer import discover
from openid.fetchers import HTTPResponse

import modelvalue


def fetch(url, body=None, headers=None):
    return HTTPResponse(url, 200, None, modelvalue.body)


def canonical(iname, tree):
    return 'canonical:' + iname


def nothing(iname, tree):
    return None


def fraud(iname, tree):
    raise etxrd.XRDSFraud('fraud')


def mixed(iname, tree):
    if modelvalue.fraud():
        raise etxrd.XRDSFraud('fraud')
    return 'canonical:' + iname


def service(kind, uri):
    return Elem(etxrd.service_tag, None, None, [Elem(etxrd.type_tag, kind), Elem(etxrd.uri_tag, uri)])


def user(text):
    return Tree([Elem(etxrd.xrd_tag, None, None, [service(discover.OPENID_2_0_TYPE, modelvalue.uri)])])


def server(text):
    return Tree([Elem(etxrd.xrd_tag, None, None, [service(discover.OPENID_IDP_2_0_TYPE, modelvalue.uri)])])


def resolve(name):
    try:
        return discover.discoverXRI(name)
    except Exception:
        raise
'''


def resolve_case(ctx, case):
    """discoverXRI over a document with one service, for each outcome of the canonical identifier check"""
    kind, outcome = case
    where = DISC + '.discoverXRI'
    ctx.p.client('xri_resolve', RESOLVE)
    name = sym('name', 'x:str')
    fl = ctx.flow(stubs={'openid.fetchers.fetch': 'xri_resolve.fetch', ETXRD + '.parseXRDS': 'xri_resolve.' + kind, ETXRD + '.getCanonicalID': 'xri_resolve.' + outcome,
                         'random.shuffle': 'xri_resolve.shuffle'}, max_states=4000)
    res = ctx.run(fl, 'xri_resolve.resolve', [name])
    ctx.ob(bool(res), 'XRI discovery has an outcome', where, 'no outcome for a document with a %s service' % kind)
    found = 0
    for st, v in res:
        if is_exc(v):
            ctx.ob(not fl.exc_match(cls_of(fl, st, v), ETXRD + '.XRDSError'), 'a resolution that reports fraud or nothing is not an error of discovery', where, 'raises %s' % cls_of(fl, st, v))
            continue
        n = name if st.facts.get(A('m:startswith', name, C(PRE))) is False else A('slice', name, C(len(PRE)), NONE, NONE)
        want = A('cat', C('canonical:'), n)
        vw = fl.view(st, v)
        eps = fl.view(st, vw[1][1]) if vw and len(vw[1]) == 2 else None
        if eps is None:
            ctx.ob(False, 'XRI discovery returns the identifier and its services', where, 'returns %s' % show(fl.freeze(st, v))[:120])
            continue
        if outcome == 'mixed':
            good = [f for f, b in st.facts.items() if b is False and hascall(f, 'modelvalue.fraud')]
            asked = len(calls(st, 'modelvalue.fraud'))
            ctx.ob(not eps[1] or len(good) >= max(asked, len(eps[1])), 'services are used only if none of the replies was fraudulent', where, '%d services are returned after a reply that was reported as fraud' % len(eps[1]))
            continue
        if outcome != 'canonical':
            ctx.ob(not eps[1], 'without a canonical identifier the resolution yields no service', where, '%d services are returned (%s)' % (len(eps[1]), outcome))
            continue
        found += len(eps[1])
        for e in eps[1]:
            for f in ('claimed_id', 'canonicalID'):
                got = rawfield(fl, st, e, f)
                ctx.ob(got is not None and fl.freeze(st, got) == want, 'the %s of a service found for an XRI is the canonical identifier' % f, where,
                       'is %s' % (show(fl.freeze(st, got)) if got is not None else 'unset'))
    if outcome == 'canonical':
        ctx.ob(found > 0, 'a document with a usable service yields it', where, 'no path returns the %s service' % kind)


@prop('C30', 60, technique='exact symbolic execution of the resolution code over model descriptor chains, with path facts compared to the authority rule; term-level characterisation of rootAuthority and providerIsAuthoritative',
      explain='every path of getCanonicalID over chains of up to 4 (thorough: 5) descriptors, each with any, an empty or no canonical identifier, is followed; a returned identifier must be the final one and the path must have established the parent relation at each step')
def c30(ctx):
    depth = 5 if ctx.tier == 'thorough' else 4
    cases = [''.join(c) for n in range(depth + 1) for c in itertools.product('s0-', repeat=n)]
    ctx.parallel(chain_case, cases)
    authority_rules(ctx)
    ctx.parallel(resolve_case, [(k, o) for k in ('user', 'server') for o in ('canonical', 'nothing', 'fraud', 'mixed')])


# ---------------------------------------------------------------- C31

ORDER = ELEM + '''
from openid.consumer import discover

import modelvalue


def element(tag, text, priority):
    return Elem(tag, text, {} if priority is None else {'priority': priority})


def shuffled(items):
    return None


def order(priorities):
    elements = []
    for i, priority in enumerate(priorities):
        elements.append(element('x', i, priority))
    try:
        return [e.text for e in etxrd.prioSort(elements)]
    except Exception:
        raise


def uris(priorities):
    elements = []
    for i, priority in enumerate(priorities):
        elements.append(element(etxrd.uri_tag, i, priority))
    elements.append(Elem(etxrd.type_tag, 'decoy', {'priority': '0'}))
    try:
        return list(etxrd.sortedURIs(Elem(etxrd.service_tag, None, None, elements)))
    except Exception:
        raise


def services(priorities):
    elements = []
    for i, priority in enumerate(priorities):
        elements.append(element(etxrd.service_tag, i, priority))
    elements.append(Elem(etxrd.canonicalID_tag, 'decoy', {'priority': '0'}))
    first = Elem(etxrd.xrd_tag, None, None, [element(etxrd.service_tag, 'decoy', '0')])
    last = Elem(etxrd.xrd_tag, None, None, elements)
    try:
        return [e.text for e in etxrd.iterServices(Tree([first, last]))]
    except Exception:
        raise


def document(text):
    return modelvalue.document


def extract(types, uris):
    kids = [Elem(etxrd.type_tag, t) for t in types] + [Elem(etxrd.uri_tag, u) for u in uris]
    tree = Tree([Elem(etxrd.xrd_tag, None, None, [Elem(etxrd.service_tag, None, None, kids)])])
    return discover.OpenIDServiceEndpoint.fromXRDS(modelvalue.url, tree)


def same(tree):
    return tree


def endpoint(types):
    e = discover.OpenIDServiceEndpoint()
    e.type_uris = list(types)
    return e


def preferred(kinds):
    endpoints = [endpoint(types) for types in kinds]
    for i, e in enumerate(endpoints):
        e.server_url = i
    return [e.server_url for e in discover.getOPOrUserServices(endpoints)]
'''

ENDS = ELEM + '''
from openid.consumer import discover

import modelvalue


class Result(object):
    def __init__(self, uri):
        self.normalized_uri = uri
        self.response_text = modelvalue.text

    def isXRDS(self):
        return True


def yadis(uri):
    return Result(uri)


def query(self, name, types):
    return ('canonical:' + name, [service(modelvalue.type0, 'uri0'), service(modelvalue.type1, 'uri1')])


def kept(items):
    return items


def service(kind, uri):
    return Elem(etxrd.service_tag, None, None, [Elem(etxrd.type_tag, kind), Elem(etxrd.uri_tag, uri)])


def document(text):
    return Tree([Elem(etxrd.xrd_tag, None, None, [service(modelvalue.type0, 'uri0'), service(modelvalue.type1, 'uri1')])])


def by_url(uri):
    return [e.server_url for e in discover.discoverYadis(uri)[1]]


def by_xri(name):
    return [e.server_url for e in discover.discoverXRI(name)[1]]
'''


def ends_case(ctx, fn):
    """the two kinds of discovery return the arranged endpoints"""
    where = DISC + {'by_url': '.discoverYadis', 'by_xri': '.discoverXRI'}[fn]
    ctx.p.client('xrds_ends', ENDS)
    fl = ctx.flow(stubs={'random.shuffle': 'xrds_ends.shuffle', ETXRD + '.parseXRDS': 'xrds_ends.document', XRIRES + '.ProxyResolver.query': 'xrds_ends.query',
                         ETXRD + '.prioSort': 'xrds_ends.kept', 'openid.yadis.discover.discover': 'xrds_ends.yadis'}, max_states=20000)
    types = [('x', 'modelvalue.type0'), ('x', 'modelvalue.type1')]

    def setup(st):
        for t in types:
            st.facts[A('isinst', t, ('six.text_type',))] = True
            st.facts[A('is', t, NONE)] = False
    seen = 0
    for st, v in ctx.run(fl, 'xrds_ends.' + fn, [sym('id', 'x:str')], setup=setup):
        if is_exc(v):
            continue
        vw = fl.view(st, v)
        got = [x[2] if isC(x) else show(x) for x in vw[1]] if vw else []
        for want, s2 in expectations(fl, st, [[t] for t in types]):
            ranks = [rank(s2, [t]) for t in types]
            want = ['uri%d' % i for i in want if ranks[i] < len(KNOWN)]
            if not want:
                continue
            seen += 1
            ctx.ob(got == want, 'discovery returns the usable endpoints in the preferred order', where, 'services with types %s give the order %s' % (ranks, got))
    ctx.ob(seen > 0, 'discovery returns the usable endpoints in the preferred order', where, 'no path returns endpoints')


KNOWN = ['http://specs.openid.net/auth/2.0/server', 'http://specs.openid.net/auth/2.0/signon', 'http://openid.net/signon/1.1', 'http://openid.net/signon/1.0']


def order_case(ctx, case):
    """order of elements whose priority is '-' missing or 's' any text"""
    fn, shape = case
    where = ETXRD + {'order': '.prioSort', 'uris': '.sortedURIs', 'services': '.iterServices'}[fn]
    ctx.p.client('xrds_order', ORDER)
    fl = ctx.flow(stubs={'random.shuffle': 'xrds_order.shuffled'}, max_states=20000)
    prios = [NONE if k == '-' else sym('p%d' % i, 'x:str') for i, k in enumerate(shape)]
    res = ctx.run(fl, 'xrds_order.' + fn, [('t', tuple(prios))])
    desc = 'priorities (%s)' % ' '.join({'-': 'none', 's': 'any'}[k] for k in shape)
    returned = 0
    for st, v in res:
        if is_exc(v):
            ctx.ob(False, 'ordering never fails', where, '%s raises %s' % (desc, cls_of(fl, st, v)))
            continue
        vw = fl.view(st, v)
        got = [x[2] if isC(x) else None for x in (vw[1] if vw else [])]
        returned += 1
        ctx.ob(vw is not None and sorted(map(str, got)) == sorted(map(str, range(len(shape)))), 'every element is returned exactly once and nothing else', where,
               '%s: the result is %s' % (desc, show(fl.freeze(st, v))[:120]))
        if vw is None or None in got or any(not isinstance(g, int) for g in got):
            continue
        for x, y in zip(got, got[1:]):
            bad = inverted(fl, st, prios[x], prios[y])
            ctx.ob(bad is None, 'a smaller valid priority comes first, a missing or invalid one last', where,
                   '%s: element %d is placed before element %d although %s' % (desc, x, y, bad))
    ctx.ob(returned > 0, 'elements with any priorities have an order', where, '%s: no path returns' % desc)


def inverted(fl, st, px, py):
    """a consistent way in which py must come before px, or None"""
    if py == NONE:
        return None
    vy = A('int', py)
    base = [s for s in fl.assume(st.copy(), A('intlike', py), True) for s in fl.assume(s, lt(vy, C(0)), False)]
    if px == NONE:
        return 'the latter has a valid priority and the former has none' if base else None
    vx = A('int', px)
    for s in base:
        if fl.assume(s.copy(), A('intlike', px), False):
            return 'the former need not be a number'
        for s2 in fl.assume(s.copy(), A('intlike', px), True):
            if fl.assume(s2.copy(), lt(vx, C(0)), True):
                return 'the former may be negative'
            if fl.assume(s2.copy(), lt(vy, vx), True):
                return 'the latter may be smaller'
    return None


def extract_case(ctx, case):
    ntypes, nuris = case
    where = DISC + '.OpenIDServiceEndpoint.fromXRDS'
    ctx.p.client('xrds_order', ORDER)
    types = [sym('type%d' % i, 'x:str') for i in range(ntypes)]
    uris = [sym('uri%d' % i, 'x:str') for i in range(nuris)]
    fl = ctx.flow(stubs={'random.shuffle': 'xrds_order.shuffled', ETXRD + '.parseXRDS': 'xrds_order.same', ETXRD + '.prioSort': 'xrds_order.same'}, max_states=20000)
    some = 0
    for st, v in ctx.run(fl, 'xrds_order.extract', [('t', tuple(types)), ('t', tuple(uris))]):
        if is_exc(v):
            continue
        vw = fl.view(st, v)
        if vw is None:
            ctx.ob(False, 'extraction returns the endpoints', where, 'returns %s' % show(fl.freeze(st, v))[:120])
            continue
        known = [any(st.facts.get(eq(t, C(k))) is True for k in KNOWN) for t in types]
        unknown = [all(st.facts.get(eq(t, C(k))) is False for k in KNOWN) for t in types]
        if not vw[1]:
            ctx.ob(not uris or all(unknown), 'a service with an OpenID type and an address yields endpoints', where, '%d types, %d addresses: nothing is returned (%s)' % (ntypes, nuris, why(st)))
            continue
        some += 1
        ctx.ob(any(known), 'endpoints are produced only for services with an OpenID type', where, 'an endpoint is returned for a service whose types need not be OpenID types (%s)' % why(st))
        got = [fl.freeze(st, rawfield(fl, st, e, 'server_url')) for e in vw[1]]
        ctx.ob(got == uris, 'each address of an OpenID service yields one endpoint for it, in order', where, 'the addresses are %s' % [show(g) for g in got])
        for e in vw[1]:
            tv = fl.view(st, rawfield(fl, st, e, 'type_uris'))
            ctx.ob(tv is not None and [fl.freeze(st, x) for x in tv[1]] == types, 'an endpoint has the types of its service', where, 'has %s' % (tv and [show(x) for x in tv[1]]))
    ctx.ob(some > 0 or not types or not uris, 'a service with an OpenID type and an address yields endpoints', where, 'no path does')


def rank(st, types):
    """(lowest index of a known type, None while undetermined)"""
    for i, k in enumerate(KNOWN):
        vals = [eq(t, C(k)) if isC(t) else st.facts.get(eq(t, C(k))) for t in types]
        vals = [v[2] if isinstance(v, tuple) else v for v in vals]
        if True in vals:
            return i
        if None in vals:
            # equal to another known type already
            vals = [False if v is None and any(st.facts.get(eq(t, C(o))) is True for o in KNOWN) else v for v, t in zip(vals, types)]
            if None in vals:
                return None
    return len(KNOWN)


def preferred_case(ctx, shape):
    where = DISC + '.getOPOrUserServices'
    ctx.p.client('xrds_order', ORDER)
    fl = ctx.flow(max_states=60000)
    kinds = [[sym('t%d_%d' % (i, j), 'x:str') for j in range(n)] for i, n in enumerate(shape)]
    seen = 0
    for st, v in ctx.run(fl, 'xrds_order.preferred', [('t', tuple(('t', tuple(k)) for k in kinds))]):
        if is_exc(v):
            ctx.ob(False, 'arranging endpoints never fails', where, 'raises %s' % cls_of(fl, st, v))
            continue
        vw = fl.view(st, v)
        got = [x[2] if isC(x) else None for x in (vw[1] if vw else ())] if vw else show(fl.freeze(st, v))[:80]
        for want, s2 in expectations(fl, st, kinds):
            seen += 1
            ctx.ob(got == want, 'provider endpoints are used alone if there are any, otherwise newer types come first and equals keep their order', where,
                   'endpoints with types %s are arranged as %s' % ([rank(s2, k) for k in kinds], got))
    ctx.ob(seen > 0, 'arranging endpoints returns', where, 'no path returns')


def expectations(fl, st, kinds):
    """[(expected order, state)] after deciding every type comparison the path left open"""
    for ts in kinds:
        r = rank(st, ts)
        if r is None:
            for t in ts:
                for k in KNOWN:
                    f = eq(t, C(k))
                    if f not in st.facts:
                        out = []
                        for b in (True, False):
                            for s in fl.assume(st.copy(), f, b):
                                if f in s.facts:
                                    out += expectations(fl, s, kinds)
                        return out
            return []
    ranks = [rank(st, ts) for ts in kinds]
    ops = [i for i, r in enumerate(ranks) if r == 0]
    return [(ops or sorted(range(len(kinds)), key=lambda i: (ranks[i], i)), st)]


ROTATE = '''
import modelvalue
from openid.yadis.manager import Discovery


def first(url):
    modelvalue.discovered(url)
    return (modelvalue.yadis, [modelvalue.one, modelvalue.two, modelvalue.three])


def nothing(url):
    modelvalue.discovered(url)
    return (modelvalue.yadis, [])


def rotation(url):
    session = {}
    out = []
    for i in range(7):
        out.append(Discovery(session, url).getNextService(first))
    return out


def empty(url):
    session = {}
    return [Discovery(session, url).getNextService(nothing), Discovery(session, url).getNextService(nothing), Discovery(session, url).cleanup(), len(session)]


def finished(url):
    session = {}
    out = [Discovery(session, url).getNextService(first), Discovery(session, url).getNextService(first)]
    out.append(Discovery(session, url).cleanup())
    out.append(len(session))
    out.append(Discovery(session, url).cleanup())
    out.append(Discovery(session, url).getNextService(first))
    return out


def other(url, url2):
    session = {}
    out = [Discovery(session, url).getNextService(first), Discovery(session, url2).cleanup(), len(session)]
    out.append(Discovery(session, url2).getNextService(first))
    out.append(Discovery(session, url2).getNextService(first))
    return out


def forced(url, url2):
    session = {}
    out = [Discovery(session, url).getNextService(first), Discovery(session, url2).cleanup(True), len(session)]
    return out


def suffixed(url):
    session = {}
    out = [Discovery(session, url, 'a').getNextService(first), Discovery(session, url, 'b').getNextService(first)]
    out.append(Discovery(session, url, 'a').getNextService(first))
    out.append(Discovery(session, url, 'b').cleanup())
    out.append(Discovery(session, url, 'a').getNextService(first))
    return out
'''
ONE, TWO, THREE = 'one', 'two', 'three'
ROTATIONS = [
    ('rotation', 1, [ONE, TWO, THREE, ONE, TWO, THREE, ONE], 3, 'every endpoint is tried once before discovery starts over'),
    ('empty', 1, [None, None, None, 0], 2, 'without endpoints nothing is kept and discovery is repeated'),
    ('finished', 1, [ONE, TWO, TWO, 0, None, ONE], 2, 'finishing returns the endpoint in use and forgets the others'),
    ('other', 2, [ONE, None, 1, ONE, TWO], 2, 'another address has its own discovery'),
    ('forced', 2, [ONE, ONE, 0], 1, 'finishing by force works for any address'),
    ('suffixed', 1, [ONE, ONE, TWO, ONE, THREE], 2, 'managers with different session keys do not interfere'),
]


def rotation_case(ctx, case):
    fn, nargs, want, discoveries, rule = case
    where = 'openid.yadis.manager.Discovery'
    ctx.p.client('xrds_rotate', ROTATE)
    fl = ctx.flow(max_states=20000)
    args = [sym('url%d' % i, 'x:str') for i in range(nargs)]
    if nargs == 2:
        def setup(st):
            for s in fl.assume(st, eq(args[0], args[1]), False):
                for s2 in fl.assume(s, eq(args[1], ('x', 'modelvalue.yadis')), False):
                    return s2
    else:
        setup = None
    n = 0
    for st, v in ctx.run(fl, 'xrds_rotate.' + fn, args, setup=setup):
        if is_exc(v):
            ctx.ob(False, rule, where, 'raises %s' % cls_of(fl, st, v))
            continue
        if nargs == 2 and (st.facts.get(eq(args[0], args[1])) is not False or st.facts.get(eq(args[1], ('x', 'modelvalue.yadis'))) is not False):
            continue
        n += 1
        vw = fl.view(st, v)
        got = [None if x == NONE else x[2] if isC(x) else x[1].split('.')[-1] if x[0] == 'x' else show(x) for x in (vw[1] if vw else [])]
        ctx.ob(got == want, rule, where, 'the sequence is %s instead of %s' % (got, want))
        k = len(calls(st, 'modelvalue.discovered'))
        ctx.ob(k == discoveries, rule, where, 'discovery is done %d times instead of %d' % (k, discoveries))
    ctx.ob(n > 0, rule, where, 'no path returns')


@prop('C31', 100, technique='exact symbolic execution of ordering, extraction, arrangement and rotation over model documents with symbolic priorities, types and addresses; the order found on each path is compared with the path facts',
      explain='element lists of up to 3 (thorough: 4) with symbolic priority texts, services with up to 2 types and addresses, up to 3 endpoints with symbolic types, and every rotation history of the session manager listed')
def c31(ctx):
    deep = ctx.tier == 'thorough'
    cases = [(fn, ''.join(s)) for n in range(0, 4) for s in itertools.product('s-', repeat=n) for fn in ('order', 'uris', 'services')]
    if deep:
        cases += [('order', 'ssss'), ('order', 'ss-s')]
    ctx.parallel(order_case, cases)
    ctx.parallel(extract_case, [(t, u) for t in range(3) for u in range(3)])
    ctx.parallel(preferred_case, [(), (1,), (1, 1), (2,), (2, 1), (1, 2), (0, 1), (1, 1, 1)] + ([(2, 2), (1, 1, 2)] if deep else []))
    ctx.parallel(ends_case, ['by_url', 'by_xri'])
    ctx.parallel(rotation_case, ROTATIONS)
