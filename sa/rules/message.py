"""Message rules: namespaces and aliases (C27)."""
import ast

from ..core import *  # noqa: F401,F403
from ..core import MSG
from ..terms import add
from . import prop
from .store import entails_any

NM = 'openid.message.NamespaceMap'
GETURI, GETALIAS, ADDALIAS, ADD = NM + '.getNamespaceURI', NM + '.getAlias', NM + '.addAlias', NM + '.add'
KNOWN_NS = ('http://openid.net/signon/1.0', 'http://openid.net/signon/1.1', 'http://specs.openid.net/auth/2.0')
RESERVED = ('ns', 'mode', 'error', 'return_to', 'contact', 'reference', 'signed', 'assoc_type', 'session_type', 'dh_modulus', 'dh_gen',
            'dh_consumer_public', 'claimed_id', 'identity', 'realm', 'invalidate_handle', 'op_endpoint', 'response_nonce', 'sig',
            'assoc_handle', 'trust_root', 'openid')
CLIENT = '''
from openid.message import Message, OPENID2_NS, OPENID1_NS, OPENID_NS, BARE_NS


def args(key, value):
    try:
        return Message.fromOpenIDArgs({key: value})
    except Exception:
        raise


def post(key, value):
    try:
        return Message.fromPostArgs({key: value})
    except Exception:
        raise


def declared(v, u):
    return Message.fromOpenIDArgs({'x.k': v, 'ns.x': u})


def out_ns(ns, alias, k, v):
    m = Message(OPENID2_NS)
    m.namespaces.addAlias(ns, alias)
    m.setArg(ns, k, v)
    return m.toPostArgs()


def out_1(k, v):
    m = Message(OPENID1_NS)
    m.setArg(OPENID_NS, k, v)
    m.setArg(BARE_NS, 'x', v)
    return m.toPostArgs()


def out_2(k, v):
    m = Message(OPENID2_NS)
    m.setArg('http://ext/', k, v)
    return m.toPostArgs()


def out_3(k, v):
    m = Message(OPENID2_NS)
    m.setArg('http://one/', k, v)
    m.setArg('http://two/', k, v)
    return m.toPostArgs()
'''


SYMBOL = 'openid.oidutil.Symbol'
NULL, OPENID, BARE = [('g', 'openid.message.' + n, SYMBOL) for n in ('NULL_NAMESPACE', 'OPENID_NS', 'BARE_NS')]


def map_tables(ctx, fl, s):
    """the terms of the two dictionaries of a namespace map, read off its accessors"""
    out = []
    for key, arg in ((GETURI, 'a'), (GETALIAS, 'u')):
        x = sym(arg, 'x:str')
        tabs = set()
        for st, v in ctx.run(fl, key, [s, x]):
            if is_exc(v):
                continue
            for t in subterms(fl.freeze(st, v)):
                if isA(t) and t[1] in ('m:get', 'getitem') and t[3] == x:
                    tabs.add(t[2])
        out.append(tabs.pop() if len(tabs) == 1 else None)
    return out


def lookup_none_or(table, key, val):
    g = A('m:get', table, key, NONE)
    return [eq(g, NONE), eq(g, val), NOT(A('in', key, table)), eq(A('getitem', table, key), val)]


def map_writes(st, a2n, n2a):
    """(alias, uri) pairs written to each of the two tables"""
    a, b = [], []
    for e, g in flat(st.events):
        if e[0] == 'setitem':
            if e[1] == a2n:
                a.append((e[2], e[3]))
            elif e[1] == n2a:
                b.append((e[3], e[2]))
    return a, b


def check_map(ctx):
    fl = ctx.flow(msg_prims=False)
    s = sym('self', NM)
    a2n, n2a = map_tables(ctx, fl, s)
    if not ctx.ob(a2n is not None and n2a is not None and a2n != n2a, 'the accessors read two lookup tables', NM,
                  'getNamespaceURI and getAlias must look the given alias and namespace up in the two tables of the map'):
        return
    for key, args in ((ADDALIAS, [s, sym('uri', 'x:str'), sym('alias')]), (ADDALIAS, [s, sym('uri', 'x:str'), sym('alias', 'x:str'), sym('implicit')]),
                      (ADD, [s, sym('uri', 'x:str')])):
        fl = ctx.flow(msg_prims=False)
        n = 0
        for st, v in ctx.run(fl, key, args):
            if is_exc(v):
                continue
            a, b = map_writes(st, a2n, n2a)
            n += bool(a or b)
            ctx.ob(set(a) == set(b), 'both tables change together', key,
                   'a path of %s enters %s by alias but %s by namespace' % (key.split('.')[-1], [show(x[0]) for x in a], [show(x[0]) for x in b]))
            for alias, uri in set(a) | set(b):
                ctx.ob(entails_any(fl, st, lookup_none_or(a2n, alias, uri)), 'an alias is never given a second namespace', key,
                       'alias %s is (re)defined without checking that it is not mapped to another namespace' % show(alias))
                ctx.ob(entails_any(fl, st, lookup_none_or(n2a, uri, alias)), 'a namespace is never given a second alias', key,
                       'namespace %s is given an alias without checking that it has no other' % show(uri))
                if isA(alias, 'cat') and isC(alias[2]) and any(isA(x, 'lv') for x in subterms(alias)) or key == ADD:
                    pre = alias[2][2] if isA(alias, 'cat') and isC(alias[2]) and isinstance(alias[2][2], str) else ''
                    ctx.ob(pre and '.' not in pre and not any(f == pre or f.startswith(pre) for f in RESERVED), 'a generated alias is no protocol field', key,
                           'the generated alias %s may be a protocol field name' % show(alias))
                    continue
                bad = [f for f in RESERVED if not entails(fl, st, eq(alias, C(f)), False)]
                ctx.ob(not bad, 'protocol field names are refused as aliases', key, 'alias accepted without excluding %s' % ', '.join(bad[:5]))
                ctx.ob(entails_any(fl, st, [NOT(A('in', C('.'), alias)), eq(alias, NULL), NOT(A('isinst', alias, ('six.string_types',)))]),
                       'aliases with a dot are refused', key, 'alias accepted without refusing a dot')
            if not a and not b:
                # nothing written: what was asked must already hold
                alias = fl.freeze(st, v)
                uri = args[1]
                ctx.ob(entails_any(fl, st, [eq(A('m:get', n2a, uri, NONE), alias), eq(A('getitem', n2a, uri), alias)])
                       if alias not in (A('m:get', n2a, uri, NONE), A('getitem', n2a, uri)) else True,
                       'a namespace counts as added only when it is in the map', key, 'returns %s without entering the namespace' % show(alias))
        ctx.ob(n > 0, 'a path enters the namespace', key, 'no path of %s enters a namespace' % key)
    names = {t[3] for t in (a2n, n2a) if isA(t, 'attr')}
    for mod in list(ctx.p.mods.values()):
        if not mod.name.startswith('openid') or '.test' in mod.name:
            continue
        outside_writes(ctx, mod, names)


MUT = {'update', 'pop', 'popitem', 'clear', 'setdefault', '__setitem__', '__delitem__'}


def outside_writes(ctx, mod, names):
    """no code outside the class changes its tables"""
    def is_tab(n):
        return isinstance(n, ast.Attribute) and n.attr in names
    for cname, cls, n in walk_funcs(mod.tree):
        if cls == 'NamespaceMap' and mod.name == 'openid.message':
            continue
        hit = None
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
            tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in tg:
                if is_tab(t) or isinstance(t, ast.Subscript) and is_tab(t.value):
                    hit = t
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and is_tab(n.func.value):
            hit = n
        if hit is not None:
            ctx.ob(False, 'only the map changes its tables', '%s.%s' % (mod.name, cname), 'the tables of a namespace map are changed outside it',
                   '%s:%d' % (mod.relpath, hit.lineno))
    ctx.ob(True, 'only the map changes its tables', mod.name, '')


def walk_funcs(tree):
    """(function, class, node) of every node"""
    def go(n, fn, cls):
        for c in ast.iter_child_nodes(n):
            f, k = fn, cls
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = fn + '.' + c.name if fn else c.name
            elif isinstance(c, ast.ClassDef):
                f, k = (fn + '.' + c.name if fn else c.name), c.name
            yield f, k, c
            for x in go(c, f, k):
                yield x
    return go(tree, '', None)


# ---------------------------------------------------------------- reading
OPQ = {ADDALIAS, GETURI, NM + '.isImplicit', GETALIAS, ADD, MSG + '.setArg'}
READ = dict(msg_prims=False, opaque=OPQ, pure_calls={GETURI, NM + '.isImplicit', GETALIAS}, pure_raises={GETURI: [], GETALIAS: [], NM + '.isImplicit': []})


def split_forms(k):
    """terms of what precedes and what follows the first dot of text k"""
    sp, pt = A('m:split', k, C('.'), C(1)), A('m:partition', k, C('.'))
    pre = [A('getitem', sp, C(0)), A('getitem', pt, C(0)), A('getitem', A('m:split', k, C('.')), C(0))]
    rest = [A('getitem', sp, C(1)), A('getitem', pt, C(2))]
    for f in ('m:find', 'm:index'):
        ix = A(f, k, C('.'))
        for lo in (NONE, C(0)):
            pre.append(A('slice', k, lo, ix, NONE))
        rest.append(A('slice', k, add(ix, C(1)), NONE, NONE))
    return pre, rest


def no_dot(fl, st, k):
    pt, sp = A('m:partition', k, C('.')), A('m:split', k, C('.'), C(1))
    fs = [NOT(A('in', C('.'), k)), NOT(truth(A('getitem', pt, C(1)))), eq(A('getitem', pt, C(1)), C('')), lt(A('m:find', k, C('.')), C(0)), eq(A('m:find', k, C('.')), C(-1)), eq(A('len', sp), C(1))]
    return entails_any(fl, st, fs)


def has_dot(fl, st, k):
    pt, sp = A('m:partition', k, C('.')), A('m:split', k, C('.'), C(1))
    return entails_any(fl, st, [A('in', C('.'), k), truth(A('getitem', pt, C(1))), le(C(0), A('m:find', k, C('.'))), NOT(eq(A('len', sp), C(1)))])


def lookup(p):
    """the namespace an alias p is looked up as, when the term is such a lookup"""
    return p[4] if isA(p, 'call') and p[2] == GETURI and len(p) >= 5 else None


def raw(st, fl, v):
    return fl.freeze(st, v) if v is not None else None


def infeasible(fl, st, texts):
    """a path that takes a piece of text to be the null symbol, or a message without a protocol namespace, does not exist"""
    for a, v in st.facts.items():
        if a[1] == 'eq' and v:
            x, y = a[2], a[3]
            for p, q in ((x, y), (y, x)):
                if p in (NULL, OPENID, BARE) and (isA(q) and q[1] in ('getitem', 'slice') and q not in (NULL,)):
                    return True
                if q == NONE and lookup(p) == NULL:
                    return True
    return False


def reading(ctx):
    ctx.p.client('msgclient', CLIENT)
    k, v = sym('key', 'x:str'), sym('value', 'x:str')
    pre, rest = split_forms(k)
    fl = ctx.flow(**READ)
    kinds = set()
    F = MSG + '._fromOpenIDArgs'
    for st, r in ctx.run(fl, 'msgclient.args', [k, v]):
        if is_exc(r) or infeasible(fl, st, pre):
            continue
        ev = [e for e in calls(st) if e[1] in (ADDALIAS, MSG + '.setArg', ADD) or e[1].endswith('.updateArgs')]
        al = [e for e in ev if e[1] == ADDALIAS]
        sa = [e for e in ev if e[1] == MSG + '.setArg']
        null = [e for e in al if e[3][1] == NULL]
        ctx.ob(len(null) == 1 and ev and ev[0] is null[0], 'a message gets its protocol namespace first', F, 'a path does not set the namespace of the message (once, first)')
        if not null:
            continue
        uri = null[0][3][0]
        isns = entails(fl, st, eq(k, C('ns')))
        if isns:
            kinds.add('ns')
            ctx.ob(uri == v and not sa, 'the ns field names the protocol namespace', F, 'ns field stored as %s' % ([show(x) for x in sa[0][3]] if sa else show(uri)))
            ctx.ob(entails_any(fl, st, [eq(v, C(x)) for x in KNOWN_NS]), 'the protocol namespace is a known one', F, 'a message is made with any protocol namespace')
            continue
        ctx.ob(isC(uri) and uri[2] == KNOWN_NS[0], 'a message without namespace is OpenID 1', F, 'a message without an ns field gets namespace %s' % show(uri))
        dotted = has_dot(fl, st, k)
        plain_ = no_dot(fl, st, k)
        ps = [p for p in pre if any(has(x, p) for e in ev for x in e[3])] or [p for p in pre if entails(fl, st, eq(p, C('ns')))]
        p = ps[0] if ps else None
        begins = entails(fl, st, A('m:startswith', k, C('ns.')))
        if begins or p is not None and dotted and entails(fl, st, eq(p, C('ns'))):
            kinds.add('decl')
            decl = [e for e in al if e is not null[0]]
            ctx.ob(len(decl) == 1 and decl[0][3][0] == v and (decl[0][3][1] in rest or begins and decl[0][3][1] == A('slice', k, C(3), NONE, NONE)) and not sa and falsy_arg(decl[0]), 'ns.<alias> declares the alias of a namespace', F,
                   'an alias declaration leads to %s' % [show_ev(e) for e in ev[1:]])
            continue
        if not ctx.ob(len(sa) == 1 and sa[0][3][2] == v, 'every field of the input becomes one field of the message', F, 'a field leads to %s' % [show_ev(e) for e in ev[1:]]):
            continue
        ns, key = sa[0][3][0], sa[0][3][1]
        if plain_:
            kinds.add('plain')
            ctx.ob(lookup(ns) == NULL and key == k, 'a field without prefix belongs to the protocol namespace', F, 'plain field stored as %s' % show_ev(sa[0]))
            continue
        ctx.ob(dotted, 'fields are told apart by the dot', F, 'a field is stored without looking for its prefix')
        q = lookup(ns)
        if q == NULL:
            kinds.add('undeclared')
            g = [t for t in terms_of(st) if lookup(t) in pre]
            okk = key == k or isA(key, 'cat') and len(key) == 5 and key[2] in pre and key[3] == C('.') and key[4] in rest
            ctx.ob(okk, 'a field with an undeclared prefix keeps its whole name', F, 'undeclared field stored as %s' % show_ev(sa[0]))
            ctx.ob(any(isnone(fl, st, t) for t in g), 'declared prefixes are used', F, 'a prefixed field is left in the protocol namespace although its prefix may be declared')
            no_default = one_ns(fl, st, False) or any(isA(t) and t[1] in ('m:get', 'getitem') and isreg(t[2]) and t[3] in pre and isnone(fl, st, t) for t in terms_of(st)) \
                or any(a[1] == 'in' and not b and a[2] in pre and isreg(a[3]) for a, b in st.facts.items())
            ctx.ob(no_default, 'registered OpenID 1 prefixes are used', F, 'a prefixed field of an OpenID 1 message is left in the protocol namespace without looking for a registered default')
            ctx.ob(not [e for e in al if e is not null[0]], 'an undeclared prefix declares nothing', F, 'an alias is added for an undeclared prefix')
        elif q is not None:
            kinds.add('declared')
            ctx.ob(q in pre and key in rest, 'a declared prefix addresses its namespace', F, 'declared field stored as %s' % show_ev(sa[0]))
            ctx.ob(notnone(fl, st, ns), 'a declared prefix addresses its namespace', F, 'a field is stored under a namespace that may be missing')
        else:
            kinds.add('default')
            reg = isA(ns) and ns[1] in ('m:get', 'getitem') and isreg(ns[2]) and ns[3] in pre
            ctx.ob(reg and key in rest, 'a prefix is only ever its declared namespace or registered default', F, 'field stored as %s' % show_ev(sa[0]))
            ctx.ob(one_ns(fl, st, True), 'registered defaults apply to OpenID 1 only', F, 'a registered default prefix is used in a message that may not be OpenID 1')
            g = [t for t in terms_of(st) if lookup(t) in pre]
            ctx.ob(any(isnone(fl, st, t) for t in g), 'a declaration wins over a registered default', F, 'a registered default is used although the prefix may be declared')
            ctx.ob(notnone(fl, st, ns) or isA(ns, 'getitem'), 'a declared prefix addresses its namespace', F, 'a field is stored under a namespace that may be missing')
            decl = [e for e in al if e is not null[0]]
            ctx.ob(len(decl) == 1 and decl[0][3][0] == ns and decl[0][3][1] in pre and ev.index(decl[0]) < ev.index(sa[0]) and not falsy_arg(decl[0]),
                   'a default prefix is entered as an implicit alias before it is used', F, 'alias entered: %s' % [show_ev(e) for e in decl])
    for want, what in (('ns', 'ns field'), ('decl', 'alias declaration'), ('plain', 'plain field'), ('undeclared', 'undeclared prefix'), ('declared', 'declared prefix'), ('default', 'default prefix')):
        ctx.ob(want in kinds, 'each kind of field can occur', F, 'no path reads a field as %s' % what)
    # declarations are read before the fields that use them, whatever the order of the input
    fl = ctx.flow(**READ)
    n = 0
    for st, r in ctx.run(fl, 'msgclient.declared', [v, sym('u', 'x:str')]):
        if is_exc(r) or infeasible(fl, st, pre):
            continue
        ev = [e for e in calls(st) if e[1] in (ADDALIAS, MSG + '.setArg')]
        d = [i for i, e in enumerate(ev) if e[1] == ADDALIAS and e[3][1] == C('x')]
        u = [i for i, e in enumerate(ev) if e[1] == MSG + '.setArg']
        n += 1
        ctx.ob(d and u and d[0] < u[0], 'declarations are read before the fields they cover', F, 'a field can be stored before the declaration of its prefix is read')
    ctx.ob(n > 0, 'each kind of field can occur', F, 'no path reads a declared field')
    # openid. prefix
    fl = ctx.flow(**dict(READ, opaque=OPQ))
    F = MSG + '.fromPostArgs'
    kinds = set()
    for st, r in ctx.run(fl, 'msgclient.post', [k, v]):
        if is_exc(r) or infeasible(fl, st, pre):
            continue
        ps = [p for p in pre if entails(fl, st, eq(p, C('openid')))]
        sa = [e for e in calls(st) if e[1] == MSG + '.setArg']
        al = [e for e in calls(st) if e[1] == ADDALIAS]
        if ps and has_dot(fl, st, k) or entails_any(fl, st, [A('m:startswith', k, C('openid.')), truth(A('m:startswith', k, C('openid.')))]):
            kinds.add('openid')
            ctx.ob(all(not has(x, k) or x != k for e in sa + al for x in e[3]), 'the openid prefix is not part of the field', F, 'the prefix stays in the field name')
            ctx.ob(len(sa) + len(al) > 0, 'fields with the openid prefix are protocol fields', F, 'an openid field is dropped')
            ctx.ob(not bare_writes(fl, st, r), 'fields with the openid prefix are protocol fields', F, 'an openid field is stored outside the protocol')
        else:
            kinds.add('bare')
            other = [p for p in pre if entails(fl, st, eq(p, C('openid')), False)]
            ctx.ob(no_dot(fl, st, k) or other or entails(fl, st, A('m:startswith', k, C('openid.')), False), 'only fields without the openid prefix are bare', F, 'a field is taken as bare without looking at its prefix')
            ctx.ob(not sa and not [e for e in al if e[3][1] != NULL], 'fields without the openid prefix are never protocol fields', F, 'a bare field leads to %s' % [show_ev(e) for e in sa + al])
            ctx.ob(bare_writes(fl, st, r) == [(k, v)], 'bare fields are kept under their own name', F, 'a bare field is stored as %s' % [(show(a), show(b)) for a, b in bare_writes(fl, st, r)])
    ctx.ob(kinds == {'openid', 'bare'}, 'each kind of field can occur', F, 'fields are read as %s only' % sorted(kinds))


def isreg(t):
    return t[0] == 'g' and t[1] == 'openid.message.registered_aliases' or t[0] == 'a' and t[1] == 'attr' and False


def terms_of(st):
    out = set()
    for a in st.facts:
        out |= set(subterms(a))
    for e, g in flat(st.events):
        for x in e[3] if isinstance(e[3], tuple) else ():
            if isinstance(x, tuple):
                out |= set(subterms(x))
    return out


def one_ns(fl, st, val):
    """the facts say the message is (is not) an OpenID 1 message"""
    ts = [t for t in terms_of(st) if lookup(t) == NULL]
    for t in ts:
        if val and entails_any(fl, st, [eq(t, C(KNOWN_NS[0])), eq(t, C(KNOWN_NS[1]))]):
            return True
        if not val and entails(fl, st, eq(t, C(KNOWN_NS[0])), False) and entails(fl, st, eq(t, C(KNOWN_NS[1])), False):
            return True
        if not val and entails(fl, st, eq(t, C(KNOWN_NS[2]))):
            return True
    return False


def falsy_arg(e):
    """addAlias called without making the alias implicit"""
    kw = dict(e[4] or ())
    x = kw.get('implicit', e[3][2] if len(e[3]) > 2 else C(False))
    return isC(x) and not x[2]


def show_ev(e):
    return '%s(%s)' % (e[1].split('.')[-1], ', '.join(show(x) for x in e[3]))


def bare_writes(fl, st, r):
    """(key, value) pairs of the message's args table entered under the bare namespace"""
    d = field(fl, st, r, 'args')
    out = []
    if d is not None and isA(d, 'D'):
        for x in d[2:]:
            if x[0] == 't' and len(x[1]) == 2 and x[1][0][0] == 't' and x[1][0][1][0] == BARE:
                out.append((x[1][0][1][1], x[1][1]))
    for e, g in flat(st.events):
        if e[0] == 'setitem' and e[2][0] == 't' and e[2][1][0] == BARE:
            out.append((e[2][1][1], e[3]))
    return list(dict.fromkeys(out))


# ---------------------------------------------------------------- writing and access
ACCESS = '''
from openid.message import Message, OPENID2_NS, OPENID1_NS, OPENID_NS, BARE_NS


def get_set(k, v, w, d):
    m = Message(OPENID2_NS)
    m.setArg('http://a/', k, v)
    m.setArg(OPENID_NS, k, w)
    return (m.getArg('http://a/', k, d), m.getArg('http://b/', k, d), m.getArg(BARE_NS, k, d), m.getArg(OPENID_NS, k, d), m.getArg(OPENID2_NS, k, d),
            m.getArg(OPENID1_NS, k), m.getArg('http://b/', k))


def has_args(k, v, w):
    m = Message(OPENID2_NS)
    m.setArg('http://a/', k, v)
    m.setArg(BARE_NS, k, w)
    return (m.hasKey('http://a/', k), m.hasKey(OPENID_NS, k), m.hasKey('http://b/', k), m.getArgs('http://a/'), m.getArgs('http://b/'), m.getArgs(BARE_NS))


def del_update(k, v, w):
    m = Message(OPENID2_NS)
    m.setArg('http://a/', k, v)
    m.setArg('http://b/', k, v)
    m.delArg('http://b/', k)
    m.updateArgs('http://c/', {k: w})
    return (m.getArg('http://a/', k), m.hasKey('http://b/', k), m.getArg('http://c/', k), m.hasKey(OPENID_NS, k))


def aliased(v, w, d):
    m = Message(OPENID2_NS)
    m.namespaces.addAlias('http://a/', 'foo')
    m.setArg('http://a/', 'k', v)
    m.setArg(OPENID_NS, 'foo', w)
    m.setArg(OPENID_NS, 'bar.k', d)
    return (m.getAliasedArg('foo.k'), m.getAliasedArg('foo'), m.getAliasedArg('bar.k'), m.getAliasedArg('ns'), m.getAliasedArg('ns.foo'),
            m.getAliasedArg('ns.bar', 'no'), m.getAliasedArg('k', 'no'))


def keys(k):
    m = Message(OPENID2_NS)
    m.namespaces.addAlias('http://a/', 'foo')
    return (m.getKey('http://a/', k), m.getKey(OPENID_NS, k), m.getKey('http://z/', k), m.getKey(BARE_NS, k))


def copied(k, v, w):
    m = Message(OPENID2_NS)
    m.setArg('http://a/', k, v)
    c = m.copy()
    c.setArg('http://a/', k, w)
    c.setArg(BARE_NS, k, w)
    c.setArg('http://b/', k, w)
    return (m.getArg('http://a/', k), m.getArg(BARE_NS, k), m.namespaces.isDefined('http://b/'), c.getArg('http://a/', k), c.isOpenID2(), m.isOpenID1())


def post_two(k, v, w):
    m = Message(OPENID2_NS)
    m.setArg('http://a/', k, v)
    m.setArg('http://b/', k, w)
    m.setArg(OPENID_NS, 'mode', 'x')
    return m.toPostArgs()


def post_one(k, v):
    m = Message(OPENID1_NS)
    m.setArg(OPENID_NS, k, v)
    m.setArg(BARE_NS, 'x', v)
    return m.toPostArgs()


def post_given(v):
    m = Message(OPENID2_NS)
    m.namespaces.addAlias('http://a/', 'foo')
    m.setArg('http://a/', 'k', v)
    return m.toPostArgs()


def same_twice(u, v):
    m = Message(OPENID2_NS)
    m.namespaces.addAlias('http://a/', 'foo')
    m.namespaces.addAlias('http://a/', 'foo')
    a = m.namespaces.add('http://a/')
    b = m.namespaces.add('http://b/')
    return (a, b == 'foo', m.namespaces.getNamespaceURI('foo'), m.namespaces.getAlias('http://b/') == b, m.namespaces.getNamespaceURI(b),
            m.namespaces.isDefined('http://a/'), 'http://a/' in m.namespaces, m.namespaces.isDefined('http://z/'))
'''


def tup(*xs):
    return ('t', tuple(xs))


def D(*pairs):
    return frozenset(pairs)


def dict_pairs(t):
    """the pairs of a dictionary with known keys, None otherwise"""
    if not isA(t, 'D'):
        return None
    return frozenset(tuple(x[1]) for x in t[2:])


def same(got, want):
    """compare a value with an expected one; a frozenset stands for a dictionary"""
    if isinstance(want, frozenset):
        p = dict_pairs(got)
        return p is not None and p == want
    if want == TRUE or want == FALSE:
        return got in (want, C(want == TRUE))
    return got == want


def access(ctx):
    ctx.p.client('msgaccess', ACCESS)
    k, v, w, d = [sym(x, 'x:str') for x in 'kvwd']
    NS2 = C(KNOWN_NS[2])
    T, F, cat = TRUE, FALSE, lambda *x: A('cat', *x)
    a_, b_ = C('http://a/'), C('http://b/')
    specs = [
        ('get_set', [k, v, w, d], [v, d, d, w, w, NONE, NONE], 'getArg', 'a field is read back from the namespace it was written to only'),
        ('has_args', [k, v, w], [T, F, F, D((k, v)), D(), D((k, w))], 'getArgs', 'a field is read back from the namespace it was written to only'),
        ('del_update', [k, v, w], [v, F, w, F], 'updateArgs', 'fields are deleted and updated in the namespace given only'),
        ('aliased', [v, w, d], [v, w, d, NS2, a_, C('no'), C('no')], 'getAliasedArg', 'an aliased name addresses the namespace of its alias'),
        ('keys', [k], [cat(C('openid.foo.'), k), cat(C('openid.'), k), NONE, k], 'getKey', 'the key of a field is built from the alias of its namespace'),
        ('copied', [k, v, w], [v, NONE, F, w, T, F], 'copy', 'a copy of a message is independent of it'),
        ('same_twice', [k, v], [C('foo'), F, a_, T, b_, T, T, F], None, 'adding a namespace again keeps its alias'),
    ]
    for name, args, want, fn, rule in specs:
        fl = ctx.flow(msg_prims=False, peel=3)
        n = 0
        key = MSG + '.' + fn if fn else NM + '.add'
        for st, r in ctx.run(fl, 'msgaccess.' + name, args):
            if is_exc(r):
                continue
            n += 1
            got = fl.freeze(st, r)
            items = got[1] if got[0] == 't' else ()
            okk = len(items) == len(want)
            bad = [i for i, (g, x) in enumerate(zip(items, want)) if not same(g, x)] if okk else [0]
            ctx.ob(okk and not bad, rule, key, 'client %s: result %s is %s' % (name, bad, [show(items[i])[:80] for i in bad] if okk else show(got)[:100]))
        ctx.ob(n > 0, rule, key, 'client %s does not run through' % name)
    alias = None
    for name, args in (('post_two', [k, v, w]), ('post_one', [k, v]), ('post_given', [v])):
        fl = ctx.flow(msg_prims=False, peel=3)
        n = 0
        for st, r in ctx.run(fl, 'msgaccess.' + name, args):
            if is_exc(r):
                continue
            n += 1
            p = dict_pairs(fl.freeze(st, r))
            if name == 'post_one':
                okk = p == D((cat(C('openid.'), k), v), (C('x'), v))
            elif name == 'post_given':
                okk = p == D((C('openid.ns'), NS2), (C('openid.ns.foo'), a_), (C('openid.foo.k'), v))
            else:
                okk = False
                decl = {x[1]: x[0][2][len('openid.ns.'):] for x in p or () if isC(x[0]) and str(x[0][2]).startswith('openid.ns.')}
                if p is not None and set(decl) == {a_, b_} and len(set(decl.values())) == 2:
                    okk = p == D((C('openid.ns'), NS2), (C('openid.mode'), C('x')), *[(C('openid.ns.' + decl[u]), u) for u in decl]
                                 + [(cat(C('openid.%s.' % decl[u]), k), x) for u, x in ((a_, v), (b_, w))])
            ctx.ob(okk, 'a message is written with every namespace declared and every field under its alias', MSG + '.toPostArgs',
                   'client %s is written as %s' % (name, show(fl.freeze(st, r))[:250]))
        ctx.ob(n > 0, 'a message is written with every namespace declared and every field under its alias', MSG + '.toPostArgs', 'client %s does not run through' % name)


REG = '''
from openid import message


def reg(ns, alias):
    message.registerNamespaceAlias(ns, alias)
'''


def none_of_them(st, table, val):
    """every value of the table was found to differ from val"""
    for a, b in st.facts.items():
        if b and a[1] == 'forall' and a[2] in (A('m:values', table), A('m:items', table), table):
            if all(any(not v and f[1] == 'eq' and val in f[2:] and A('getitem', table, A('elem', table)) in f[2:] for f, v in p) for p in a[3]):
                return True
    return False


def registry(ctx):
    """a default prefix is registered for one namespace, a namespace under one prefix"""
    key = 'openid.message.registerNamespaceAlias'
    fl = ctx.flow()
    ns, alias = sym('ns', 'x:str'), sym('alias', 'x:str')
    n = 0
    for st, r in ctx.run(fl, key, [ns, alias]):
        if is_exc(r):
            continue
        w = [e for e, g in flat(st.events) if e[0] == 'setitem' and isreg(e[1])]
        for e in w:
            n += 1
            ctx.ob((e[2], e[3]) == (alias, ns), 'a prefix is registered as given', key, 'registers %s for %s' % (show(e[2]), show(e[3])))
            ctx.ob(entails_any(fl, st, lookup_none_or(e[1], alias, ns)), 'a registered prefix is never given a second namespace', key, 'a prefix is registered again without a check')
            ctx.ob(entails_any(fl, st, [NOT(A('in', ns, A('m:values', e[1]))), eq(A('m:get', e[1], alias, NONE), ns)]) or none_of_them(st, e[1], ns), 'a registered namespace is never given a second prefix', key,
                   'a namespace is registered again without a check')
    ctx.ob(n > 0, 'a prefix is registered as given', key, 'nothing is ever registered')


@prop('C27', 60, technique='dataflow outcomes of the namespace map and of message parsing over symbolic keys; write lint on the map tables')
def c27(ctx):
    check_map(ctx)
    reading(ctx)
    access(ctx)
    registry(ctx)
