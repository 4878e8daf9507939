"""Relying-party rules (C01-C08)."""
from ..core import *  # noqa: F401,F403
from ..core import ARG, MSG
from . import prop

CONS = 'openid.consumer.consumer.'
GC = CONS + 'GenericConsumer'
EP = 'openid.consumer.discover.OpenIDServiceEndpoint'
NS2 = 'http://specs.openid.net/auth/2.0'
NS10 = 'http://openid.net/signon/1.0'
NS11 = 'http://openid.net/signon/1.1'
DISCOVER = 'openid.consumer.discover.discover'
SPLIT = 'openid.store.nonce.split'
URINORM = 'openid.urinorm.urinorm'
M = sym('message', MSG)
SELF = sym('self', GC)
STORE = A('attr', SELF, 'store')


def complete_runs(ctx, keepw, evs, namespaces=(NS2, NS10, NS11), store=True, local_id=False, keep_on_raise=True, sig=False):
    """analyse GenericConsumer.complete once per protocol namespace"""
    out = []
    for ns in namespaces:
        op = {DISCOVER, URINORM, SPLIT} | (set() if local_id else {EP + '.getLocalID'}) | ({'openid.association.Association.getMessageSignature'} if sig else set())
        fl = ctx.flow(opaque=op, pure_calls=op - {DISCOVER}, arity={SPLIT: 2}, keep=keepw if callable(keepw) else words(*keepw), keep_event=named(*evs), keep_on_raise=keep_on_raise)

        def setup(st, ns=ns):
            st.facts[eq(A('ns', M), C(ns))] = True
            st.facts[eq(STORE, NONE)] = not store
        res = ctx.run(fl, GC + '.complete', [sym('self', GC), M, sym('endpoint?', EP), sym('return_to')], setup=setup)
        out.append((ns, fl, res))
    return out


def status_of(fl, st, v):
    if isinstance(v, Raised) or v == NONE:
        return None
    x = field(fl, st, v, 'status')
    return x[2] if x is not None and isC(x) else None


def successes(ctx, runs):
    n = 0
    for ns, fl, res in runs:
        k = 0
        for st, v in res:
            if status_of(fl, st, v) == 'success':
                k += 1
                yield ns, fl, st, v
        if not k:
            raise AnchorMissing('no successful outcome of %s.complete for %s' % (GC, ns))


def copy_roots(fl, st, ep):
    """the objects an endpoint value is (transitively) a copy of, the value itself first"""
    out = [ep]
    while True:
        x = out[-1]
        if isA(x, 'copy'):
            out.append(x[2])
        elif (x, '$copyof') in st.fields:
            out.append(st.fields[(x, '$copyof')])
        else:
            return out


def same_url(fl, st, url, ep):
    """url is the server_url of the endpoint object (or of what it was copied from)"""
    for r in copy_roots(fl, st, ep):
        x = field(fl, st, r, 'server_url')
        if x is not None and (x == url or entails(fl, st, eq(x, url))):
            return True
    return False


def sig_checked(fl, st, url_ok):
    """evidence that the response's signature was verified: ('assoc', event index) / ('direct', index) / reason"""
    why = []
    evs = [e for e, _ in flat(st.events)]
    handle, sig, signed = ARG(M, 'assoc_handle'), ARG(M, 'sig'), ARG(M, 'signed')
    found = [(i, e) for i, e in enumerate(evs) if e[0] == 'call' and e[1] == '.getAssociation' and e[2] == STORE]
    for i, e in found:
        a = e[6]
        if a[0] == 'raised' or not notnone(fl, st, a):
            continue
        if len(e[3]) != 2 or not url_ok(e[3][0]):
            why.append('association looked up for another endpoint than the verified one')
            continue
        if e[3][1] != handle:
            why.append('association not looked up by the handle in the response')
            continue
        exp = A('attr', a, 'issued'), A('attr', a, 'lifetime')
        from ..terms import add, sub
        alive = lt(C(0), sub(add(exp[0], exp[1]), ('s', 'now', None)))
        if not entails(fl, st, alive):
            why.append('association may be expired')
            continue
        okc = False
        for f, v in facts(st, 'bytes_eq', True):
            for x, y in ((f[2], f[3]), (f[3], f[2])):
                if has(x, sig) and not has(x, a) and has(y, a) and has(y, signed) and has(y, M) and not has(y, sig):
                    okc = True
        if not okc:
            why.append('signature not compared with the one computed by the association')
            continue
        return 'assoc', i
    for i, e in enumerate(evs):
        if e[0] != 'call' or e[1].split('.')[-1] != 'fetch' or e[6][0] == 'raised':
            continue
        rep = A('parsed', 'fromKVForm', A('attr', e[6], 'body'))
        if not entails(fl, st, eq(ARG(rep, 'is_valid'), C('true'))):
            why.append("is_valid not required to be exactly 'true'")
            continue
        args = [x for x in e[3]] + [x for _, x in e[4]]
        if not url_ok(e[3][0]):
            why.append('check_authentication sent to another endpoint than the verified one')
            continue
        msgs = [x for b in args[1:] if b is not None for x in subterms(b) if isA(x, 'msg')]
        want = A('msg', A('ns', M), M, ((C('$OPENID'), C('mode'), C('check_authentication')),))
        if want not in msgs:
            why.append("check_authentication request is not the response's own fields with only the mode changed")
            continue
        if not all(isnone(fl, st, f[6]) for _, f in found if f[6][0] != 'raised'):
            why.append('direct verification used although an association may be stored')
            continue
        if not all(url_ok(f[3][0]) and f[3][1] == handle for _, f in found):
            why.append('association looked up for another endpoint or handle')
            continue
        if not found and not entails(fl, st, eq(STORE, NONE)):
            why.append('direct verification used without looking for the association')
            continue
        return 'direct', i
    return None, '; '.join(why) or 'no signature verification on this path'


@prop('C01', 20, technique='path-sensitive dataflow: must-pass-through verification facts on every success path',
      explain='Every path of GenericConsumer.complete to a success result, per protocol namespace and with and without a store, must '
              'carry the association-signature facts or the check_authentication facts.')
def c01(ctx):
    for store in (True, False):
        runs = complete_runs(ctx, ('bytes_eq', 'is_valid', '.getAssociation'), ('fetch', 'getAssociation'), store=store)
        for ns, fl, st, v in successes(ctx, runs):
            ep = rawfield(fl, st, v, 'endpoint')
            r, why = sig_checked(fl, st, lambda u: same_url(fl, st, u, ep))
            ctx.ob(r is not None, 'success-needs-verified-signature', GC + '.complete',
                   'success for %s (store %s): %s' % (ns, 'present' if store else 'absent', why))
            if r:
                ctx.sample('%s success path verified by %s' % (ns, r))
            m = rawfield(fl, st, v, 'message')
            ctx.ob(m == M, 'success-carries-the-checked-message', GC + '.complete', 'success result is about another message')


@prop('C02', 20, technique='path-sensitive dataflow: nonce consumption dominates success and follows the signature check')
def c02(ctx):
    own = set()
    runs = complete_runs(ctx, ('useNonce', 'nonce', 'bytes_eq', 'is_valid', '.getAssociation'), ('useNonce', 'fetch', 'getAssociation'))
    for ns, fl, st, v in successes(ctx, runs):
        ep = rawfield(fl, st, v, 'endpoint')
        evs = [e for e, _ in flat(st.events)]
        good, why, idx = False, 'no nonce check on this path', None
        for i, e in enumerate(evs):
            if e[0] != 'call' or e[1] != '.useNonce' or e[6][0] == 'raised':
                continue
            if not entails(fl, st, e[6]):
                why = 'success although the store may refuse the nonce'
                continue
            if e[2] != STORE or len(e[3]) != 3:
                why = "not the relying party's store"
                continue
            u, ts, salt = e[3]
            if not (isA(ts, 'getitem') and ts[3] == C(0) and isA(salt, 'getitem') and salt[3] == C(1) and ts[2] == salt[2] and
                    isA(ts[2], 'call') and ts[2][2] == SPLIT):
                why = 'timestamp and salt are not the two parts of the nonce'
                continue
            nonce = ts[2][3]
            if ns == NS2:
                if nonce != ARG(M, 'response_nonce'):
                    why = 'not the response nonce'
                    continue
                if not same_url(fl, st, u, ep):
                    why = 'nonce not keyed by the verified endpoint'
                    continue
            else:
                if not (isA(nonce, 'arg') and nonce[2] == M and nonce[3] == C('$BARE')):
                    why = 'OpenID 1 nonce not taken from the return address'
                    continue
                own.add(nonce[4])
                if not (isC(u) and u[2] == ''):
                    why = "OpenID 1 nonce not under the relying party's own key"
                    continue
            if not notnone(fl, st, nonce):
                why = 'nonce may be missing'
                continue
            good, idx = True, i
            break
        ctx.ob(good, 'success-needs-fresh-nonce', GC + '.complete', 'success for %s: %s' % (ns, why))
        if good:
            r, j = sig_checked(fl, st, lambda u: True)
            ctx.ob(r is None or j < idx, 'nonce-after-signature', GC + '.complete', 'the nonce is used up before the signature is verified (%s)' % ns)
    # no path, successful or not, may consume a nonce before verification
    for ns, fl, res in runs:
        for st, v in res:
            evs = [e for e, _ in flat(st.events)]
            for i, e in enumerate(evs):
                if e[0] == 'call' and e[1] == '.useNonce':
                    cut = st.copy()
                    r, j = sig_checked(fl, cut, lambda u: True)
                    ctx.ob(r is not None and j < i, 'nonce-only-after-verification', GC + '.complete',
                           'a nonce is consumed on a path (%s) where no signature has been verified' % ns)
    # OpenID 1: the name read back is the one begin() writes
    fl = ctx.flow(opaque={'openid.store.nonce.mkNonce'})
    res = ctx.run(fl, GC + '.begin', [SELF, sym('service_endpoint', EP)], setup=lambda st: st.facts.update({eq(STORE, NONE): True}))
    wrote = 0
    for st, v in res:
        if is_exc(v):
            continue
        rta = rawfield(fl, st, v, 'return_to_args')
        vw = fl.view(st, rta)
        ok = False
        if vw and vw[0] == 'dict':
            for k, x in vw[1]:
                if k in own and hascall(x, 'openid.store.nonce.mkNonce'):
                    ok = True
        wrote += 1
        ctx.ob(ok, 'nonce-written-at-begin', GC + '.begin', 'the request does not put a fresh nonce under the name read at completion')
    if not wrote:
        raise AnchorMissing('no outcome of begin')


URLSPLIT = ('six.moves.urllib.parse.urlparse', 'six.moves.urllib.parse.urlsplit')


def url_part(t):
    """(url, part name) of a term that is one component of a split URL"""
    if isA(t, 'getitem') and isA(t[2], 'call') and t[2][2] in URLSPLIT and isC(t[3]):
        names = ['scheme', 'netloc', 'path', 'params', 'query', 'fragment'] if t[2][2].endswith('urlparse') else \
            ['scheme', 'netloc', 'path', 'query', 'fragment']
        if -len(names) <= t[3][2] < len(names):
            return t[2][3], names[t[3][2]]
    return None, None


def norm_of(u):
    return u[3] if isA(u, 'call') and u[2] == URINORM else None


def eq_pairs(st):
    for a, v in st.facts.items():
        if v and a[1] == 'eq':
            yield a[2], a[3]


def is_lookup(t, d, k):
    """t is d[k] / d.get(k)"""
    return isA(t) and t[1] in ('getitem', 'm:get') and t[2] == d and t[3] == k


@prop('C03', 20, technique='path-sensitive dataflow: equality and for-all facts required on every success path')
def c03(ctx):
    rt, ours = ARG(M, 'return_to'), sym('return_to')
    post = A('m:toPostArgs', M)
    bare = A('m:getArgs', M, C('$BARE'))
    runs = complete_runs(ctx, ('urlparse', 'urlsplit', 'parse_qs', 'toPostArgs', 'getArgs'), ())
    for ns, fl, st, v in successes(ctx, runs):
        for part in ('scheme', 'netloc', 'path'):
            ok = False
            for a, b in eq_pairs(st):
                (ua, pa), (ub, pb) = url_part(a), url_part(b)
                if pa == pb == part and {norm_of(ua), norm_of(ub)} == {rt, ours}:
                    ok = True
            ctx.ob(ok, 'return-address-part-equal', GC + '.complete', 'success for %s without comparing the %s of the return address' % (ns, part))
        sent = matched = False
        for f, _ in facts(st, 'forall', True):
            it, paths = f[2], f[3]
            if isA(it, 'call') and it[2].endswith('parse_qsl') and url_part(it[3]) == (rt, 'query'):
                blank = any(isinstance(x, tuple) and x[0] == 't' and x[1][0] == C('keep_blank_values') and x[1][1] == TRUE for x in it[4:]) \
                    or (len(it) > 4 and it[4] == TRUE)
                k, val = A('getitem', A('elem', it), C(0)), A('getitem', A('elem', it), C(1))
                good = paths and all(any(b and a[1] == 'eq' and ((a[2] == val and is_lookup(a[3], post, k)) or (a[3] == val and is_lookup(a[2], post, k)))
                                         for a, b in p) for p in paths)
                if good and blank:
                    sent = True
            if it in (A('m:items', bare), bare):
                pair = ('t', (A('elem', bare), A('getitem', bare, A('elem', bare))))
                def covers(c):
                    return isA(c, 'call') and c[2].endswith('parse_qsl') and url_part(c[3]) == (rt, 'query')
                if paths and all(any(b and a[1] == 'in' and a[2] == pair and covers(a[3]) for a, b in p) for p in paths):
                    matched = True
        ctx.ob(sent, 'return-address-arguments-received', GC + '.complete',
               'success for %s although an argument of the return address may be missing or altered' % ns)
        ctx.ob(matched, 'received-arguments-in-return-address', GC + '.complete',
               'success for %s although a received argument may be absent from the return address' % ns)


@prop('C04', 60, technique='path-sensitive dataflow: presence and signed-list membership facts on every success path')
def c04(ctx):
    need = {NS2: ['return_to', 'assoc_handle', 'sig', 'signed', 'op_endpoint']}
    need[NS10] = need[NS11] = ['return_to', 'assoc_handle', 'sig', 'signed', 'identity']
    sign = {NS2: ['return_to', 'identity', 'response_nonce', 'claimed_id', 'assoc_handle', 'op_endpoint']}
    sign[NS10] = sign[NS11] = ['return_to', 'identity']
    signed = ARG(M, 'signed')
    lst = A('m:split', signed, C(','))
    kw = words('arg')

    def keep(a):
        return (a[1] == 'eq' and isA(a[2], 'arg') and a[2][2] == M and a[3] == NONE) or a[1] == 'in' or \
            (a[1] == 'truthy' and isA(a[2], 'arg'))
    runs = complete_runs(ctx, keep, ())
    for ns, fl, st, v in successes(ctx, runs):
        for f in need[ns]:
            ctx.ob(notnone(fl, st, ARG(M, f)), 'required-field-present', GC + '.complete', 'success for %s although %s may be missing' % (ns, f))
        for f in sign[ns]:
            x = ARG(M, f)
            inl = ('a', 'in', C(f), lst)
            ok = isnone(fl, st, x) or entails(fl, st, inl)
            ctx.ob(ok, 'mandatory-field-signed', GC + '.complete', 'success for %s although %s may be unsigned' % (ns, f))
        sf = field(fl, st, v, 'signed_fields')
        ctx.ob(sf is not None and has(sf, lst), 'result-carries-signed-list', GC + '.complete', 'signed_fields of the result is not the signed list of the response')


def local_id_formula(L, B):
    loc, can, cid = A('attr', B, 'local_id'), A('attr', B, 'canonicalID'), A('attr', B, 'claimed_id')
    nothing = AND(NOT(truth(loc)), NOT(truth(can)))
    return OR(eq(L, loc), AND(NOT(truth(loc)), eq(L, can)), AND(eq(loc, NONE), eq(can, NONE), eq(L, cid)), AND(NOT(truth(L)), nothing),
              AND(NOT(truth(L)), NOT(truth(loc)), eq(can, NONE)))


@prop('C05', 40, technique='path-sensitive dataflow: endpoint provenance and match facts on every success path')
def c05(ctx):
    claimed2, ident, op = ARG(M, 'claimed_id'), ARG(M, 'identity'), ARG(M, 'op_endpoint')
    epsym = sym('endpoint?', EP)
    types = {NS2: ['http://specs.openid.net/auth/2.0/signon'], NS10: ['http://openid.net/signon/1.1', 'http://openid.net/signon/1.0']}
    types[NS11] = types[NS10]
    w = words('type_uris', 'claimed_id', 'local_id', 'server_url', 'urldefrag', 'identity', 'canonicalID', 'op_endpoint')
    x = words('.fetch', '.getAssociation', '.useNonce', "'in', ('c', 'str'")
    runs = complete_runs(ctx, lambda a: w(a) and (a[1] == 'in' and 'type_uris' in repr(a) or not x(a)), (), local_id=True, keep_on_raise=False)
    for ns, fl, st, v in successes(ctx, runs):
        ep = rawfield(fl, st, v, 'endpoint')
        where = GC + '.complete'
        idu = field(fl, st, v, 'identity_url')
        epc = field(fl, st, ep, 'claimed_id')
        ctx.ob(idu == epc or entails(fl, st, eq(idu, epc)), 'reported-identity', where, 'identity_url is not the verified claimed identifier (%s)' % ns)
        if ns == NS2 and isnone(fl, st, claimed2) and isnone(fl, st, ident):
            ctx.ob(field(fl, st, ep, 'server_url') == op and epc == NONE, 'no-identifier-response', where,
                   'a response without identifier yields an endpoint that is not the plain provider endpoint')
            continue
        B = copy_roots(fl, st, ep)[-1]
        src = None
        if B == epsym:
            src = 'stored'
            cands = [claimed2] if ns == NS2 else []
            if ns != NS2:
                cands = [A('attr', epsym, 'claimed_id')] + [b for b in {a for f in st.facts for a in subterms(f)}
                                                            if isA(b, 'arg') and b[2] == M and b[3] == C('$BARE')]
        elif isA(B, 'elem') and isA(B[2], 'getitem') and isA(B[2][2], 'call') and B[2][2][2] == DISCOVER and B[2][3] == C(1):
            src = 'discovered'
            cands = [B[2][2][3]]
            ok = cands[0] == claimed2 if ns == NS2 else (
                (isA(cands[0], 'arg') and cands[0][3] == C('$BARE')) or cands[0] == A('attr', epsym, 'claimed_id'))
            ctx.ob(ok, 'discovery-on-claimed-identifier', where, 'discovery is done on something other than the asserted identifier (%s)' % ns)
        ctx.ob(src is not None, 'endpoint-provenance', where, 'the endpoint of a success (%s) is neither the stored one nor freshly discovered: %s' % (ns, show(B)[:120]))
        if src is None:
            continue
        battr = lambda n: A('attr', B, n)  # noqa
        ctx.ob(any(entails(fl, st, ('a', 'in', C(t), battr('type_uris'))) for t in types[ns]), 'service-type-matches', where,
               'success for %s with a %s endpoint whose service type was not checked' % (ns, src))
        dfr = [A('getitem', A('call', 'six.moves.urllib.parse.urldefrag', c), C(0)) for c in cands]
        ctx.ob(any(entails(fl, st, eq(d, battr('claimed_id'))) for d in dfr), 'claimed-identifier-matches', where,
               'success for %s with a %s endpoint whose claimed identifier was not compared with the response' % (ns, src))
        ctx.ob(entails(fl, st, local_id_formula(ident, B)), 'local-identifier-matches', where,
               'success for %s with a %s endpoint whose local identifier may differ from the response' % (ns, src))
        if ns == NS2:
            ctx.ob(entails(fl, st, eq(op, battr('server_url'))), 'endpoint-url-matches', where,
                   'success for %s with a %s endpoint whose URL may differ from op_endpoint' % (ns, src))
            ctx.ob(epc == claimed2 or entails(fl, st, eq(epc, claimed2)), 'claimed-identifier-of-result', where,
                   'the claimed identifier of the result is not the one in the response')
        su = field(fl, st, ep, 'server_url')
        ctx.ob(su == battr('server_url') or su == A('attr', ep, 'server_url') or entails(fl, st, eq(su, battr('server_url'))),
               'endpoint-url-kept', where, 'the endpoint URL of the result differs from the verified one')
    # the method behind "local identifier" comparisons


SR = CONS + 'SuccessResponse'


def roots(fl, st, v):
    """frozen values reachable from v through object fields (their subterms are not listed)"""
    seen, out, todo = set(), [], [v]
    while todo:
        x = todo.pop()
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str) or x in seen:
            continue
        seen.add(x)
        fz = fl.freeze(st, x)
        if fz[0] != 'r':
            out.append(fz)
        todo.extend(y for y in subterms(fz) if y[0] == 'r')
        if x[0] == 'r' and (st.heap.get(x) or ('',))[0] == 'obj' and not fl.is_msg(st, x):
            todo.extend(z for k, z in st.fields.items() if k[0] == x and not k[1].startswith('$'))
    return out


def reachable(fl, st, v):
    """all terms reachable from a returned value: itself, the fields of objects, container contents"""
    seen, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in seen or not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            continue
        seen.add(x)
        fz = fl.freeze(st, x)
        for y in subterms(fz):
            if y not in seen:
                if y[0] == 'r':
                    todo.append(y)
                    for k, z in st.fields.items():
                        if k[0] == y:
                            todo.append(z)
                else:
                    seen.add(y)
        if x[0] == 'r':
            for k, z in st.fields.items():
                if k[0] == x:
                    todo.append(z)
    return seen


def signed_cover(fl, st, t, msg, signed):
    """the facts of st say that the message field(s) read by t are in the signed list"""
    def inlist(k):
        return ('a', 'in', A('m:getKey', msg, t[3], k), signed)
    whole = A('m:getArgs', msg, t[3]) if len(t) > 3 else None
    if t[1] == 'arg' and entails(fl, st, inlist(t[4])):
        return True
    if whole is None:
        return False
    for f, _ in facts(st, 'forall', True):
        if f[2] in (whole, A('m:items', whole), A('m:keys', whole)):
            el = A('elem', whole)
            if f[3] and all(any(b and a == inlist(el) for a, b in p) for p in f[3]):
                return True
    return entails(fl, st, truth(whole), False)


@prop('C06', 12, technique='path-sensitive dataflow: provenance of every value returned by the signed readers')
def c06(ctx):
    kw = words('signed_fields', 'getArgs')
    msg, signed = A('attr', sym('resp', SR), 'message'), A('attr', sym('resp', SR), 'signed_fields')

    def check(key, args, rule, kwargs=()):
        fl = ctx.flow(typed_attrs={'message': MSG}, keep=kw, keep_event=lambda e: False)
        n = 0
        for st, v in ctx.run(fl, key, args, kwargs):
            if is_exc(v) or v == NONE:
                continue
            reads = [t for t in reachable(fl, st, v) if isA(t) and len(t) > 2 and t[2] == msg and
                     (t[1] == 'arg' or (t[1].startswith('m:') and t[1] not in ('m:getKey', 'm:isOpenID1', 'm:isOpenID2', 'm:getOpenIDNamespace')))]
            bad = [t for t in reads if not signed_cover(fl, st, t, msg, signed)]
            n += 1
            ctx.ob(not bad and msg not in (fl.freeze(st, v),), rule, key, 'a path returns %s although it may be unsigned' % ', '.join(sorted(show(b)[:80] for b in bad)))
        if not n:
            raise AnchorMissing('no value returned by %s' % key)
    resp = sym('resp', SR)
    check(SR + '.getSigned', [resp, sym('ns'), sym('key')], 'signed-field-reader')
    check(SR + '.getSignedNS', [resp, sym('ns')], 'signed-namespace-reader')
    check(SR + '.extensionResponse', [resp, sym('ns'), TRUE], 'signed-extension-reader')
    check(SR + '.getReturnTo', [resp], 'signed-field-reader')
    found = 0
    for k in sorted(ctx.p.classes):
        if k.startswith('openid.extensions.') and ctx.p.class_attr(k, 'fromSuccessResponse'):
            own = ctx.p.class_attr(k, 'fromSuccessResponse')[1]
            if own[0] == 'func':
                found += 1
                check(own[1].key, [('k', k), resp], 'extension-reader-signed-by-default')
    if found < 4:
        raise AnchorMissing('only %d extension readers found' % found)
    # what "signed" means: the full key of the field is in the response's own signed list
    fl = ctx.flow(typed_attrs={'message': MSG})
    for st, v in ctx.run(fl, SR + '.isSigned', [resp, sym('ns'), sym('key')]):
        want = ('a', 'in', A('m:getKey', msg, sym('ns'), sym('key')), signed)
        ok = fl.freeze(st, v) == want or (v == TRUE and entails(fl, st, want)) or (v == FALSE and entails(fl, st, want, False))
        ctx.ob(ok, 'is-signed-means-in-signed-list', SR + '.isSigned', 'isSigned is not membership of the full key in the signed list')


SN = 'openid.association.SessionNegotiator'
DH = 'openid.dh.DiffieHellman.'
ALLOWED = {'DH-SHA1': ['HMAC-SHA1'], 'DH-SHA256': ['HMAC-SHA256'], 'no-encryption': ['HMAC-SHA1', 'HMAC-SHA256']}


def c07_part(ctx, item):
    compat, first = item
    ep = sym('ep', EP)
    url = A('attr', ep, 'server_url')
    neg = A('call', SN + '.getAllowedType', A('attr', SELF, 'negotiator'))

    def keep(a):
        if a[1] == 'eq' and isA(a[2], 'arg') and a[2][4] in (C('session_type'), C('assoc_type')):
            return True if a[3] != NONE else a[2][4] == C('session_type')
        if a[1] == 'eq' and isA(a[2], 'ns'):
            return True
        s = repr(a)
        return SN + '.isAllowed' in s or ('.getAssociation' in s and '.fetch' not in s)
    fl = ctx.flow(opaque={k for k in ctx.p.funcs if k.startswith(DH)} | {SN + '.getAllowedType', SN + '.isAllowed'},
                  typed_attrs={'negotiator': SN}, pure_calls={SN + '.getAllowedType'}, keep_on_raise=False, keep=keep,
                  keep_event=named('storeAssociation', 'fetch', 'getAssociation', 'removeAssociation'))

    def setup(st):
        st.facts[eq(STORE, NONE)] = False
        st.facts[truth(A('call', DH + 'usingDefaultValues', A('call', DH + 'fromDefaults', ('k', DH[:-1]))))] = True
        st.facts[eq(A('getitem', neg, C(1)), C(first))] = True
        st.facts[('a', 'in', C('http://specs.openid.net/auth/2.0/server'), A('attr', ep, 'type_uris'))] = False
        st.facts[('a', 'in', C('http://specs.openid.net/auth/2.0/signon'), A('attr', ep, 'type_uris'))] = not compat
    where = GC + '.begin'
    stored_n = 0
    for st, v in ctx.run(fl, where, [SELF, ep], setup=setup):
        evs = list(flat(st.events))
        posts = [(i, e, g) for i, (e, g) in enumerate(evs) if e[0] == 'call' and e[1].split('.')[-1] == 'fetch']
        stores = [(i, e, g) for i, (e, g) in enumerate(evs) if e[0] == 'call' and e[1].split('.')[-1] == 'storeAssociation']
        ctx.ob(len(posts) <= 2 and not any(g for _, _, g in posts), 'at-most-one-retry', where, 'more than one fallback association request on a path')
        asked = []
        for i, e, g in posts:
            ctx.ob(e[3][0] == url, 'associate-sent-to-endpoint', where, 'associate request sent to %s' % show(e[3][0])[:80])
            ms = [x for a in list(e[3][1:]) + [y for _, y in e[4]] for x in subterms(a) if isA(x, 'msg')]
            f = {k[2]: val for (_, k, val) in (ms[0][4] if ms else ())}
            s = f.get('session_type', C('no-encryption') if compat else None)
            at = f.get('assoc_type')
            ok = s is not None and isC(s) and s[2] in ALLOWED and f.get('mode') == C('associate')
            ctx.ob(ok, 'associate-request-form', where, 'the associate request has no known session type')
            asked.append((e, s, at))
            if not ok:
                continue
            if at == A('getitem', neg, C(0)):
                good = entails(fl, st, eq(A('getitem', neg, C(1)), s))
            else:
                good = False
                for fct, _ in facts(st, 'truthy', True):
                    c = fct[2]
                    if isA(c, 'call') and c[2] == SN + '.isAllowed' and len(c) >= 6 and c[4] == at and \
                            (c[5] == s or entails(fl, st, eq(c[5], s)) or (not stores and not entails(fl, st, eq(c[5], s), False))):
                        good = True
            ctx.ob(good or is_exc(v), 'requested-types-allowed', where, 'association types requested that the configuration was not asked about (%s)' % show(s))
        for i, e, g in stores:
            stored_n += 1
            ctx.ob(e[2] == STORE and len(e[3]) == 2 and e[3][0] == url, 'stored-under-asked-endpoint', where, 'association stored under another URL than the endpoint asked')
            ctx.ob(len(stores) == 1, 'stored-once', where, 'several associations stored for one request')
            a = e[7][-1] if isinstance(e[7], tuple) and e[7] else None
            raw = e[3][1]
            last = [x for x in asked if not (x[0][6][0] == 'raised')]
            ok, why = bool(last), 'association stored without a reply'
            if ok:
                pe, s, at = last[-1]
                rep = A('parsed', 'fromKVForm', A('attr', pe[6], 'body'))
                g2 = lambda n: field(fl, st, raw, n)  # noqa
                if g2('handle') != ARG(rep, 'assoc_handle') or g2('assoc_type') != ARG(rep, 'assoc_type'):
                    ok, why = False, 'handle or type of the stored association is not the one in the reply to the last request'
                elif g2('lifetime') != A('int', ARG(rep, 'expires_in')):
                    ok, why = False, 'lifetime is not the integer given by the reply'
                else:
                    one = [A('arg', rep, C(n), C('session_type')) for n in (NS10, NS11)] + [ARG(rep, 'session_type')]
                    same = any(entails(fl, st, eq(o, s)) for o in one + [A('arg', rep, C(NS2), C('session_type'))])
                    v1 = entails(fl, st, eq(A('ns', rep), C(NS2)), False)
                    plain = v1 and any(isnone(fl, st, o) or entails(fl, st, eq(o, C(''))) or entails(fl, st, eq(o, C('no-encryption'))) for o in one)
                    if not same and not plain:
                        ok, why = False, 'session type of the reply not compared with the requested %s' % show(s)
                    else:
                        eff = s[2] if same else 'no-encryption'
                        if not entails(fl, st, OR(*[eq(ARG(rep, 'assoc_type'), C(x)) for x in ALLOWED[eff]])):
                            ok, why = False, 'association type may not fit the session type %s' % eff
                        sec = g2('secret')
                        src = ['mac_key'] if eff == 'no-encryption' else ['dh_server_public', 'enc_mac_key']
                        if sec is None or not all(has(sec, ARG(rep, x)) for x in src):
                            ok, why = False, 'secret not extracted by the %s session' % eff
                        elif eff != 'no-encryption' and not (hascall(sec, DH + 'xor_secret') or hascall(sec, DH + 'xorSecret')):
                            ok, why = False, 'secret not decrypted by the Diffie-Hellman session'
            ctx.ob(ok, 'stored-association-is-what-was-asked', where, why)
        if not is_exc(v):
            used = rawfield(fl, st, v, 'assoc')
            got = [e for e, g in evs if e[0] == 'call' and e[1] == '.getAssociation']
            ok = used == NONE or any(e[3][1] == used for _, e, _ in stores)
            if not ok:
                for e in got:
                    if used == e[6] and e[2] == STORE and e[3] == (url,):
                        from ..terms import add, sub
                        alive = lt(C(0), sub(add(A('attr', used, 'issued'), A('attr', used, 'lifetime')), ('s', 'now', None)))
                        ok = entails(fl, st, alive) or isnone(fl, st, used)
            ctx.ob(ok, 'used-association-is-stored-and-live', where, 'the request uses an association that is neither stored and unexpired nor just stored')
    if not stored_n:
        raise AnchorMissing('no path of begin stores an association')


def negotiator_rules(ctx):
    """SessionNegotiator.isAllowed: configured pair and compatible types; getAllowedType: the first configured"""
    slf, at, sty = sym('self', SN), sym('assoc_type'), sym('session_type')
    conf = ('a', 'in', ('t', (at, sty)), A('attr', slf, 'allowed_types'))
    fits = OR(*[AND(eq(at, C(a)), eq(sty, C(s))) for s, l in ALLOWED.items() for a in l])
    fl = ctx.flow()
    for st, v in ctx.run(fl, SN + '.isAllowed', [slf, at, sty]):
        if is_exc(v):
            continue
        for s in cases(fl, st, v, True):
            ctx.ob(entails(fl, s, conf) and entails(fl, s, fits), 'is-allowed-only-configured-pairs', SN + '.isAllowed',
                   'a pair is allowed that is not configured or does not fit together')
        for s in cases(fl, st, v, False):
            ctx.ob(entails(fl, s, AND(conf, fits), False), 'configured-pairs-allowed', SN + '.isAllowed', 'a configured pair may be refused')
    for st, v in ctx.run(fl, SN + '.getAllowedType', [slf]):
        if not is_exc(v):
            ok = fl.freeze(st, v) in (A('getitem', A('attr', slf, 'allowed_types'), C(0)), ('t', (NONE, NONE)))
            ctx.ob(ok, 'preferred-type-is-first', SN + '.getAllowedType', 'the preferred type is not the first configured one')


@prop('C07', 100, technique='path-sensitive dataflow: reply/request correspondence facts at every storeAssociation')
def c07(ctx):
    negotiator_rules(ctx)
    ctx.parallel(c07_part, [(c, f) for c in (False, True) for f in sorted(ALLOWED)])


@prop('C08', 40, technique='path-sensitive dataflow: mode facts per outcome class; session effects on every exit')
def c08(ctx):
    mode, setup_url = ARG(M, 'mode'), ARG(M, 'user_setup_url')
    w = words("'mode'", 'user_setup_url')

    def keep(a):
        return a[1] in ('eq', 'truthy', 'in') and any(x in (mode, setup_url) or (isA(x, 'arg') and x[4] in (mode[4], setup_url[4])) for x in a[2:]) or \
            (a[1] == 'in' and w(a))
    seen = set()
    where = GC + '.complete'
    for ns, fl, res in complete_runs(ctx, keep, ()):
        for st, v in res:
            if is_exc(v):
                cls = cls_of(fl, st, v)
                ctx.ob(cls not in ctx.p.classes, 'violations-become-failures', where, '%s can escape instead of a failure result' % cls)
                continue
            s = status_of(fl, st, v)
            seen.add(s)
            su = [setup_url] + [A('arg', M, C(n), C('user_setup_url')) for n in (NS10, NS11, NS2)]
            if s == 'success':
                ok = entails(fl, st, eq(mode, C('id_res')))
            elif s == 'cancel':
                ok = entails(fl, st, eq(mode, C('cancel')))
            elif s == 'setup_needed':
                ok = (ns == NS2 and entails(fl, st, eq(mode, C('setup_needed')))) or \
                    (ns != NS2 and entails(fl, st, eq(mode, C('id_res'))) and any(notnone(fl, st, x) for x in su))
            elif s == 'failure':
                ok = entails(fl, st, eq(mode, C('cancel')), False) and not (ns == NS2 and not entails(fl, st, eq(mode, C('setup_needed')), False)) \
                    and not (ns != NS2 and entails(fl, st, eq(mode, C('id_res'))) and any(notnone(fl, st, x) for x in su))
            else:
                ok = False
            ctx.ob(ok, 'mode-outcome', where, 'outcome %s (%s) does not follow from the mode' % (s, ns))
    ctx.ob({'success', 'cancel', 'setup_needed', 'failure'} <= seen, 'all-outcomes-reachable', where, 'outcomes found: %s' % sorted(map(str, seen)))
    # session
    cons = CONS + 'Consumer'
    DISC = 'openid.yadis.manager.Discovery'
    slf = sym('self', cons)
    sess = A('attr', slf, 'session')
    fl = ctx.flow(typed_attrs={'consumer': GC}, opaque={GC + '.complete', DISC + '.cleanup', GC + '.begin'})
    read_keys, n = set(), 0
    where = cons + '.complete'
    for st, v in ctx.run(fl, where, [slf, sym('query'), sym('current_url')]):
        if is_exc(v):
            continue
        n += 1
        evs = [e for e, _ in flat(st.events)]
        done = [(i, e) for i, e in enumerate(evs) if e[0] == 'call' and e[1] == GC + '.complete']
        if not ctx.ob(len(done) == 1 and done[0][1][6] == v, 'completes-once', where, 'the result is not that of completing the response'):
            continue
        i, e = done[0]
        ept = e[3][1]
        keys = [t[3] for t in subterms(ept) if isA(t) and t[1] in ('m:get', 'getitem', 'm:pop') and t[2] == sess] if isinstance(ept, tuple) else []
        keys += [x[3][0] for x in evs[:i] if x[0] == 'call' and x[1] in ('.get', '.pop') and x[2] == sess and x[6] == ept]
        ctx.ob(len(keys) == 1, 'pending-endpoint-from-session', where, 'the endpoint is not the one kept in the session')
        if not keys:
            continue
        key = keys[0]
        read_keys.add(key)
        gone = any((x[0] == 'delitem' and x[1] == sess and x[2] == key) or (x[0] == 'call' and x[1] == '.pop' and x[2] == sess and x[3] and x[3][0] == key and x[6][0] != 'raised')
                   for x in evs) or entails(fl, st, ('a', 'in', key, sess), False)
        ctx.ob(gone, 'pending-request-removed', where, 'the pending request may stay in the session')
        clean = [x for x in evs if x[0] == 'call' and x[1] == DISC + '.cleanup']
        stt = A('attr', v, 'status')
        ended = OR(eq(stt, C('success')), eq(stt, C('cancel')))
        idn = eq(A('attr', v, 'identity_url'), NONE)
        if clean:
            ctx.ob(entails(fl, st, ended) and len(clean) == 1, 'discovery-state-kept-unless-finished', where, 'discovery state is discarded although the login neither succeeded nor was cancelled')
        else:
            ctx.ob(entails(fl, st, ended, False) or entails(fl, st, idn), 'discovery-state-discarded-when-finished', where, 'discovery state survives a finished login')
    ctx.ob(n > 0 and len(read_keys) == 1, 'one-session-key', where, 'several session keys are read')
    wn = 0
    for st, v in ctx.run(fl, cons + '.beginWithoutDiscovery', [slf, sym('service', EP)]):
        if is_exc(v):
            continue
        wn += 1
        ws = [x for x, _ in flat(st.events) if x[0] == 'setitem' and x[1] == sess]
        ctx.ob(any(x[2] in read_keys for x in ws), 'pending-request-recorded', cons + '.beginWithoutDiscovery', 'the pending request is not recorded under the key read at completion')
    if not wn:
        raise AnchorMissing('beginWithoutDiscovery')
