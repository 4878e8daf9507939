"""Provider rules (C09-C17)."""
from ..core import *  # noqa: F401,F403
from ..core import ARG, MSG
from ..terms import T, add, sub
from . import prop
from .consumer import NS2, NS10, NS11, eq_pairs, reachable, roots

S = 'openid.server.server.'
RESP, ENC, SIGN = S + 'OpenIDResponse', S + 'SigningEncoder', S + 'Signatory'
CHECKID, CHECKAUTH, ASSOCREQ = S + 'CheckIDRequest', S + 'CheckAuthRequest', S + 'AssociateRequest'
ASSOC = 'openid.association.Association'
NOW = ('s', 'now', None)


def plain(t):
    """strip text conversions"""
    while isA(t) and t[1] in ('text', 'str', 'list') and len(t) == 3:
        t = t[2]
    return t


def top_msgs(t, out):
    """outermost message terms of t, and the conversions of unmodified messages"""
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        if isA(t, 'msg'):
            out.append(t)
            return
        if t[0] == 'a' and isinstance(t[1], str) and t[1].startswith('m:to') and len(t) > 2:
            if not isA(t[2], 'msg'):
                out.append(t[2])
        for x in t[1:]:
            top_msgs(x, out)
    elif isinstance(t, tuple):
        for x in t:
            top_msgs(x, out)


def overrides(m):
    return {(n[2], k[2]): v for n, k, v in m[4] if isC(n) and isC(k)}


def parts(t):
    """(constant elements, comprehension parts, other parts) a list-valued term is made of, order ignored"""
    consts, comps, other = set(), [], []
    todo = [t]
    while todo:
        x = todo.pop()
        if isA(x, 'L') or isA(x, 'S'):
            for y in x[2:]:
                (consts.add(y[2]) if isC(y) else other.append(y))
        elif x[0] == 't':
            for y in x[1]:
                (consts.add(y[2]) if isC(y) else other.append(y))
        elif isA(x) and x[1] in ('sorted', 'list', 'rev', 'set', 'tuple', 'iter'):
            todo.append(x[2])
        elif isA(x, 'append'):
            (consts.add(x[3][2]) if isC(x[3]) else other.append(x[3]))
            todo.append(x[2])
        elif isA(x, 'insert') and len(x) == 5:
            (consts.add(x[4][2]) if isC(x[4]) else other.append(x[4]))
            todo.append(x[2])
        elif isA(x) and x[1] in ('extend', 'cat', 'add', 'union'):
            todo.extend(x[2:])
        elif isA(x, 'comp'):
            comps.append(x)
        else:
            other.append(x)
    return consts, comps, other


def all_openid_keys(comp, post):
    """the comprehension yields key[7:] for every key of the encoded message starting with 'openid.'"""
    it, paths = comp[2], comp[3]
    keys = {post, A('m:keys', post), A('list', post)}
    if it in keys:
        k = A('elem', it)
    elif it == A('m:items', post):
        k = A('elem', post)
    else:
        return False
    ks = {k, A('elem', post), A('getitem', A('elem', it), C(0))}
    for fs, outs in paths:
        skip = any(not v and (a[1] == 'm:startswith' and a[2] in ks and a[3] == C('openid.')) or
                   (not v and a[1] == 'eq' and {a[2], a[3]} & {A('slice', x, NONE, C(7), NONE) for x in ks} and C('openid.') in (a[2], a[3]))
                   for a, v in fs)
        if skip:
            continue
        if not any(o == A('slice', x, C(7), NONE, NONE) or o == A('getitem', A('m:split', x, C('.'), C(1)), C(1)) for o in outs for x in ks):
            return False
    return True


def signed_data_ok(data, m1, signed):
    """data contains, for every element of the signed list, the value the message m1 has for it"""
    lists = {A('m:split', signed, C(','))}
    if isA(signed, 'm:join') and signed[2] == C(','):
        lists.add(signed[3])
    post = A('m:toPostArgs', m1)
    for x in subterms(data):
        if not isA(x, 'comp'):
            continue
        for lst in lists:
            el = A('elem', lst)
            key = A('cat', C('openid.'), el)
            good = bool(x[3])
            for fs, outs in x[3]:
                if not outs or not all(has(o, el) and any(isA(y) and y[1] in ('m:get', 'getitem') and y[2] == post and y[3] == key for y in subterms(o))
                                       for o in outs):
                    good = False
            if good:
                return True
    return False


_RUNS = {}


def sign_runs(ctx):
    ta = {'signatory': SIGN, 'fields': MSG, 'message': MSG, 'assoc': ASSOC, 'request': CHECKID}
    fl = ctx.flow(typed_attrs=ta, typed_calls={'getAssociation': ASSOC}, keep=words('.getAssociation', "'mode'", "'sig'", 'assoc_handle'),
                  keep_event=named('getAssociation', 'storeAssociation', 'removeAssociation'), opaque={RESP + '.whichEncoding'})
    r = sym('response', RESP)
    return fl, r, ctx.run(fl, ENC + '.encode', [sym('self', ENC), r])


def alive_formula(a):
    return lt(C(0), sub(add(A('attr', a, 'issued'), A('attr', a, 'lifetime')), NOW))


def signer_of(fl, st, handle):
    """(kind, association, secret, event) of the association whose handle is in the message"""
    for e in calls(st, '.getAssociation'):
        if handle == A('attr', e[6], 'handle') and notnone(fl, st, e[6]):
            return 'held', e[6], A('attr', e[6], 'secret'), e
    for e in calls(st, '.storeAssociation'):
        if len(e[3]) == 2:
            o = e[3][1]
            h = field(fl, st, o, 'handle')
            if h is not None and h == handle:
                return 'new', o, field(fl, st, o, 'secret'), e
    return None, None, None, None


@prop('C09', 100, technique='path-sensitive dataflow over message values: signature provenance and coverage on every encoding path')
def c09(ctx):
    fl, r, res = sign_runs(ctx)
    F = A('attr', r, 'fields')
    where = ENC + '.encode'
    sent = 0
    for st0, v in res:
        if is_exc(v):
            continue
        for st in fl.assume(st0.copy(), eq(ARG(F, 'mode'), C('id_res')), True):
            sent += 1
            ms = []
            for t in roots(fl, st, v):
                top_msgs(t, ms)
            ms = [m for m in ms if m == F or (isA(m, 'msg') and m[3] == F)]
            ctx.ob(bool(ms), 'response-sent', where, 'an encoded positive response does not carry the message')
            for m in set(ms):
                if not isA(m, 'msg'):
                    ctx.ob(False, 'positive-response-signed', where, 'a positive response can be sent unsigned')
                    continue
                ov = overrides(m)
                sig, signed, handle = (ov.get(('$OPENID', k)) for k in ('sig', 'signed', 'assoc_handle'))
                if not ctx.ob(sig is not None and signed is not None and handle is not None, 'positive-response-signed', where,
                              'a positive response can be sent without signature, signed list or handle'):
                    continue
                ctx.ob(isnone(fl, st, ARG(F, 'sig')) or entails(fl, st, ('a', 'has', F, C('$OPENID'), C('sig')), False),
                       'signed-once', where, 'an already signed response can be signed again')
                kind, a, secret, e = signer_of(fl, st, handle)
                ctx.ob(kind is not None, 'signer-is-held', where, "the handle in the message is not that of an association in the provider's store")
                m1 = m[:4] + (tuple(x for x in m[4] if x[1] != C('sig')),)
                m0 = m[:4] + (tuple(x for x in m[4] if x[1] not in (C('sig'), C('signed'))),)
                dig = [x for x in subterms(sig) if isA(x, 'digest') and isA(x[2], 'hash')]
                ok = any(d[2][3][1][:1] == (secret,) for d in dig)
                ctx.ob(ok, 'signature-by-that-association', where, 'the signature is not keyed with the secret of the association named in the message')
                ok = any(signed_data_ok(t, m1, signed) for d in dig for t in d[2][5:])
                ctx.ob(ok, 'signature-over-final-values', where, 'the signature does not cover the final value of every field in the signed list')
                lst = signed[3] if isA(signed, 'm:join') and signed[2] == C(',') else None
                okl = False
                if lst is not None:
                    consts, comps, other = parts(lst)
                    okl = 'signed' in consts and any(all_openid_keys(c, A('m:toPostArgs', m0)) for c in comps)
                ctx.ob(okl, 'signed-list-complete', where, 'the signed list does not name every protocol field of the message and itself')
                ctx.sample('signed by %s association; list %s' % (kind, show(signed)[:160]))
    if not sent:
        raise AnchorMissing('no positive response encoded')


def store_keys(ctx):
    """(shared, private) store keys: where associate stores and where the stateless signer stores"""
    fl = ctx.flow(keep_event=named('storeAssociation'))
    out = []
    for dumb in (False, True):
        ks = set()
        for st, v in ctx.run(fl, SIGN + '.createAssociation', [sym('self', SIGN)], kw=[('dumb', C(dumb))]):
            for e in calls(st, '.storeAssociation'):
                ks.add(e[3][0])
        out.append(ks)
    ctx.ob(len(out[0]) == 1 and len(out[1]) == 1 and out[0] != out[1], 'shared-and-private-keys-differ', SIGN + '.createAssociation',
           'shared and private associations are not kept apart in the store')
    return out


@prop('C11', 100, technique='path-sensitive dataflow: case analysis of the requested handle on every signing path')
def c11(ctx):
    fl, r, res = sign_runs(ctx)
    shared, private = store_keys(ctx)
    F = A('attr', r, 'fields')
    H = A('attr', A('attr', r, 'request'), 'assoc_handle')
    where = ENC + '.encode'
    seen = {'none': 0, 'held': 0, 'refused': 0}
    for st0, v in res:
        if is_exc(v):
            continue
        for st in fl.assume(st0.copy(), eq(ARG(F, 'mode'), C('id_res')), True):
            ms = []
            for t in roots(fl, st, v):
                top_msgs(t, ms)
            for m in {m for m in ms if isA(m, 'msg') and m[3] == F}:
                ov = overrides(m)
                handle, inv = ov.get(('$OPENID', 'assoc_handle')), ov.get(('$OPENID', 'invalidate_handle'))
                kind, a, secret, e = signer_of(fl, st, handle)
                if kind is None:
                    ctx.ob(False, 'signer-known', where, 'the signing association is neither looked up nor stored')
                    continue
                if kind == 'held':
                    seen['held'] += 1
                    ctx.ob({e[3][0]} == shared and plain(e[3][1]) == H and entails(fl, st, truth(H)), 'held-association-is-the-named-one', where,
                           'a stored association signs that is not the shared association named in the request')
                    ctx.ob(entails(fl, st, alive_formula(a)), 'expired-never-signs', where, 'an expired association can sign a response')
                    ctx.ob(inv is None, 'no-invalidate-when-held', where, 'invalidate_handle is sent although the named association signed')
                else:
                    ctx.ob({e[3][0]} == private, 'fresh-is-private', where, 'the fallback association is not a private one')
                    got = calls(st, '.getAssociation')
                    hf = entails(fl, st, truth(H), False)
                    if hf:
                        seen['none'] += 1
                        ctx.ob(inv is None, 'no-invalidate-without-handle', where, 'invalidate_handle is sent for a request without a handle')
                        continue
                    seen['refused'] += 1
                    ctx.ob(inv is not None and plain(inv) == H, 'refused-handle-named', where, 'a refused handle is not reported with invalidate_handle')
                    look = [x for x in got if {x[3][0]} == shared and plain(x[3][1]) == H]
                    ctx.ob(bool(look), 'handle-looked-up', where, 'the handle is refused without looking it up')
                    for x in look:
                        exp = NOT(alive_formula(x[6]))
                        gone = isnone(fl, st, x[6])
                        ctx.ob(gone or entails(fl, st, exp), 'refused-only-when-unusable', where,
                               'a live shared association named in the request is refused')
                        if not gone:
                            rm = [y for y in calls(st, '.removeAssociation') if {y[3][0]} == shared and plain(y[3][1]) == H]
                            ctx.ob(bool(rm), 'expired-removed', where, 'an expired association is refused but not removed')
    for k, n in seen.items():
        ctx.ob(n > 0, 'case-present', where, 'no outcome for the case "%s"' % k)


@prop('C10', 20, technique='path-sensitive dataflow: verification facts on every is_valid:true path, invalidation event on every path')
def c10(ctx):
    shared, private = store_keys(ctx)
    sg = sym('signatory', SIGN)
    req = sym('request', CHECKAUTH)
    H, INV, SGD = (A('attr', req, n) for n in ('assoc_handle', 'invalidate_handle', 'signed'))
    fl = ctx.flow(typed_attrs={'signed': MSG, 'message': MSG, 'fields': MSG, 'namespace': None},
                  keep=words('.getAssociation', 'bytes_eq', 'invalidate_handle'),
                  keep_event=named('getAssociation', 'removeAssociation', 'storeAssociation'))
    where = CHECKAUTH + '.answer'
    res = ctx.run(fl, where, [req, sg])
    n = 0
    for st, v in res:
        evs = [e for e, _ in flat(st.events) if e[0] == 'call' and e[1] in ('.getAssociation', '.removeAssociation', '.storeAssociation')]
        priv = [e for e in evs if e[1] == '.getAssociation' and {e[3][0]} == private]
        ctx.ob(all(plain(e[3][1]) == H for e in priv), 'private-lookup-by-handle', where, 'a private association is looked up by another handle')
        if is_exc(v):
            continue
        n += 1
        F = rawfield(fl, st, v, 'fields')
        valid = fl.msg_arg(st.copy(), F, C('$OPENID'), C('is_valid'))
        valid = [x for _, x in valid] if isinstance(valid, list) else [valid]
        rm = [i for i, e in enumerate(evs) if e[1] == '.removeAssociation' and {e[3][0]} == private and plain(e[3][1]) == H]
        ctx.ob(bool(rm), 'handle-used-once', where, 'a check_authentication answer leaves the private handle usable')
        ctx.ob(not any(e[1] == '.storeAssociation' for e in evs), 'handle-not-recreated', where, 'answering stores an association')
        for t in valid:
            t = fl.freeze(st, t)
            ctx.ob(t in (C('true'), C('false')), 'answer-is-true-or-false', where, 'is_valid is %s' % show(t)[:80])
            if t != C('false'):
                ok, why = False, 'no private association was looked up'
                for e in priv:
                    a = e[6]
                    if not notnone(fl, st, a):
                        why = 'the association may be missing'
                    elif not entails(fl, st, alive_formula(a)):
                        why = 'the association may be expired'
                    else:
                        why = 'the signature of the checked message is not compared'
                        for f, _ in facts(st, 'bytes_eq', True):
                            for x, y in ((f[2], f[3]), (f[3], f[2])):
                                if has(x, ARG(SGD, 'sig')) and has(y, a) and has(y, SGD) and not has(y, ARG(SGD, 'sig')):
                                    ok = True
                    if ok:
                        break
                ctx.ob(ok, 'true-needs-verified-private-signature', where, "answers is_valid:true although %s" % why)
        inv = [fl.freeze(st, x) for _, x in _aslist(fl.msg_arg(st.copy(), F, C('$OPENID'), C('invalidate_handle')))]
        sh = [e for e in evs if e[1] == '.getAssociation' and {e[3][0]} == shared]
        for t in inv:
            if t != NONE and not isA(t, 'arg'):
                ok = plain(t) == INV and any(plain(e[3][1]) == INV and (isnone(fl, st, e[6]) or entails(fl, st, NOT(alive_formula(e[6])))) for e in sh)
                ctx.ob(ok, 'invalidation-confirmed-only-when-gone', where, 'a handle is confirmed invalid although a live shared association may exist')
            elif not isnone(fl, st, INV):
                ok = any(plain(e[3][1]) == INV and notnone(fl, st, e[6]) for e in sh)
                ctx.ob(ok, 'invalid-handle-confirmed', where, 'a reported handle that the provider does not hold is not confirmed invalid')
    if not n:
        raise AnchorMissing('no answer of ' + where)
    # the message that is verified is the request with only the mode changed back
    m = sym('message', MSG)
    fl = ctx.flow(keep=words("'mode'"))
    k = 0
    for st, v in ctx.run(fl, CHECKAUTH + '.fromMessage', [('k', CHECKAUTH), m, sym('op_endpoint')]):
        if is_exc(v):
            continue
        k += 1
        t = field(fl, st, v, 'signed')
        ok = t == m or (isA(t, 'msg') and t[2] == A('ns', m) and t[3] == m and
                        all(n == C('$OPENID') and q == C('mode') and x == C('id_res') for n, q, x in t[4]))
        ctx.ob(ok, 'verified-message-is-the-request', CHECKAUTH + '.fromMessage', 'the message verified is not the request with its mode set back to id_res')
        if t == m:
            ctx.ob(isnone(fl, st, ARG(m, 'mode')) or entails(fl, st, ('a', 'has', m, C('$OPENID'), C('mode')), False), 'mode-restored', CHECKAUTH + '.fromMessage',
                   'the mode is not set back before verification')
        ctx.ob(plain(field(fl, st, v, 'assoc_handle')) == ARG(m, 'assoc_handle'), 'handle-from-request', CHECKAUTH + '.fromMessage', 'another handle is used')
        ctx.ob(plain(field(fl, st, v, 'invalidate_handle')) in (ARG(m, 'invalidate_handle'), NONE), 'invalidate-from-request', CHECKAUTH + '.fromMessage',
               'another invalidate_handle is used')
    ctx.ob(k > 0, 'request-parsed', CHECKAUTH + '.fromMessage', 'no check_authentication request is ever accepted')


def _aslist(x):
    return x if isinstance(x, list) else [(None, x)]


IDSEL = 'http://specs.openid.net/auth/2.0/identifier_select'


@prop('C12', 60, technique='path-sensitive dataflow: field-by-field content of every answer message, per version and decision')
def c12(ctx):
    where = CHECKID + '.answer'
    r = sym('request', CHECKID)
    at = lambda n: A('attr', r, n)
    ident, claimed, srv, allow = sym('identity?'), sym('claimed_id?'), sym('server_url?'), sym('allow')
    op = {'openid.store.nonce.mkNonce', 'openid.urinorm.urinorm', CHECKID + '.encodeToURL', 'openid.server.trustroot.TrustRoot.parse',
          'openid.server.trustroot.TrustRoot.validateURL'}
    done = {'pos': 0, 'neg': 0}
    for ns in (NS2, NS10, NS11):
        two = ns == NS2
        fl = ctx.flow(opaque=op, pure_calls=op - {'openid.store.nonce.mkNonce'}, typed_attrs={'message': MSG, 'fields': MSG})

        def setup(st):
            st.facts[eq(A('ns', at('message')), C(ns))] = True
        for st0, v in ctx.run(fl, where, [r, allow, srv, ident, claimed], setup=setup):
            if is_exc(v):
                continue
            F = fl.freeze(st0, rawfield(fl, st0, v, 'fields'))
            if not ctx.ob(isA(F, 'msg') and F[3] == NONE, 'answer-is-a-new-message', where, 'the answer is not built from an empty message'):
                continue
            ctx.ob(entails(fl, st0, truth(at('return_to'))), 'no-answer-without-return-address', where, 'a request without return address is answered')
            ctx.ob(F[2] == A('ns', at('message')) or F[2] == C(ns), 'answer-in-request-version', where, 'the answer is in another protocol version (%s)' % ns)
            ov = {(n[2] if isC(n) else n, k[2] if isC(k) else k): x for n, k, x in F[4]}
            get = lambda k: ov.get(('$OPENID', k), ov.get((ns, k), NONE))
            for st in fl.assume(st0.copy(), truth(allow), False):
                done['neg'] += 1
                for n, k in ov:
                    ctx.ob(k in ('mode', 'user_setup_url') and n in ('$OPENID', ns), 'negative-asserts-nothing', where,
                           'a negative answer (%s) carries %s' % (ns, k))
                for s2 in fl.assume(st.copy(), truth(at('immediate')), True):
                    ctx.ob(get('mode') == C('setup_needed' if two else 'id_res'), 'negative-mode', where, 'wrong mode of a negative immediate answer (%s)' % ns)
                    if not two:
                        ctx.ob(get('user_setup_url') != NONE, 'setup-url-openid1', where, 'negative OpenID 1 immediate answer without user_setup_url')
                for s2 in fl.assume(st.copy(), truth(at('immediate')), False):
                    ctx.ob(get('mode') == C('cancel'), 'negative-mode', where, 'wrong mode of a negative answer (%s)' % ns)
            for st in fl.assume(st0.copy(), truth(allow), True):
                done['pos'] += 1
                ctx.ob(get('mode') == C('id_res'), 'positive-mode', where, 'wrong mode of a positive answer (%s)' % ns)
                ctx.ob(plain(get('return_to')) == at('return_to'), 'positive-return-address', where, "a positive answer lacks the request's return address (%s)" % ns)
                ctx.ob(hascall(get('response_nonce'), 'openid.store.nonce.mkNonce'), 'positive-nonce', where, 'a positive answer lacks a fresh nonce (%s)' % ns)
                oe = plain(get('op_endpoint'))
                if two:
                    ctx.ob(oe in (srv, at('op_endpoint')) and entails(fl, st, truth(oe)), 'positive-endpoint', where, 'a positive answer lacks the provider endpoint')
                    for s2 in fl.assume(st.copy(), truth(srv), True):
                        ctx.ob(oe == srv, 'positive-endpoint', where, 'the given provider endpoint is ignored')
                ctx.ob({k for n, k in ov} <= {'mode', 'return_to', 'response_nonce', 'op_endpoint', 'identity', 'claimed_id'}, 'positive-fields', where,
                       'a positive answer carries unexpected fields')
                i, c = plain(get('identity')), plain(get('claimed_id'))
                if not two:
                    ctx.ob(c == NONE, 'no-claimed-id-openid1', where, 'an OpenID 1 answer carries claimed_id')
                for s2 in fl.assume(st.copy(), eq(at('identity'), C(IDSEL)), True):
                    ctx.ob(i == ident and entails(fl, s2, truth(ident)), 'selection-needs-identifier', where,
                           'identifier selection answered without the application supplying the identifier')
                    if two:
                        for s3 in fl.assume(s2.copy(), truth(claimed), True):
                            ctx.ob(c == claimed, 'selection-claimed-id', where, 'the supplied claimed identifier is not the one asserted')
                        for s3 in fl.assume(s2.copy(), truth(claimed), False):
                            ctx.ob(c == ident, 'selection-claimed-id', where, 'another claimed identifier than the one supplied is asserted')
                for s1 in fl.assume(st.copy(), eq(at('identity'), C(IDSEL)), False):
                    for s2 in fl.assume(s1.copy(), truth(at('identity')), True):
                        ctx.ob(i == at('identity') or i == NONE and entails(fl, s2, eq(at('identity'), NONE)), 'requested-identifier-asserted', where,
                               'a positive answer asserts another identifier than the requested one')
                        if two:
                            ctx.ob(c == at('claimed_id'), 'requested-claimed-id-asserted', where, 'a positive answer asserts another claimed identifier than the requested one')
                        same = OR(NOT(truth(ident)), eq(ident, at('identity')))
                        ok = entails(fl, s2, same) or any(
                            {a, b} == {A('call', 'openid.urinorm.urinorm', ident), A('call', 'openid.urinorm.urinorm', at('identity'))} for a, b in eq_pairs(s2))
                        ctx.ob(ok, 'different-identifier-refused', where, 'an identifier other than the requested one is accepted')
                    for s2 in fl.assume(s1.copy(), truth(at('identity')), False):
                        ctx.ob(i == NONE and c == NONE and entails(fl, s2, truth(ident), False) and two, 'no-identifier-unasked', where,
                               'a request without identifier is answered with one')
    for k, n in done.items():
        ctx.ob(n > 0, 'answers-exist', where, 'no %s answer' % k)


@prop('C13', 30, technique='path-sensitive dataflow: realm checks dominate every accepted request')
def c13(ctx):
    TR = 'openid.server.trustroot.TrustRoot'
    op = {TR + '.parse', TR + '.validateURL'}
    m = sym('message', MSG)
    accepted = 0
    for ns in (NS2, NS10, NS11):
        for mode in ('checkid_setup', 'checkid_immediate'):
            fl = ctx.flow(opaque=op, pure_calls=op)

            def setup(st):
                st.facts[eq(A('ns', m), C(ns))] = True
                st.facts[eq(ARG(m, 'mode'), C(mode))] = True
            where = CHECKID + '.fromMessage'
            rt = ARG(m, 'return_to')
            realm = ARG(m, 'realm' if ns == NS2 else 'trust_root')
            res = ctx.run(fl, where, [('k', CHECKID), m, sym('op_endpoint?')], setup=setup)
            for st0, v in res:
                if is_exc(v):
                    continue
                accepted += 1
                ctx.ob(plain(field(fl, st0, v, 'return_to')) == rt, 'return-address-from-request', where, 'another return address is used')
                for st in fl.assume(st0.copy(), eq(rt, NONE), False):
                    ok = any(isA(x[2], 'call') and x[2][2] == TR + '.parse' and x[2][-1] == rt for x, b in st.facts.items()
                             if (x[1] == 'truthy' and b)) or any(isA(x, 'call') and x[2] == TR + '.parse' and x[-1] == rt and notnone(fl, st, x)
                                                                for a in st.facts for x in subterms(a))
                    ctx.ob(ok, 'return-address-parses', where, 'a return address that does not parse is accepted (%s)' % ns)
                    for s2 in fl.assume(st.copy(), truth(realm), True):
                        ctx.ob(within(fl, s2, TR, realm, rt), 'return-address-in-realm', where, 'a return address outside the realm is accepted (%s)' % ns)
                    for s2 in fl.assume(st.copy(), truth(realm), False):
                        for s3 in fl.assume(s2, truth(rt), True):
                            ctx.ob(within(fl, s3, TR, rt, rt), 'return-address-in-realm', where, 'a return address is accepted without realm check (%s)' % ns)
                for st in fl.assume(st0.copy(), eq(rt, NONE), True):
                    ctx.ob(ns == NS2 and entails(fl, st, eq(realm, NONE), False), 'realm-or-return-address', where,
                           'a request with neither realm nor return address is accepted (%s)' % ns)
                    for s2 in fl.assume(st, truth(realm), True):
                        ctx.ob(any(isA(x, 'call') and x[2] == TR + '.parse' and x[-1] == realm and notnone(fl, s2, x) for a in s2.facts for x in subterms(a)),
                               'realm-parses', where, 'a realm that does not parse is accepted (%s)' % ns)
    ctx.ob(accepted > 0, 'requests-accepted', CHECKID + '.fromMessage', 'no request is ever accepted')
    # everything refused surfaces as a protocol error
    fl = ctx.flow(opaque=op, pure_calls=op, pure_raises={x: [] for x in op}, typed_attrs={'server': S + 'Server'}, keep=words('zzz'))
    dec = sym('self', S + 'Decoder')
    ep = A('attr', A('attr', dec, 'server'), 'op_endpoint')
    res = ctx.run(fl, S + 'Decoder.decode', [dec, sym('query')], setup=lambda st: st.facts.update({eq(ep, NONE): False}))
    for st, v in res:
        if is_exc(v):
            c = cls_of(fl, st, v)
            ctx.ob(fl.exc_match(c, S + 'ProtocolError'), 'refused-as-protocol-error', S + 'Decoder.decode', 'decoding ends in %s instead of a protocol error' % c)
    # requests without a return address can be neither answered nor cancelled
    r = sym('request', CHECKID)
    for meth, args in (('answer', [r, sym('allow')]), ('getCancelURL', [r]), ('encodeToURL', [r, sym('server_url')])):
        fl = ctx.flow(opaque=op | {'openid.store.nonce.mkNonce', 'openid.urinorm.urinorm'}, typed_attrs={'message': MSG}, keep=words('return_to'))
        for st, v in ctx.run(fl, CHECKID + '.' + meth, args):
            if not is_exc(v):
                ctx.ob(entails(fl, st, truth(A('attr', r, 'return_to'))), 'no-reply-without-return-address', CHECKID + '.' + meth,
                       'a request without return address gets a reply')


def within(fl, st, TR, realm, rt):
    """TrustRoot.parse(realm).validateURL(rt) is true"""
    for a, b in st.facts.items():
        if a[1] == 'truthy' and b and isA(a[2], 'call') and a[2][2].endswith('validateURL'):
            t = a[2]
            if t[-1] == rt and isA(t[3], 'call') and t[3][2] == TR + '.parse' and t[3][-1] == realm:
                return notnone(fl, st, t[3])
    return False


TROOT = 'openid.server.trustroot.TrustRoot'
URINORM = 'openid.urinorm.urinorm'
USPLIT = 'six.moves.urllib.parse.urlsplit'
UUNSPLIT = 'six.moves.urllib.parse.urlunsplit'


def url_terms(x):
    """spellings of the parts of the normalised URL x"""
    n = A('call', URINORM, x)
    out = {}
    names = ['scheme', 'netloc', 'path', 'query', 'fragment']
    s = A('call', USPLIT, n)
    for i, nm in enumerate(names):
        out[nm] = [A('getitem', s, C(i)), A('attr', s, nm)]
    out['port'] = [A('attr', s, 'port')]
    out['host'] = [A('attr', s, 'hostname')]
    g = lambda i: A('getitem', s, C(i))
    out['full'] = {True: A('call', UUNSPLIT, T([C(''), C(''), g(2), g(3), g(4)])),
                   False: A('call', UUNSPLIT, T([C(''), C(''), C('/'), g(3), g(4)]))}
    return out


def any_fact(fl, st, fs):
    return any(entails(fl, st, f) for f in fs)


class Unknown(Exception):
    pass


MARKS = set('*./?&#')


def worded(t, env):
    """value of a string expression when the strings it is about are the given ones; constants with other characters than
    the marks of the realm syntax make it unknown, so that every class of strings has one representative"""
    if t in env:
        return env[t]
    if isC(t):
        if isinstance(t[2], str) and not set(t[2]) <= MARKS or isinstance(t[2], float) or isinstance(t[2], bytes):
            raise Unknown
        return t[2]
    if t[0] == 't':
        return tuple(worded(x, env) for x in t[1])
    if t[0] == 'not':
        return not worded(t[1], env)
    if t[0] in ('and', 'or'):
        vs = []
        for x in t[1]:
            try:
                vs.append(bool(worded(x, env)))
            except Unknown:
                vs.append(None)
        stop = t[0] == 'or'
        if stop in vs:
            return stop
        if None in vs:
            raise Unknown
        return not stop
    if t[0] != 'a':
        raise Unknown
    op = t[1]
    if op == 'lin':
        return sum(k * worded(x, env) for x, k in t[2]) + t[3]
    if op not in ('eq', 'lt0', 'le0', 'eq0', 'in', 'truthy', 'getitem', 'slice', 'len', 'cat', 'm:startswith', 'm:endswith', 'm:find', 'm:rfind', 'm:index',
                  'm:count', 'm:strip', 'm:lstrip', 'm:rstrip', 'm:split', 'm:rsplit', 'm:partition', 'm:rpartition', 'min', 'max', '+'):
        raise Unknown
    vs = [worded(x, env) for x in t[2:]]
    try:
        if op == 'eq':
            return vs[0] == vs[1]
        if op in ('lt0', 'le0', 'eq0'):
            return {'lt0': vs[0] < 0, 'le0': vs[0] <= 0, 'eq0': vs[0] == 0}[op]
        if op == 'in':
            return vs[0] in vs[1]
        if op == 'truthy':
            return bool(vs[0])
        if op == 'len':
            return len(vs[0])
        if op == 'getitem':
            return vs[0][vs[1]]
        if op == 'slice':
            return vs[0][slice(*vs[1:])]
        if op in ('cat', '+'):
            out = vs[0]
            for x in vs[1:]:
                out = out + x
            return out
        if op in ('min', 'max'):
            return min(vs) if op == 'min' else max(vs)
        return getattr(vs[0], op[2:])(*vs[1:])
    except (TypeError, AttributeError, ValueError):
        raise Unknown


HOSTS = [(r, u) for r in ('', '*', '*.', '.', 'd.t', '.d.t', 'a.d.t', '*.d.t', '*d.t', 'a*.d.t', '*.*.t', '*.a.d.t')
         for u in ('', '.', 'd.t', '.d.t', 'a.d.t', 'ad.t', 'b.a.d.t', '*.d.t', '*', 'o.u')]
PATHS = [(r, u) for r in ('/', '/p', '/p/', '/p?', '/p?q', '/p?q&', '/p&', '/p/q', '/?')
         for u in sorted({r, '/', '/o', '/p', '/px', '/po/', '/o/p', '/p?', '/p/q'} | {r + c + z for c in '/?&x' for z in ('', 'y')} | {r[:-1] + c for c in 'o/?&'})
         if u.startswith('/')]


def host_ok(r, u):
    if not r or not u or '*' in u or '*' in r[1:]:
        return False
    if r[0] != '*':
        return r == u
    return (len(r) == 1 or r[1] == '.') and (u.endswith(r[1:]) or '.' + u == r[1:])


def path_ok(r, u):
    al = '&' if '?' in r else '?/'
    return u == r or u.startswith(r) and (r[-1] in al or u[len(r)] in al)


def worlds(st, pairs, names):
    """the pairs of strings no condition of the path rules out"""
    out = []
    for pair in pairs:
        env = {t: x for ts, x in zip(names, pair) for t in ts}
        for f, val in st.facts.items():
            try:
                if bool(worded(f, env)) != val:
                    break
            except Unknown:
                continue
            except IndexError:
                break          # evaluating the condition would have raised
        else:
            out.append(pair)
    return out


@prop('C14', 60, technique='path-sensitive dataflow: match conditions required on every accepting path, refusal conditions on every refusing path')
def c14(ctx):
    realm, url = sym('realm'), sym('url')
    R, U = url_terms(realm), url_terms(url)
    where = TROOT + '.checkURL'
    fl = ctx.flow(opaque={URINORM}, pure_calls={URINORM}, pure_raises={URINORM: []})
    res = ctx.run(fl, where, [('k', TROOT), realm, url])
    hR, hU = R['host'][0], U['host'][0]
    tail = A('slice', hR, C(1), NONE, NONE)
    star = A('m:startswith', hR, C('*'))
    yes = no = 0
    hnames, pnames = (R['host'], U['host']), (list(R['full'].values()), list(U['full'].values()))
    for st0, v in res:
        if is_exc(v):
            ctx.ob(False, 'matching-never-raises', where, 'matching ends in %s' % cls_of(fl, st0, v))
            continue
        for st in cases(fl, st0, v, True):
            yes += 1
            ctx.ob(any_fact(fl, st, [eq(a, b) for a in R['scheme'] for b in U['scheme']]), 'schemes-equal', where, 'a URL with another scheme is matched')
            ctx.ob(any_fact(fl, st, [eq(a, b) for a in R['port'] for b in U['port']]), 'ports-equal', where, 'a URL with another port is matched')
            ctx.ob(entails(fl, st, truth(hR)) and entails(fl, st, truth(hU)), 'host-present', where, 'a URL or realm without a host is matched')
            wild = AND(star, OR(le(A('len', hR), C(1)), eq(A('getitem', hR, C(1)), C('.')), A('m:startswith', hR, C('*.')), eq(hR, C('*'))))
            sub_ok = OR(A('m:endswith', hU, tail), eq(A('cat', C('.'), hU), tail))
            exact = eq(hR, hU)
            ok = entails(fl, st, exact) or (entails(fl, st, wild) and entails(fl, st, sub_ok)) or all(host_ok(*x) for x in worlds(st, HOSTS, hnames))
            ctx.ob(ok, 'host-matches', where, 'a URL on a host outside the realm is matched')
            ctx.ob(any_fact(fl, st, [eq(A('m:find', hR, C('*'), C(1)), C(-1)), NOT(A('in', C('*'), hR)), NOT(A('in', C('*'), tail)), exact]) or
                   all('*' not in x[0][1:] for x in worlds(st, HOSTS, hnames)),
                   'wildcard-only-leading', where, 'a realm with a misplaced wildcard is accepted')
            pr, pu = full_path(fl, st, R), full_path(fl, st, U)
            if not ctx.ob(pr is not None and pu is not None, 'path-normalised', where, 'an empty path is not treated as /'):
                continue
            ctx.ob(any_fact(fl, st, [NOT(A('in', C('#'), pr))] + [NOT(truth(x)) for x in R['fragment']]), 'realm-without-fragment', where,
                   'a realm with a fragment is accepted')
            if entails(fl, st, eq(pr, pu)) or all(path_ok(*x) for x in worlds(st, PATHS, pnames)):
                continue
            ctx.ob(entails(fl, st, A('m:startswith', pu, pr)), 'path-prefix', where, 'a URL outside the path of the realm is matched')
            q = A('in', C('?'), pr)
            for s2 in fl.assume(st.copy(), q, True):
                ctx.ob(boundary(fl, s2, pr, pu, '&'), 'path-boundary', where, 'a URL is matched that continues the query of the realm inside an argument')
            for s2 in fl.assume(st.copy(), q, False):
                ctx.ob(boundary(fl, s2, pr, pu, '?/'), 'path-boundary', where, 'a URL is matched that continues the path of the realm inside a segment')
        for st in cases(fl, st0, v, False):
            no += 1
            hit = []
            for pr in R['full'].values():
                for pu in U['full'].values():
                    base = [eq(a, b) for a in R['scheme'] for b in U['scheme']] + [eq(R['port'][0], U['port'][0]), truth(hR), truth(hU),
                            NOT(A('in', C('*'), hU)), NOT(A('in', C('#'), pr)), eq(A('m:find', hR, C('*'), C(1)), C(-1)), NOT(A('in', C('*'), tail))]
                    base += [NOT(truth(x)) for x in R['fragment']]
                    base += [truth(x) if pr is R['full'][True] else NOT(truth(x)) for x in R['path']]
                    base += [truth(x) if pu is U['full'][True] else NOT(truth(x)) for x in U['path']]
                    dot = [A('m:startswith', hR, C('*.')), star, eq(A('getitem', hR, C(1)), C('.')), eq(A('getitem', hR, C(0)), C('*')), A('in', C('*'), hR),
                           NOT(eq(hR, C('*')))]
                    hosts = [[NOT(star), NOT(eq(A('getitem', hR, C(0)), C('*'))), NOT(A('in', C('*'), hR)), eq(hR, hU)],
                             dot + [A('m:endswith', hU, tail), NOT(eq(A('cat', C('.'), hU), tail))],
                             dot + [NOT(A('m:endswith', hU, tail)), eq(A('cat', C('.'), hU), tail)],
                             [star, eq(hR, C('*')), NOT(A('m:startswith', hR, C('*.'))), NOT(truth(tail)), A('m:endswith', hU, tail)]]
                    last, nxt = A('getitem', pr, C(-1)), A('getitem', pu, A('len', pr))
                    pre = [A('m:startswith', pu, pr), NOT(eq(pr, pu))]
                    paths = [[eq(pr, pu)]]
                    for ch, al, qv in (('/', '?/', False), ('?', '?/', False), ('&', '&', True)):
                        qf = A('in', C('?'), pr)
                        for t in (last, nxt):
                            paths.append(pre + [qf if qv else NOT(qf), A('in', t, C(al)), eq(t, C(ch)), A('in', t, T([C(x) for x in al]))] +
                                         ([A('m:endswith', pr, C(ch))] if t is last else []))
                    for h in hosts:
                        for p in paths:
                            for s2 in fl.assume(st.copy(), AND(*(base + h + p)), True):
                                if any(host_ok(*x) for x in worlds(s2, HOSTS, hnames)) and any(path_ok(*x) for x in worlds(s2, PATHS, pnames)):
                                    hit.append((h, p))
            ctx.ob(not hit, 'refusal-has-a-reason', where, 'a URL the realm covers is refused%s' % (': ' + show(hit[0][0][-1])[:80] + ', ' + show(hit[0][1][-1])[:80] if hit else ''))
    ctx.ob(yes > 0 and no > 0, 'both-answers', where, 'matching always gives the same answer')
    # an unparsable URL or realm is a refusal, not an exception
    fl = ctx.flow(opaque={URINORM}, pure_calls={URINORM}, pure_raises={URINORM: ['ValueError']}, keep=words('zzz'))
    for st, v in ctx.run(fl, where, [('k', TROOT), realm, url]):
        ctx.ob(not is_exc(v), 'matching-never-raises', where, 'an unparsable URL makes matching raise')
    # normalisation: only http and https, default ports dropped
    fl = ctx.flow(keep=lambda a: "'port'" in repr(a) or "'m:lower'" in repr(a), opaque={'openid.urinorm.remove_dot_segments'}, pure_calls={'openid.urinorm.remove_dot_segments'})
    u = sym('uri')
    sp = A('call', USPLIT, u)
    k = 0
    for st, v in ctx.run(fl, URINORM, [u]):
        if is_exc(v):
            c = cls_of(fl, st, v)
            ctx.ob(fl.exc_match(c, 'ValueError'), 'normalisation-errors-are-value-errors', URINORM, 'normalisation ends in %s' % c)
            continue
        k += 1
        schemes = [A('m:lower', A('getitem', sp, C(0)))]
        ok = any(entails(fl, st, OR(eq(s, C('http')), eq(s, C('https')))) or entails(fl, st, A('in', s, T([C('http'), C('https')]))) for s in schemes)
        ctx.ob(ok, 'only-http-and-https', URINORM, 'a URL of another scheme normalises')
        port = A('attr', sp, 'port')
        fz = fl.freeze(st, v)
        for sch, num in (('http', 80), ('https', 443)):
            for s in schemes:
                for s2 in fl.assume(st.copy(), AND(eq(s, C(sch)), eq(port, C(num))), True):
                    ctx.ob(not has_text_of(fz, port), 'default-port-dropped', URINORM, 'the default port of %s is kept' % sch)
        for s2 in fl.assume(st.copy(), AND(truth(port), NOT(eq(port, C(80))), NOT(eq(port, C(443)))), True):
            ctx.ob(has_text_of(fz, port), 'other-port-kept', URINORM, 'an explicit port is dropped')
    ctx.ob(k > 0, 'normalises', URINORM, 'no URL normalises')


def has_text_of(t, x):
    return any(isA(y) and y[1] in ('text', 'str', 'fmt') and x in y[2:] for y in subterms(t)) or has(t, x)


def full_path(fl, st, P):
    for val in (True, False):
        if any(entails(fl, st, truth(x), val) for x in P['path']):
            return P['full'][val]
    return None


def boundary(fl, st, pr, pu, chars):
    """the realm path ends with, or the URL path continues with, one of chars"""
    for t in (A('getitem', pr, C(-1)), A('getitem', pu, A('len', pr))):
        for a, b in st.facts.items():
            if b and a[1] == 'in' and a[2] == t:
                c = a[3]
                cs = [c[2]] if isC(c) and isinstance(c[2], str) else [x[2] for x in c[1]] if c[0] == 't' and all(isC(x) for x in c[1]) else ['~']
                if set(''.join(cs)) <= set(chars):
                    return True
            if b and a[1] == 'eq' and t in (a[2], a[3]):
                o = a[3] if a[2] == t else a[2]
                if isC(o) and o[2] in tuple(chars):
                    return True
            if b and a[1] == 'm:endswith' and a[2] == pr and t == A('getitem', pr, C(-1)):
                o = a[3]
                if isC(o) and isinstance(o[2], str) and o[2] and o[2][-1] in chars:
                    return True
    return False


@prop('C15', 20, technique='path-sensitive dataflow: discovery, redirect and match facts on every verified path')
def c15(ctx):
    T0 = 'openid.server.trustroot.'
    GSE = 'openid.yadis.services.getServiceEndpoints'
    op = {TROOT + '.parse', TROOT + '.validateURL', URINORM}
    where = T0 + 'verifyReturnTo'
    realm, rt = sym('realm'), sym('return_to')
    raises = {x: [] for x in op}
    fl = ctx.flow(opaque=op | {GSE}, pure_calls=op, pure_raises=raises)
    n = 0
    flt = set()
    for st0, v in ctx.run(fl, where, [realm, rt]):
        for e in calls(st0, GSE, ok=False):
            flt.add(e[3][1] if len(e[3]) > 1 else dict(e[4]).get('flt', NONE))
        if is_exc(v):
            continue
        for st in cases(fl, st0, v, True):
            n += 1
            pr = A('call', TROOT + '.parse', ('k', TROOT), realm)
            ctx.ob(notnone(fl, st, pr), 'realm-parses', where, 'a realm that does not parse is verified')
            ev = calls(st, GSE)
            if not ctx.ob(len(ev) == 1, 'discovery-done', where, 'verified without discovery on the realm'):
                continue
            url, got = ev[0][3][0], ev[0][6]
            for s2 in fl.assume(st.copy(), truth(A('attr', pr, 'wildcard')), True):
                ok = isA(url, 'cat') and any(isC(x) and x[2].endswith('://www') and y == A('attr', pr, 'host') for x, y in zip(url[2:], url[3:])) and \
                    url[2] == A('attr', pr, 'proto') and url[-1] == A('attr', pr, 'path')
                ctx.ob(ok, 'discovery-url-of-wildcard-realm', where, 'discovery is done on another URL than the www host of the wildcard realm')
            for s2 in fl.assume(st.copy(), truth(A('attr', pr, 'wildcard')), False):
                ctx.ob(url in (A('attr', pr, 'unparsed'), realm), 'discovery-url-of-realm', where, 'discovery is done on another URL than the realm')
            n1, n2 = A('call', URINORM, url), A('call', URINORM, A('getitem', got, C(0)))
            ctx.ob(entails(fl, st, eq(n1, n2)) or entails(fl, st, eq(url, A('getitem', got, C(0)))), 'no-redirect', where,
                   'verified although discovery on the realm was redirected')
            lst = A('getitem', got, C(1))
            p = A('call', TROOT + '.parse', ('k', TROOT), A('elem', lst))
            ok = False
            for x in {y for a in st.facts for y in subterms(a)} | {p}:
                if isA(x, 'call') and x[2] == TROOT + '.parse' and has(x[-1], lst) and notnone(fl, st, x) and \
                        entails(fl, st, truth(A('attr', x, 'wildcard')), False) and \
                        any(b and a[1] == 'truthy' and isA(a[2], 'call') and a[2][2].endswith('validateURL') and a[2][3] == x and a[2][-1] == rt
                            for a, b in st.facts.items()):
                    ok = True
            ctx.ob(ok, 'published-address-matches', where, 'verified although no published wildcard-free return address need match')
    ctx.ob(n > 0, 'verifies', where, 'nothing is ever verified')
    # which published services count
    for f in flt:
        if not ctx.ob(f[0] == 'f' and f[1] in ctx.p.funcs, 'filter-is-a-function', where, 'the published services are not filtered by type'):
            continue
        ep = sym('ep', 'openid.yadis.filters.BasicServiceEndpoint')
        fl = ctx.flow()
        for st, v in ctx.run(fl, f[1], [ep]):
            if is_exc(v):
                continue
            for s2 in fl.assume(st.copy(), eq(v, NONE), False):
                ctx.ob(v == A('attr', ep, 'uri') and entails(fl, s2, A('in', C('http://specs.openid.net/auth/2.0/return_to'), A('attr', ep, 'type_uris'))),
                       'only-return-to-services', f[1], 'a service that is not of the return_to type counts as published')
    # the URL compared for redirects is the one discovery ended at; services come from the document found there
    D, AF = 'openid.yadis.discover.discover', 'openid.yadis.services.applyFilter'
    fl = ctx.flow(opaque={D, AF}, pure_calls={AF})
    k = 0
    u = sym('url')
    for st, v in ctx.run(fl, GSE, [u, sym('flt')]):
        if is_exc(v):
            continue
        k += 1
        ev = calls(st, D)
        ok = len(ev) == 1 and ev[0][3][0] == u
        fz = fl.freeze(st, v)
        if ok:
            r = ev[0][6]
            ok = fz[0] == 't' and fz[1][0] == A('attr', r, 'normalized_uri') and any(isA(x, 'call') and x[2] == AF and has(x, A('attr', r, 'response_text'))
                                                                                    for x in subterms(fz[1][1]))
        ctx.ob(ok, 'services-of-the-final-document', GSE, 'the services or the final URL are not those of the document discovered')
    ctx.ob(k > 0, 'discovers', GSE, 'discovery never returns')
    # matching by itself
    M2 = T0 + 'returnToMatches'
    lst = sym('allowed')
    fl = ctx.flow(opaque=op, pure_calls=op, pure_raises=raises)
    for st0, v in ctx.run(fl, M2, [lst, rt]):
        if is_exc(v):
            ctx.ob(False, 'matching-never-raises', M2, 'matching published addresses raises')
            continue
        for st in cases(fl, st0, v, True):
            ok = any(isA(x, 'call') and x[2] == TROOT + '.parse' and x[-1] == A('elem', lst) and notnone(fl, st, x) and
                     entails(fl, st, truth(A('attr', x, 'wildcard')), False) and
                     any(b and a[1] == 'truthy' and isA(a[2], 'call') and a[2][2].endswith('validateURL') and a[2][3] == x and a[2][-1] == rt
                         for a, b in st.facts.items()) for x in {y for a in st.facts for y in subterms(a)})
            ctx.ob(ok, 'published-address-matches', M2, 'an address matches although no published wildcard-free address covers it')


SESSIONS = {'no-encryption': ('HMAC-SHA1', 'HMAC-SHA256'), 'DH-SHA1': ('HMAC-SHA1',), 'DH-SHA256': ('HMAC-SHA256',)}
SIZES = {'HMAC-SHA1': 20, 'HMAC-SHA256': 32}
DH = 'openid.dh.DiffieHellman'
NEG = 'openid.association.SessionNegotiator'
SRV = S + 'Server'


def secret_outside(t, secret, wrap):
    """secret occurs in t outside a call of wrap"""
    if t == secret:
        return True
    if isA(t, 'call') and t[2] == wrap:
        return False
    if isinstance(t, tuple):
        return any(secret_outside(x, secret, wrap) for x in t if isinstance(x, tuple) and x)
    return False


def session_classes(ctx):
    """{session type: [session class]} found by parsing requests"""
    m = sym('message', MSG)
    where = ASSOCREQ + '.fromMessage'
    found = {}
    for ns in (NS2, NS10, NS11):
        op = {DH + '.fromDefaults', DH + '.__init__'}
        fl = ctx.flow(opaque=op, keep=words("'session_type'", "'assoc_type'"))
        res = ctx.run(fl, where, [('k', ASSOCREQ), m, sym('op_endpoint')], setup=lambda st: st.facts.update({eq(A('ns', m), C(ns)): True}))
        n = 0
        stype, atype = ARG(m, 'session_type'), ARG(m, 'assoc_type')
        for st, v in res:
            if is_exc(v):
                c = cls_of(fl, st, v)
                ctx.ob(fl.exc_match(c, S + 'ProtocolError'), 'bad-associate-is-protocol-error', where, 'a bad associate request ends in %s' % c)
                continue
            n += 1
            sess = rawfield(fl, st, v, 'session')
            cls = fl.type_of(st, sess)
            k = field(fl, st, sess, 'session_type')
            al = field(fl, st, sess, 'allowed_assoc_types')
            t = k[2] if k is not None and isC(k) else None
            if not ctx.ob(t in SESSIONS, 'known-session-type', where, 'a request with an unknown session type is accepted'):
                continue
            found.setdefault(t, set()).add(cls)
            ok = entails(fl, st, eq(stype, C(t))) or (ns != NS2 and t == 'no-encryption' and entails(fl, st, OR(NOT(truth(stype)), eq(stype, C(t)))))
            ctx.ob(ok, 'session-as-requested', where, 'a %s session is set up for another requested session type (%s)' % (t, ns))
            vw = fl.view(st, rawfield(fl, st, sess, 'allowed_assoc_types'))
            got = sorted(x[2] for x in vw[1] if isC(x)) if vw else None
            ctx.ob(got == sorted(SESSIONS[t]), 'session-association-types', where, 'a %s session may carry %s' % (t, got))
            a = plain(field(fl, st, v, 'assoc_type'))
            if isC(a):
                ctx.ob(ns != NS2 and a[2] == 'HMAC-SHA1' and isnone(fl, st, atype), 'association-type-as-requested', where, 'another association type than the requested one is used')
                ctx.ob(a[2] in SESSIONS[t], 'pair-allowed', where, 'an association type the session cannot carry is accepted (%s)' % t)
            else:
                ctx.ob(a == atype, 'association-type-as-requested', where, 'another association type than the requested one is used')
                ctx.ob(entails(fl, st, OR(*[eq(a, C(x)) for x in SESSIONS[t]])), 'pair-allowed', where,
                       'an association type the session cannot carry is accepted (%s)' % t)
        ctx.ob(n > 0, 'associate-accepted', where, 'no associate request is accepted (%s)' % ns)
    return found


@prop('C16', 60, technique='path-sensitive dataflow: decision facts, secret provenance and content of every associate answer')
def c16(ctx):
    from .consumer import negotiator_rules
    found = session_classes(ctx)
    ctx.ob(set(found) == set(SESSIONS), 'every-session-type', ASSOCREQ + '.fromMessage', 'session types served: %s' % sorted(found))
    shared, private = store_keys(ctx)
    rq = sym('request', ASSOCREQ)
    where = SRV + '.openid_associate'
    op = {NEG + '.isAllowed', NEG + '.getAllowedType', DH + '.xor_secret'}
    srv = sym('self', SRV)
    neg = A('attr', srv, 'negotiator')
    for t, classes in sorted(found.items()):
        for cls in sorted(classes):
            for atype in SESSIONS[t]:
                for one in (True, False):
                    fl = ctx.flow(typed_attrs={'session': cls, 'negotiator': NEG, 'signatory': SIGN, 'message': MSG, 'fields': MSG, 'dh': DH}, opaque=op,
                                  pure_calls=op - {DH + '.xor_secret'}, pure_raises={x: [] for x in op})

                    def setup(st):
                        st.facts[eq(A('attr', rq, 'assoc_type'), C(atype))] = True
                        st.facts[eq(A('ns', A('attr', rq, 'message')), C(NS10 if one else NS2))] = True
                        hf = A('attr', A('attr', rq, 'session'), 'hash_func')
                        st.facts[eq(hf, NONE)] = True
                    okd = A('call', NEG + '.isAllowed', neg, A('attr', rq, 'assoc_type'), C(t))
                    issued = refused = 0
                    for st, v in ctx.run(fl, where, [srv, rq], setup=setup):
                        stored = calls(st, '.storeAssociation')
                        if is_exc(v):
                            c = cls_of(fl, st, v)
                            if fl.exc_match(c, S + 'ProtocolError') and one:
                                refused += 1
                                ctx.ob(entails(fl, st, okd, False) and not stored, 'refused-only-when-not-allowed', where, 'an allowed pair is refused')
                            continue
                        F = fl.freeze(st, rawfield(fl, st, v, 'fields'))
                        if not ctx.ob(isA(F, 'msg') and F[3] == NONE, 'answer-is-a-new-message', where, 'the answer is not built from an empty message'):
                            continue
                        ov = overrides(F)
                        ov = {k: x for (n, k), x in ov.items()}
                        if 'error_code' in ov or 'error' in ov:
                            refused += 1
                            ctx.ob(entails(fl, st, okd, False), 'refused-only-when-not-allowed', where, 'an allowed pair is refused')
                            ctx.ob(not one and ov.get('error_code') == C('unsupported-type') and not stored, 'unsupported-type-error', where,
                                   'a refused pair is not answered with unsupported-type')
                            pref = A('call', NEG + '.getAllowedType', neg)
                            ctx.ob(set(ov) <= {'error_code', 'error', 'assoc_type', 'session_type'}, 'refusal-content', where, 'a refusal carries %s' % sorted(ov))
                            for i, k in enumerate(('assoc_type', 'session_type')):
                                p = A('getitem', pref, C(i))
                                ctx.ob(plain(ov[k]) == p if k in ov else entails(fl, st, truth(p), False), 'preferred-pair-sent', where,
                                       'the preferred allowed pair is not sent with the refusal')
                            continue
                        issued += 1
                        ctx.ob(entails(fl, st, okd), 'issued-only-when-allowed', where, 'a pair the configuration does not allow is granted (%s)' % t)
                        if not ctx.ob(len(stored) == 1 and {stored[0][3][0]} == shared, 'stored-as-shared', where, 'the granted association is not stored as a shared one'):
                            continue
                        o = stored[0][3][1]
                        secret, handle = field(fl, st, o, 'secret'), field(fl, st, o, 'handle')
                        ctx.ob(isA(secret, 'call') and secret[2] == 'os.urandom' and secret[3] == C(SIZES[atype]), 'secret-is-os-randomness', where,
                               'the secret for %s is not %d bytes of operating-system randomness' % (atype, SIZES[atype]))
                        at = field(fl, st, o, 'assoc_type')
                        ctx.ob(plain(at) in (C(atype), A('attr', rq, 'assoc_type')), 'stored-type', where, 'the association is stored under another type')
                        ctx.ob(plain(ov.get('assoc_type', NONE)) in (C(atype), A('attr', rq, 'assoc_type')), 'answer-type', where, 'the answer names another type')
                        ctx.ob(ov.get('assoc_handle') == handle, 'answer-handle', where, 'the answer names another handle')
                        ex = ov.get('expires_in')
                        life = sub(add(field(fl, st, o, 'issued'), field(fl, st, o, 'lifetime')), NOW)
                        ctx.ob(ex is not None and isC(life) and (has(ex, life) or ex == C(str(life[2]))), 'answer-lifetime', where, 'the answer does not carry the remaining lifetime')
                        st_ = ov.get('session_type')
                        ctx.ob(st_ == C(t) or (one and t == 'no-encryption' and st_ is None), 'answer-session-type', where, 'the answer names another session type')
                        if t == 'no-encryption':
                            mk = ov.get('mac_key')
                            ctx.ob(mk is not None and hascall(mk, 'binascii.b2a_base64') and has(mk, secret) or mk is not None and hascall(mk, 'base64.b64encode') and has(mk, secret),
                                   'plain-secret', where, 'the answer does not carry the secret')
                            ctx.ob('enc_mac_key' not in ov, 'plain-secret', where, 'a plain answer carries an encrypted secret')
                        else:
                            ctx.ob(not any(secret_outside(x, secret, DH + '.xor_secret') for x in ov.values()), 'secret-only-encrypted', where,
                                   'a %s answer carries the secret unencrypted' % t)
                            x = ov.get('enc_mac_key', NONE)
                            ok = isA(x, 'call') and x[2] == DH + '.xor_secret' and has(x, secret) and \
                                has(x, A('attr', A('attr', rq, 'session'), 'consumer_public_key')) and \
                                any(isA(y) and ('SHA256' if t == 'DH-SHA256' else 'SHA1') in repr(y[:3]) for y in subterms(x[-1]))
                            ctx.ob(ok, 'secret-encrypted', where, 'the %s answer does not carry the secret masked with the shared key' % t)
                            ctx.ob('dh_server_public' in ov, 'server-public-key', where, 'the %s answer lacks the public key' % t)
                        ctx.ob(set(ov) <= {'expires_in', 'assoc_type', 'assoc_handle', 'session_type', 'mac_key', 'enc_mac_key', 'dh_server_public'},
                               'answer-content', where, 'the answer carries %s' % sorted(ov))
                    ctx.ob(issued > 0 and refused > 0, 'granted-and-refused', where, 'pairs are never granted or never refused (%s, %s)' % (t, atype))
    negotiator_rules(ctx)
    # both kinds of association get strong secrets, and other types none
    ty = sym('assoc_type')
    for dumb in (True, False):
        fl = ctx.flow()
        for st, v in ctx.run(fl, SIGN + '.createAssociation', [sym('self', SIGN)], kw=[('dumb', C(dumb)), ('assoc_type', ty)]):
            if is_exc(v):
                ctx.ob(not calls(st, '.storeAssociation'), 'failure-stores-nothing', SIGN + '.createAssociation', 'an association is stored although creation fails')
                continue
            sec = field(fl, st, v, 'secret')
            ok = any(entails(fl, st, eq(ty, C(a))) and sec == A('call', 'os.urandom', C(n)) for a, n in SIZES.items())
            ctx.ob(ok, 'secret-is-os-randomness', SIGN + '.createAssociation', 'a secret is not fresh operating-system randomness of the length of the type')
            h = field(fl, st, v, 'handle')
            ctx.ob(any(isA(x, 'call') and x[2] == 'os.urandom' for x in subterms(h)), 'handle-is-unpredictable', SIGN + '.createAssociation', 'handles can repeat')
            es = calls(st, '.storeAssociation')
            ctx.ob(len(es) == 1 and {es[0][3][0]} == (private if dumb else shared) and es[0][3][1] == fl.freeze(st, v), 'stored-under-its-kind', SIGN + '.createAssociation',
                   'the new association is not stored under its kind')


LIMIT = 2047
PERR = S + 'ProtocolError'


@prop('C17', 40, technique='path-sensitive dataflow: encoding chosen on every path against the specified table')
def c17(ctx):
    where = S + 'Encoder.encode'
    types = {'fields': MSG, 'message': MSG, 'openid_message': MSG}

    def check_browser(fl, st, m, ns, rt, code, heads, body, what):
        """redirect, or form when the OpenID 2 reply is too long"""
        url = A('m:toURL', m, rt)
        long = NOT(le(A('len', url), C(LIMIT)))
        two = eq(ns, C(NS2))
        for s in fl.assume(st.copy(), AND(two, long), True):
            ctx.ob(code == C(200) and heads == A('D') and has(body, A('m:toFormMarkup', m, rt)), 'long-reply-as-form', where,
                   '%s that exceeds the redirect limit is not sent as a form' % what)
        for s in fl.assume(st.copy(), AND(two, long), False):
            ctx.ob(code == C(302) and heads == A('D', T([C('location'), url])) and body == C(''), 'browser-reply-as-redirect', where,
                   '%s is not sent as a redirect to the return address' % what)

    browser = ('checkid_setup', 'checkid_immediate')
    fl = ctx.flow(typed_attrs=types)
    r = sym('response', RESP)
    F, mode, rt = A('attr', r, 'fields'), A('attr', A('attr', r, 'request'), 'mode'), A('attr', A('attr', r, 'request'), 'return_to')
    n = 0
    for st, v in ctx.run(fl, where, [sym('self', S + 'Encoder'), r]):
        if not ctx.ob(not is_exc(v), 'reply-encodable', where, 'a reply cannot be encoded'):
            continue
        n += 1
        code, heads, body = (field(fl, st, v, k) for k in ('code', 'headers', 'body'))
        isb = OR(*[eq(mode, C(x)) for x in browser])
        for s in fl.assume(st.copy(), isb, True):
            check_browser(fl, s, F, A('ns', F), rt, code, heads, body, 'a reply to a browser request')
        for s in fl.assume(st.copy(), isb, False):
            ctx.ob(code == C(200) and heads == A('D') and body == A('m:toKVForm', F), 'direct-reply-as-key-values', where,
                   'a reply to a direct request is not key-value form with status 200')
    ctx.ob(n > 0, 'replies-encoded', where, 'no reply is ever encoded')
    fl = ctx.flow(typed_attrs=types)
    r = sym('error', PERR)
    m = A('attr', r, 'openid_message')
    rt, mode = ARG(m, 'return_to'), ARG(m, 'mode')
    k = 0
    for st, v in ctx.run(fl, where, [sym('self', S + 'Encoder'), r]):
        nort = isnone(fl, st, rt) or isnone(fl, st, m)
        if is_exc(v):
            ctx.ob(cls_of(fl, st, v) == S + 'EncodingError' and (isnone(fl, st, m) or nort and (
                entails(fl, st, truth(mode), False) or entails(fl, st, OR(*[eq(mode, C(x)) for x in browser])))), 'error-reply-encodable', where,
                'an error that can be reported to its sender is not')
            continue
        k += 1
        code, heads, body = (field(fl, st, v, q) for q in ('code', 'headers', 'body'))
        ms = []
        for t in roots(fl, st, v):
            top_msgs(t, ms)
        ms = set(ms)
        if not ctx.ob(len(ms) == 1 and isA(list(ms)[0], 'msg'), 'error-reply-has-one-message', where, 'an error reply does not carry one message'):
            continue
        q = ms.pop()
        ov = {kk: x for (nn, kk), x in overrides(q).items()}
        ctx.ob(q[2] == A('ns', m) and q[3] == NONE and ov.get('mode') == C('error') and 'error' in ov and set(ov) <= {'mode', 'error', 'contact', 'reference'},
               'error-reply-content', where, 'an error reply is not a mode=error message in the version of the request')
        for s in fl.assume(st.copy(), eq(rt, NONE), False):
            if isnone(fl, s, m):
                continue
            check_browser(fl, s, q, A('ns', m), rt, code, heads, body, 'an error reply')
        for s in fl.assume(st.copy(), eq(rt, NONE), True):
            ctx.ob(code == C(400) and heads == A('D') and body == A('m:toKVForm', q), 'direct-error-as-key-values', where,
                   'an error reply to a direct request is not key-value form with status 400')
    ctx.ob(k > 0, 'errors-encoded', where, 'no error is ever encoded')
    # decoding: the kind of request follows the mode, everything else is a protocol error
    table = {'checkid_setup': CHECKID, 'checkid_immediate': CHECKID, 'check_authentication': CHECKAUTH, 'associate': ASSOCREQ}
    where = S + 'Decoder.decode'
    op = {TROOT + '.parse', TROOT + '.validateURL', DH + '.fromDefaults'}
    dec = sym('self', S + 'Decoder')
    ep = A('attr', A('attr', dec, 'server'), 'op_endpoint')
    query = sym('query')
    fl = ctx.flow(opaque=op, pure_calls=op, pure_raises={x: [] for x in op}, typed_attrs={'server': S + 'Server'}, keep=words("'mode'", 'query'))
    got = set()
    pm = A('parsed', 'fromPostArgs', query)
    for st, v in ctx.run(fl, where, [dec, query], setup=lambda st: st.facts.update({eq(ep, NONE): False})):
        if is_exc(v):
            c = cls_of(fl, st, v)
            ctx.ob(fl.exc_match(c, PERR), 'malformed-is-protocol-error', where, 'decoding ends in %s instead of a protocol error' % c)
            continue
        if v == NONE:
            ctx.ob(entails(fl, st, truth(query), False), 'only-empty-is-no-request', where, 'a query with content is taken for no request')
            continue
        c = cls_of(fl, st, v)
        mm = ARG(pm, 'mode')
        fits = [x for x, k2 in table.items() if k2 == c]
        ctx.ob(bool(fits) and entails(fl, st, OR(*[eq(mm, C(x)) for x in fits])), 'request-kind-by-mode', where,
               'a %s is made for another or an unknown mode' % str(c).split('.')[-1])
        got.update(x for x in fits if fl.assume(st.copy(), eq(mm, C(x)), True))
        if c == CHECKID:
            im = field(fl, st, v, 'immediate')
            for x, b in (('checkid_setup', False), ('checkid_immediate', True)):
                for s in fl.assume(st.copy(), eq(mm, C(x)), True):
                    ctx.ob(entails(fl, s, truth(im), b), 'immediate-flag', where, 'the immediate flag does not follow the mode')
    ctx.ob(got == set(table), 'every-mode-served', where, 'modes served: %s' % sorted(got))
    # dispatch of direct requests
    for cls, meth in ((CHECKAUTH, 'answer'), (ASSOCREQ, 'openid_associate')):
        rq = sym('request', cls)
        op = {CHECKAUTH + '.answer', SRV + '.openid_associate'}
        fl = ctx.flow(opaque=op)
        k = 0
        for st, v in ctx.run(fl, SRV + '.handleRequest', [sym('self', SRV), rq]):
            if is_exc(v):
                ctx.ob(False, 'direct-requests-handled', SRV + '.handleRequest', 'a direct request ends in %s' % cls_of(fl, st, v))
                continue
            k += 1
            ctx.ob(isA(v, 'call') and v[2].split('.')[-1] == meth and has(v, rq), 'direct-requests-handled', SRV + '.handleRequest',
                   'a %s is not answered by its handler' % cls.split('.')[-1])
        ctx.ob(k > 0, 'direct-requests-handled', SRV + '.handleRequest', 'a %s is never answered' % cls.split('.')[-1])
