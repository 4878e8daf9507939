"""Cryptography and encoding rules (C24-C26)."""
import ast
import math

from ..core import *  # noqa: F401,F403
from ..core import ARG, MSG
from ..terms import T, add, linear, sub, subst
from . import prop
from .consumer import GC, M, STORE, complete_runs
from .server import ASSOC, ASSOCREQ, S, SIGN
from .store import rec_field, strip_enc

HASHLEN = {'HMAC-SHA1': ('SHA1', 20), 'HMAC-SHA256': ('SHA256', 32)}
MKNONCE = 'openid.store.nonce.mkNonce'
DH = 'openid.dh.DiffieHellman'
GETSIG = ASSOC + '.getMessageSignature'
RNG = {'.choice': 0, '.choices': 0, '.getrandbits': 0, '.randint': 0, '.randrange': 0, '.sample': 0, '.randbytes': 0}
SECURE_EXT = {'os.urandom', 'secrets.token_bytes', 'secrets.token_hex', 'secrets.token_urlsafe', 'secrets.randbits', 'secrets.randbelow',
              'secrets.choice', 'uuid.uuid4'}
ENCODERS = {'binascii.b2a_base64', 'base64.b64encode', 'base64.urlsafe_b64encode', 'base64.encodebytes', 'base64.standard_b64encode',
            'binascii.hexlify', 'codecs.encode', 'binascii.b2a_hex', 'bytearray.fromhex', 'binascii.unhexlify', 'int.from_bytes', 'format'}
BITS_PER_CHAR = 5.9     # of an alphanumeric or base64 text


# ---------------------------------------------------------------- C24
def num(t):
    return t[2] if isC(t) and isinstance(t[2], int) and not isinstance(t[2], bool) else None


def seq_len(t):
    if isC(t) and isinstance(t[2], (str, bytes)):
        return len(set(t[2]))
    if t[0] == 't':
        return len(set(t[1]))
    if isA(t, 'L') or isA(t, 'S'):
        return len(set(t[2:]))
    if isA(t) and t[1] in ('list', 'tuple', 'sorted', 'set'):
        return seq_len(t[2])
    return 1


def call_parts(x):
    """(name, positional arguments, keywords) of a call term, the counter of repeated calls left out"""
    pos, kws = [], {}
    for y in x[3:]:
        if y[0] == 't' and len(y[1]) == 2 and isC(y[1][0]) and isinstance(y[1][0][2], str) and y[1][0][2].isidentifier() and y[1][0][2] in ('k', 'nbytes', 'length', 'size'):
            kws[y[1][0][2]] = y[1][1]
        else:
            pos.append(y)
    return x[2], pos, kws


def secure_rng(t):
    return isA(t, 'call') and t[2] in ('random.SystemRandom', 'secrets.SystemRandom')


def source_bits(x):
    """bits of secure randomness a call result has; None when it is not a source"""
    if not isA(x, 'call'):
        return None
    name, a, kw = call_parts(x)
    if name in ('os.urandom', 'secrets.token_bytes', 'secrets.token_hex', 'secrets.token_urlsafe'):
        n = num(a[0]) if a else num(kw['nbytes']) if 'nbytes' in kw else 32 if name != 'os.urandom' else None
        return 8.0 * n if n is not None else 0.0
    if name == 'uuid.uuid4':
        return 122.0
    if name == 'secrets.randbits':
        return float(num(a[0]) or 0) if a else 0.0
    if name == 'secrets.randbelow':
        return math.log(num(a[0]) or 1, 2) if a else 0.0
    if name == 'secrets.choice':
        return math.log(seq_len(a[0]) or 1, 2)
    if name in RNG and a and secure_rng(a[0]):
        if name == '.choice':
            return math.log(max(1, seq_len(a[1])), 2)
        if name == '.choices':
            return math.log(max(1, seq_len(a[1])), 2) * (num(kw.get('k', a[3] if len(a) > 3 else C(1))) or 0)
        if name == '.sample':
            n, k = seq_len(a[1]), num(kw.get('k', a[2] if len(a) > 2 else C(0))) or 0
            return sum(math.log(max(1, n - i), 2) for i in range(k))
        if name == '.getrandbits':
            return float(num(a[1]) or 0)
        if name == '.randbytes':
            return 8.0 * (num(a[1]) or 0)
        if name in ('.randint', '.randrange'):
            lo, hi = (C(0), a[1]) if len(a) == 2 else (a[1], a[2])
            lo, hi = num(lo), num(hi)
            return math.log(max(1, hi - lo + (name == '.randint')), 2) if lo is not None and hi is not None else 0.0
    return None


def sources(t):
    return {x for x in subterms(t) if source_bits(x) is not None}


def repeat_count(it):
    """how many items an iterable has, when known"""
    if isA(it, 'call') and it[2] == 'itertools.repeat' and len(it) > 4:
        return num(it[4])
    if isA(it, 'range'):
        return num(it[-1])
    if isA(it, 'bytearray') or isA(it, 'list') or isA(it, 'iter'):
        return repeat_count(it[2])
    b = source_bits(it) if isA(it, 'call') and it[2] in ('os.urandom', 'secrets.token_bytes') else None
    return b / 8 if b else None


def entropy(t, loops=()):
    """lower bound, in bits, of the secure randomness a term carries"""
    if not isinstance(t, tuple) or not t or not isinstance(t[0], str):
        return sum(entropy(x, loops) for x in t) if isinstance(t, tuple) else 0.0
    b = source_bits(t)
    if b is not None:
        return b
    if t[0] == 't':
        return sum(entropy(x, loops) for x in set(t[1]))
    if not isA(t):
        return 0.0
    op = t[1]
    if op == 'slice':
        inner = entropy(t[2], loops)
        a, z = t[3], t[4]
        if a == NONE and z == C(-1):
            return inner        # the line end of base64
        lo = 0 if a == NONE else num(a)
        hi = num(z)
        if lo is not None and hi is not None and 0 <= lo <= hi:
            raw = t[2] in sources(t)
            return min(inner, (8.0 if raw else 4.0 if hascall(t[2], 'secrets.token_hex') or hascall(t[2], 'binascii.hexlify') else BITS_PER_CHAR) * (hi - lo))
        return 0.0
    if op in ('%', 'mod') and num(t[3]):
        return min(entropy(t[2], loops), math.log(num(t[3]), 2))
    if op == 'getitem':
        n = seq_len(t[2])
        return min(entropy(t[3], loops), math.log(n, 2)) if n > 1 else min(8.0, entropy(t[2], loops))
    if op == 'elem':
        c = repeat_count(t[2])
        e = entropy(t[2], loops)
        return e / c if c else 0.0
    if op == 'comp':
        c = repeat_count(t[2])
        per = min([entropy(o, loops) for fs, outs in t[3] for o in outs] or [0.0])
        if all(not outs for fs, outs in t[3]):
            return 0.0
        return per * c if c else 0.0
    if op == 'call' and t[2] == 'itertools.starmap':
        f, it = t[3], t[4]
        c = repeat_count(it)
        if c and isA(it, 'call') and isA(f, 'attr') and secure_rng(f[2]) and f[3] == 'choice' and it[3][0] == 't' and len(it[3][1]) == 1:
            return c * math.log(max(1, seq_len(it[3][1][0])), 2)
        return 0.0
    if op in ('digest', 'hexdigest', 'len', 'hash', 'eq', 'lt0', 'le0', 'truthy', 'and', 'or'):
        return 0.0 if op == 'len' else min(160.0, sum(entropy(x, loops) for x in t[2:]))
    if op == 'lv' and isA(t[2], 'while'):
        return dict(loops).get(t, 0.0)
    if op == 'attr' and t[3] in ('bytes', 'hex', 'int', 'urn', 'bytes_le'):
        return entropy(t[2], loops)
    if op == 'call' and t[2] not in ENCODERS:
        return 0.0
    src, tot = set(), 0.0
    for x in t[2:]:
        if isinstance(x, tuple):
            s = sources(x)
            if s and s <= src:
                continue        # the same random value again
            src |= s
            tot += entropy(x, loops)
    return tot


def loop_entropy(st, t):
    """a text built up in a while loop to a fixed length from secure choices only"""
    out = []
    for x in subterms(t):
        if isA(x, 'lv') and isA(x[2], 'while'):
            need = 0
            for a, v in st.facts.items():
                if a[1] in ('lt0', 'le0') and has(a[2], A('len', x)):
                    d, c = linear(a[2])
                    if d.get(A('len', x)) == 1 and len(d) == 1:
                        need = max(need, (-c if a[1] == 'lt0' else -c + 1) if not v else 0)
            bits = [b for e in st.events if e[0] == 'loop' and e[1] == x[2] for fs, evs in e[2] for ev in evs if ev[0] == 'call'
                    for b in [source_bits(ev[6]) if isinstance(ev[6], tuple) else None] if b is not None]
            if bits:
                out.append((x, need * min(bits)))
    return tuple(out)


def random_uses(mod):
    """(name, node) uses of the random and uuid modules' and numpy's generators other than the operating system's"""
    alias, out = {}, []
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split('.')[0] in ('random', 'uuid', 'numpy'):
                    alias[a.asname or a.name.split('.')[0]] = a.name
        elif isinstance(n, ast.ImportFrom) and n.module in ('random', 'uuid') and not n.level:
            for a in n.names:
                if a.name not in ('SystemRandom', 'uuid4', 'UUID'):
                    out.append(('%s.%s' % (n.module, a.name), n))
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias:
            if alias[n.value.id] == 'random' and n.attr != 'SystemRandom' or alias[n.value.id] == 'uuid' and n.attr in ('uuid1', 'getnode') \
                    or alias[n.value.id].startswith('numpy'):
                out.append(('%s.%s' % (alias[n.value.id], n.attr), n))
    return out


@prop('C24', 40, technique='provenance analysis of random values (entropy bound over value terms), constant-time comparison effect rule, insecure-source lint',
      explain='Every value of Signatory.createAssociation, mkNonce and the Diffie-Hellman sessions is traced to the call it was drawn from; an atom '
              'that mentions a computed signature may only be the constant-time comparison.')
def c24(ctx):
    # associations
    fl = ctx.flow(records=[ASSOC])
    res = ctx.run(fl, SIGN + '.createAssociation', [sym('self', SIGN), sym('dumb'), sym('assoc_type')])
    key, seen = SIGN + '.createAssociation', set()
    for st, v in res:
        if is_exc(v):
            continue
        for name, (alg, size) in HASHLEN.items():
            s2 = fl.assume(st.copy(), eq(sym('assoc_type'), C(name)), True)
            if not s2:
                continue
            seen.add(name)
            a = fl.freeze(st, v)
            sec, h = rec_field(a, 'secret'), rec_field(a, 'handle')
            name_, args, kw = call_parts(sec) if isA(sec, 'call') else (None, [], {})
            ctx.ob(name_ in ('os.urandom', 'secrets.token_bytes') and source_bits(sec) == 8 * size, 'secret.random', key,
                   'the secret of a new %s association is %s, not %d bytes from the secure random source' % (name, show(sec)[:120], size))
            ctx.ob(rec_field(a, 'assoc_type') in (sym('assoc_type'), C(name)), 'assoc.type', key, 'the association has another type than asked for')
            hs = sources(h)
            ctx.ob(not has(h, sec), 'handle.independent', key, 'the handle reveals the secret')
            ctx.ob(entropy(h, loop_entropy(st, h)) >= 32 and bool(hs or loop_entropy(st, h)), 'handle.random', key,
                   'the handle %s carries less than 32 bits of secure randomness' % show(h)[:160])
            ctx.sample('secret of %s: %s' % (name, show(sec)))
    if seen != set(HASHLEN):
        raise AnchorMissing('%s creates associations of types %s only' % (key, sorted(seen)))
    # nonces
    fl = ctx.flow()
    n = 0
    for when in (NONE, sym('when', 'x:int')):
        for st, v in ctx.run(fl, MKNONCE, [when]):
            if is_exc(v):
                continue
            n += 1
            t = fl.freeze(st, v)
            ctx.ob(entropy(t, loop_entropy(st, t)) >= 35, 'nonce.random', MKNONCE, 'the nonce %s carries less than 35 bits of secure randomness' % show(t)[:200])
    if not n:
        raise AnchorMissing('no result of mkNonce')
    # Diffie-Hellman private keys
    ctx.p.client('sa_c24', C24_CLIENT)
    b64 = {'openid.cryptutil.base64ToLong'}
    fl = ctx.flow(opaque=b64, pure_calls=b64, text_args=True)
    for t in ('DH-SHA1', 'DH-SHA256'):
        for f in ('consumer', 'provider'):
            n = 0
            for st, v in ctx.run(fl, 'sa_c24.' + f, [C(t), sym('m', MSG)]):
                if is_exc(v):
                    continue
                n += 1
                v = fl.freeze(st, v)
                ok = isA(v, 'call') and v[2] == '.generate_private_key' and isA(v[3], 'call') and v[3][2] == '.parameters'
                ctx.ob(ok, 'dh.private', DH + '.__init__', 'the private key of a %s %s session is %s, not one the library generated for it' % (f, t, show(v)[:120]))
            if not n:
                raise AnchorMissing('no %s session of type %s' % (f, t))
    # no other source
    mods = 0
    for name, m in sorted(ctx.p.mods.items()):
        if not m.relpath.startswith('openid') or '/test' in m.relpath or name.startswith('openid.yadis'):
            continue
        mods += 1
        bad = random_uses(m)
        ctx.ob(not bad, 'lint.random', name, 'uses the predictable source %s' % ', '.join('%s (line %d)' % (n, x.lineno) for n, x in bad), m.relpath)
    constant_time(ctx)
    sign_algorithm(ctx)


C24_CLIENT = '''
from openid.consumer import consumer
from openid.server import server
def consumer(t, m):
    from openid.consumer.consumer import GenericConsumer
    return GenericConsumer.session_types[t]().dh.private_key
def provider(t, m):
    return server.AssociateRequest.session_classes[t].fromMessage(m).dh.private_key
'''


def sig_terms(t):
    """occurrences of a computed signature in a term that are not inside a constant-time comparison or a length"""
    out = []

    def walk(x):
        if isA(x, 'call') and x[2] == GETSIG:
            out.append(x)
            return
        if isA(x) and x[1] in ('bytes_eq', 'len'):
            return
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    walk(y)
    walk(t)
    return out


def full_comparison(t, msg):
    """constant-time comparison of the message's whole signature with the whole computed one"""
    if not isA(t, 'bytes_eq'):
        return False
    a, b = strip_enc(t[2]), strip_enc(t[3])
    if not (isA(a, 'call') and a[2] == GETSIG):
        a, b = b, a
    return isA(a, 'call') and a[2] == GETSIG and b == ARG(msg, 'sig')


def constant_time(ctx):
    op = {GETSIG}
    kw = dict(opaque=op, pure_calls=op, pure_raises={GETSIG: ['ValueError']}, typed_calls={'getAssociation': ASSOC})
    m = sym('message', MSG)
    for key, args in ((ASSOC + '.checkMessageSignature', [sym('self', ASSOC), m]),
                      (SIGN + '.verify', [sym('self', SIGN), sym('handle'), m])):
        fl = ctx.flow(**kw)
        compared = 0
        for st, v in ctx.run(fl, key, args):
            leak = [a for a in st.facts for x in sig_terms(a)]
            ctx.ob(not leak, 'sig.constant-time', key, 'a path depends on the computed signature other than through the constant-time comparison: %s' %
                   '; '.join(show(a)[:160] for a in leak[:2]))
            if is_exc(v):
                continue
            t = fl.freeze(st, v)
            cmp_ = [a for a in [t] + [a for a, val in st.facts.items() if val] if isA(a, 'bytes_eq') or isA(a, 'truthy') and isA(a[2], 'bytes_eq')]
            cmp_ = [a[2] if isA(a, 'truthy') else a for a in cmp_]
            ctx.ob(not sig_terms(t), 'sig.constant-time', key, 'the result %s is not a constant-time comparison' % show(t)[:160])
            if cmp_:
                compared += 1
                ctx.ob(any(full_comparison(a, m) for a in cmp_), 'sig.full', key,
                       'the comparison %s is not of the full signature in the message with the full computed one' % show(cmp_[0])[:200])
            elif t not in (FALSE, NONE, C(False)):
                ctx.ob(False, 'sig.full', key, 'returns %s without comparing the signature' % show(t)[:120])
        if not compared:
            raise AnchorMissing('no comparison in ' + key)
    w = ('getMessageSignature',)
    n = 0
    for ns, fl, res in complete_runs(ctx, w, (), sig=True):
        for st, v in res:
            leak = [a for a in st.facts for x in sig_terms(a)]
            n += any(hascall(a, GETSIG) for a in st.facts)
            ctx.ob(not leak, 'sig.constant-time', GC + '.complete', 'a path depends on the computed signature other than through the constant-time comparison: %s' %
                   '; '.join(show(a)[:160] for a in leak[:2]))
    if not n:
        raise AnchorMissing('complete computes no signature')


def sign_algorithm(ctx):
    a = sym('self', ASSOC)
    op = {'openid.kvform.seqToKV'}
    sizes = ctx.flow()
    for name, (alg, size) in HASHLEN.items():
        fl = ctx.flow(opaque=op, pure_calls=op)
        atype = A('attr', a, 'assoc_type')
        n = 0
        for st, v in ctx.run(fl, ASSOC + '.sign', [a, sym('pairs')], setup=lambda st: st.facts.__setitem__(eq(atype, C(name)), True)):
            if is_exc(v):
                ctx.ob(False, 'sign.alg', ASSOC + '.sign', 'raises %s for %s' % (cls_of(fl, st, v), name))
                continue
            n += 1
            t = fl.freeze(st, v)
            ok = isA(t, 'digest') and isA(t[2], 'hash') and hmac_of(t[2], A('attr', a, 'secret'), alg)
            ctx.ob(ok, 'sign.alg', ASSOC + '.sign', 'signing with %s computes %s' % (name, show(t)[:200]))
        if not n:
            raise AnchorMissing('no result of sign for ' + name)
        for st, v in ctx.run(sizes, 'openid.association.getSecretSize', [C(name)]):
            ctx.ob(v == C(size), 'secret.size', 'openid.association.getSecretSize', 'the secret of %s has size %s' % (name, show(v)))


def hmac_of(h, secret, alg):
    """h is an HMAC keyed with the secret under the algorithm, updated once"""
    name, args, kw = h[2][2], h[3][1], {k[1][0][2]: k[1][1] for k in h[4][1]}
    if not name.lower().endswith(('hmac', 'hmac.new')):
        return False
    data = list(h[5:])
    algos = list(args[1:]) + list(kw.values())
    if name.endswith('.new'):
        if len(args) > 1:
            data = [args[1]] + data
            algos = list(args[2:]) + list(kw.values())
    key = args[0] if args else kw.get('key')

    def is_alg(x):
        s = x[2] if isA(x, 'call') else x[1] if x[0] == 'g' else x[2] if isC(x) else ''
        return isinstance(s, str) and s.split('.')[-1].lower() == alg.lower()
    return key == secret and any(is_alg(x) for x in algos) and len(data) == 1


# ---------------------------------------------------------------- C25
CU = 'openid.cryptutil.'
I2B, B2I, FIX, XOR = CU + 'int_to_bytes', CU + 'bytes_to_int', CU + 'fix_btwoc', 'openid.dh.strxor'
B64ENC = {'binascii.b2a_base64', 'base64.b64encode', 'base64.encodebytes', 'base64.standard_b64encode'}
B64DEC = {'binascii.a2b_base64', 'base64.b64decode', 'base64.decodebytes', 'base64.standard_b64decode'}
PNUM, PUBNUM = [('cryptography.hazmat.primitives.asymmetric.dh.' + x) for x in ('DHParameterNumbers', 'DHPublicNumbers')]

C25_CLIENT = '''
from openid.message import Message, OPENID_NS, OPENID2_NS, OPENID1_NS
from openid.consumer import consumer
from openid.server import server
from openid.dh import DiffieHellman
from openid.oidutil import fromBase64

def hash_func(x):
    return x

def exchange(t, secret, mod, gen, ns, legacy):
    """the messages a relying party and a provider exchange to share a secret"""
    ccls = consumer.GenericConsumer.session_types[t]
    scls = server.AssociateRequest.session_classes[t]
    cs = ccls() if mod is None else ccls(DiffieHellman(mod, gen))
    if legacy:
        cs.hash_func = hash_func
    request = Message(ns)
    request.updateArgs(OPENID_NS, cs.getRequest())
    ss = scls.fromMessage(request)
    if legacy:
        ss.hash_func = hash_func
    response = Message(ns)
    response.updateArgs(OPENID_NS, ss.answer(secret))
    return cs.extractSecret(response)

def allowed(t):
    return (consumer.GenericConsumer.session_types[t].allowed_assoc_types, server.AssociateRequest.session_classes[t].allowed_assoc_types)

def types():
    return (sorted(consumer.GenericConsumer.session_types), sorted(server.AssociateRequest.session_classes))
'''


def simp(t, memo, sub_=()):
    """value terms of the exchange reduced by the algebra of the encodings, exclusive or, and the Diffie-Hellman exchange"""
    if not isinstance(t, tuple) or not t:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    x = tuple(simp(y, memo, sub_) if isinstance(y, tuple) else y for y in t)
    x = step(x)
    for a, b in sub_:
        if x == a:
            x = b
    memo[t] = x
    return x


def step(x):
    if not isA(x):
        return x
    op = x[1]
    if op == 'slice' and isA(x[2], 'B64') and x[3:] == (NONE, C(-1), NONE):
        return x[2]
    if op in ('m:decode', 'm:encode', 'text') and isA(x[2], 'B64'):
        return x[2]
    if op in ('m:strip', 'm:rstrip') and isA(x[2], 'B64'):
        return x[2]
    if op == 'attr' and isA(x[2], 'call') and x[2][2] == PNUM and x[3] in ('p', 'g'):
        return x[2][3 + (x[3] == 'g')]
    if op == 'attr' and x[3] == 'y' and isA(x[2], 'call') and x[2][2] == '.public_numbers' and isA(x[2][3], 'call') and x[2][3][2] == '.public_key':
        return A('Y', x[2][3][3])
    if op == 'call':
        n, a = x[2], x[3:]
        if n in B64ENC:
            return A('B64', a[0])
        if n in B64DEC:
            return a[0][2] if isA(a[0], 'B64') else A('UNB64', a[0])
        if n == B2I and isA(a[0], 'call') and a[0][2] == I2B:
            return a[0][3]
        if n == CU + 'longToBase64':
            return A('B64', A('call', I2B, a[0]))
        if n == XOR:
            els = []
            for y in a[:2]:
                for z in (y[2:] if isA(y, 'XOR') else (y,)):
                    (els.remove if z in els else els.append)(z)
            return els[0] if len(els) == 1 else A('XOR', *sorted(els, key=repr))
        if n == '.exchange' and len(a) >= 2:
            q = a[1]
            if isA(q, 'call') and q[2] == '.public_key' and isA(q[3], 'call') and q[3][2] == PUBNUM:
                pub, par = q[3][3], q[3][4]
                if isA(pub, 'Y') and private_params(pub[2]) == par == private_params(a[0]):
                    return A('DHX', *sorted((a[0], pub[2]), key=repr))
    return x


def private_params(k):
    if isA(k, 'call') and k[2] == '.generate_private_key' and isA(k[3], 'call') and k[3][2] == '.parameters':
        return k[3][3]
    return None


def known_equal(st, memo):
    """substitutions that the equalities a path assumed give"""
    subs = []
    for a, v in st.facts.items():
        if a[1] == 'eq' and v:
            x, y = simp(a[2], memo), simp(a[3], memo)
            for p, q in ((x, y), (y, x)):
                if isA(p, 'B64') and isC(q) and isinstance(q[2], str):
                    d = A('UNB64', q)
                    subs.append((p[2], d))
                    if isA(p[2], 'call') and p[2][2] == I2B:
                        subs.append((p[2][3], A('call', B2I, d)))
    return [(a, b) for a, b in subs if a != b]


def algo_name(h):
    for x in list(h[3][1]) + [k[1][1] for k in h[4][1]]:
        s = x[2] if isA(x, 'call') else x[1] if x[0] == 'g' else ''
        s = s.split('.')[-1].upper() if isinstance(s, str) else ''
        if s.startswith('SHA'):
            return s
    return None


@prop('C25', 30, technique='composition of both ends over value terms, reduced by the algebra of the encodings and of Diffie-Hellman; encoding obligations',
      explain='A client program that passes the relying party\'s request through the provider\'s session and back is analysed for every session type, '
              'with default and custom parameters; the extracted secret must reduce to the issued one.')
def c25(ctx):
    ctx.p.client('sa_c25', C25_CLIENT)
    fl = ctx.flow()
    types = None
    for st, v in ctx.run(fl, 'sa_c25.types', []):
        v = fl.freeze(st, v)
        l, r = v[1] if v[0] == 't' else (v, v)
        types = sorted({x[2] for x in subterms(l) if isC(x) and isinstance(x[2], str)})
        other = sorted({x[2] for x in subterms(r) if isC(x) and isinstance(x[2], str)})
        ctx.ob(types == other, 'session.types', GC, 'the relying party knows the session types %s, the provider %s' % (types, other))
        types = [t for t in types if t in other]
    if not types or not {'no-encryption', 'DH-SHA1', 'DH-SHA256'} <= set(types):
        raise AnchorMissing('session types %s' % (types,))
    from .consumer import NS2, NS11
    for t in types:
        for st, v in ctx.run(fl, 'sa_c25.allowed', [C(t)]):
            v = fl.freeze(st, v)
            l, r = [sorted(x[2] for x in subterms(y) if isC(x) and isinstance(x[2], str)) for y in v[1]]
            ctx.ob(l == r and bool(l), 'session.allowed', GC, 'for sessions of type %s the relying party allows %s, the provider %s' % (t, l, r))
    op = {I2B, B2I, FIX, XOR, 'sa_c25.hash_func'}
    jobs = [(t, par, ns, legacy) for t in types for par in (False, True) for ns in (NS2, NS11) for legacy in (False, True)
            if t.startswith('DH') or not (par or legacy)]
    total = 0
    for t, par, ns, legacy in jobs:
        fl = ctx.flow(opaque=op, pure_calls=op | {PNUM, PUBNUM}, text_args=True, pure_raises={'binascii.a2b_base64': [], 'base64.b64decode': []})
        secret = sym('secret', 'x:bytes')
        mod, gen = (sym('modulus', 'x:str'), sym('generator', 'x:str')) if par else (NONE, NONE)
        n = 0
        what = 'for %s%s%s in %s' % (t, ' with own parameters' if par else '', ' with a hash function' if legacy else '', ns)
        res = ctx.run(fl, 'sa_c25.exchange', [C(t), secret, mod, gen, C(ns), C(legacy)])
        for st, v in res:
            if is_exc(v):
                c = cls_of(fl, st, v)
                ctx.ob(False, 'exchange.total', scls(t), '%s the exchange fails with %s %s' % (what, c, show(fl.freeze(st, field(fl, st, v.exc, 'args') or NONE))[:200]))
                continue
            n += 1
            base = {}
            if any(a[1] == 'truthy' and not val and isA(simp(a[2], base), 'B64') and isA(simp(a[2], base)[2], 'call') and simp(a[2], base)[2][2] == I2B
                   for a, val in st.facts.items()):
                continue        # an encoded integer is never empty
            subs = known_equal(st, base)
            memo = {}
            x = simp(fl.freeze(st, v), memo, subs)
            ctx.ob(x == secret, 'exchange.secret', scls(t), '%s the relying party extracts %s instead of the secret' % (what, show(x)[:700]))
            hs = {y for y in memo.values() if isA(y, 'hash')}
            if t.startswith('DH') and not legacy:
                ctx.ob(bool(hs) and all(algo_name(h) == t[3:] for h in hs), 'exchange.hash', scls(t), '%s the hash is %s' % (what, [algo_name(h) for h in hs]))
            if t.startswith('DH'):
                data = [h[5] for h in hs if len(h) == 6] if not legacy else [y[3] for y in memo.values() if isA(y, 'call') and y[2] == 'sa_c25.hash_func']
                data = {d for d in data if hasop(d, 'DHX')}
                ok = data and all(isA(d, 'call') and d[2] == I2B and isA(d[3], 'call') and d[3][2] == B2I and isA(d[3][3], 'DHX') for d in data)
                ctx.ob(bool(ok), 'exchange.btwoc', DH, '%s the shared secret is hashed as %s, not as shortest two\'s complement' % (
                    what, [show(d)[:120] for d in data]))
        total += n
        if not n:
            raise AnchorMissing('no completed exchange %s' % what)
    ctx.sample('exchange: %d completed paths reduce to the secret' % total)
    encodings(ctx)


def scls(t):
    return {'no-encryption': 'openid.consumer.consumer.PlainTextConsumerSession', 'DH-SHA1': 'openid.consumer.consumer.DiffieHellmanSHA1ConsumerSession',
            'DH-SHA256': 'openid.consumer.consumer.DiffieHellmanSHA256ConsumerSession'}.get(t, GC)


def bytes_of(t):
    """strip conversions that keep the bytes"""
    while isA(t) and t[1] in ('bytes', 'bytearray') and len(t) == 3:
        t = t[2]
    return t


def zero_byte(t):
    t = bytes_of(t)
    if isC(t):
        return t[2] == b'\0'
    if isA(t, 'L'):
        return t[2:] == (C(0),)
    return isA(t, 'call') and t[2] == 'six.int2byte' and t[3] == C(0)


def first_byte_set(fs, v):
    """the values the first byte of v can have on a path, out of 0..255; None when the path says nothing about it"""
    out, said = set(range(256)), False
    for a, val in fs:
        good = None
        if a[1] in ('le0', 'lt0'):
            d, c = linear(a[2])
            if len(d) == 1:
                (x, k), = d.items()
                if isA(x, 'getitem') and bytes_of(x[2]) == v and x[3] in (C(0),):
                    good = {b for b in range(256) if (k * b + c <= 0 if a[1] == 'le0' else k * b + c < 0)}
        elif a[1] in ('truthy', 'eq0'):
            x = a[2]
            if isA(x, 'BitAnd') or isA(x, 'RShift') or isA(x, 'FloorDiv'):
                g, k = x[2], num(x[3])
                if isA(x, 'BitAnd') and k is None:
                    g, k = x[3], num(x[2])
                if k is not None and isA(g, 'getitem') and bytes_of(g[2]) == v and g[3] == C(0):
                    f = {'BitAnd': lambda b: b & k, 'RShift': lambda b: b >> k, 'FloorDiv': lambda b: b // k}[x[1]]
                    good = {b for b in range(256) if bool(f(b)) == (a[1] == 'truthy')}
        if good is not None:
            said = True
            out &= good if val else set(range(256)) - good
    return out if said else None


def encodings(ctx):
    v = sym('value', 'x:bytes')
    n = sym('value', 'x:int')
    # fix_btwoc
    fl = ctx.flow()
    high = low = 0
    for st, r in ctx.run(fl, FIX, [v]):
        if is_exc(r):
            if not isinstance(cls_of(fl, st, r), str) or cls_of(fl, st, r) != 'IndexError':
                ctx.ob(False, 'btwoc.sign', FIX, 'raises %s' % cls_of(fl, st, r))
            continue
        t = bytes_of(fl.freeze(st, r))
        first = first_byte_set(st.facts.items(), v)
        if first is None:
            ctx.ob(False, 'btwoc.sign', FIX, 'returns %s whatever the first byte' % show(t)[:100])
        elif not first:
            continue
        elif t == v:
            low += 1
            ctx.ob(max(first) <= 127, 'btwoc.sign', FIX, 'leaves first bytes up to %d without a zero byte in front' % max(first))
        else:
            parts_ = t[2:] if isA(t) and t[1] in ('cat', '+') else ()
            ok = len(parts_) == 2 and zero_byte(parts_[0]) and bytes_of(parts_[1]) == v
            high += 1
            ctx.ob(ok and min(first) >= 128, 'btwoc.sign', FIX, 'for first bytes from %d the result is %s' % (min(first), show(t)[:100]))
    ctx.ob(bool(high and low), 'btwoc.sign', FIX, 'not both cases are handled')
    # int_to_bytes
    op = {FIX}
    fl = ctx.flow(opaque=op, pure_calls=op)
    for st, r in ctx.run(fl, I2B, [n]):
        if is_exc(r):
            continue
        t = bytes_of(fl.freeze(st, r))
        if isA(t, 'call') and t[2] == '.to_bytes' and t[3] == n:
            bl = A('call', '.bit_length', n)
            ok = t[4] == add(A('FloorDiv', bl, C(8)), C(1)) and C('big') in t[5:] or ('t', (C('byteorder'), C('big'))) in t[5:]
            ctx.ob(ok, 'int.bytes', I2B, 'encodes integers as %s' % show(t)[:160])
            continue
        ok = isA(t, 'call') and t[2] == FIX and len(t) == 4
        x = bytes_of(t[3]) if ok else t
        ok = ok and isA(x, 'call') and x[2] in ('bytearray.fromhex', 'bytes.fromhex', 'binascii.unhexlify', 'binascii.a2b_hex')
        h = x[3] if ok else x
        digits = A('fmt', 'x', n)
        hx = {digits, A('text', digits), A('call', 'format', n, C('x'))}
        odd = None
        for a, val in st.facts.items():
            if a[1] in ('truthy', 'eq0') and isA(a[2]) and a[2][1] in ('%', 'BitAnd') and isA(a[2][2], 'len') and a[2][2][2] in hx and \
                    a[2][3] == (C(2) if a[2][1] == '%' else C(1)):
                odd = val == (a[1] == 'truthy')
        if odd is None:
            ok = ok and isA(h, 'm:zfill') and h[2] in hx
        elif odd:
            ok = ok and (isA(h, 'cat') and len(h) == 4 and h[2] == C('0') and (h[3] in hx or digits == h[3]))
        else:
            ok = ok and h in hx
        ctx.ob(ok, 'int.bytes', I2B, 'encodes integers of %s digits as %s' % ({None: 'any number of', True: 'an odd number of', False: 'an even number of'}[odd], show(t)[:160]))
    # bytes_to_int
    fl = ctx.flow()
    for st, r in ctx.run(fl, B2I, [v]):
        if is_exc(r):
            continue
        t = fl.freeze(st, r)
        ok = isA(t, 'int') and len(t) == 4 and t[3] == C(16) and isA(strip_enc(t[2]), 'call') and strip_enc(t[2])[2] in ('codecs.encode', 'binascii.hexlify', 'binascii.b2a_hex') \
            and strip_enc(t[2])[3] == v and (strip_enc(t[2])[2] != 'codecs.encode' or strip_enc(t[2])[4] in (C('hex'), C('hex_codec')))
        ok = ok or isA(t, 'call') and t[2] == 'int.from_bytes' and t[3] == v and (C('big') in t[4:] or ('t', (C('byteorder'), C('big'))) in t[4:])
        if isA(t, 'fold') and len(t) == 5 and t[3] == C(0) and bytes_of(t[2]) == v and len(t[4]) == 1:
            ok = ok or any(y == C(256) or y == C(8) for y in subterms(t[4]))
        ctx.ob(ok, 'bytes.int', B2I, 'decodes integers as %s' % show(t)[:160])
    # base64 integers
    op = {I2B, B2I}
    for key, arg in ((CU + 'longToBase64', n), (CU + 'base64ToLong', sym('value', 'x:str'))):
        fl = ctx.flow(opaque=op, pure_calls=op)
        for st, r in ctx.run(fl, key, [arg]):
            if is_exc(r):
                continue
            t = simp(fl.freeze(st, r), {})
            want = A('B64', A('call', I2B, n)) if key.endswith('Base64') else A('call', B2I, A('UNB64', arg))
            ctx.ob(t == want, 'int.base64', key, 'computes %s' % show(t)[:160])
    # strxor
    x, y = sym('x', 'x:bytes'), sym('y', 'x:bytes')
    fl = ctx.flow()
    done = 0
    for st, r in ctx.run(fl, XOR, [x, y]):
        same = entails(fl, st, eq(A('len', x), A('len', y)), True)
        if is_exc(r):
            ctx.ob(not same, 'xor', XOR, 'refuses texts of equal length')
            continue
        done += 1
        ctx.ob(same, 'xor', XOR, 'combines texts of different length')
        t = bytes_of(fl.freeze(st, r))
        if isA(t, 'comp'):
            ok = len(t[3]) == 1 and xor_item(t[3][0], t[2], x, y)
        else:
            ok = any(isA(e[3][0], 'BitXor') for e, g in flat(st.events) if e[0] == 'call' and e[1] == '.append' and g)
        ctx.ob(ok, 'xor', XOR, 'computes %s' % show(t)[:160])
    if not done:
        raise AnchorMissing('no result of ' + XOR)


def xor_item(path, it, x, y):
    fs, outs = path
    if len(outs) != 1 or fs:
        return False
    o = outs[0]
    while isA(o) and o[1] in ('bytes', 'bytearray', 'list', 'tuple'):
        o = o[2]
    if not isA(o, 'BitXor'):
        return False

    def item(z):
        if isA(z, 'elem') or isA(z, 'getitem'):
            return bytes_of(z[2])
        return None
    return {item(o[2]), item(o[3])} == {x, y}


# ---------------------------------------------------------------- C26
KV = 'openid.kvform.'
TO, FROM = KV + 'seqToKV', KV + 'kvToSeq'


def text_of(t):
    """strip conversions to text"""
    while isA(t) and (t[1] in ('text', 'str') and len(t) == 3 or t[1] == 'fmt' and t[2] in ('s', '', C('s'), C(''))):
        t = t[-1]
    return t


def seq_of(t):
    while isA(t) and t[1] in ('list', 'tuple', 'iter') and len(t) == 3:
        t = t[2]
    return t


def absent(fs, ch, t):
    """the facts say the character does not occur in the text"""
    for a, v in fs:
        if a[1] == 'in' and a[2] == C(ch) and text_of(a[3]) == t and not v:
            return True
        if a[1] == 'eq' and isA(a[2]) and a[2][1] in ('m:find', 'm:count') and text_of(a[2][2]) == t and a[2][3] == C(ch) and v and a[3] == (C(-1) if a[2][1] == 'm:find' else C(0)):
            return True
        if a[1] == 'eq0' and v:
            d, c = linear(a[2])
            if len(d) == 1:
                (x, k), = d.items()
                if isA(x, 'm:count') and c == 0 and text_of(x[2]) == t and x[3] == C(ch):
                    return True
                if isA(x, 'm:find') and c == k and text_of(x[2]) == t and x[3] == C(ch):
                    return True
        if a[1] == 'truthy' and not v and isA(a[2], 'm:count') and text_of(a[2][2]) == t and a[2][3] == C(ch):
            return True
    return False


def items_of(t, d):
    """the pair of every key of d with its value"""
    t = seq_of(t)
    if not isA(t, 'comp') or len(t[3]) != 1:
        return False
    src = t[2]
    while isA(src) and src[1] in ('list', 'tuple', 'iter', 'sorted', 'set', 'm:keys'):
        src = src[2]
    return src == d and any(list(t[3][0][1]) in ([('t', (e, A('getitem', d, e)))], [A('L', e, A('getitem', d, e))]) for e in (A('elem', t[2]), A('elem', d)))


def line_paths(t, seq, st):
    """[(facts, line)] for each way an item of the sequence is written; None when the text is not made that way"""
    fa = [d for a, v in st.facts.items() if v and a[1] == 'forall' and seq_of(a[2]) == seq for d in [a[3]]]
    out = []
    if isA(t, 'm:join') and t[2] == C(''):
        c = t[3]
        while isA(c) and c[1] in ('list', 'tuple', 'iter'):
            c = c[2]
        if not isA(c, 'comp') or seq_of(c[2]) != seq:
            return None
        for fs, outs in c[3]:
            pieces = []
            for o in outs:
                for x in (o[2][2:] if isA(o, '*') and isA(o[2], 'L') else o[2][1] if isA(o, '*') and o[2][0] == 't' else (o,)):
                    pieces += list(x[2:]) if isA(x, 'cat') else [x]
            if not pieces:
                return None
            out.append((fs, pieces[0] if len(pieces) == 1 else A('cat', *pieces)))
    elif isA(t, 'fold') and seq_of(t[2]) == seq and t[3] == C(''):
        for fs, o in t[4]:
            if not (isA(o, 'cat') and isA(o[2], 'lv')):
                return None
            out.append((fs, A('cat', *o[3:])))
    else:
        return None
    res = []
    for fs, line in out:
        fs = frozenset(fs)
        # combine with what is known of every item
        combos = [fs]
        for d in fa:
            combos = [c | frozenset(x) for c in combos for x in d if not any((a, not v) in c for a, v in x)]
        res += [(c, line) for c in combos]
    return res


def forall_shape(a):
    return a[3]


def first_colon(o, lines):
    """(line) when o is the pair of what precedes and what follows the first colon of a line, whitespace stripped"""
    def strip_(x):
        while isA(x) and x[1] == 'm:strip' and len(x) == 3:
            x = x[2]
        return x
    el = A('elem', lines)
    sp, pt, ix = A('m:split', el, C(':'), C(1)), A('m:partition', el, C(':')), [A(f, el, C(':')) for f in ('m:find', 'm:index')]
    if isA(o, 'tuple') and isA(o[2], 'comp') and o[2][2] == sp:
        return len(o[2][3]) == 1 and [strip_(x) for x in o[2][3][0][1]] == [A('elem', sp)]
    if o[0] == 't' and len(o[1]) == 2:
        k, v = o[1]
    elif isA(o, 'L') and len(o) == 4:
        k, v = o[2:]
    else:
        return False
    ks = {A('getitem', sp, C(0)), A('getitem', pt, C(0))} | {A('slice', el, x, y, NONE) for x in (NONE, C(0)) for y in ix}
    vs = {A('getitem', sp, C(1)), A('getitem', pt, C(2))} | {A('slice', el, add(y, C(1)), NONE, NONE) for y in ix}
    return strip_(k) in ks and strip_(v) in vs


def no_colon(fs, lines):
    """the path is one of a line without a colon, or of a blank line"""
    el = A('elem', lines)
    sp, pt = A('m:split', el, C(':'), C(1)), A('m:partition', el, C(':'))
    for a, v in fs:
        if a[1] == 'in' and a[2] == C(':') and a[3] == el and not v:
            return True
        if a[1] == 'truthy' and not v and (a[2] in (el, A('m:strip', el), A('getitem', pt, C(1)))):
            return True
        if a[1] == 'eq0' and not v and linear(a[2]) == (({A('len', sp): 1}), -2):
            return True
        if a[1] == 'eq' and v and A('m:strip', el) in (a[2], a[3]) and C('') in (a[2], a[3]):
            return True
        if a[1] in ('lt0', 'le0', 'eq0'):
            d, c = linear(a[2])
            if set(d) == {A('len', sp)} or set(d) == {A('m:find', el, C(':'))}:
                return True
    return False


@prop('C26', 25, technique='path-sensitive dataflow over encoder and decoder: refusal facts and the exact form of every line, provenance of the signature base',
      explain='Every path of the key-value encoder must carry the facts that key and value are free of separators; the signature base must be the '
              'encoding of exactly the signed list over the message.')
def c26(ctx):
    seq = sym('seq')
    for strict in (False, True):
        fl = ctx.flow()
        n = 0
        for st, v in ctx.run(fl, TO, [seq, C(strict)]):
            if is_exc(v):
                continue
            n += 1
            t = fl.freeze(st, v)
            if isA(t, 'm:encode'):
                t = t[2]
            lp = line_paths(t, seq, st)
            if lp is None:
                ctx.ob(False, 'kv.form', TO, 'the result is not one line per pair in order: %s' % show(t)[:200])
                continue
            el = A('elem', seq)
            for fs, line in lp:
                k, val = A('getitem', el, C(0)), A('getitem', el, C(1))
                p = [text_of(x) for x in line[2:]] if isA(line, 'cat') else []
                ctx.ob(p == [k, C(':'), val, C('\n')], 'kv.line', TO, 'a pair is written as %s' % show(line)[:160])
                ctx.ob(absent(fs, '\n', k), 'kv.key-newline', TO, 'a key with a newline is encoded')
                ctx.ob(absent(fs, ':', k), 'kv.key-colon', TO, 'a key with a colon is encoded')
                ctx.ob(absent(fs, '\n', val), 'kv.value-newline', TO, 'a value with a newline is encoded')
        if not n:
            raise AnchorMissing('no result of ' + TO)
        # decoding
        data = sym('data', 'x:str')
        for st, v in ctx.run(fl, FROM, [data, C(strict)]):
            if is_exc(v):
                continue
            t = fl.freeze(st, v)
            while isA(t) and t[1] in ('list', 'tuple'):
                t = t[2]
            if not isA(t, 'comp'):
                ctx.ob(False, 'kv.decode', FROM, 'the result is %s' % show(t)[:160])
                continue
            lines = t[2]
            src = lines
            while isA(src) and src[1] in ('slice', 'list', 'iter', 'filter'):
                if src[1] == 'slice' and not (src[3] in (NONE, C(0)) and src[4] in (NONE, C(-1)) and src[5] == NONE):
                    break
                src = src[2]
            ctx.ob(src == A('m:split', data, C('\n')), 'kv.lines', FROM, 'lines are taken from %s' % show(src)[:120])
            for fs, outs in t[3]:
                if not outs:
                    ctx.ob(no_colon(fs, lines), 'kv.skip', FROM, 'a line with a colon is skipped: %s' % '; '.join(show(a)[:80] for a, v in fs))
                else:
                    ctx.ob(len(outs) == 1 and first_colon(outs[0], lines), 'kv.first-colon', FROM, 'a line is read as %s' % show(outs[0])[:200])
    # the other forms go through the same encoder
    op = {TO, FROM}
    kw = dict(opaque=op, pure_calls=op, pure_raises={x: [] for x in op})
    fl = ctx.flow(**kw)
    d = sym('d')
    for st, v in ctx.run(fl, KV + 'dictToKV', [d]):
        t = fl.freeze(st, v) if not is_exc(v) else v
        ctx.ob(isA(t, 'call') and t[2] == TO and isA(t[3]) and (has(t[3], A('m:items', d)) or items_of(t[3], d)), 'kv.dict', KV + 'dictToKV', 'encodes %s' % (show(t)[:120] if t is v else t))
    for st, v in ctx.run(fl, KV + 'kvToDict', [d]):
        t = fl.freeze(st, v) if not is_exc(v) else v
        ctx.ob(isinstance(t, tuple) and has(t, A('call', FROM, d)), 'kv.dict', KV + 'kvToDict', 'does not decode with kvToSeq')
    op2 = op | {MSG + '.toArgs'}
    fl = ctx.flow(opaque=op2, pure_calls=op2, pure_raises={x: [] for x in op2}, msg_prims=False)
    m = sym('message', MSG)
    for st, v in ctx.run(fl, MSG + '.toKVForm', [m]):
        t = fl.freeze(st, v) if not is_exc(v) else v
        t = t[2] if isA(t, 'm:encode') else t
        ctx.ob(isA(t, 'call') and t[2] == TO and has(t[3], A('call', MSG + '.toArgs', m)), 'kv.message', MSG + '.toKVForm', 'is not the encoding of the message')
    # the signature base
    a = sym('self', ASSOC)
    fl = ctx.flow(text_args=True, **kw)
    signed = A('m:split', ARG(m, 'signed'), C(','))
    n = 0
    for st, v in ctx.run(fl, GETSIG, [a, m]):
        if is_exc(v):
            continue
        t = simp(fl.freeze(st, v), {})
        for name, (alg, size) in HASHLEN.items():
            if not fl.assume(st.copy(), eq(A('attr', a, 'assoc_type'), C(name)), True):
                continue
            n += 1
            ok = isA(t, 'B64') and isA(t[2], 'digest') and isA(t[2][2], 'hash') and hmac_of(t[2][2], A('attr', a, 'secret'), alg)
            ctx.ob(ok, 'base.key', GETSIG, 'the %s signature is %s' % (name, show(t)[:200]))
            if ok:
                ctx.ob(signature_base(t, m, signed), 'base.fields', GETSIG, 'the signed data is not the signed list with the values in the message: %s' % show(t)[:300])
    if not n:
        raise AnchorMissing('no result of ' + GETSIG)


def signature_base(t, m, signed):
    data = [x for x in subterms(t) if isA(x, 'call') and x[2] == TO]
    if len(data) != 1:
        return False
    h = t[2][2]
    last = h[5] if len(h) > 5 else h[3][1][1]
    if not (isA(last, 'm:encode') and last[2] == data[0] and (len(last) < 4 or last[3] in (C('utf-8'), C('UTF-8'), C('utf8')))):
        return False
    c = data[0][3]
    # a list of pairs built from a list of pairs
    for _ in range(3):
        c = seq_of(c)
        if isA(c, 'comp') and len(c[3]) == 1 and len(c[3][0][1]) == 1:
            o = c[3][0][1][0]
            el = A('elem', c[2])
            if o == el or o[0] == 't' and [text_of(x) for x in o[1]] == [A('getitem', el, C(0)), A('getitem', el, C(1))]:
                c = c[2]
                continue
        break
    if not isA(c, 'comp') or seq_of(c[2]) != signed or len(c[3]) != 1:
        return False
    fs, outs = c[3][0]
    el = A('elem', c[2])
    post = A('m:toPostArgs', m)
    name = A('cat', C('openid.'), el)
    vals = {A('m:get', post, name, C('')), A('getitem', post, name), A('m:get', post, name)}
    return len(outs) == 1 and outs[0][0] == 't' and len(outs[0][1]) == 2 and text_of(outs[0][1][0]) == el and text_of(outs[0][1][1]) in vals
