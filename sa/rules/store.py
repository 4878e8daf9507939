"""Store rules (C18-C23)."""
from ..core import *  # noqa: F401,F403
from ..core import FALSE, TRUE
from ..terms import T, add, sub, subst
from . import prop

ASSOC = 'openid.association.Association'
MEM = 'openid.store.memstore.MemoryStore'
FILE = 'openid.store.filestore.FileOpenIDStore'
SQL = 'openid.store.sqlstore.'
SQLS = ('SQLiteStore', 'MySQLStore', 'PostgreSQLStore')
NOW = ('s', 'now', None)
TEXT = ('six.text_type',)
U, TS, SALT, H = sym('server_url', 'x:str'), sym('timestamp', 'x:int'), sym('salt', 'x:str'), sym('handle', 'x:str')
AS = sym('association', ASSOC)
AH = A('attr', AS, 'handle')


def skew(ctx, fl):
    v = fl.global_value(ctx.p.mods['openid.store.nonce'], 'SKEW')
    if not isC(v):
        raise AnchorMissing('openid.store.nonce.SKEW is not a constant')
    return v


def entails_any(fl, st, fs):
    """the facts force one of the formulas: no state where all are false"""
    states = [st.copy()]
    for f in fs:
        if f == TRUE:
            return True
        if f == FALSE:
            continue
        states = [s2 for s in states for s2 in fl.assume(s, f if is_formula(f) else truth(f), False)]
        if not states:
            return True
    return not states


def typed(fl, *terms):
    for t, c in terms:
        fl.types[t] = c


# ---------------------------------------------------------------- in-memory store: every history of a bounded client
def mem_client(ctx):
    ctx.p.client('memclient', '''
from openid.store.memstore import MemoryStore


def step(s, op, u, x):
    if op == 'store':
        return s.storeAssociation(u, x)
    if op == 'remove':
        return s.removeAssociation(u, x)
    if op == 'clean':
        return s.cleanupAssociations()
    if op == 'get':
        return s.getAssociation(u, x)
    if op == 'best':
        return s.getAssociation(u)


def history(ops):
    s = MemoryStore()
    out = []
    for op, u, x in ops:
        out.append(step(s, op, u, x))
    return tuple(out)


def nonces(ops):
    s = MemoryStore()
    out = []
    for op, u, t, x in ops:
        if op == 'use':
            out.append(True if s.useNonce(u, t, x) else False)
        else:
            out.append(s.cleanupNonces())
    return tuple(out)
''')


def expired(a):
    return le(sub(add(A('attr', a, 'issued'), A('attr', a, 'lifetime')), NOW), C(0))


def conj(fl, st, f, val):
    return fl.assume(st.copy(), f, val) if is_formula(f) else ([st.copy()] if (f == TRUE) == val else [])


def present(ops, i, upto):
    """formula: association stored by step i is still stored before step `upto`"""
    _, u, a = ops[i]
    fs = []
    for op, v, x in ops[i + 1:upto]:
        if op == 'store':
            fs.append(NOT(AND(eq(u, v), eq(A('attr', a, 'handle'), A('attr', x, 'handle')))))
        elif op == 'remove':
            fs.append(NOT(AND(eq(u, v), eq(A('attr', a, 'handle'), x))))
        elif op == 'clean':
            fs.append(NOT(expired(a)))
    return AND(*fs) if fs else TRUE


def check_history(ctx, fl, st, ops, out, rule, what=('get', 'best', 'remove', 'clean')):
    key = MEM + {'get': '.getAssociation', 'best': '.getAssociation', 'remove': '.removeAssociation', 'clean': '.cleanupAssociations'}[ops[len(out) - 1][0]]
    stores = [i for i, o in enumerate(ops) if o[0] == 'store']
    hist = ' '.join(o[0] for o in ops)
    for k, (op, v, x) in enumerate(ops):
        if op not in what or op == 'store':
            continue
        r = out[k]
        prev = [i for i in stores if i < k]
        if op in ('get', 'best'):
            def match(i, k=k, v=v, x=x, op=op):
                f = AND(present(ops, i, k), eq(ops[i][1], v))
                return f if op == 'best' else AND(f, eq(A('attr', ops[i][2], 'handle'), x))
            if r == NONE:
                ok = all(entails(fl, st, match(i), False) for i in prev)
                ctx.ob(ok, rule, MEM + '.getAssociation', 'a stored association is not found although it matches (history: %s)' % hist)
            else:
                src = st.fields.get((r, '$copyof'), r)
                i = next((j for j in prev if ops[j][2] == src), None)
                ok = i is not None and entails(fl, st, match(i))
                ctx.ob(ok, rule, MEM + '.getAssociation', 'an association is returned that is not stored under this server URL%s (history: %s)'
                       % ('' if op == 'best' else ' and handle', hist))
                if ok and op == 'best':
                    for j in prev:
                        if j != i:
                            newer = lt(A('attr', ops[i][2], 'issued'), A('attr', ops[j][2], 'issued'))
                            ctx.ob(entails(fl, st, AND(match(j), newer), False), rule, MEM + '.getAssociation',
                                   'an older association is returned while a newer one is stored (history: %s)' % hist)
        elif op == 'remove':
            fs = [AND(present(ops, i, k), eq(ops[i][1], v), eq(A('attr', ops[i][2], 'handle'), x)) for i in prev]
            if r in (TRUE, C(1)):
                ok = entails_any(fl, st, fs)
            elif r in (FALSE, C(0), NONE):
                ok = all(entails(fl, st, f, False) for f in fs)
            else:
                ok = False
            ctx.ob(ok, rule, MEM + '.removeAssociation', 'removal does not report whether the association existed (history: %s)' % hist)
        elif op == 'clean':
            states = [(st, 0)]
            for i in prev:
                f = AND(present(ops, i, k), expired(ops[i][2]))
                states = [(s2, n + d) for s, n in states for d, val in ((1, True), (0, False)) for s2 in conj(fl, s, f, val)]
            ok = bool(states) and all(r == C(n) for _, n in states)
            ctx.ob(ok, rule, MEM + '.cleanupAssociations', 'cleanup does not return the number of expired associations (history: %s)' % hist)


def mem_histories(ctx, shapes, rule, what):
    mem_client(ctx)

    def one(ctx, shape):
        fl = ctx.flow(max_states=20000)
        ops = []
        for i, op in enumerate(shape):
            u = sym('url%d' % i, 'x:str')
            if op == 'store':
                ops.append((op, u, sym('assoc%d' % i, ASSOC)))
                for c, t in (('handle', 'x:str'), ('issued', 'x:int'), ('lifetime', 'x:int')):
                    fl.types[A('attr', sym('assoc%d' % i, ASSOC), c)] = t
            elif op in ('get', 'remove'):
                ops.append((op, u, sym('handle%d' % i, 'x:str')))
            else:
                ops.append((op, u, NONE))

        def setup(st):
            for op, u, x in ops:
                if op in ('get', 'remove'):
                    st.facts[eq(x, NONE)] = False
        res = ctx.run(fl, 'memclient.history', [T(tuple(T((C(op), u, x)) for op, u, x in ops))], setup=setup)
        n = 0
        for st, v in res:
            if isinstance(v, Raised):
                ctx.ob(False, rule, MEM, 'an operation raises %s (history: %s)' % (cls_of(fl, st, v), ' '.join(shape)))
                continue
            vw = fl.view(st, v)
            if vw is None or len(vw[1]) != len(ops):
                raise AnchorMissing('history result not understood')
            n += 1
            check_history(ctx, fl, st, ops, vw[1], rule, what)
        if not n:
            raise AnchorMissing('no outcome of the history %s' % (shape,))
    ctx.parallel(one, shapes)


def mem_nonces(ctx, shapes, rule):
    mem_client(ctx)

    def one(ctx, shape):
        fl = ctx.flow(max_states=20000)
        sk = skew(ctx, fl)
        ops = []
        for i, op in enumerate(shape):
            ops.append((op, sym('url%d' % i, 'x:str'), sym('time%d' % i, 'x:int'), sym('salt%d' % i, 'x:str')))
        res = ctx.run(fl, 'memclient.nonces', [T(tuple(T((C(o[0]),) + o[1:]) for o in ops))])
        hist = ' '.join(shape)
        for st, v in res:
            if isinstance(v, Raised):
                ctx.ob(False, rule, MEM, 'an operation raises %s (history: %s)' % (cls_of(fl, st, v), hist))
                continue
            out = fl.view(st, v)[1]
            for k, (op, u, t, x) in enumerate(ops):
                if op != 'use':
                    continue
                window = AND(le(sub(t, NOW), sk), le(sub(NOW, t), sk))
                used = [j for j in range(k) if ops[j][0] == 'use' and out[j] == TRUE]
                same = [AND(eq(u, ops[j][1]), eq(t, ops[j][2]), eq(x, ops[j][3])) for j in used]
                if out[k] == TRUE:
                    ctx.ob(entails(fl, st, window), rule + '.window', MEM + '.useNonce', 'a nonce outside the allowed skew is accepted (history: %s)' % hist)
                    for f in same:
                        ctx.ob(entails(fl, st, f, False), rule + '.once', MEM + '.useNonce', 'a nonce is accepted a second time (history: %s)' % hist)
                elif out[k] == FALSE:
                    ctx.ob(entails_any(fl, st, [NOT(window)] + same), rule + '.fresh', MEM + '.useNonce', 'an unused nonce inside the window is refused (history: %s)' % hist)
                else:
                    ctx.ob(False, rule + '.decision', MEM + '.useNonce', 'the result is neither true nor false')
    ctx.parallel(one, shapes)


# ---------------------------------------------------------------- file store
SAFE = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._-')
B64 = frozenset('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/=')
OPENERS = ('open', 'io.open', 'os.open', 'codecs.open', 'os.fdopen')
PATH_CALLS = {'open': (0,), 'io.open': (0,), 'os.open': (0,), 'codecs.open': (0,), 'os.rename': (0, 1), 'os.replace': (0, 1), 'os.link': (0, 1),
              'os.unlink': (0,), 'os.remove': (0,), 'os.rmdir': (0,), 'os.mkdir': (0,), 'os.makedirs': (0,), 'os.listdir': (0,),
              'os.utime': (0,), 'os.chmod': (0,), 'os.symlink': (0, 1), 'os.truncate': (0,), 'shutil.move': (0, 1), 'shutil.copy': (0, 1),
              'shutil.rmtree': (0,), 'os.removedirs': (0,), 'os.renames': (0, 1), 'os.scandir': (0,), 'glob.glob': (0,), 'os.walk': (0,)}
ALLOWED_OTHER = ('tempfile.mkstemp', 'os.fdopen', 'os.close', 'os.fsync', 'os.write', 'os.fdatasync')
UNLINK = ('os.unlink', 'os.remove')
RENAME = ('os.rename', 'os.replace')
FILE_PUBLIC = ('storeAssociation', 'getAssociation', 'best', 'removeAssociation', 'useNonce', 'cleanupNonces', 'cleanupAssociations', 'cleanup')


def charset(t):
    """characters a text value can consist of; None when unknown"""
    if isC(t):
        return frozenset(t[2]) if isinstance(t[2], str) else frozenset(t[2].decode('latin-1')) if isinstance(t[2], bytes) else \
            frozenset(str(t[2])) if isinstance(t[2], int) else None
    if not isA(t):
        return None
    op = t[1]
    if op == 'cat':
        return union(charset(x) for x in t[2:])
    if op == 'fmt':
        spec = t[2][2] if isC(t[2]) else t[2]
        if isinstance(spec, str) and spec[-1:] in ('d', 'i', 'u'):
            return frozenset('0123456789- +') & SAFE | frozenset('-')
        if isinstance(spec, str) and spec[-1:] in ('x', 'X'):
            return frozenset('0123456789abcdef-' if spec[-1] == 'x' else '0123456789ABCDEF-')
        if spec in ('', 's'):
            return charset(t[3])
        return None
    if op == 'm:join':
        sep = charset(t[2])
        seq = t[3]
        while isA(seq) and seq[1] in ('list', 'iter', 'tuple'):
            seq = seq[2]
        if isA(seq, 'comp'):
            return union([sep] + [elem_charset(e, fs, seq[2]) for fs, el in seq[3] for e in el])
        if isA(seq, 'L'):
            return union([sep] + [charset(x) for x in seq[2:]])
        return None
    if op in ('m:decode', 'm:encode', 'text', 'bytes', 'm:strip', 'm:rstrip', 'm:lstrip'):
        b = charset(t[2])
        if b is not None and op in ('m:strip', 'm:rstrip') and b64text(t[2]):
            b = b - frozenset('\n' if len(t) == 3 else [c for c in '=\n' if c in const_text(t[3])])
        return b
    if op == 'm:replace' and isC(t[3]) and len(t[3][2]) == 1:
        b = charset(t[2])
        c = t[3][2] if isinstance(t[3][2], str) else t[3][2].decode('latin-1')
        r = charset(t[4])
        return None if b is None or r is None else ((b - frozenset(c)) | (r if c in b else frozenset()))
    if op == 'call' and t[2] in ('binascii.b2a_base64', 'base64.encodestring', 'base64.encodebytes'):
        return B64 | frozenset('\n')
    if op == 'call' and t[2] in ('base64.b64encode', 'base64.standard_b64encode'):
        return B64
    if op == 'call' and t[2] == 'base64.urlsafe_b64encode':
        return B64 - frozenset('+/') | frozenset('-_')
    if op == 'hexdigest' or (op == 'call' and t[2] in ('binascii.hexlify', 'binascii.b2a_hex')):
        return frozenset('0123456789abcdef')
    if op == 'slice':
        b = charset(t[2])
        if b is not None and isA(t[2], 'call') and t[2][2] == 'binascii.b2a_base64' and t[3] == NONE and t[4] == C(-1) and t[5] == NONE:
            return b - frozenset('\n')
        return b
    if op == 'getitem' and isA(t[2]) and t[2][1] in ('m:split', 'm:partition', 'm:rsplit'):
        return charset(t[2][2])
    return None


def strip_enc(t):
    while isA(t) and t[1] in ('m:decode', 'm:encode', 'text', 'bytes') and len(t) > 2:
        t = t[2]
    return t


def const_text(t):
    return t[2] if isC(t) and isinstance(t[2], str) else t[2].decode('latin-1') if isC(t) and isinstance(t[2], bytes) else ''


def b64text(t):
    """base64 text (padding and line end only at its end), its other characters possibly replaced"""
    t = strip_enc(t)
    while isA(t):
        if t[1] == 'm:replace' and isC(t[3]) and isC(t[4]) and not set(const_text(t[4])) & set('=\n'):
            t = strip_enc(t[2])
        elif t[1] in ('m:strip', 'm:rstrip'):
            t = strip_enc(t[2])
        elif t[1] == 'slice' and t[3] == NONE and t[5] == NONE:
            t = strip_enc(t[2])
        else:
            return t[1] == 'call' and t[2] in ('binascii.b2a_base64', 'base64.b64encode', 'base64.urlsafe_b64encode', 'base64.encodebytes', 'base64.standard_b64encode')
    return False


def elem_charset(e, fs, it):
    el = A('elem', it)
    if e == el:
        for a, v in fs:
            if v and a[1] == 'in' and a[2] == el:
                c = a[3]
                while isA(c) and c[1] in ('set', 'frozenset', 'list', 'tuple'):
                    c = c[2]
                if isC(c) and isinstance(c[2], str):
                    return frozenset(c[2])
        return charset(it)
    if isA(e, 'cat'):
        return union(elem_charset(x, fs, it) for x in e[2:])
    return charset(e)


def union(cs):
    out = frozenset()
    for c in cs:
        if c is None:
            return None
        out |= c
    return out


def determines(t, key):
    """different values of `key` give different texts t, up to a digest collision"""
    if t == key:
        return True
    if not isA(t):
        return False
    op = t[1]
    if op == 'cat':
        return any(determines(x, key) for x in t[2:])
    if op == 'fmt':
        spec = t[2][2] if isC(t[2]) else t[2]
        return t[3] == key and isinstance(spec, str) and (spec[-1:] in ('d', 'x', 'X', 's', '') and '.' not in spec)
    if op in ('m:encode', 'm:decode', 'text', 'bytes', 'int'):
        return determines(t[2], key)
    if op in ('digest', 'hexdigest'):
        h = t[2]
        return isA(h, 'hash') and any(hash_data(h, key))
    if op == 'm:replace' and isC(t[3]) and isC(t[4]):
        if not determines(t[2], key):
            return False
        b = charset(t[2])
        a, r = t[3][2], t[4][2]
        return b is not None and (r not in b if r else a in ('=', b'='))
    if op == 'slice':
        return determines(t[2], key) and isA(t[2], 'call') and t[2][2] == 'binascii.b2a_base64' and t[3] == NONE and t[4] == C(-1)
    if op in ('m:strip', 'm:rstrip'):
        return determines(t[2], key) and b64text(t[2]) and (len(t) == 3 or (const_text(t[3]) != '' and set(const_text(t[3])) <= set('=\n')))
    if op == 'call' and t[2] in ('binascii.b2a_base64', 'base64.b64encode', 'base64.urlsafe_b64encode', 'binascii.hexlify', 'binascii.b2a_hex',
                                 'base64.encodebytes'):
        return determines(t[3], key)
    return False


def hash_data(h, key):
    """the hash is over exactly one input, which determines key"""
    flatd = list(h[3][1]) + list(h[5:])
    return [determines(x, key) for x in flatd] if len(flatd) == 1 else [False]


def pathcomps(t):
    if isA(t, 'call') and t[2] == 'os.path.join':
        out = []
        for x in t[3:]:
            out += pathcomps(x)
        return out
    return [t]


def basename(t):
    if isA(t, 'call') and t[2] == 'os.path.basename':
        return pathcomps(t[3])[-1]
    return t


class FileStore(object):
    """a constructed file store and the analyses of its operations"""

    def __init__(self, ctx):
        ctx.p.client('fileclient', '''
from openid.store.filestore import FileOpenIDStore


def make(directory):
    return FileOpenIDStore(directory)


def call(s, name, *args):
    try:
        r = getattr(s, name)(*args)
        if name == 'useNonce':
            return True if r else False
        return r
    except Exception:
        raise
''')
        self.ctx = ctx
        self.fl = fl = ctx.flow(opaque={ASSOC + '.deserialize', ASSOC + '.serialize'}, typed_calls={'openid.association.Association.deserialize': ASSOC, 'deserialize': ASSOC},
                                max_states=20000)
        fl.types[AH] = 'x:str'
        res = [(st, v) for st, v in ctx.run(fl, 'fileclient.make', [sym('directory', 'x:str')]) if not isinstance(v, Raised)]
        if not res:
            raise AnchorMissing('%s cannot be constructed' % FILE)
        self.st0, self.obj = res[0]
        made = [e[3][0] for st, _ in res for e in calls(st) if e[1] in ('os.makedirs', 'os.mkdir')]
        self.dirs = list(dict.fromkeys(made))
        self.cache = {}

    def out(self, op, args=None):
        if op not in self.cache:
            a = {'useNonce': [U, TS, SALT], 'storeAssociation': [U, AS], 'getAssociation': [U, H], 'best': [U], 'removeAssociation': [U, H]}.get(op, [])
            name = 'getAssociation' if op == 'best' else op
            st = self.st0.copy()
            self.cache[op] = self.ctx.cont(self.fl, st, 'fileclient.call', [self.obj, C(name)] + a)
            if not self.cache[op]:
                raise AnchorMissing('no outcome of %s.%s' % (FILE, name))
        return self.cache[op]

    def key(self, op):
        return FILE + '.' + ('getAssociation' if op == 'best' else op)

    def dir_of(self, path):
        """(store directory, last component) of a path lying directly inside a store directory"""
        pc = pathcomps(path)
        for d in self.dirs:
            if pathcomps(d) == pc[:-1]:
                return d, pc[-1]
        return None, None


def ok_event(e):
    return not (isinstance(e[6], tuple) and e[6] and e[6][0] == 'raised')


def guard_facts(guard):
    out = set()
    for it, p, el in guard:
        out |= set(p)
        out |= set(iter_guard(it))
    return out


def iter_guard(it):
    """facts every element of a filtered list satisfies"""
    while isA(it) and it[1] in ('list', 'sorted', 'tuple', 'iter', 'set', 'rev'):
        it = it[2]
    if not isA(it, 'comp'):
        return set()
    ps = [set(fs) for fs, el in it[3] if el]
    out = set.intersection(*ps) if ps else set()
    return out | iter_guard(it[2])


def state_with(st, facts_):
    s = st.copy()
    for a, v in facts_:
        s.facts[a] = v
    return s


def created(e):
    """the event creates a file only if no such file existed"""
    if e[1] == 'os.open' and len(e[3]) >= 2:
        return has(e[3][1], ('x', 'os.O_EXCL')) and has(e[3][1], ('x', 'os.O_CREAT')) and not hasop(e[3][1], '+')
    if e[1] in ('open', 'io.open'):
        mode = e[3][1] if len(e[3]) > 1 else dict(e[4]).get('mode')
        return mode is not None and isC(mode) and 'x' in mode[2]
    return e[1] in ('os.link', 'os.mkdir')


def errno_is(fl, st, name):
    return any(a[1] == 'eq' and ('x', 'errno.' + name) in (a[2], a[3]) and v for a, v in st.facts.items())


def file_nonce(ctx, fs):
    fl = fs.fl
    sk = skew(ctx, fl)
    window = AND(le(sub(TS, NOW), sk), le(sub(NOW, TS), sk))
    key = FILE + '.useNonce'
    names = []
    n = 0
    for st, v in fs.out('useNonce'):
        if isinstance(v, Raised):
            continue
        made = [e for e in calls(st, ok=False) if created(e) and e[3]]
        good = [e for e in made if ok_event(e)]
        bad = [e for e in calls(st, ok=False) if not ok_event(e)]
        if bad and bad[-1][1] in ('os.close', '.close', 'os.fsync', '.fileno', 'os.fdopen') and errno_is(fl, st, 'EEXIST'):
            continue        # these never report that a file exists
        if v == TRUE:
            n += 1
            ctx.ob(entails(fl, st, window), 'file.window', key, 'a nonce outside the allowed skew is accepted')
            ok = bool(good)
            ctx.ob(ok, 'file.atomic', key, 'a nonce is accepted without creating its file exclusively')
            for e in good[:1]:
                path = e[3][1] if e[1] == 'os.link' else e[3][0]
                d, name = fs.dir_of(path)
                names.append((d, name))
                for k, what in ((U, 'server URL'), (TS, 'timestamp'), (SALT, 'salt')):
                    ctx.ob(d is not None and determines(name, k), 'file.key', key, 'the nonce file name does not determine the %s' % what)
        elif v == FALSE:
            if not made:
                ctx.ob(entails(fl, st, window, False), 'file.refuse', key, 'a nonce inside the window is refused without looking for it')
            else:
                ctx.ob(not good and errno_is(fl, st, 'EEXIST') or any(isinstance(e[6], tuple) and e[6][1] == 'FileExistsError' for e in made),
                       'file.refuse', key, 'a nonce is refused although its file did not exist')
        else:
            ctx.ob(False, 'file.decision', key, 'the result is neither true nor false')
    if not n:
        raise AnchorMissing('no accepting path in %s' % key)
    key = FILE + '.cleanupNonces'
    n = 0
    for op in ('cleanupNonces', 'cleanup'):
        for st, v in fs.out(op):
            for e, g in flat(st.events):
                if e[0] != 'call' or e[1] not in UNLINK:
                    continue
                d, name = fs.dir_of(e[3][0])
                if d is None or not names or d != names[0][0]:
                    continue
                n += 1
                s = state_with(st, guard_facts(g))
                stamps = stamp_values(s, name)
                ok = any(entails(fl, s, AND(le(sub(x, NOW), sk), le(sub(NOW, x), sk)), False) for x in stamps)
                ctx.ob(ok, 'file.cleanup', key, 'a nonce file is removed although its timestamp is not known to be outside the window')
    if not n:
        raise AnchorMissing('%s removes nothing' % key)
    for d, name in names:
        parts = list(name[2:]) if isA(name, 'cat') else [name]
        ok = isA(parts[0], 'fmt') and parts[0][3] == TS and str(parts[0][2]).find('x') >= 0 and len(parts) > 1 and isC(parts[1]) and parts[1][2][:1] == '-'
        ctx.ob(ok, 'file.stamp', FILE + '.useNonce', 'the nonce file name does not start with the hexadecimal timestamp the cleanup reads')


def stamp_values(st, name):
    """values read as the hexadecimal timestamp before the first '-' of a file name"""
    out = []
    for a in st.facts:
        for x in subterms(a):
            if isA(x, 'int') and len(x) == 4 and x[3] == C(16):
                f = x[2]
                if isA(f, 'getitem') and f[3] == C(0) and isA(f[2]) and f[2][1] in ('m:split', 'm:partition') and f[2][2] == name and f[2][3] == C('-') and x not in out:
                    out.append(x)
    return out


def assoc_reads(st):
    """deserialised associations on a path: (value event, path read)"""
    for e, g in flat(st.events):
        if e[0] == 'call' and e[1].split('.')[-1] == 'deserialize':
            yield e, g, read_paths(e[3])


def read_paths(terms):
    out = []
    for t in terms:
        for x in subterms(t):
            if isA(x, 'call') and x[2] in ('open', 'io.open', 'os.open', 'codecs.open') and x[3] not in out:
                out.append(x[3])
    return out


def store_path(fs):
    """the path storeAssociation makes an association visible under, per truth of the handle"""
    out = []
    for st, v in fs.out('storeAssociation'):
        if isinstance(v, Raised):
            continue
        for e in calls(st, RENAME):
            if e[3][1] not in out and entails(fs.fl, st, truth(AH)):
                out.append(e[3][1])
    if not out:
        raise AnchorMissing('no rename on a successful path of %s.storeAssociation' % FILE)
    return out


def pick(t):
    """t is an element chosen from a list: (list, key term or None, what, value) or None"""
    proj = []
    while True:
        if isA(t, 'getitem') and isC(t[3]) and isA(t[2], 'sorted'):
            s = t[2]
            newest = t[3] == C(-1)
            return (s[2], s[3] if len(s) > 3 else None, newest, proj[::-1])
        if isA(t, 'call') and t[2] in ('max',):
            return (t[3], t[4] if len(t) > 4 else None, True, proj[::-1])
        if isA(t, 'maxof'):
            return (t[2], t[3] if len(t) > 3 else None, True, proj[::-1])
        if isA(t, 'getitem') and isC(t[3]):
            proj.append(t[3][2])
            t = t[2]
            continue
        return None


def project(e, proj):
    for i in proj:
        if e[0] == 't':
            e = e[1][i]
        elif isA(e, 'L'):
            e = e[2 + i]
        else:
            e = A('getitem', e, C(i))
    return e


def apply_key(k, e):
    x = [y for y in subterms(k) if isA(y, '$x')]
    r = subst(k, {y: e for y in x})
    return reduce_items(r)


def reduce_items(t):
    if isA(t, 'getitem') and isC(t[3]):
        b = reduce_items(t[2])
        if b[0] == 't' and isinstance(t[3][2], int) and -len(b[1]) <= t[3][2] < len(b[1]):
            return b[1][t[3][2]]
        return A('getitem', b, t[3])
    if isA(t, 'attr'):
        return A('attr', reduce_items(t[2]), t[3])
    return t


def newest(ctx, fl, st, v, rule, key, issued_of, check):
    """v is the newest element of a list; check(st, element, facts) judges each element"""
    if isA(v, 'fold') and len(v) == 5 and v[3] == NONE:
        return newest_so_far(ctx, fl, st, v, rule, key, issued_of, check)
    p = pick(v)
    ctx.ob(p is not None and p[2], rule, key, 'the association returned without a handle is not chosen as the newest one')
    if p is None:
        return
    lst, k, _, proj = p
    while isA(lst) and lst[1] in ('list', 'tuple'):
        lst = lst[2]
    lst = flat_comp(lst)
    if not isA(lst, 'comp'):
        ctx.ob(False, rule, key, 'the candidates for the newest association are not understood')
        return
    for fs_, el in lst[3]:
        for e in el:
            a = project(e, proj)
            kv = apply_key(k, e) if k is not None else (e[1][0] if e[0] == 't' else e)
            ctx.ob(kv is not None and kv in issued_of(a), rule, key, 'candidates are not ordered by the time they were issued')
            check(state_with(st, set(fs_) | iter_guard(lst[2])), a)


def flat_comp(lst):
    """a list made from a list made from a list: each element with the conditions of all of them"""
    if not isA(lst, 'comp'):
        return lst
    src = lst[2]
    while isA(src) and src[1] in ('list', 'tuple', 'iter'):
        src = src[2]
    inner = flat_comp(src)
    if not isA(inner, 'comp') or not all(len(el) == 1 for _, el in inner[3] if el):
        return lst
    alts = []
    for f1, el1 in inner[3]:
        if not el1:
            alts.append((f1, el1))
        for f2, el2 in lst[3] if el1 else ():
            m = {A('elem', lst[2]): el1[0], A('elem', src): el1[0]}
            facts = set(f1)
            for a, val in f2:
                facts.add((subst(a, m), val))
            if any((a, not val) in facts or isA(a, 'eq') and eq(a[2], a[3]) == C(not val) for a, val in facts):
                continue
            alts.append((frozenset(facts), tuple(subst(x, m) for x in el2)))
    return A('comp', inner[2], tuple(alts))


def newest_so_far(ctx, fl, st, v, rule, key, issued_of, check):
    """a loop that keeps the newest element seen: it takes an element only when that is the first or no older than the
    one kept, and passes over one because of the one kept only when it is no newer"""
    accs = set(y for fs_, x in v[4] for t in [x] + [f for f, _ in fs_] for y in subterms(t) if isA(y, 'lv'))
    cands = [x for _, x in v[4] if not isA(x, 'lv')]
    if len(accs) != 1 or not cands:
        ctx.ob(False, rule, key, 'the candidates for the newest association are not understood')
        return
    acc = accs.pop()

    def issued(x):
        return {p[1][0][2]: p[1][1] for p in x[3:]}.get('issued', A('attr', x, 'issued')) if isA(x, 'rec') else A('attr', x, 'issued')
    old = A('attr', acc, 'issued')
    for fs_, x in v[4]:
        s = state_with(st, fs_)
        if x != acc:
            new = issued(x)
            ctx.ob(entails(fl, s, eq(acc, NONE)) or entails(fl, s, lt(new, old), False), rule, key,
                   'an association older than one seen before is preferred to it')
            check(s, x)
        elif entails(fl, s, eq(acc, NONE), False):
            for c in set(cands):
                ctx.ob(entails(fl, s, lt(old, issued(c)), False) or entails(fl, s, eq(c, NONE)) or entails(fl, s, alive(c), False), rule, key, 'an association newer than the one kept is passed over')


def alive(a):
    return lt(C(0), sub(add(A('attr', a, 'issued'), A('attr', a, 'lifetime')), NOW))


def file_assoc(ctx, fs):
    fl = fs.fl
    paths = store_path(fs)
    want = [subst(p, {AH: H}) for p in paths]
    for p in paths:
        d, name = fs.dir_of(p)
        ctx.ob(d is not None and determines(name, U) and determines(name, AH), 'file.key', FILE + '.storeAssociation',
               'the association file name does not determine server URL and handle')
    key = FILE + '.getAssociation'
    got = 0
    for st, v in fs.out('getAssociation'):
        unread = [e for e, _, _ in assoc_reads(st) if not ok_event(e) and fl.exc_match(e[6][1], 'ValueError')]
        if isinstance(v, Raised):
            last = [e for e, _ in flat(st.events) if e[0] == 'call' and not ok_event(e)]
            if unread:
                ctx.ob(last[-1] is not unread[-1], 'file.corrupt', key, 'an unreadable association file raises instead of counting as absent')
            ctx.ob(not fl.exc_match(cls_of(fl, st, v), 'UnicodeError'), 'file.corrupt', key, 'an association file that cannot be decoded raises instead of counting as absent')
            missing = [e for e in last if e[1] in OPENERS and errno_is(fl, st, 'ENOENT')]
            ctx.ob(not (missing and last[-1] is missing[-1]), 'file.missing', key, 'a missing association file raises instead of counting as absent')
            continue
        if not entails(fl, st, truth(H)):
            continue
        if v != NONE:
            got += 1
            r = read_paths([v])
            ctx.ob(any(p in want for p in r), 'file.right', key, 'the association returned is not read from the file of this server URL and handle')
            ctx.ob(entails(fl, st, alive(v)), 'file.alive', key, 'an expired association is returned')
        else:
            for e, _, _ in assoc_reads(st):
                if ok_event(e):
                    ctx.ob(entails(fl, st, eq(e[6], NONE)) or entails(fl, st, alive(e[6]), False), 'file.absent', key, 'a stored live association is reported as absent')
    if not got:
        raise AnchorMissing('%s returns no association' % key)
    best = 0
    for st, v in fs.out('best'):
        if isinstance(v, Raised) or v == NONE:
            continue
        best += 1

        def check(s, a):
            ctx.ob(entails(fl, s, alive(a)), 'file.alive', key, 'an expired association is returned when no handle is given')
            r = [(p, fs.dir_of(p)) for p in read_paths([a])]
            ok = False
            for p, (d, name) in r:
                if d is None or d != fs.dir_of(paths[0])[0] or not isA(name, 'elem'):
                    continue
                for f, val in s.facts.items():
                    if val and f[1] == 'm:startswith' and f[2] == name and is_prefix(basename(f[3]), fs.dir_of(paths[0])[1]):
                        ok = True
            ctx.ob(ok, 'file.right', key, 'the association returned without a handle is not read from a file of this server URL')
        newest(ctx, fl, st, v, 'file.newest', key, lambda a: (A('attr', a, 'issued'),), check)
    if not best:
        raise AnchorMissing('%s returns no association when no handle is given' % key)


def is_prefix(pre, name):
    """text `pre` is the part of `name` before the handle, ends at a separator and determines the server URL"""
    a = list(pre[2:]) if isA(pre, 'cat') else [pre]
    b = list(name[2:]) if isA(name, 'cat') else [name]
    while a and isC(a[-1]) and a[-1][2] == '':
        a.pop()
    return bool(a) and a == b[:len(a)] and isC(a[-1]) and a[-1][2][-1:] == '-' and determines(pre, U) and len(b) > len(a)


def listed(fs):
    """directories the operations list"""
    if 'listed' not in fs.cache:
        fs.cache['listed'] = set(e[3][0] for op in FILE_PUBLIC for st, v in fs.out(op) for e, g in flat(st.events)
                                 if e[0] == 'call' and e[1] in ('os.listdir', 'os.scandir', 'os.walk', 'glob.glob') and e[3])
    return fs.cache['listed']


def file_crash(ctx, fs):
    fl = fs.fl
    key = FILE + '.storeAssociation'
    data = A('call', ASSOC + '.serialize', AS)
    n = m = 0
    for st, v in fs.out('storeAssociation'):
        evs = [e for e, _ in flat(st.events) if e[0] == 'call']
        tmp = None
        for i, e in enumerate(evs):
            if e[1] == 'tempfile.mkstemp' and ok_event(e):
                tmp = (i, e)
        final = [(i, e) for i, e in enumerate(evs) if e[1] in RENAME and ok_event(e)]
        # nothing but a rename touches a final name
        for i, e in enumerate(evs):
            for k in PATH_CALLS.get(e[1], ()):
                if k < len(e[3]) and e[1] not in UNLINK + RENAME:
                    d, name = fs.dir_of(e[3][k])
                    ctx.ob(e[1] in ('os.listdir', 'os.makedirs', 'os.mkdir') or d is None or reading(e), 'crash.rename-only', key,
                           'the association file is written in place instead of being renamed into place')
        for i, e in final:
            n += 1
            src, dst = e[3][0], e[3][1]
            ok = tmp is not None and src == A('getitem', tmp[1][6], C(1)) and tmp[0] < i
            ctx.ob(ok, 'crash.temp', key, 'the file renamed into place is not the temporary file')
            if not ok:
                continue
            fd = A('getitem', tmp[1][6], C(0))
            tdir = dict(tmp[1][4]).get('dir', tmp[1][3][2] if len(tmp[1][3]) > 2 else NONE)
            ctx.ob(tdir in fs.dirs, 'crash.same-store', key, 'the temporary file is not created inside the store, so the rename may not be atomic')
            ctx.ob(tdir not in listed(fs), 'crash.hidden', key, 'the temporary file lies in a directory whose files are read as associations or nonces')
            ctx.ob(fs.dir_of(dst)[0] is not None, 'crash.final', key, 'the association is renamed outside the store directories')
            files = [x[6] for x in evs[:i] if x[1] in ('os.fdopen', 'open', 'io.open') and ok_event(x) and (x[3][0] in (fd, src))]
            wr = [j for j, x in enumerate(evs[:i]) if ok_event(x) and ((x[1] in ('.write', '.writelines') and x[2] in files) or (x[1] == 'os.write' and x[3][0] == fd))]
            full = [j for j in wr if has_data(evs[j], data)]
            ctx.ob(bool(full), 'crash.content', key, 'the serialised association is not written to the temporary file before the rename')
            if not full:
                continue
            last = max(wr)
            raw = all(evs[j][1] == 'os.write' for j in wr)
            fl_i = [j for j, x in enumerate(evs[:i]) if j > last and ok_event(x) and x[2] in files and x[1] in ('.flush', '.close', '.__exit__')]
            ctx.ob(raw or bool(fl_i), 'crash.flush', key, 'buffered data is not flushed before the rename')
            sy = [j for j, x in enumerate(evs[:i]) if ok_event(x) and x[1] in ('os.fsync', 'os.fdatasync') and same_file(x[3][0], fd, files)]
            ctx.ob(any(j > last and (raw or any(f < j for f in fl_i)) for j in sy), 'crash.sync', key,
                   'the temporary file is not synced to disk after its data was written and flushed')
        if not isinstance(v, Raised):
            m += 1
            ctx.ob(bool(final) and final[-1][1][3][1] in [e[3][1] for e in evs if e[1] in RENAME], 'crash.visible', key,
                   'storing returns normally although the association was not renamed into place')
        elif tmp is not None and not final:
            want = A('getitem', tmp[1][6], C(1))
            ctx.ob(any(e[1] in UNLINK and e[3][0] == want for e in evs[tmp[0]:]), 'crash.cleanup', key,
                   'the temporary file is left behind when storing fails')
    if not n or not m:
        raise AnchorMissing('no successful path of %s' % key)
    # readers
    for op in ('getAssociation', 'best', 'cleanupAssociations'):
        key = fs.key(op)
        for st, v in fs.out(op):
            allev = list(flat(st.events))
            for i, (e, g) in enumerate(allev):
                if e[0] != 'call':
                    continue
                if e[1].split('.')[-1] == 'deserialize' and not ok_event(e) and fl.exc_match(e[6][1], 'ValueError'):
                    p = read_paths(e[3])
                    later = [x for x, g2 in allev[i:] if x[0] == 'call' and g2 == g]
                    ctx.ob(any(x[1] in UNLINK and x[3][0] in p for x in later), 'crash.corrupt', key, 'a corrupt association file is not removed')
                    if not g and isinstance(v, Raised):
                        bad = [x for x in later if not ok_event(x)]
                        ctx.ob(bad[-1] is not e, 'crash.corrupt', key, 'a corrupt association file raises')
            if isinstance(v, Raised):
                ctx.ob(not fl.exc_match(cls_of(fl, st, v), 'UnicodeError'), 'crash.corrupt', key, 'an association file that cannot be decoded raises instead of being removed')
                bad = [e for e, g in allev if e[0] == 'call' and not ok_event(e)]
                if bad and not [g for e, g in allev if e is bad[-1] and g] and bad[-1][1] in ('open', 'io.open', 'os.open') and last_errno(fl, st, bad[-1], 'ENOENT'):
                    ctx.ob(False, 'crash.missing', key, 'a missing association file raises instead of counting as absent')
                else:
                    ctx.ob(True, 'crash.missing', key, '')


def last_errno(fl, st, e, name):
    return errno_is(fl, st, name)


def reading(e):
    mode = e[3][1] if len(e[3]) > 1 else dict(e[4]).get('mode', C('r'))
    if e[1] == 'os.open':
        return not any(has(mode, ('x', 'os.' + f)) for f in ('O_WRONLY', 'O_RDWR', 'O_CREAT', 'O_TRUNC', 'O_APPEND'))
    return isC(mode) and not set(mode[2]) & set('wax+')


def same_file(x, fd, files):
    return x == fd or x in files or (isA(x, 'call') and x[2] == '.fileno' and x[3] in files)


def has_data(e, data):
    return any(has(strip_enc(x), data) and not hasop(x, 'slice') for x in e[3])


def file_cleanup(ctx, fs):
    fl = fs.fl
    assoc_dir = fs.dir_of(store_path(fs)[0])[0]
    key = FILE + '.cleanupAssociations'
    n = 0
    for op in ('cleanupAssociations', 'cleanup'):
        for st, v in fs.out(op):
            evs = list(flat(st.events))
            for i, (e, g) in enumerate(evs):
                if e[0] != 'call' or e[1] not in UNLINK or fs.dir_of(e[3][0])[0] != assoc_dir:
                    continue
                n += 1
                p = e[3][0]
                s = state_with(st, guard_facts(g))
                unreadable = any(x[1].split('.')[-1] == 'deserialize' and not ok_event(x) and p in read_paths(x[3]) and g2 == g for x, g2 in evs[:i] if x[0] == 'call') or \
                    any(x[1] == '.read' and ok_event(x) and g2 == g and p in read_paths([x[6]]) for x, g2 in evs[:i] if x[0] == 'call') and \
                    not any(x[1].split('.')[-1] == 'deserialize' and ok_event(x) and g2 == g for x, g2 in evs[:i] if x[0] == 'call')
                reads = [x[6] for x, _ in evs if x[0] == 'call' and x[1].split('.')[-1] == 'deserialize' and ok_event(x) and p in read_paths(x[3])]
                ok = unreadable or any(entails(fl, s, alive(a), False) for a in reads)
                ctx.ob(ok, 'file.expired-only', key, 'cleanup removes an association that is not known to be expired')
            if op == 'cleanupAssociations' and not isinstance(v, Raised):
                file_complete(ctx, fs, st, v, key)
    if not n:
        raise AnchorMissing('%s removes nothing' % key)
    key = FILE + '.removeAssociation'
    want = [subst(p, {AH: H}) for p in store_path(fs)]
    for st, v in fs.out('removeAssociation'):
        if not entails(fl, st, truth(H)):
            continue
        un = [e for e in calls(st, UNLINK, ok=False)]
        for e in un:
            ctx.ob(e[3][0] in want, 'file.remove-only', key, 'removing an association deletes another file')
        if isinstance(v, Raised):
            continue
        gone = [e for e in un if ok_event(e)]
        live = [e[6] for e, _, _ in assoc_reads(st) if ok_event(e) and entails(fl, st, alive(e[6]))]
        if v in (TRUE, C(1)):
            ctx.ob(bool(gone), 'file.remove', key, 'removal reports success although nothing was deleted')
        elif v in (FALSE, C(0), NONE):
            ctx.ob(not (gone and live and not any(not ok_event(e) for e in un)), 'file.remove', key, 'removal reports failure although a live association was deleted')
        else:
            ctx.ob(False, 'file.remove', key, 'the result of the removal is not understood')


def file_complete(ctx, fs, st, v, key):
    """every expired association is removed and counted"""
    fl = fs.fl
    loops = [e for e in st.events if e[0] == 'loop']
    counted = None
    if isA(v, 'len') and isA(v[2], 'comp'):
        counted = v[2]
    ctx.ob(counted is not None or v == C(0), 'file.count', key, 'the number of removed associations is not understood')
    if counted is None:
        return
    for fs_, el in counted[3]:
        s = state_with(st, set(fs_) | iter_guard(counted[2]))
        vals = [x for e in loops for _, evs in e[2] for y in evs if y[0] == 'call' and y[1].split('.')[-1] == 'deserialize' and ok_event(y) for x in [y[6]]]
        if el:
            ctx.ob(any(entails(fl, s, alive(a), False) for a in vals), 'file.count', key, 'an association that is not expired is counted as removed')
        else:
            ctx.ob(any(entails(fl, s, alive(a)) for a in vals), 'file.all', key, 'an expired association is not removed')


def file_paths(ctx, fs):
    fl = fs.fl
    base = {tuple(map(repr, pathcomps(d)[:-1])) for d in fs.dirs}
    ctx.ob(len(fs.dirs) >= 3 and len(base) == 1 and len(set(map(repr, fs.dirs))) == len(fs.dirs), 'path.dirs', FILE,
           'the store does not keep nonces, associations and temporary files in separate directories of one store')
    for d in fs.dirs:
        c = pathcomps(d)
        ctx.ob(isC(c[-1]) and set(c[-1][2]) <= SAFE and c[-1][2].strip('.') and all(x[0] != 's' or x[1] == 'directory' for x in subterms(d)),
               'path.dirs', FILE, 'a store directory is not a fixed name under the configured directory')
    n = 0
    for op in FILE_PUBLIC:
        key = fs.key(op)
        for st, v in fs.out(op):
            for e, g in flat(st.events):
                if e[0] != 'call' or not (e[1].startswith(('os.', 'shutil.', 'tempfile.', 'io.', 'codecs.', 'glob.', 'pathlib.')) or e[1] == 'open'):
                    continue
                if e[1].startswith('os.path.'):
                    continue
                if e[1] == 'tempfile.mkstemp':
                    d = dict(e[4]).get('dir', e[3][2] if len(e[3]) > 2 else NONE)
                    ctx.ob(d in fs.dirs, 'path.temp', key, 'a temporary file is created outside the store')
                    continue
                if e[1] in ALLOWED_OTHER:
                    continue
                if e[1] not in PATH_CALLS:
                    ctx.ob(False, 'path.calls', key, 'a file system call the analysis does not know: %s' % e[1])
                    continue
                for k in PATH_CALLS[e[1]]:
                    if k >= len(e[3]):
                        continue
                    n += 1
                    ctx.ob(safe_path(fs, e[3][k], e[1]), 'path.inside', key, '%s is given a path that may lie outside the store directories' % e[1])
    return n


def safe_path(fs, p, call):
    if p in fs.dirs:
        return call in ('os.listdir', 'os.makedirs', 'os.mkdir', 'os.scandir')
    if isA(p, 'getitem') and isA(p[2], 'call') and p[2][2] == 'tempfile.mkstemp' and p[3] == C(1):
        return True
    d, name = fs.dir_of(p)
    if d is None:
        return False
    if isA(name, 'elem'):
        it = name[2]
        while isA(it) and it[1] in ('list', 'sorted', 'tuple', 'set', 'comp', 'iter'):
            it = it[2]
        return isA(it, 'call') and it[2] == 'os.listdir' and it[3] == d
    c = charset(name)
    if c is None or not c <= SAFE:
        return False
    parts = name[2:] if isA(name, 'cat') else [name]
    return any(isC(x) and set(str(x[2])) - {'.'} for x in parts)


# ---------------------------------------------------------------- database stores
CONN, TA, TN = sym('conn'), sym('assoc_table', 'x:str'), sym('nonce_table', 'x:str')
SQL_OPS = ('createTables', 'storeAssociation', 'getAssociation', 'best', 'removeAssociation', 'useNonce', 'cleanupNonces', 'cleanupAssociations', 'cleanup')
ASSOC_COLS = ('server_url', 'handle', 'secret', 'issued', 'lifetime', 'assoc_type')


class SqlStore(object):
    def __init__(self, ctx, cls):
        self.ctx, self.cls, self.name = ctx, SQL + cls, cls
        ctx.p.client('sqlclient', '''
from openid.store.sqlstore import SQLiteStore, MySQLStore, PostgreSQLStore


def make_SQLiteStore(conn, t1, t2):
    return SQLiteStore(conn, t1, t2)


def make_MySQLStore(conn, t1, t2):
    return MySQLStore(conn, t1, t2)


def make_PostgreSQLStore(conn, t1, t2):
    return PostgreSQLStore(conn, t1, t2)


def call(s, name, *args):
    try:
        r = getattr(s, name)(*args)
        if name == 'useNonce':
            return True if r else False
        return r
    except Exception:
        raise
''')
        self.fl = fl = ctx.flow(max_states=20000, records=['openid.association.Association'])
        for t in (AH, A('attr', AS, 'assoc_type')):
            fl.types[t] = 'x:str'
        for t in (A('attr', AS, 'issued'), A('attr', AS, 'lifetime')):
            fl.types[t] = 'x:int'
        fl.types[A('attr', AS, 'secret')] = 'x:bytes'

        def setup(st):
            st.facts[A('hasattr', CONN, C('IntegrityError'))] = True
            st.facts[A('hasattr', CONN, C('OperationalError'))] = True
            for t in (TA, TN):
                st.facts[truth(t)] = True
        res = [(st, v) for st, v in ctx.run(fl, 'sqlclient.make_' + cls, [CONN, TA, TN], setup=setup) if not isinstance(v, Raised)]
        if not res:
            raise AnchorMissing('%s cannot be constructed' % self.cls)
        self.cold, self.obj = res[0]
        self.cache, self.warm = {}, None

    def args(self, op):
        return {'useNonce': [U, TS, SALT], 'storeAssociation': [U, AS], 'getAssociation': [U, H], 'best': [U], 'removeAssociation': [U, H]}.get(op, [])

    def go(self, st, op):
        return self.ctx.cont(self.fl, st, 'sqlclient.call', [self.obj, C('getAssociation' if op == 'best' else op)] + self.args(op))

    def warmed(self):
        """a store every operation of which has run before (its lazily filled caches are full)"""
        if self.warm is None:
            st = self.cold
            for op in ('createTables', 'removeAssociation', 'storeAssociation', 'getAssociation', 'useNonce', 'cleanupNonces', 'cleanupAssociations'):
                n = [s for s, v in self.go(st, op) if not isinstance(v, Raised)]
                if not n:
                    raise AnchorMissing('no successful path of %s.%s' % (self.cls, op))
                st = max(n, key=lambda s: (not any(e[0] == 'loop' for e in s.events), len(s.events)))
            self.warm = st.copy()
        return self.warm

    def out(self, op):
        if op not in self.cache:
            self.cache[op] = self.go(self.warmed(), op)
            if not self.cache[op]:
                raise AnchorMissing('no outcome of %s.%s' % (self.cls, op))
        return self.cache[op]

    def key(self, op):
        return self.cls + '.' + ('getAssociation' if op == 'best' else op)

    def columns(self):
        """column order and unique keys of the two tables, from the statements that create them"""
        if not hasattr(self, '_cols'):
            self._cols = {}
            for st, v in self.out('createTables'):
                for e in calls(st, '.execute', ok=False):
                    q = parse_sql(e[3][0])
                    if q and q['verb'] == 'create':
                        self._cols[q['table']] = (q['cols'], q['unique'])
            if set(self._cols) != {'assoc', 'nonce'}:
                raise AnchorMissing('tables created by %s not understood' % self.cls)
        return self._cols


def sql_text(t):
    """statement text with table names as @assoc / @nonce; None when it holds anything but fixed text"""
    parts = list(t[2:]) if isA(t, 'cat') else [t]
    out = ''
    for p in parts:
        if isC(p) and isinstance(p[2], str):
            out += p[2]
        elif p == TA:
            out += '@assoc'
        elif p == TN:
            out += '@nonce'
        else:
            return None
    return out


def sql_tokens(s):
    import re
    s = re.sub(r'--[^\n]*', ' ', s)
    return [x.lower() for x in re.findall(r'%s|\?|@?\w+|<=|>=|<>|!=|[-+*/=<>(),;]|\'[^\']*\'|"[^"]*"|`[^`]*`|\S', s)]


def parse_sql(t):
    """statement -> dict(verb, table, cols, set, where, params) or None"""
    s = sql_text(t)
    if s is None:
        return None
    tk = [x for x in sql_tokens(s)]
    while tk and tk[-1] == ';':
        tk.pop()
    if not tk or ';' in tk:
        return None
    pos = [0]
    nph = [0]

    def peek():
        return tk[pos[0]] if pos[0] < len(tk) else None

    def take(*want):
        x = peek()
        if x is None or (want and x not in want):
            raise ValueError('expected %s, got %s' % (want, x))
        pos[0] += 1
        return x

    def ph():
        take('?', '%s')
        nph[0] += 1
        return nph[0] - 1

    def table():
        x = take()
        if x not in ('@assoc', '@nonce'):
            raise ValueError(x)
        return x[1:]

    def names():
        take('(')
        out = [take()]
        while peek() == ',':
            take(',')
            out.append(take())
        take(')')
        return out

    def expr():
        if peek() in ('?', '%s'):
            return ('ph', ph())
        if peek() == '(':
            take('(')
            e = expr()
            take(')')
            return e
        out = [take()]
        while peek() == '+':
            take('+')
            out.append(take())
        if not all(x.isidentifier() for x in out):
            raise ValueError(out)
        return ('col', tuple(sorted(out)))

    def conds():
        out = []
        while True:
            paren = peek() == '(' and 0
            a, op, b = expr(), take('=', '<', '<=', '>', '>='), expr()
            if a[0] == 'ph':
                a, b, op = b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '='}[op]
            if a[0] != 'col' or b[0] != 'ph':
                raise ValueError('condition')
            out.append((a[1], op, b[1]))
            del paren
            if peek() != 'and':
                break
            take('and')
        return out
    q = {'where': [], 'set': [], 'cols': None, 'unique': [], 'plain': True}
    try:
        v = take('insert', 'replace', 'update', 'delete', 'select', 'create')
        q['verb'] = v
        if v in ('insert', 'replace'):
            if v == 'insert' and peek() == 'or':
                take('or')
                k = take('replace', 'ignore', 'abort', 'fail', 'rollback')
                q['verb'] = {'replace': 'replace', 'ignore': 'ignore'}.get(k, 'insert')
            if peek() == 'ignore':
                take()
                q['verb'] = 'ignore'
            take('into')
            q['table'] = table()
            if peek() == '(':
                q['cols'] = names()
            take('values')
            take('(')
            q['set'] = [ph()]
            while peek() == ',':
                take(',')
                q['set'].append(ph())
            take(')')
            if peek() is not None:
                q['plain'] = False
        elif v == 'update':
            q['table'] = table()
            take('set')
            cols, vals = [], []
            while True:
                cols.append(take())
                take('=')
                vals.append(ph())
                if peek() != ',':
                    break
                take(',')
            q['cols'], q['set'] = cols, vals
            take('where')
            q['where'] = conds()
        elif v == 'delete':
            take('from')
            q['table'] = table()
            take('where')
            q['where'] = conds()
        elif v == 'select':
            cols = [take()]
            while peek() == ',':
                take(',')
                cols.append(take())
            take('from')
            q['table'] = table()
            q['cols'] = cols
            if peek() == 'where':
                take('where')
                q['where'] = conds()
            if peek() == 'order':
                while peek() is not None:
                    take()
        else:
            take('table')
            while peek() in ('if', 'not', 'exists'):
                take()
            q['table'] = table()
            take('(')
            depth, item, items = 1, [], []
            while depth:
                x = take()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if not depth:
                        break
                if x == ',' and depth == 1:
                    items.append(item)
                    item = []
                else:
                    item.append(x)
            items.append(item)
            q['cols'] = []
            for it in items:
                if it[0] in ('unique', 'primary', 'constraint', 'key', 'index', 'check', 'foreign'):
                    j = ' '.join(it)
                    if 'unique' in it or 'primary' in it:
                        depth, cols = 0, []
                        for x in it:
                            if x == '(':
                                depth += 1
                            elif x == ')':
                                depth -= 1
                            elif depth == 1 and x.isidentifier():
                                cols.append(x)
                        q['unique'].append(tuple(cols))
                    del j
                else:
                    q['cols'].append(it[0])
                    if 'unique' in it or 'primary' in it:
                        q['unique'].append((it[0],))
            return q
        if peek() is not None and v != 'insert' and v != 'replace':
            raise ValueError('trailing text')
    except ValueError:
        return None
    q['params'] = nph[0]
    return q


def bound(e):
    """terms bound to the placeholders of an execute event"""
    if len(e[3]) < 2:
        return ()
    b = e[3][1]
    items = b[2:] if isA(b, 'L') else b[1] if b[0] == 't' else None
    return None if items is None else tuple(strip_enc(x) for x in items)


def statements(fl, st, store=None):
    """(event, guard, parsed statement, bound terms)"""
    for e, g in flat(st.events):
        if e[0] == 'call' and e[1] in ('.execute', '.executemany', '.executescript'):
            yield e, g, parse_sql(e[3][0]) if e[1] == '.execute' else None, bound(e)


def colmap(ss, q, b):
    """column -> bound term for an insert/update"""
    cols = q['cols'] or (ss.columns()[q['table']][0] if q['verb'] in ('insert', 'replace', 'ignore') else None)
    if cols is None or len(cols) != len(q['set']):
        return None
    return dict(zip(cols, (b[i] for i in q['set'])))


def wheremap(q, b):
    return {(c, op): b[i] for c, op, i in q['where']}


def sql_txn(ctx, ss):
    """transaction discipline of every operation"""
    fl = ss.fl
    n = 0
    for op in SQL_OPS:
        key = ss.key(op)
        for st, v in ss.out(op):
            evs = [e for e, g in flat(st.events) if e[0] == 'call']
            own = [e for e in evs if e[2] == CONN]
            curs = [e for e in own if e[1] == '.cursor' and ok_event(e)]
            work = [i for i, e in enumerate(evs) if e[1] in ('.execute', '.executemany', '.fetchall', '.fetchone')]
            commits = [i for i, e in enumerate(evs) if e[1] == '.commit' and e[2] == CONN]
            rolls = [i for i, e in enumerate(evs) if e[1] == '.rollback' and e[2] == CONN]
            n += 1
            if op == 'cleanup':
                pass
            elif not isinstance(v, Raised):
                bad = [e for e in evs if e[1] in ('.commit', '.rollback', '.cursor') and not ok_event(e)]
                failed = [i for i, e in enumerate(evs) if not ok_event(e)]
                undone = v == FALSE and failed and rolls and not commits and rolls[-1] > failed[0] and not [i for i in work if i > rolls[-1]]
                if not bad and not undone:
                    ctx.ob(bool(commits) and (not work or commits[-1] > work[-1]) and not [r for r in rolls if work and r > work[0]],
                           'txn.commit', key, 'an operation that finished is not committed')
            for c in commits:
                ctx.ob(not any(i > c for i in work) or op == 'cleanup', 'txn.after-commit', key, 'statements run after the commit of their transaction')
                failed = [i for i in range(c) if i in work and not ok_event(evs[i])]
                if failed and isinstance(v, Raised):
                    ctx.ob(op == 'cleanup' or c != len(evs) - 1 or not ok_event(evs[c]), 'txn.commit-failed', key, 'a failed operation is committed')
            if isinstance(v, Raised) and work and op != 'cleanup':
                last = max(i for i, e in enumerate(evs) if not ok_event(e)) if any(not ok_event(e) for e in evs) else -1
                if commits and not ok_event(evs[commits[-1]]):
                    pass
                else:
                    ctx.ob(any(r > work[-1] for r in rolls), 'txn.rollback', key, 'a failed operation is not rolled back')
                    ctx.ob(not [c for c in commits if c > work[0]], 'txn.commit-failed', key, 'a failed operation is committed')
                del last
            for c in curs:
                ctx.ob(any(e[1] in ('.close', '.__exit__') and e[2] == c[6] for e in evs), 'txn.cursor', key, 'the cursor is not closed')
            if work:
                ctx.ob(bool(curs) and all(evs[i][2] in [c[6] for c in curs] for i in work), 'txn.cursor', key, 'a statement runs on another cursor than the transaction opened')
    return n


def sql_params(ctx, ss):
    fl = ss.fl
    n = 0
    for op in SQL_OPS:
        key = ss.key(op)
        for st, v in ss.out(op):
            for e, g, q, b in statements(fl, st):
                n += 1
                text = sql_text(e[3][0])
                ctx.ob(text is not None and e[1] == '.execute', 'sql.fixed', key, 'a statement contains text that is not fixed: %s' % show(e[3][0])[:120])
                ctx.ob(q is not None, 'sql.known', key, 'a statement is not understood: %s' % (text or '')[:120])
                if q is None:
                    continue
                want = 0 if q['verb'] == 'create' else q['params']
                ctx.ob(b is not None and len(b) == want, 'sql.count', key, 'the number of bound values differs from the number of placeholders')
                if b is None or len(b) != want:
                    continue
                if q['table'] == 'assoc':
                    sql_assoc_statement(ctx, ss, fl, st, e, g, q, b, key, op)
                elif q['verb'] != 'create':
                    ctx.ob(op in ('useNonce', 'cleanupNonces', 'cleanup'), 'sql.table', key, 'an association operation touches the nonce table')
    cols = ss.columns()
    ctx.ob(set(cols['assoc'][0]) == set(ASSOC_COLS) and ('server_url', 'handle') in [tuple(u) for u in cols['assoc'][1]] + [tuple(u[::-1]) for u in cols['assoc'][1]],
           'sql.schema', ss.cls, 'the association table is not keyed by server URL and handle')
    ctx.ob(any(set(u) == {'server_url', 'timestamp', 'salt'} for u in cols['nonce'][1]) and all(set(u) >= {'server_url', 'timestamp', 'salt'} for u in cols['nonce'][1]),
           'sql.schema', ss.cls, 'the nonce table is not unique over server URL, timestamp and salt')
    return n


def sql_assoc_statement(ctx, ss, fl, st, e, g, q, b, key, op):
    v = q['verb']
    a = {c: A('attr', AS, c) for c in ASSOC_COLS if c != 'server_url'}
    if v in ('insert', 'replace', 'update', 'ignore'):
        ctx.ob(op == 'storeAssociation', 'sql.write', key, 'an association is written outside storeAssociation')
        m = colmap(ss, q, b)
        ctx.ob(m is not None, 'sql.columns', key, 'values and columns of the statement do not line up')
        if m is None:
            return
        if v == 'update':
            m.update({c[0]: x for (c, o), x in wheremap(q, b).items() if o == '=' and len(c) == 1})
        for c in ASSOC_COLS:
            x = m.get(c)
            want = U if c == 'server_url' else a[c]
            ok = x == want or (c == 'secret' and x is not None and has(x, want) and not any(has(x, y) for k2, y in a.items() if k2 != c))
            ctx.ob(ok, 'sql.columns', key, 'column %s of the association is given another value' % c)
        ctx.ob(q['plain'] and v != 'ignore' and (v != 'insert' or no_row(fl, st)), 'sql.replace', key, 'storing an association again does not replace the stored one')
    elif v == 'select':
        w = wheremap(q, b)
        ok = w.get((('server_url',), '=')) == U
        h = w.get((('handle',), '='))
        ctx.ob(ok, 'sql.lookup', key, 'associations are not selected by the server URL')
        if op == 'getAssociation':
            ctx.ob(h == H, 'sql.lookup', key, 'an association is not selected by the handle given')
        elif op == 'best':
            ctx.ob(h is None, 'sql.lookup', key, 'a handle restricts the search for the newest association')
        ctx.ob(len(w) == 1 + (h is not None) and len(q['where']) == len(w), 'sql.lookup', key, 'associations are selected by an unexpected condition')
    elif v == 'delete':
        w = wheremap(q, b)
        if op in ('cleanupAssociations', 'cleanup'):
            return
        ok = set(w) == {(('server_url',), '='), (('handle',), '=')} and len(q['where']) == 2 and w[(('server_url',), '=')] == U
        ctx.ob(ok, 'sql.remove', key, 'an association is not removed by server URL and handle')
        if ok and op == 'removeAssociation':
            ctx.ob(w[(('handle',), '=')] == H, 'sql.remove', key, 'another association than the one named is removed')


def no_row(fl, st):
    """the path has looked for the row and found none"""
    for e in calls(st, ('.fetchall', '.fetchone')):
        if entails(fl, st, truth(e[6]), False) or entails(fl, st, eq(A('len', e[6]), C(0))) or entails(fl, st, eq(e[6], NONE)):
            return True
    return False


def sql_nonce(ctx, ss):
    fl = ss.fl
    sk = skew(ctx, fl)
    window = AND(le(sub(TS, NOW), sk), le(sub(NOW, TS), sk))
    key = ss.key('useNonce')
    n = 0
    for st, v in ss.out('useNonce'):
        if isinstance(v, Raised):
            continue
        ins = [(e, q, b) for e, g, q, b in statements(fl, st) if q and q['table'] == 'nonce']
        good = [(e, q, b) for e, q, b in ins if ok_event(e)]
        if v == TRUE:
            n += 1
            ctx.ob(entails(fl, st, window), 'db.window', key, 'a nonce outside the allowed skew is accepted')
            ok = len(good) == 1 and good[0][1]['verb'] == 'insert' and good[0][1]['plain'] and len(ins) == 1
            ctx.ob(ok, 'db.atomic', key, 'a nonce is accepted without a plain insertion that fails for a used one')
            if ok:
                m = colmap(ss, good[0][1], good[0][2])
                ctx.ob(m == {'server_url': U, 'timestamp': TS, 'salt': SALT}, 'db.key', key, 'server URL, timestamp and salt are not all recorded in their own columns')
        elif v == FALSE:
            bad = [e for e, q, b in ins if not ok_event(e)]
            if not ins:
                ctx.ob(entails(fl, st, window, False) or any(not ok_event(e) for e, _ in flat(st.events) if e[0] == 'call'), 'db.refuse', key,
                       'a nonce inside the window is refused without looking for it')
            else:
                ctx.ob(bool(bad) or any(not ok_event(e) for e, _ in flat(st.events) if e[0] == 'call'), 'db.refuse', key, 'a nonce is refused although it was recorded')
        else:
            ctx.ob(False, 'db.decision', key, 'the result is neither true nor false')
    if not n:
        raise AnchorMissing('no accepting path in %s' % key)
    cols = ss.columns()['nonce']
    ctx.ob(any(set(u) == {'server_url', 'timestamp', 'salt'} for u in cols[1]), 'db.unique', ss.cls, 'the nonce table does not make server URL, timestamp and salt unique')
    n = 0
    for op in ('cleanupNonces', 'cleanup'):
        key = ss.key('cleanupNonces')
        for st, v in ss.out(op):
            for e, g, q, b in statements(fl, st):
                if not q or q['table'] != 'nonce':
                    continue
                n += 1
                ok = q['verb'] == 'delete' and len(q['where']) == 1 and q['where'][0][0] == ('timestamp',) and q['where'][0][1] in ('<', '<=')
                if ok:
                    x = b[q['where'][0][2]]
                    lim = sub(NOW, sk)
                    ok = entails(fl, st, le(x, lim) if q['where'][0][1] == '<' else lt(x, lim))
                ctx.ob(ok, 'db.cleanup', key, 'nonces are removed that are not known to be outside the window')
    if not n:
        raise AnchorMissing('%s removes nothing' % key)


def rec_field(a, name):
    for x in a[3:] if isA(a, 'rec') else ():
        if x[1][0] == C(name):
            return x[1][1]
    return A('attr', a, name)


def sql_assoc(ctx, ss):
    fl = ss.fl
    for op in ('getAssociation', 'best'):
        key = ss.key(op)
        n = 0
        for st, v in ss.out(op):
            if isinstance(v, Raised) or v == NONE:
                continue
            n += 1

            def check(s, a, st=st, op=op):
                sel = [(e, q, b) for e, g, q, b in statements(fl, st) if q and q['verb'] == 'select' and ok_event(e)]
                fz = {c: rec_field(a, c) for c in ASSOC_COLS[1:]}
                ctx.ob(entails(fl, s, lt(C(0), sub(add(fz['issued'], fz['lifetime']), NOW))), 'db.alive', key, 'an expired association is returned')
                ok = False
                for e, q, b in sel:
                    rows = [x for x in set(subterms(fz['handle'])) if isA(x, 'call') and x[2] in ('.fetchall', '.fetchone')]
                    if not rows:
                        continue
                    ok = all(column_of(fz[c], q['cols'], c, rows) for c in ASSOC_COLS[1:])
                ctx.ob(ok, 'db.columns', key, 'the association is not rebuilt from its own columns')
            p = pick(fl.freeze(st, v))
            if p is None and isA(v, 'rec'):
                check(st, v)
                ctx.ob(op == 'getAssociation', 'db.newest', key, 'the association returned without a handle is not chosen as the newest one')
            elif op == 'getAssociation' and p is not None:
                lst = p[0]
                for fs_, el in (lst[3] if isA(lst, 'comp') else ()):
                    for e in el:
                        check(state_with(st, set(fs_)), project(e, p[3]))
            else:
                newest(ctx, fl, st, fl.freeze(st, v), 'db.newest', key,
                       lambda a: (A('attr', a, 'issued'), rec_field(a, 'issued')), check)
        if not n:
            raise AnchorMissing('%s returns no association' % key)


def column_of(x, cols, c, rows):
    if c not in cols:
        return False
    i = cols.index(c)
    got = {y[3] for y in subterms(x) if isA(y, 'getitem') and isC(y[3]) and isinstance(y[3][2], int) and any(has(y[2], r) for r in rows)}
    return got == {C(i)}


def sql_cleanup(ctx, ss):
    fl = ss.fl
    key = ss.key('cleanupAssociations')
    n = 0
    for op in ('cleanupAssociations', 'cleanup'):
        for st, v in ss.out(op):
            dele = [(e, q, b) for e, g, q, b in statements(fl, st) if q and q['table'] == 'assoc']
            for e, q, b in dele:
                n += 1
                ok = q['verb'] == 'delete' and len(q['where']) == 1 and q['where'][0][0] == ('issued', 'lifetime')
                x = b[q['where'][0][2]] if ok else None
                ctx.ob(ok and q['where'][0][1] in ('<', '<=') and entails(fl, st, le(x, NOW)), 'db.expired-only', key, 'cleanup removes associations that are not expired')
                ctx.ob(ok and ((q['where'][0][1] == '<=' and entails(fl, st, le(NOW, x))) or (q['where'][0][1] == '<' and entails(fl, st, lt(NOW, x)))),
                       'db.all', key, 'cleanup leaves associations whose lifetime is over')
            if not isinstance(v, Raised) and op == 'cleanupAssociations':
                ctx.ob(any(v == A('attr', e[2], 'rowcount') for e, q, b in dele), 'db.count', key, 'cleanup does not return the number of removed associations')
    if not n:
        raise AnchorMissing('%s removes nothing' % key)
    key = ss.key('removeAssociation')
    for st, v in ss.out('removeAssociation'):
        if isinstance(v, Raised):
            continue
        dele = [e for e, g, q, b in statements(fl, st) if q and q['verb'] == 'delete' and ok_event(e)]
        ok = bool(dele)
        if ok:
            rc = A('attr', dele[-1][2], 'rowcount')
            pos = lt(C(0), rc)
            if v in (TRUE, C(1)):
                ok = entails(fl, st, pos)
            elif v in (FALSE, C(0)):
                ok = entails(fl, st, pos, False)
            else:
                f = fl.truth_of(st, v)
                ok = f == pos or v == pos or (bool(fl.assume(st.copy(), f, True)) and all(entails(fl, s, pos) for s in fl.assume(st.copy(), f, True)) and
                                              all(entails(fl, s, pos, False) for s in fl.assume(st.copy(), f, False)))
        ctx.ob(ok, 'db.removed', key, 'removal does not report whether the association existed')


# ---------------------------------------------------------------- properties
def both(ctx, mem, file, sql):
    def one(ctx, what):
        if what == 'mem':
            mem(ctx)
        elif what == 'file':
            file(ctx, FileStore(ctx))
        else:
            sql(ctx, SqlStore(ctx, what))
    jobs = [w for w, f in (('mem', mem), ('file', file)) if f] + (list(SQLS) if sql else [])
    for j in jobs:
        if j == 'mem':
            one(ctx, j)
    ctx.parallel(one, [j for j in jobs if j != 'mem'])


@prop('C18', 100, technique='path-sensitive dataflow: window, atomic recording and key facts on every accepting path; bounded client histories for the in-memory store')
def c18(ctx):
    shapes = [('use', 'use'), ('use', 'clean', 'use'), ('use', 'use', 'use')]
    if ctx.tier == 'thorough':
        shapes += [('use', 'clean', 'use', 'clean', 'use'), ('use', 'use', 'clean', 'use'), ('use', 'use', 'use', 'use')]
    both(ctx, lambda c: mem_nonces(c, shapes, 'mem'), file_nonce, sql_nonce)


@prop('C19', 100, technique='path-sensitive dataflow: lookup key, liveness and ordering facts on every path returning an association; bounded client histories for the in-memory store')
def c19(ctx):
    shapes = [('store', 'store', 'get'), ('store', 'store', 'best'), ('store', 'store', 'store', 'best'), ('store', 'remove', 'get'), ('store', 'get', 'store', 'best')]
    if ctx.tier == 'thorough':
        shapes += [('store', 'store', 'store', 'get'), ('store', 'remove', 'store', 'best'), ('store', 'store', 'clean', 'store', 'best'), ('store', 'store', 'store', 'store', 'best')]
    both(ctx, lambda c: mem_histories(c, shapes, 'mem', ('get', 'best')), file_assoc, sql_assoc)


@prop('C20', 100, technique='effect-order analysis: write, flush, sync and rename events on every path of a store, removal on every failing one')
def c20(ctx):
    file_crash(ctx, FileStore(ctx))


@prop('C21', 100, technique='typestate of connection and cursor on every path; statements parsed and their bound values matched with columns')
def c21(ctx):
    def sql(c, ss):
        sql_txn(c, ss)
        sql_params(c, ss)
    both(ctx, None, None, sql)


@prop('C22', 100, technique='path-sensitive dataflow: expiry facts on every removing path, count of removals; bounded client histories for the in-memory store')
def c22(ctx):
    shapes = [('store', 'store', 'clean'), ('store', 'store', 'remove'), ('store', 'clean', 'get'), ('store', 'store', 'clean', 'get'), ('store', 'store', 'remove', 'get'),
              ('store', 'clean', 'clean')]
    if ctx.tier == 'thorough':
        shapes += [('store', 'store', 'store', 'clean'), ('store', 'store', 'remove', 'clean'), ('store', 'store', 'clean', 'remove'), ('store', 'remove', 'store', 'remove')]
    both(ctx, lambda c: mem_histories(c, shapes, 'mem', ('clean', 'remove', 'get')), file_cleanup, sql_cleanup)


@prop('C23', 100, technique='character-set and injectivity analysis of every path given to a file system call')
def c23(ctx):
    fs = FileStore(ctx)
    n = file_paths(ctx, fs)
    if not n:
        raise AnchorMissing('no file system call found')
    for p in store_path(fs):
        d, name = fs.dir_of(p)
        ctx.ob(d is not None and determines(name, U) and determines(name, AH), 'path.distinct', FILE + '.storeAssociation',
               'the association file name does not determine server URL and handle')
    for st, v in fs.out('useNonce'):
        for e in calls(st, ok=False):
            if created(e):
                d, name = fs.dir_of(e[3][0])
                for k, what in ((U, 'server URL'), (TS, 'timestamp'), (SALT, 'salt')):
                    ctx.ob(d is not None and determines(name, k), 'path.distinct', FILE + '.useNonce', 'the nonce file name does not determine the %s' % what)
