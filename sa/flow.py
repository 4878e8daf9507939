"""Interprocedural path-sensitive forward dataflow analysis over the Python AST.

The abstract state maps variables, fields and containers to value numbers (terms.py), keeps the set of
branch facts that must hold, and the ordered list of effects (calls leaving the analysed code, writes to
objects it does not own).  States are joined where they differ in nothing but complementary branch facts.
Loops over unknown iterables are summarised once (havoc of everything the body changes, one arbitrary
element, a for-all fact when the loop completes).  No code of the repository is run and no solver is used:
a branch is pruned only when its condition literally contradicts a fact already in the state.
"""
import ast
import builtins
import string
import re

from .loader import AnchorMissing
from .terms import (A, AND, C, FALSE, NONE, NOT, OR, T, TRUE, add, base_iter, order_iter, cat, eq, exclusive, forall, is_formula, is_int, is_num, isA,
                    isC, le, linear, lt, mklin, mulc, reduce_dnf, show, sub, subst, subterms, truth)


STRING_CONSTS = ('ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'digits', 'hexdigits', 'octdigits', 'punctuation', 'printable', 'whitespace')


SCALARS = {'x:str': ('str', 'six.text_type', 'six.string_types'), 'x:bytes': ('bytes', 'six.binary_type'),
           'x:int': ('int', 'six.integer_types')}


class Budget(Exception):
    pass


NO_NONE = {'len', 'iter', 'next', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'min', 'max', 'enumerate', 'zip', 'reversed', 'int', 'float', 'abs', 'ord', 'chr', 'any', 'all', 'range', 'dict',
           'six.iteritems', 'six.itervalues', 'six.iterkeys', 'os.path.join', 'os.path.abspath', 'os.path.normpath', 'os.path.isdir', 'os.listdir', 'open', 'os.makedirs', 'os.mkdir',
           'six.moves.urllib.parse.quote', 'six.moves.urllib.parse.quote_plus', 'six.moves.urllib.parse.unquote', 'six.moves.urllib.parse.urlencode', 'time.strftime', 'calendar.timegm',
           'base64.b64encode', 'base64.b64decode', 'binascii.b2a_base64', 'binascii.a2b_base64', 'hashlib.sha1', 'hashlib.sha256', 'time.strptime'}
HASHERS = re.compile(r'(^|\.)(HMAC|Hash)$|(^|\.)hmac\.new$|(^|\.)hashlib\.\w+$')


class Raised(object):
    __slots__ = ('exc',)

    def __init__(self, exc):
        self.exc = exc


class State(object):
    __slots__ = ('frames', 'heap', 'fields', 'facts', 'events', 'n', 'handlers', 'imprecise')

    def __init__(self):
        self.frames, self.heap, self.fields, self.facts = [], {}, {}, {}
        self.events, self.n, self.handlers, self.imprecise = (), 0, (), ()

    def copy(self):
        s = State()
        s.frames = [(f[0], dict(f[1]), f[2]) for f in self.frames]
        s.heap, s.fields, s.facts = dict(self.heap), dict(self.fields), dict(self.facts)
        s.events, s.n, s.handlers, s.imprecise = self.events, self.n, self.handlers, self.imprecise
        return s

    @property
    def env(self):
        return self.frames[-1][1]

    def alloc(self, obj):
        self.n += 1
        r = ('r', self.n)
        self.heap[r] = obj
        return r


EXT_EXC = {
    'binascii.Error': 'ValueError', 'socket.error': 'OSError', 'urllib.error.URLError': 'OSError',
    'urllib.error.HTTPError': 'urllib.error.URLError', 'IOError': 'OSError', 'EnvironmentError': 'OSError',
    'six.moves.urllib.error.HTTPError': 'six.moves.urllib.error.URLError',
    'six.moves.urllib.error.URLError': 'OSError', 'UnicodeError': 'ValueError',
    'lxml.etree.Error': 'Exception', 'lxml.etree.LxmlError': 'lxml.etree.Error',
    'lxml.etree.LxmlSyntaxError': 'lxml.etree.LxmlError', 'lxml.etree.ParseError': 'lxml.etree.LxmlSyntaxError',
    'lxml.etree.XMLSyntaxError': 'lxml.etree.ParseError', 'lxml.etree.ParserError': 'lxml.etree.LxmlError',
}
EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'socket.error': 'OSError', 'os.error': 'OSError'}

PURE_EXT = {
    'six.moves.urllib.parse.urlparse', 'six.moves.urllib.parse.urlsplit', 'six.moves.urllib.parse.urlunsplit',
    'six.moves.urllib.parse.urlunparse', 'six.moves.urllib.parse.parse_qsl', 'six.moves.urllib.parse.parse_qs',
    'six.moves.urllib.parse.urldefrag', 'six.moves.urllib.parse.urlencode', 'six.moves.urllib.parse.quote',
    'six.moves.urllib.parse.unquote', 'six.moves.urllib.parse.urljoin', 'base64.b64decode', 'base64.b64encode', 'binascii.a2b_base64',
    'binascii.b2a_base64', 'hashlib.sha1', 'hashlib.sha256', 'calendar.timegm', 'time.strptime', 'time.strftime',
    'os.path.join', 'os.path.basename', 'os.path.abspath', 'os.path.normpath', 'os.path.dirname', 'codecs.encode', 're.compile', 're.match',
    're.search', 'lxml.etree.Element', 'operator.itemgetter', 'itertools.repeat', 'itertools.starmap',
    'itertools.chain', 'itertools.chain.from_iterable', 'functools.partial', 'datetime.datetime',
    'cryptography.hazmat.backends.default_backend', 'cryptography.hazmat.primitives.hashes.SHA1',
    'cryptography.hazmat.primitives.hashes.SHA256', 'six.ensure_text',
}
NOISE_ROOTS = ('logging', 'warnings')
STR_METHODS = {'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith',
               'find', 'rfind', 'index', 'rindex', 'encode', 'decode', 'join', 'format', 'count', 'partition',
               'rpartition', 'splitlines', 'title', 'zfill', 'isdigit', 'isalnum', 'isalpha', 'hex', 'rjust', 'ljust',
               'translate', 'group', 'groups', 'digest', 'hexdigest'}
DICT_PURE = {'get', 'items', 'keys', 'values', 'copy', 'has_key', 'iteritems', 'itervalues', 'iterkeys'}
BUILTIN_METHODS = STR_METHODS | DICT_PURE | {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'update',
                                             'setdefault', 'clear', 'add', 'discard', 'difference', 'union',
                                             'intersection', 'issubset', 'issuperset', 'read', 'write', 'close',
                                             'fileno', 'flush', 'seek', 'next', '__init__', 'set', 'find', 'findall'}
URL_FIELDS = {'urlparse': {'scheme': 0, 'netloc': 1, 'path': 2, 'params': 3, 'query': 4, 'fragment': 5},
              'urlsplit': {'scheme': 0, 'netloc': 1, 'path': 2, 'query': 3, 'fragment': 4},
              'urldefrag': {'url': 0, 'fragment': 1}}
MSG = 'openid.message.Message'


VARYING = ('os.', 'random.', 'time.', 'uuid.', 'secrets.', 'tempfile.', 'socket.', 'datetime.')


def h_rec(v):
    return v[0] == 'a' and v[1] == 'rec'


MUTATORS = {'append', 'add', 'update', 'pop', 'popitem', 'clear', 'remove', 'discard', 'insert', 'extend', 'setdefault', 'sort', 'reverse'}


class Config(object):
    def __init__(self, opaque=(), watch=(), msg_prims=True, typed_calls=None, max_states=4000, max_depth=24,
                 typed_attrs=None, inline=None, no_cha=(), pure_calls=(), asserts=True, unroll=40, keep=None, keep_event=None, keep_on_raise=True, pure_raises=None, records=(), text_args=False, peel=0, clock=False, nullable=(), stubs=None, none_errors=False, max_ticks=0, arity=None):
        self.arity = arity or {}         # names of pure functions that return a tuple of known length
        self.max_ticks = max_ticks       # give up after so many statements (0: never)
        self.none_errors = none_errors   # operations on a known None raise as they would
        self.stubs = stubs or {}         # function key or external name -> function of a client that stands for it
        self.nullable = set(nullable)    # attributes of foreign objects (or 'get') which may be None
        self.clock = clock               # every reading of the clock is a new value (default: one instant)
        self.peel = peel                 # iterations of a while loop followed one by one before it is summarised
        self.text_args = text_args       # arguments of messages are text or missing
        self.records = set(records)      # classes whose instances are values: fixed by their constructor
        self.keep_on_raise = keep_on_raise
        self.keep, self.keep_event = keep, keep_event
        self.pure_raises = pure_raises or {}
        self.opaque, self.watch, self.msg_prims = set(opaque), set(watch), msg_prims
        self.typed_calls, self.typed_attrs = typed_calls or {}, typed_attrs or {}
        self.max_states, self.max_depth = max_states, max_depth
        self.inline, self.no_cha, self.pure_calls, self.asserts, self.unroll = inline, set(no_cha), set(pure_calls), asserts, unroll


class Flow(object):
    def __init__(self, prog, cfg=None):
        self.p = prog
        self.cfg = cfg or Config()
        self.gcache, self.ccache = {}, {}
        self.refmemo = {}
        self.types = {}            # term -> class key
        self.depth = 0
        self.stack = []
        self.ticks = 0
        self.inlined = set()
        self.steps = 0
        self.call_sites = 0
        self.rebound = set()
        self.reassigned = self._global_writes()

    # ------------------------------------------------------------ globals
    def _global_writes(self):
        out = set()
        for f in self.p.funcs.values():
            if isinstance(f.node, ast.FunctionDef):
                names = set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Global):
                        names.update(n.names)
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in names:
                        out.add((f.mod.name, n.id))
                        self.rebound.add((f.mod.name, n.id))
                # containers functions change in place
                args = f.node.args
                local = {a.arg for a in args.args + args.kwonlyargs} | {a.arg for a in (args.vararg, args.kwarg) if a} | \
                    {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - names
                for n in ast.walk(f.node):
                    x = None
                    if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                        x = n.value
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                        x = n.func.value
                    if isinstance(x, ast.Name) and x.id not in local and any(b[0] == 'expr' for b in f.mod.globals.get(x.id, ())):
                        out.add((f.mod.name, x.id))
        return out

    def global_value(self, mod, name):
        k = (mod.name, name)
        if k in self.gcache:
            return self.gcache[k]
        if name == '__name__':
            return C(mod.name)
        r = self.p.resolve_name(mod, name)
        if r is None:
            if name == '__file__':
                return ('x', '__file__')
            v = ('x', name) if hasattr(builtins, name) else None
        else:
            v = self.binding_value(r)
        self.gcache[k] = v
        return v

    def binding_value(self, r):
        if r[0] == 'func':
            return ('f', r[1].key, ())
        if r[0] == 'class':
            return ('k', r[1].key)
        if r[0] == 'mod':
            return ('m', r[1])
        if r[0] == 'ext':
            return self.ext(r[1])
        _, mod, name, bs = r
        k = (mod.name, name)
        if k in self.gcache:
            return self.gcache[k]
        q = mod.name + '.' + name
        if k in self.reassigned:
            self.gcache[k] = A('gvar', C(q)) if k in self.rebound else ('g', q, None)
            return self.gcache[k]
        self.gcache[k] = ('g', q, None)
        exprs = [b for b in bs if b[0] in ('expr', 'item')]
        if len(bs) == 1 and exprs:
            b = exprs[0]
            v = self.const_eval(b[1], mod, None, q)
            if b[0] == 'item' and v[0] == 't' and b[2] < len(v[1]):
                v = v[1][b[2]]
        else:
            v = ('g', q, None)
        self.gcache[k] = v
        return v

    def ext(self, dotted):
        if dotted == 'six.PY2':
            return FALSE
        if dotted == 'six.PY3':
            return TRUE
        if dotted.startswith('string.') and dotted[7:] in STRING_CONSTS:
            return C(getattr(string, dotted[7:]))
        if dotted.startswith('urllib.parse'):
            dotted = 'six.moves.' + dotted
        return ('x', dotted)

    def const_eval(self, node, mod, cls, q):
        """value of a module- or class-level expression"""
        st = State()
        st.frames = [('<const>', {}, (mod, cls, ()))]
        if isinstance(node, ast.Call):
            res = self.ev(node.func, st.copy())
            if len(res) == 1 and not isinstance(res[0][1], Raised):
                fv = res[0][1]
                if fv[0] == 'k':
                    return ('g', q, fv[1])
        try:
            res = self.ev(node, st)
        except Budget:
            return ('g', q, None)
        if len(res) == 1 and not isinstance(res[0][1], Raised):
            s, v = res[0]
            v = self.freeze(s, v)
            if not any(x[0] == 'r' or self.varies(x, v) for x in subterms(v)) and not any(self.varies(e[6], v) for e in s.events if e[0] == 'call'):
                return v
        return ('g', q, None)

    def varies(self, x, top):
        """a value that differs from call to call: computed once, at import, it is some fixed value instead"""
        if x == ('s', 'now', None):
            return True
        if not isA(x, 'call'):
            return False
        if x[2] == 'random.SystemRandom':
            return x != top
        return x[2].startswith(VARYING) and not x[2].startswith('os.path.')

    def class_value(self, ci, name, b):
        k = (ci.key, name)
        if k in self.ccache:
            return self.ccache[k]
        if b[0] == 'func':
            fi = b[1]
            v = ('f', fi.key, ())
            if fi.kind in ('staticmethod', 'classmethod', 'property'):
                v = ({'staticmethod': 'sm', 'classmethod': 'cm', 'property': 'prop'}[fi.kind], v)
        elif b[0] == 'class':
            v = ('k', b[1].key)
        elif b[0] == 'import':
            r = self.p.resolve_import(b[1])
            v = self.binding_value(r)
        elif b[0] in ('expr', 'gexpr'):
            self.ccache[k] = ('g', ci.key + '.' + name, None)
            v = self.const_eval(b[1], ci.mod, ci if b[0] == 'expr' else None, ci.key + '.' + name)
        else:
            v = ('g', ci.key + '.' + name, None)
        self.ccache[k] = v
        return v

    # ------------------------------------------------------------ types
    def type_of(self, st, v):
        if v[0] == 'r':
            o = st.heap.get(v)
            if o and o[0] == 'obj':
                return o[1]
            return None
        if v[0] in ('s', 'g'):
            return v[2]
        if h_rec(v):
            return v[2][2]
        return self.types.get(v)

    def typed(self, v, cls):
        self.types[v] = cls
        return v

    # ------------------------------------------------------------ containers
    def view(self, st, v):
        """('list'|'tuple'|'set', items) / ('dict', pairs) for containers with known shape"""
        if v[0] == 't':
            return ('tuple', v[1])
        if v[0] == 'r':
            o = st.heap.get(v)
            if o and o[0] in ('list', 'dict', 'set'):
                return o
        if isA(v, 'L'):
            return ('list', v[2:])
        if isA(v, 'D'):
            return ('dict', tuple(p[1] if p[0] == 't' else p for p in v[2:]))
        if isA(v, 'S'):
            return ('set', v[2:])
        if isC(v) and v[1] == 'tuple':
            return ('tuple', tuple(C(x) for x in v[2]))
        return None

    def content(self, st, v):
        """opaque content term of a heap container"""
        if v[0] == 'r':
            o = st.heap.get(v)
            if o and o[0] == 'sym':
                return o[2]
        return None

    def freeze(self, st, v, seen=()):
        if v[0] == 'r':
            if v in seen:
                return A('cycle')
            o = st.heap.get(v)
            if o is None:
                return v
            if o[0] == 'list':
                return ('a', 'L') + tuple(self.freeze(st, x, seen + (v,)) for x in o[1])
            if o[0] == 'set':
                return ('a', 'S') + tuple(sorted((self.freeze(st, x, seen + (v,)) for x in o[1]), key=repr))
            if o[0] == 'dict':
                return ('a', 'D') + tuple(('t', (self.freeze(st, k, seen + (v,)), self.freeze(st, x, seen + (v,))))
                                          for k, x in o[1])
            if o[0] == 'sym':
                return o[2]
            if o[0] == 'obj' and o[1] == MSG and self.cfg.msg_prims:
                ns, base, ov = self.msg_state(st, v)
                if base is not None and not ov and ns == A('ns', base):
                    return base
                return A('msg', ns, base if base is not None else NONE,
                         tuple((n, k, self.freeze(st, x, seen + (v,))) for (n, k), x in ov))
            return v
        if v[0] == 't':
            return ('t', tuple(self.freeze(st, x, seen) for x in v[1]))
        if v[0] in ('c', 's', 'g', 'k', 'f', 'm', 'x'):
            if v[0] == 's' and v[2] == MSG and self.cfg.msg_prims and (v, '$args') in st.fields:
                ns, base, ov = self.msg_state(st, v)
                return A('msg', ns, base, tuple((n, k, self.freeze(st, x, seen)) for (n, k), x in ov))
            return v
        return v

    def new_list(self, st, items):
        return st.alloc(('list', tuple(items)))

    def new_dict(self, st, pairs):
        return st.alloc(('dict', tuple(pairs)))

    # ------------------------------------------------------------ facts
    def decide(self, st, atom):
        f = st.facts
        if atom in f:
            return f[atom]
        op = atom[1]
        if op in ('eq', 'truthy'):
            ca = self.eqclass(f, atom[2])
            if op == 'eq' and not isC(atom[3]):
                cb = self.eqclass(f, atom[3])
                if ca & cb:
                    return True
                ka, kb = [x for x in ca if isC(x)], [x for x in cb if isC(x)]
                if ka and kb and ka[0] != kb[0]:
                    return False
                if len(ca) > 1 or len(cb) > 1:
                    for q, v in f.items():
                        if not v and q[1] == 'eq' and ((q[2] in ca and q[3] in cb) or (q[2] in cb and q[3] in ca)):
                            return False
            else:
                ka = [x for x in ca if isC(x)]
                if ka:
                    return bool(ka[0][2]) if op == 'truthy' else ka[0] == atom[3]
            if len(ca) > 1:
                for x in ca:
                    if x != atom[2] and not isC(x):
                        y = ('a',) + (op, x) + atom[3:]
                        if y in f:
                            return f[y]
        if op == 'truthy':
            t = atom[2]
            if f.get(('a', 'eq', t, NONE)):
                return False
            for a, v in f.items():
                if v and a[1] == 'eq' and a[2] == t and isC(a[3]):
                    return bool(a[3][2])
                if v and a[1] == 'isinst' and a[2] == t and False:
                    return True
            ty = self.type_of(st, t)
            if ty and ty in self.p.classes and t[0] in ('r', 's', 'g'):
                if not self.p.class_attr(ty, '__len__') and not self.p.class_attr(ty, '__bool__') and \
                        not self.p.class_attr(ty, '__nonzero__') and not (t[0] == 's' and t[1].endswith('?')):
                    return True
            if t[0] == 'r':
                o = st.heap.get(t)
                if o and o[0] == 'obj' and not o[1] in self.p.classes:
                    return True
        elif op == 'eq':
            a, b = atom[2], atom[3]
            if isC(b):
                if b == NONE:
                    if a[0] == 's' and a[2] and not a[1].endswith('?'):
                        return False
                    if a[0] == 'r':
                        return False
                tr = f.get(('a', 'truthy', a))
                if tr is True and not b[2]:
                    return False
                if tr is False and b[2]:
                    return False
                if b == NONE and self.nonnull(st, a):
                    return False
                if b == NONE and isA(a, 'attr') and a[3] in self.cfg.nullable and self.type_of(st, a) in SCALARS:
                    for x, v in f.items():
                        if not v and x[1] == 'isinst' and x[2] == a and any(n in SCALARS[self.type_of(st, a)] for n in x[3]):
                            return True
                for x, v in f.items():
                    if v and x[1] == 'eq' and x[2] == a and isC(x[3]) and x[3] != b:
                        return False
                    if v and x[1] == 'isinst' and x[2] == a and b == NONE:
                        return False
            elif b[0] == 'g' or a[0] == 'g':
                x, g = (a, b) if b[0] == 'g' else (b, a)
                for q, v in f.items():
                    if v and q[1] == 'eq' and q[2] == x and isC(q[3]):
                        return False
            if not isC(b):
                for x, y in ((a, b), (b, a)):
                    if f.get(('a', 'eq', x, NONE)) and f.get(('a', 'eq', y, NONE)) is False:
                        return False
        elif op in ('lt0', 'le0', 'eq0'):
            return self.decide_lin(st, atom)
        elif op == 'in':
            x, c = atom[2], atom[3]
            if isA(x, 'elem') and base_iter(x[2]) == base_iter(c):
                return True
            if isA(c, 'set') or isA(c, 'list') or isA(c, 'sorted'):
                return self.decide(st, ('a', 'in', x, c[2])) if ('a', 'in', x, c[2]) != atom else None
        elif op == 'isinst':
            return self.decide_isinst(st, atom[2], atom[3])
        elif op == 'is':
            a, b = atom[2], atom[3]
            return None
        return None

    def eqclass(self, f, t):
        """terms known equal to t"""
        out = {t}
        pairs = [a for a, v in f.items() if v and a[1] == 'eq']
        grew = True
        while grew and pairs:
            grew = False
            for a in pairs:
                if (a[2] in out) != (a[3] in out):
                    out.add(a[2])
                    out.add(a[3])
                    grew = True
        return out

    def nonnull(self, st, t):
        if isA(t) and t[1] in ('cat', 'text', 'len', 'int', 'msg', 'L', 'D', 'S', 'comp', 'dcomp', 'sorted', 'list',
                               'parsed', 'lin', 'append', 'extend', 'dset', 'dupdate'):
            return True
        if t[0] in ('t', 'k', 'f', 'm', 'bm', 'r'):
            return True
        if isA(t) and t[1].startswith('m:') and t[1][2:] in STR_METHODS and t[1] not in ('m:group',):
            return True
        if isA(t, 'call') and isinstance(t[2], str) and t[2] in PURE_EXT and t[2] not in ('re.match', 're.search'):
            return True
        return False

    def decide_lin(self, st, atom):
        d, c = linear(atom[2])
        dk = frozenset(d.items())
        lo, lo_strict, hi, hi_strict = None, False, None, False   # bounds on X = sum d
        ne = []
        for a, v in st.facts.items():
            if a[1] not in ('lt0', 'le0', 'eq0'):
                continue
            d2, c2 = linear(a[2])
            if frozenset(d2.items()) != dk:
                continue
            b = -c2
            if a[1] == 'eq0':
                if v:
                    lo, hi, lo_strict, hi_strict = b, b, False, False
                    break
                ne.append(b)
                continue
            if a[1] == 'lt0':
                up, strict = (True, True) if v else (False, False)
            else:
                up, strict = (True, False) if v else (False, True)
            if up and (hi is None or b < hi or (b == hi and strict)):
                hi, hi_strict = b, strict
            if not up and (lo is None or b > lo or (b == lo and strict)):
                lo, lo_strict = b, strict
        k = -c
        if atom[1] == 'lt0':      # X < k ?
            if hi is not None and (hi < k or (hi == k and hi_strict)):
                return True
            if lo is not None and lo >= k:
                return False
        elif atom[1] == 'le0':
            if hi is not None and hi <= k:
                return True
            if lo is not None and (lo > k or (lo == k and lo_strict)):
                return False
        else:
            if k in ne:
                return False
            if hi is not None and (hi < k or (hi == k and hi_strict)):
                return False
            if lo is not None and (lo > k or (lo == k and lo_strict)):
                return False
            if hi is not None and lo == hi == k:
                return True
        return self.decide_lin_sums(st, atom[1], d, c)

    def decide_lin_sums(self, st, op, d, c):
        """is d + c < 0 (<= 0, = 0) settled by a sum of two or three known inequalities"""
        cons = []
        for a, v in st.facts.items():
            if a[1] not in ('lt0', 'le0', 'eq0'):
                continue
            d2, c2 = linear(a[2])
            if a[1] == 'eq0':
                if v:
                    cons.append((d2, c2, False))
                    cons.append(({k: -x for k, x in d2.items()}, -c2, False))
            elif v:
                cons.append((d2, c2, a[1] == 'lt0'))
            else:
                cons.append(({k: -x for k, x in d2.items()}, -c2, a[1] == 'le0'))
        if len(cons) < 2 or len(cons) > 24:
            return None

        def plus(p, q):
            r = dict(p[0])
            for k, x in q[0].items():
                y = r.get(k, 0) + x
                if y:
                    r[k] = y
                else:
                    r.pop(k, None)
            return (r, p[1] + q[1], p[2] or q[2])
        two = [plus(p, q) for i, p in enumerate(cons) for q in cons[:i] if set(p[0]) & set(q[0])]
        sums = cons + two
        if len(cons) <= 12:
            sums = sums + [plus(p, q) for p in two if len(p[0]) <= 4 for q in cons if set(p[0]) & set(q[0])]

        def implied(d, c, strict):
            # some sum S + s (<|<=) 0 with S == d and s >= c
            return any(x == d and (s > c or (s == c and (st2 or not strict))) for x, s, st2 in sums)
        neg = {k: -x for k, x in d.items()}
        if op == 'lt0':
            if implied(d, c, True):
                return True
            if implied(neg, -c, False):
                return False
        elif op == 'le0':
            if implied(d, c, False):
                return True
            if implied(neg, -c, True):
                return False
        else:
            if implied(d, c, True) or implied(neg, -c, True):
                return False
            if implied(d, c, False) and implied(neg, -c, False):
                return True
        return None

    def decide_isinst(self, st, x, names):
        if isC(x):
            tn = x[1]
            m = {'str': ('str', 'six.text_type', 'six.string_types', 'text'), 'bytes': ('bytes', 'six.binary_type'),
                 'int': ('int', 'six.integer_types'), 'bool': ('bool', 'int', 'six.integer_types'), 'float': ('float',),
                 'NoneType': ()}.get(tn)
            if m is not None:
                return any(n in m for n in names) or 'object' in names
        v = self.view(st, x)
        if v is not None:
            return v[0] in names
        t = self.type_of(st, x)
        if t in SCALARS:
            r = any(n in SCALARS[t] for n in names)
            if r and isA(x, 'attr') and x[3] in self.cfg.nullable:
                z = st.facts.get(('a', 'eq', x, NONE))
                return None if z is None else not z
            return r
        if t:
            res = False
            for n in names:
                if t in self.p.classes:
                    if self.class_is(t, n):
                        return True
                elif t.startswith('x:') and self.exc_sub(t[2:], n):
                    return True
            if (x, '$any') in st.fields and any(self.exc_match(n, t[2:] if t.startswith('x:') else t) for n in names):
                return None
            if x[0] == 'r' or not any(n in self.p.classes for n in names):
                return False
            return None if any(self.class_is(n, t) for n in names if n in self.p.classes) else False
        if isA(x, 'arg') and self.cfg.text_args and not any(n in SCALARS['x:str'] for n in names):
            return False
        if isA(x) and x[1] in ('cat', 'text', 'm:strip', 'm:lower', 'm:join', 'm:decode'):
            return any(n in ('six.text_type', 'six.string_types', 'str') for n in names)
        return None

    def class_is(self, key, name):
        """class `key` is a subclass of `name` (repo key or external name)"""
        if name in self.p.classes:
            return name in self.p.mro(key)
        for b in self.p.mro(key):
            if b.startswith('x:') and self.exc_sub(b[2:], name):
                return True
        return False

    def exc_sub(self, a, b):
        """external exception class a is a subclass of external b"""
        a, b = EXC_ALIAS.get(a, a), EXC_ALIAS.get(b, b)
        seen = set()
        while a not in seen:
            seen.add(a)
            if a == b:
                return True
            ca, cb = getattr(builtins, a, None), getattr(builtins, b, None)
            if isinstance(ca, type) and isinstance(cb, type):
                return issubclass(ca, cb)
            if a in EXT_EXC:
                a = EXT_EXC[a]
                a = EXC_ALIAS.get(a, a)
            elif ca is None:
                a = 'Exception'
            else:
                return False
        return False

    def exc_match(self, cls, handler):
        """cls, handler: repo class key or external name"""
        if cls in self.p.classes:
            return self.class_is(cls, handler)
        if handler in self.p.classes:
            return False
        return self.exc_sub(cls, handler)

    def assume(self, st, f, val=True):
        """states in which formula f has truth value val (st is consumed)"""
        if f == TRUE:
            return [st] if val else []
        if f == FALSE:
            return [] if val else [st]
        if f[0] == 'not':
            return self.assume(st, f[1], not val)
        if f[0] in ('and', 'or'):
            conj = (f[0] == 'and') == val
            if conj:
                sts = [st]
                for x in f[1]:
                    sts = [s2 for s in sts for s2 in self.assume(s, x, val)]
                return sts
            out, rest = [], [st]
            for x in f[1]:
                nrest = []
                for s in rest:
                    out.extend(self.assume(s.copy(), x, val))
                    nrest.extend(self.assume(s, x, not val))
                rest = nrest
            return out
        d = self.decide(st, f)
        if d is None:
            st.facts[f] = val
            if not self.propagate(st, f, val):
                return []
            return [st]
        return [st] if d == val else []

    def propagate(self, st, f, val):
        """consequences and contradiction tests after adding a fact"""
        if f[1] == 'truthy' and val:
            t = f[2]
            if st.facts.get(('a', 'eq', t, NONE)) is True:
                return False
        if f[1] == 'eq' and val:
            a, b = f[2], f[3]
            if isC(b):
                tr = st.facts.get(('a', 'truthy', a))
                if tr is not None and tr != bool(b[2]):
                    return False
                if st.facts.get(('a', 'in', a, b)):
                    pass
        if f[1] == 'forall' and val and False:
            pass
        return True

    def branch(self, st, v):
        """(true states, false states)"""
        f = self.truth_of(st, v)
        if f == TRUE:
            return [st], []
        if f == FALSE:
            return [], [st]
        return self.assume(st.copy(), f, True), self.assume(st, f, False)

    def truth_of(self, st, v):
        vw = self.view(st, v)
        if vw is not None:
            return C(bool(vw[1]))
        c = self.content(st, v)
        if c is not None:
            return truth(c)
        if v[0] == 'r':
            t = self.type_of(st, v)
            if t and self.p.classes.get(t):
                for m in ('__bool__', '__nonzero__', '__len__'):
                    ca = self.p.class_attr(t, m)
                    if ca:
                        try:
                            res = self.call(st.copy(), self.bind(st, t, v, self.class_value(ca[0], m, ca[1])), [], (), None)
                        except Budget:
                            res = []
                        if len(res) == 1 and not isinstance(res[0][1], Raised):
                            return self.truth_of(res[0][0], res[0][1])
                        return ('a', 'truthy', v)
            return TRUE
        return truth(v)

    # ------------------------------------------------------------ merging
    def key_of(self, st, ctl):
        return (tuple((f[0], frozenset(f[1].items())) for f in st.frames), frozenset(st.heap.items()),
                frozenset(st.fields.items()), st.events, ctl if not (ctl and ctl[0] == 'raise') else ctl)

    def refs_of(self, x):
        """object references inside a value, in order of occurrence"""
        if not isinstance(x, (tuple, frozenset)):
            return ()
        m = self.refmemo.get(x)
        if m is not None:
            return m
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'r' and isinstance(x[1], int):
            res = (x,)
        else:
            acc = {}
            for y in (x if isinstance(x, tuple) else sorted(x, key=repr)):
                if isinstance(y, (tuple, frozenset)):
                    for r in self.refs_of(y):
                        acc[r] = None
            res = tuple(acc)
        self.refmemo[x] = res
        return res

    def gc(self, st, extra=(), floor=0):
        """drop what is unreachable; objects older than floor may still be used by the caller's expressions"""
        live, todo = set(), []

        def scan(x):
            for r in self.refs_of(x):
                if r not in live:
                    live.add(r)
                    todo.append(r)
        for f in st.frames:
            for v in f[1].values():
                scan(v)
        for e in extra:
            scan(e)
        for r in st.heap:
            if r[1] <= floor:
                scan(r)
        for e in st.events:
            scan(e)
        by = {}
        for fk, v in st.fields.items():
            o = fk[0]
            if o[0] == 'r':
                by.setdefault(o, []).append(v)
            else:
                scan(v)
        while todo:
            r = todo.pop()
            if r in st.heap:
                scan(st.heap[r])
            for v in by.get(r, ()):
                scan(v)
        st.heap = {k: v for k, v in st.heap.items() if k in live}
        st.fields = {k: v for k, v in st.fields.items() if k[0][0] != 'r' or k[0] in live}

    def merge(self, pairs):
        """join (state, ctl) pairs that differ only in complementary facts"""
        if len(pairs) < 2:
            return pairs
        groups, order = {}, []
        for st, ctl in pairs:
            k = self.key_of(st, ctl)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append((st, ctl))
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            sets = [frozenset(st.facts.items()) for st, _ in g]
            nmax = max(st.n for st, _ in g)
            red = reduce_dnf(sets) if len(sets) <= 200 else list(dict.fromkeys(sets))
            st0, ctl = g[0]
            for i, fs in enumerate(red):
                s = st0.copy() if i else st0
                s.facts = dict(fs)
                s.n = nmax
                out.append((s, ctl))
        self.steps += 1
        if len(out) > self.cfg.max_states:
            raise Budget('more than %d states in %s' % (self.cfg.max_states, self.stack[-1:] or '?'))
        return out

    # ------------------------------------------------------------ locations
    def loc(self, node=None):
        fn = self.stack[-1] if self.stack else '?'
        fi = self.p.funcs.get(fn)
        rel = fi.mod.relpath if fi else '?'
        return (rel, getattr(node, 'lineno', 0), fn)

    # ------------------------------------------------------------ exceptions
    def new_exc(self, st, cls, args=()):
        key = cls if cls in self.p.classes else 'x:' + cls
        r = st.alloc(('obj', key))
        st.fields[(r, 'args')] = ('t', tuple(args))
        return r

    def none_error(self, st, cls, what, node):
        return self.raised(st, cls, C('$none'), C(what), C(self.loc(node)[1] if node is not None and self.loc(node) else 0))

    def raised(self, st, cls, *args):
        return (st, Raised(self.new_exc(st, cls, args)))

    def may_raise(self, st, kinds, ext=True, ev=None, exact=False, name=None):
        """alternatives in which the current operation raises something an active handler would see"""
        out = []
        seen = set()
        for level in reversed(st.handlers):
            for h in level:
                if kinds == 'any':
                    some = [h] if h not in self.p.classes or not ext and (name is None or self.p.may_mention(name, h)) else []
                else:
                    some = [k if self.exc_match(k, h) else h for k in kinds if self.exc_match(k, h) or not exact and self.exc_match(h, k)]
                for cls in some:
                    if cls in seen:
                        continue
                    seen.add(cls)
                    s = st.copy()
                    e = self.new_exc(s, cls)
                    if not exact:
                        s.fields[(e, '$any')] = TRUE
                    if ev is not None:
                        s.events += (ev[:6] + (('raised', cls),) + ev[7:],)
                    out.append((s, Raised(e)))
        return out

    def exc_class(self, st, e):
        t = self.type_of(st, e)
        if t is None:
            return 'Exception'
        return t[2:] if t.startswith('x:') else t

    # ------------------------------------------------------------ messages (openid.message.Message)
    def msg_state(self, st, m):
        ov = st.fields.get((m, '$args'), ())
        if m[0] == 'r':
            return st.fields.get((m, '$ns'), A('ns', m)), st.fields.get((m, '$base')), ov
        return A('ns', m), m, ov

    def is_msg(self, st, v):
        return self.cfg.msg_prims and self.type_of(st, v) == MSG

    def msg_ns(self, st, m, ns):
        """canonical namespace value"""
        if ns == self.g_ns('OPENID_NS'):
            return C('$OPENID')
        if ns == self.g_ns('BARE_NS'):
            return C('$BARE')
        mns = self.msg_state(st, m)[0]
        if ns == mns:
            return C('$OPENID')
        if isC(ns) and ns[2] in ('$OPENID', '$BARE'):
            return ns
        f = eq(ns, mns)
        if f == TRUE or (is_formula(f) and f[0] == 'a' and self.decide(st, f) is True):
            return C('$OPENID')
        return ns

    def g_ns(self, name):
        return self.global_value(self.p.mods['openid.message'], name)

    def msg_new(self, st, ns, base=None, args=()):
        m = st.alloc(('obj', MSG))
        st.fields[(m, '$ns')] = ns
        if base is not None:
            st.fields[(m, '$base')] = base
        st.fields[(m, '$args')] = tuple(args)
        return m

    def msg_arg(self, st, m, ns, key):
        """value of a field; NONE if certainly absent; may be an 'arg' term (None when absent)"""
        mns, base, ov = self.msg_state(st, m)
        ns = self.msg_ns(st, m, ns)
        for (n, k), v in reversed(ov):
            if n == ns and k == key:
                return v
        if base is None:
            return NONE
        if isA(base, 'msg'):
            for n, k, v in reversed(base[4]):
                if n == ns and k == key:
                    return v
            base = base[3]
            if base == NONE:
                return NONE
        return A('arg', base, ns, key)

    def msg_method(self, st, m, name, args, kw, node):
        def arg(i, n, d=None):
            if len(args) > i:
                return args[i]
            for k, v in kw:
                if k == n:
                    return v
            return d
        mns, base, ov = self.msg_state(st, m)
        if name == 'getArg':
            v = self.msg_arg(st, m, arg(0, 'namespace'), arg(1, 'key'))
            d = arg(2, 'default', NONE)
            if d == NONE or (isC(v) and v != NONE):
                return [(st, v)]
            if v[0] == 'r' or (v[0] == 'a' and v[1] != 'arg' and self.nonnull(st, v)):
                return [(st, v)]
            out = []
            for s in self.assume(st.copy(), eq(v, NONE), False):
                out.append((s, v))
            for s in self.assume(st, eq(v, NONE), True):
                if d == self.g_ns('no_default'):
                    out.append(self.raised(s, 'KeyError'))
                else:
                    out.append((s, d))
            return out
        if name == 'hasKey':
            return [(st, NOT(eq(self.msg_arg(st, m, arg(0, 'namespace'), arg(1, 'ns_key')), NONE)))]
        if name == 'setArg':
            k, v = arg(1, 'key'), arg(2, 'value')
            ns = self.msg_ns(st, m, arg(0, 'namespace'))
            out = []
            if v == NONE or self.decide(st, eq(v, NONE)) if is_formula(eq(v, NONE)) and eq(v, NONE)[0] == 'a' else v == NONE:
                return [self.raised(st, 'AssertionError')]
            ov2 = tuple(x for x in ov if x[0] != (ns, k)) + (((ns, k), self.freeze(st, v)),)
            st.fields[(m, '$args')] = ov2
            st.events += (('setarg', m, ns, k, self.freeze(st, v), self.loc(node), None, None),)
            return [(st, NONE)]
        if name == 'delArg':
            k = arg(1, 'key')
            ns = self.msg_ns(st, m, arg(0, 'namespace'))
            st.fields[(m, '$args')] = tuple(x for x in ov if x[0] != (ns, k)) + (((ns, k), NONE),)
            st.events += (('delarg', m, ns, k, None, self.loc(node), None, None),)
            return [(st, NONE)]
        if name == 'updateArgs':
            d = arg(1, 'updates')
            vw = self.view(st, d)
            ns = arg(0, 'namespace')
            if vw and vw[0] == 'dict':
                sts = [(st, NONE)]
                for k, v in vw[1]:
                    nxt = []
                    for s, r in sts:
                        if isinstance(r, Raised):
                            nxt.append((s, r))
                        else:
                            nxt.extend(self.msg_method(s, m, 'setArg', [ns, k, v], (), node))
                    sts = nxt
                return sts
            cn = self.msg_ns(st, m, ns)
            fd = self.freeze(st, d)
            st.fields[(m, '$args')] = ov + (((cn, A('allof', fd)), fd),)
            st.events += (('setarg', m, cn, A('allof', fd), fd, self.loc(node), None, None),)
            return [(st, NONE)]
        if name == 'getOpenIDNamespace':
            return [(st, mns)]
        if name == 'isOpenID2':
            return [(st, eq(mns, C('http://specs.openid.net/auth/2.0')))]
        if name == 'isOpenID1':
            if isC(mns):
                return [(st, OR(eq(mns, C('http://openid.net/signon/1.0')), eq(mns, C('http://openid.net/signon/1.1'))))]
            return [(st, NOT(eq(mns, C('http://specs.openid.net/auth/2.0'))))]
        if name in ('copy', '__deepcopy__', '__copy__'):
            fz = self.freeze(st, m)
            if isA(fz, 'msg'):
                n = self.msg_new(st, fz[2], None if fz[3] == NONE else fz[3], tuple(((a, k), v) for a, k, v in fz[4]))
            else:
                n = self.msg_new(st, mns, fz)
            return [(st, n)]
        if name in ('toPostArgs', 'toArgs', 'toKVForm', 'toURLEncoded'):
            return [(st, A('m:' + name, self.freeze(st, m)))]
        if name in ('toURL', 'toFormMarkup'):
            return [(st, A('m:' + name, self.freeze(st, m), *[self.freeze(st, a) for a in args]))]
        if name == 'getArgs':
            return [(st, A('m:getArgs', self.freeze(st, m), self.msg_ns(st, m, arg(0, 'namespace'))))]
        if name == 'getKey':
            return [(st, A('m:getKey', self.freeze(st, m), self.msg_ns(st, m, arg(0, 'namespace')), self.freeze(st, arg(1, 'ns_key'))))]
        if name == 'getAliasedArg':
            return [(st, A('m:' + name, self.freeze(st, m), *[self.freeze(st, a) for a in args]))]
        return None

    def msg_class_method(self, st, name, args, kw, node):
        if name in ('fromPostArgs', 'fromOpenIDArgs', 'fromKVForm', '_fromOpenIDArgs'):
            src = args[0] if args else (kw[0][1] if kw else NONE)
            vw = self.view(st, src)
            if name in ('fromOpenIDArgs', '_fromOpenIDArgs') and vw and vw[0] == 'dict' and all(isC(k) for k, _ in vw[1]):
                ns = C('http://openid.net/signon/1.0')
                ov = []
                for k, v in vw[1]:
                    if k[2] == 'ns':
                        ns = v
                    else:
                        ov.append(((C('$OPENID'), k), self.freeze(st, v)))
                return [(st, self.msg_new(st, ns, None, ov))]
            fz = self.freeze(st, src)
            if name == 'fromPostArgs' and isA(fz, 'm:toPostArgs'):
                base = fz[2]
            else:
                base = A('parsed', name, fz)
            self.types[base] = MSG
            if isA(base, 'msg'):
                return [(st, self.msg_new(st, base[2], None if base[3] == NONE else base[3],
                                          tuple(((a, k), v) for a, k, v in base[4])))]
            m = self.msg_new(st, A('ns', base), base)
            out = self.may_raise(st, ['openid.message.InvalidOpenIDNamespace', 'openid.message.InvalidNamespace',
                                      'AssertionError'] + (['UnicodeDecodeError'] if name == 'fromKVForm' else ['TypeError']))
            return [(st, m)] + out
        return None

    # ------------------------------------------------------------ expressions
    def ev_many(self, nodes, st):
        """evaluate nodes left to right -> [(state, [values] | Raised)]"""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                if isinstance(vs, Raised):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(n, s):
                    nxt.append((s2, v if isinstance(v, Raised) else vs + [v]))
            res = nxt
        return res

    def ev(self, node, st):
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            st.imprecise += ((type(node).__name__,) + self.loc(node),)
            return [(st, A('unknown', type(node).__name__, ast.dump(node)[:200]))]
        return m(node, st)

    def ev_Constant(self, n, st):
        return [(st, C(n.value))]

    def ev_Name(self, n, st):
        return [(st, self.lookup(st, n.id))]

    def lookup(self, st, name):
        fid, env, ctx = st.frames[-1]
        if name in env:
            return env[name]
        mod, cls, capt = ctx
        for k, v in capt:
            if k == name:
                return v
        if fid == '<const>' and cls is not None and name in cls.attrs:
            v = self.class_value(cls, name, cls.attrs[name])
            return v
        v = self.global_value(mod, name)
        if v is not None and (v, '$now') in st.fields:
            v = st.fields[(v, '$now')]
        if v is not None:
            return v
        if name in ('True', 'False', 'None'):
            return C({'True': True, 'False': False, 'None': None}[name])
        if hasattr(builtins, name):
            return ('x', name)
        return A('unbound', name)

    def lacks(self, st, v, name):
        """a list, dict or the like of known kind that has no such attribute"""
        vw = self.view(st, v) if v[0] in ('r', 't') else None
        return vw is not None and not hasattr({'list': [], 'dict': {}, 'set': set(), 'tuple': ()}[vw[0]], name) and \
            not hasattr({'list': [], 'dict': {}, 'set': set(), 'tuple': ()}[vw[0]], name.replace('iter', '')) and not name.startswith('has_key')

    def ev_Attribute(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, v))
            elif self.lacks(s, v, n.attr):
                out.extend(self.may_raise(s, ['AttributeError'], exact=True))
            elif v == NONE and self.cfg.none_errors:
                out.append(self.none_error(s, 'AttributeError', 'attribute %s' % n.attr, n))
            else:
                out.extend(self.get_attr(s, v, n.attr, n))
        return out

    def bind(self, st, owner, recv, val):
        """descriptor protocol for a class attribute value read through recv"""
        if val[0] == 'f':
            return ('bm', recv, val)
        if val[0] == 'cm':
            return ('bm', recv if recv[0] == 'k' else ('k', self.type_of(st, recv) or owner), val[1])
        if val[0] == 'sm':
            return val[1]
        return val

    def get_attr(self, st, v, name, node=None):
        h = v[0]
        if h == 'm':
            r = self.p.resolve_name(self.p.mods[v[1]], name)
            return [(st, self.binding_value(r) if r else self.ext(v[1] + '.' + name))]
        if h == 'x':
            return [(st, self.ext(v[1] + '.' + name))]
        if h == 'f' and name == '__name__' and (v, name) not in st.fields and str(v[1]).split('.')[-1].isidentifier():
            return [(st, C(v[1].split('.')[-1]))]
        if h == 'k':
            if name == '__name__':
                return [(st, C(v[1].split('.')[-1]))]
            if name == '__module__':
                return [(st, C(self.p.classes[v[1]].mod.name))]
            ca = self.p.class_attr(v[1], name) if v[1] in self.p.classes else None
            if ca:
                val = self.class_value(ca[0], name, ca[1])
                if val[0] == 'cm':
                    return [(st, ('bm', v, val[1]))]
                if val[0] == 'sm':
                    return [(st, val[1])]
                if val[0] == 'prop':
                    return [(st, val[1])]
                return [(st, val)]
            return [(st, A('attr', v, name))]
        if h == 'super':
            _, cls, recv = v
            t = self.type_of(st, recv) or (recv[1] if recv[0] == 'k' else None) or cls
            mro = [k for k in self.p.mro(t)]
            if cls in mro:
                mro = mro[mro.index(cls) + 1:]
            for k in mro:
                if k.startswith('x:'):
                    continue
                c = self.p.classes[k]
                if name in c.attrs:
                    val = self.class_value(c, name, c.attrs[name])
                    if val[0] == 'prop':
                        return self.call(st, val[1], [recv], (), node)
                    return [(st, self.bind(st, k, recv, val))]
            return [(st, ('bx', recv, name))]
        if (v, name) in st.fields:
            return [(st, st.fields[(v, name)])]
        if h == 'a' and v[1] == 'rec':
            for x in v[3:]:
                if x[1][0] == C(name):
                    return [(st, x[1][1])]
        t = self.type_of(st, v)
        if t and t in self.p.classes:
            if name == '__class__':
                return [(st, ('k', t))]
            ca = self.p.class_attr(t, name)
            if ca:
                val = self.class_value(ca[0], name, ca[1])
                if val[0] == 'prop':
                    return self.call(st, val[1], [v], (), node)
                # data attributes assigned on instances shadow class values for unknown objects
                if v[0] != 'r' and val[0] not in ('f', 'cm', 'sm', 'k') and self.instance_assigned(t, name):
                    return [(st, A('attr', v, name))]
                return [(st, self.bind(st, t, v, val))]
            ga = self.p.class_attr(t, '__getattr__')
            if ga and not name.startswith('__') and not self.instance_assigned(t, name):
                return self.call(st, ('f', ga[1][1].key, ()), [v, C(name)], (), node)
            if v[0] == 'r':
                if any(x.startswith('x:') and x not in ('x:object',) for x in self.p.mro(t)):
                    if name == 'args':
                        return [(st, A('attr', v, name))]
                return [(st, A('attr', v, name))]
            return [(st, self.attr_term(v, name))]
        if t and t.startswith('x:'):
            return [(st, A('attr', v, name))]
        # known URL-split results
        if isA(v, 'call') and isinstance(v[2], str):
            f = v[2].split('.')[-1]
            if f in URL_FIELDS and name in URL_FIELDS[f]:
                return [(st, A('getitem', v, C(URL_FIELDS[f][name])))]
        if h in ('a', 's', 'g') and name not in BUILTIN_METHODS:
            owners = self.p.meth_owners.get(name, ())
            if len(owners) == 1 and name not in self.cfg.no_cha:
                ca = self.p.classes[owners[0]]
                val = self.class_value(ca, name, ca.attrs[name])
                if val[0] == 'prop':
                    return self.call(st, val[1], [v], (), node)
        return [(st, self.attr_term(v, name))]

    def attr_term(self, v, name):
        t = A('attr', v, name)
        if name in self.cfg.typed_attrs and t not in self.types:
            self.types[t] = self.cfg.typed_attrs[name]
        return t

    def instance_assigned(self, t, name):
        """some method of the class (or its bases/subclasses) assigns self.<name>"""
        k = ('ia', t, name)
        if k in self.ccache:
            return self.ccache[k]
        res = False
        for c in set(x for x in self.p.mro(t) if not x.startswith('x:')) | set(self.p.subclasses(t)):
            for b in self.p.classes[c].attrs.values():
                if b[0] == 'func':
                    for n in ast.walk(b[1].node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name and \
                                isinstance(n.value, ast.Name) and b[1].params and n.value.id == b[1].params[0]:
                            res = True
        self.ccache[k] = res
        return res

    def ev_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._ev_star_seq(n, st, 'tuple')
        return [(s, v if isinstance(v, Raised) else T(v)) for s, v in self.ev_many(n.elts, st)]

    def _ev_star_seq(self, n, st, kind):
        out = []
        for s, vs in self.ev_many([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            items, ok = [], True
            for e, v in zip(n.elts, vs):
                if isinstance(e, ast.Starred):
                    vw = self.view(s, v)
                    if vw and vw[0] != 'dict':
                        items.extend(vw[1])
                    else:
                        ok = False
                else:
                    items.append(v)
            if ok:
                out.append((s, T(items) if kind == 'tuple' else self.new_list(s, items)))
            else:
                out.append((s, A('seq', *[self.freeze(s, v) for v in vs])))
        return out

    def ev_List(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._ev_star_seq(n, st, 'list')
        return [(s, v if isinstance(v, Raised) else self.new_list(s, v)) for s, v in self.ev_many(n.elts, st)]

    def ev_Set(self, n, st):
        return [(s, v if isinstance(v, Raised) else s.alloc(('set', tuple(dict.fromkeys(v))))) for s, v in self.ev_many(n.elts, st)]

    def ev_Dict(self, n, st):
        out = []
        keys = [k if k is not None else ast.Constant(value='**') for k in n.keys]
        for s, vs in self.ev_many(keys + n.values, st):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            ks, xs = vs[:len(keys)], vs[len(keys):]
            pairs, ok = [], True
            for k0, k, x in zip(n.keys, ks, xs):
                if k0 is None:
                    vw = self.view(s, x)
                    if vw and vw[0] == 'dict':
                        for kk, vv in vw[1]:
                            pairs = [p for p in pairs if p[0] != kk] + [(kk, vv)]
                    else:
                        ok = False
                else:
                    k = self.freeze(s, k)
                    pairs = [p for p in pairs if p[0] != k] + [(k, x)]
            out.append((s, self.new_dict(s, pairs) if ok else A('dictx', *[self.freeze(s, v) for v in vs])))
        return out

    def ev_JoinedStr(self, n, st):
        out = []
        nodes = [v.value if isinstance(v, ast.FormattedValue) else v for v in n.values]
        for s, vs in self.ev_many(nodes, st):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            parts = []
            for v0, v in zip(n.values, vs):
                if isinstance(v0, ast.FormattedValue):
                    spec = ''
                    if v0.format_spec is not None and all(isinstance(x, ast.Constant) for x in v0.format_spec.values):
                        spec = ''.join(x.value for x in v0.format_spec.values)
                    conv = chr(v0.conversion) if v0.conversion and v0.conversion > 0 else ''
                    parts.append(self.fmt_part(s, v, conv, spec))
                else:
                    parts.append(v)
            out.append((s, cat(*parts)))
        return out

    def fmt_part(self, st, v, conv, spec):
        fz = self.freeze(st, v)
        if conv == 'r':
            return A('fmt', 'r', fz)
        if spec in ('', 's'):
            if isC(fz) and isinstance(fz[2], (str, int)):
                return C(str(fz[2]))
            return fz if isA(fz) and fz[1] in ('cat', 'text') else A('text', fz)
        if isC(fz) and isinstance(fz[2], int) and not isinstance(fz[2], bool) and spec:
            for f in (lambda: ('%' + spec) % fz[2], lambda: format(fz[2], spec)):
                try:
                    return C(f())
                except (TypeError, ValueError):
                    pass
        return A('fmt', spec, fz)

    def percent(self, st, fmt, arg):
        """'..%s..' % arg as concatenation"""
        import re
        s = fmt[2]
        if not isinstance(s, str):
            return None
        vw = self.view(st, arg)
        parts, pos, i = [], 0, 0
        args = list(vw[1]) if vw and vw[0] == 'tuple' else [arg]
        mapping = dict((k[2], v) for k, v in vw[1]) if vw and vw[0] == 'dict' and all(isC(k) for k, _ in vw[1]) else None
        for m in re.finditer(r'%(\((\w+)\))?([#0\- +]*\d*(?:\.\d+)?)([a-zA-Z%])', s):
            parts.append(C(s[pos:m.start()]))
            pos = m.end()
            if m.group(4) == '%':
                parts.append(C('%'))
                continue
            if m.group(2):
                if mapping is None:
                    parts.append(A('fmtkey', m.group(2), self.freeze(st, arg)))
                    continue
                if m.group(2) not in mapping:
                    return None
                v = mapping[m.group(2)]
            else:
                if i >= len(args):
                    return None
                v = args[i]
                i += 1
            spec = m.group(3) + ('' if m.group(4) == 's' else m.group(4))
            parts.append(self.fmt_part(st, v, 'r' if m.group(4) == 'r' else '', '' if m.group(4) in 'rs' and not m.group(3) else spec))
        parts.append(C(s[pos:]))
        return cat(*parts)

    def str_format(self, st, fmt, args, kw):
        import string
        s = fmt[2]
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = dict(kw)[field]
                parts.append(self.fmt_part(st, v, conv or '', spec or ''))
        except (IndexError, KeyError, ValueError):
            return None
        return cat(*parts)

    def ev_BinOp(self, n, st):
        out = []
        for s, vs in self.ev_many([n.left, n.right], st):
            if isinstance(vs, Raised):
                out.append((s, vs))
            elif self.cfg.none_errors and (vs[0] == NONE or vs[1] == NONE and not isinstance(n.op, ast.Mod)):
                out.append(self.none_error(s, 'TypeError', 'operand of %s' % type(n.op).__name__, n))
            else:
                out.append((s, self.binop(s, n.op, vs[0], vs[1])))
        return out

    def binop(self, st, op, a, b):
        o = type(op).__name__
        va, vb = self.view(st, a), self.view(st, b)
        if o == 'Add':
            if va and vb and va[0] == vb[0] and va[0] in ('list', 'tuple'):
                items = va[1] + vb[1]
                return T(items) if va[0] == 'tuple' else self.new_list(st, items)
            if isC(a) and isC(b):
                try:
                    return C(a[2] + b[2])
                except Exception:
                    pass
            if va or vb or self.content(st, a) is not None or self.content(st, b) is not None:
                return A('+', self.freeze(st, a), self.freeze(st, b))
            if any(isC(x) and isinstance(x[2], (str, bytes)) or isA(x, 'cat') for x in (a, b)):
                return cat(a, b)
            if is_num(a) or is_num(b):
                return add(a, b)
            return A('+', a, b)
        if o == 'Sub':
            if va and vb:
                items = [x for x in va[1] if x not in vb[1]]
                if all(isC(x) for x in va[1] + vb[1]):
                    return st.alloc(('set', tuple(items)))
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if va or vb or isA(fa, 'set') or isA(fb, 'set') or isA(fa, 'S') or isA(fb, 'S'):
                return self.set_difference(st, fa, fb)
            return sub(a, b)
        if o == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isC(x) and isinstance(x[2], (int, float)) and not isinstance(x[2], bool):
                    if isC(y):
                        try:
                            return C(x[2] * y[2])
                        except Exception:
                            break
                    if is_num(y) or isA(y, '+'):
                        return mulc(y, x[2])
            return A('*', self.freeze(st, a), self.freeze(st, b))
        if o == 'Mod':
            if isC(a) and isinstance(a[2], str):
                r = self.percent(st, a, b)
                if r is not None:
                    return r
                return A('pct', a, self.freeze(st, b))
            if isC(a) and isC(b):
                try:
                    return C(a[2] % b[2])
                except Exception:
                    pass
            return A('%', self.freeze(st, a), self.freeze(st, b))
        if isC(a) and isC(b):
            import operator
            f = {'FloorDiv': operator.floordiv, 'Div': operator.truediv, 'Pow': operator.pow, 'BitOr': operator.or_,
                 'BitAnd': operator.and_, 'BitXor': operator.xor, 'LShift': operator.lshift,
                 'RShift': operator.rshift}.get(o)
            try:
                return C(f(a[2], b[2]))
            except Exception:
                pass
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if o in ('BitOr', 'BitAnd', 'BitXor'):
            parts = []
            for x in (fa, fb):
                parts.extend(x[2:] if isA(x, o) else (x,))
            return ('a', o) + tuple(sorted(set(parts), key=repr)) if o != 'BitXor' else ('a', o) + tuple(sorted(parts, key=repr))
        return A(o, fa, fb)

    def set_difference(self, st, fa, fb):
        """set(X) - set(Y) as a comprehension over X"""
        x = base_iter(fa)
        el = self.elem_of(st, x)
        f = self.in_formula(el, base_iter(fb))
        if is_formula(f) and f[0] == 'a':
            return A('comp', x, ((frozenset({(f, False)}), (el,)), (frozenset({(f, True)}), ())))
        return A('setdiff', fa, fb)

    def in_formula(self, x, c):
        """x in c for frozen c"""
        if isA(c) and c[1] in ('L', 'S'):
            return OR(*[eq(x, y) for y in c[2:]])
        if isA(c, 'D'):
            return OR(*[eq(x, y[1][0]) for y in c[2:]])
        if c[0] == 't':
            return OR(*[eq(x, y) for y in c[1]])
        if isC(c) and c[1] == 'tuple':
            return OR(*[eq(x, C(y)) for y in c[2]])
        if isC(c) and isC(x):
            try:
                return C(bool(x[2] in c[2]))
            except Exception:
                pass
        while isA(c) and c[1] in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'm:keys', 'iter'):
            c = c[2]
        if isA(c, 'comp'):
            # x in [e for ..]
            if len(c[3]) == 1 and c[3][0][1] == (A('elem', c[2]),) and not c[3][0][0]:
                return self.in_formula(x, c[2])
            if len(c[3]) == 1 and not c[3][0][0] and len(c[3][0][1]) == 1 and isA(c[3][0][1][0], 'cat') and isA(x, 'cat'):
                e = c[3][0][1][0]
                if e[2] == x[2] and len(e) == 4 and e[3] == A('elem', c[2]) and len(x) == 4:
                    return self.in_formula(x[3], c[2])
        return ('a', 'in', x, c)

    def contains(self, st, x, c):
        vw = self.view(st, c)
        if vw is not None:
            items = [k for k, _ in vw[1]] if vw[0] == 'dict' else vw[1]
            return OR(*[self.eq_vals(st, x, y) for y in items])
        cc = self.content(st, c)
        if cc is not None:
            return self.in_formula(self.freeze(st, x), cc)
        return self.in_formula(self.freeze(st, x), self.freeze(st, c))

    def eq_vals(self, st, a, b):
        return eq(self.freeze(st, a), self.freeze(st, b))

    def ev_UnaryOp(self, n, st):
        out = []
        for s, v in self.ev(n.operand, st):
            if isinstance(v, Raised):
                out.append((s, v))
            elif isinstance(n.op, ast.Not):
                out.append((s, NOT(self.truth_of(s, v))))
            elif isinstance(n.op, ast.USub):
                out.append((s, C(-v[2]) if isC(v) and isinstance(v[2], (int, float)) else mulc(v, -1)))
            else:
                out.append((s, A(type(n.op).__name__, self.freeze(s, v))))
        return out

    def ev_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        out, cur = [], [(st, None)]
        for i, e in enumerate(n.values):
            nxt = []
            for s, _ in cur:
                for s2, v in self.ev(e, s):
                    if isinstance(v, Raised):
                        out.append((s2, v))
                        continue
                    if i == len(n.values) - 1:
                        out.append((s2, v))
                        continue
                    t, f = self.branch(s2, v)
                    for x in (f if isand else t):
                        vv = v
                        if is_formula(v) and v not in (TRUE, FALSE):
                            vv = FALSE if isand else TRUE
                        out.append((x, vv))
                    nxt.extend((x, None) for x in (t if isand else f))
            cur = nxt
        return out

    def ev_IfExp(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            t, f = self.branch(s, v)
            for x in t:
                out.extend(self.ev(n.body, x))
            for x in f:
                out.extend(self.ev(n.orelse, x))
        return out

    def ev_Compare(self, n, st):
        out = []
        for s, vs in self.ev_many([n.left] + n.comparators, st):
            if isinstance(vs, Raised):
                out.append((s, vs))
                continue
            if self.cfg.none_errors and any(isinstance(o, (ast.In, ast.NotIn)) and b == NONE or isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and NONE in (a, b)
                                            for o, a, b in zip(n.ops, vs, vs[1:])):
                out.append(self.none_error(s, 'TypeError', 'operand of a comparison', n))
                continue
            fs = []
            if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                t = self.type_of(s, vs[1])
                ca = self.p.class_attr(t, '__contains__') if t and t in self.p.classes else None
                if ca and not (self.cfg.msg_prims and t == MSG):
                    for s2, r in self.call(s, self.bind(s, t, vs[1], self.class_value(ca[0], '__contains__', ca[1])), [vs[0]], (), n):
                        if not isinstance(r, Raised):
                            r = self.truth_of(s2, r)
                            r = NOT(r) if isinstance(n.ops[0], ast.NotIn) else r
                        out.append((s2, r))
                    continue
            for op, a, b in zip(n.ops, vs, vs[1:]):
                fs.append(self.compare(s, op, a, b))
            out.append((s, AND(*fs)))
        return out

    def compare(self, st, op, a, b):
        o = type(op).__name__
        if o in ('Eq', 'NotEq', 'Is', 'IsNot'):
            f = self.eq_vals(st, a, b)
            return NOT(f) if o in ('NotEq', 'IsNot') else f
        if o in ('In', 'NotIn'):
            f = self.contains(st, a, b)
            return NOT(f) if o == 'NotIn' else f
        a, b = self.freeze(st, a), self.freeze(st, b)
        return {'Lt': lambda: lt(a, b), 'LtE': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'GtE': lambda: le(b, a)}[o]()

    def ev_Subscript(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                for s2, vs in self.ev_many([p for p in parts if p is not None], s):
                    if isinstance(vs, Raised):
                        out.append((s2, vs))
                        continue
                    it = iter(vs)
                    lo, hi, step = [next(it) if p is not None else NONE for p in parts]
                    out.append((s2, self.do_slice(s2, v, lo, hi, step)))
            else:
                for s2, i in self.ev(n.slice, s):
                    if isinstance(i, Raised):
                        out.append((s2, i))
                    else:
                        out.extend(self.get_item(s2, v, i, n))
        return out

    def do_slice(self, st, v, lo, hi, step):
        if isA(v, 'call') and isinstance(v[2], str) and v[2].split('.')[-1] in ('urlparse', 'urlsplit') and isC(lo) and isC(hi) and isC(step):
            n = 6 if v[2].endswith('urlparse') else 5
            return T([A('getitem', v, C(i)) for i in range(n)[slice(lo[2], hi[2], step[2])]])
        vw = self.view(st, v)
        if all(isC(x) for x in (lo, hi, step)):
            sl = slice(lo[2], hi[2], step[2])
            if isC(v) and isinstance(v[2], (str, bytes)):
                return C(v[2][sl])
            if vw and vw[0] in ('list', 'tuple'):
                items = vw[1][sl]
                return T(items) if vw[0] == 'tuple' else self.new_list(st, items)
            if isA(v, 'cat') and isC(v[2]) and isinstance(v[2][2], str) and hi == NONE and step == NONE and \
                    isinstance(lo[2], int) and 0 <= lo[2] <= len(v[2][2]):
                return cat(C(v[2][2][lo[2]:]), *v[3:])
            if hi == NONE and step == NONE and lo in (NONE, C(0)):
                return A('list', self.freeze(st, v)) if (vw or self.content(st, v)) else self.freeze(st, v)
        fz = self.freeze(st, v)
        if lo == C(0):
            lo = NONE
        if lo == NONE and step == NONE and self.freeze(st, hi) == A('len', fz):
            return fz
        if isA(fz, 'm:decode') and lo == NONE and step == NONE and hi == C(-1) and isA(fz[2], 'call') and fz[2][2] == 'binascii.b2a_base64':
            return A('m:decode', A('slice', fz[2], NONE, C(-1), NONE), *fz[3:])
        return A('slice', fz, self.freeze(st, lo), self.freeze(st, hi), self.freeze(st, step))

    def get_item(self, st, v, i, node):
        if v == NONE and self.cfg.none_errors:
            return [self.none_error(st, 'TypeError', 'subscript', node)]
        vw = self.view(st, v)
        i = self.freeze(st, i)
        if (v, '[]', i) in st.fields:
            return [(st, st.fields[(v, '[]', i)])]
        if vw is not None:
            if vw[0] == 'dict':
                return self.dict_lookup(st, vw[1], i, 'raise')
            if isC(i) and isinstance(i[2], int):
                try:
                    return [(st, vw[1][i[2]])]
                except IndexError:
                    return [self.raised(st, 'IndexError')]
            if vw[1] and len(vw[1]) <= 6:
                out = []
                for k, x in enumerate(vw[1]):
                    for s in self.assume(st.copy(), eq(i, C(k)), True):
                        out.append((s, x))
                return out or [self.raised(st, 'IndexError')]
        t = self.type_of(st, v)
        if t and t in self.p.classes:
            ca = self.p.class_attr(t, '__getitem__')
            if ca:
                return self.call(st, self.bind(st, t, v, self.class_value(ca[0], '__getitem__', ca[1])), [i], (), node)
        c = self.content(st, v)
        fz = c if c is not None else self.freeze(st, v)
        if isC(fz) and isC(i) and isinstance(fz[2], (str, bytes, tuple)):
            try:
                return [(st, C(fz[2][i[2]]))]
            except Exception:
                return [self.raised(st, 'IndexError')]
        # x[i] with i ranging over the indices of x
        if isA(i, 'elem') and isA(i[2], 'range') and i[2][2] == A('len', fz):
            return [(st, A('elem', fz))]
        if isA(i, 'elem') and base_iter(i[2]) == fz and False:
            return [(st, A('getitem', fz, i))]
        if isA(i, 'idx') and i[2] == fz:
            return [(st, A('elem', fz))]
        if isA(fz, 'elem_items') and False:
            pass
        if isA(fz, 'call') and isinstance(fz[2], str) and fz[2].split('.')[-1] in URL_FIELDS and isC(i) and isinstance(i[2], int) and i[2] < 0:
            i = C(len(URL_FIELDS[fz[2].split('.')[-1]]) + i[2])
        kinds = ['KeyError', 'IndexError', 'TypeError'] if not isC(i) or not isinstance(i[2], int) else ['IndexError', 'KeyError', 'TypeError']
        if isA(i, 'elem') and base_iter(i[2]) == base_iter(fz):
            kinds = None
        out = []
        if kinds and isA(fz) and fz[1] in ('call', 'm:rpartition', 'm:partition') and isC(i) and (fz[1] != 'call' or str(fz[2]).split('.')[-1] in URL_FIELDS):
            kinds = None
        if kinds and isA(fz) and fz[1] in ('m:split', 'm:rsplit') and len(fz) > 3 and isC(fz[3]) and fz[3] != NONE and i in (C(0), C(-1)):
            kinds = None
        val = A('getitem', fz, i)
        if kinds:
            rs = self.may_raise(st, kinds)
            f = self.in_formula(i, fz)
            if rs and not (isC(i) and isinstance(i[2], int)) and is_formula(f) and f[0] == 'a':
                for s, r in rs:
                    if self.exc_class(s, r.exc) in ('KeyError', 'LookupError', 'IndexError'):
                        for s2 in self.assume(s, f, False):
                            out.append((s2, r))
                    else:
                        out.append((s, r))
                for s2 in self.assume(st, f, True):
                    out.append((s2, val))
                return out
            out.extend(rs)
        return [(st, val)] + out

    def dict_lookup(self, st, pairs, k, default):
        """lookup of key k in known pairs; default: 'raise' or a value"""
        out, cur = [], [st]
        for kk, v in pairs:
            f = eq(k, kk)
            nxt = []
            for s in cur:
                if f == TRUE:
                    out.append((s, v))
                elif f == FALSE:
                    nxt.append(s)
                else:
                    for s2 in self.assume(s.copy(), f, True):
                        out.append((s2, v))
                    nxt.extend(self.assume(s, f, False))
            cur = nxt
        for s in cur:
            if default == 'raise':
                out.append(self.raised(s, 'KeyError', k))
            else:
                out.append((s, default))
        return out

    def ev_Lambda(self, n, st):
        return [(st, self.closure(st, n))]

    def closure(self, st, n):
        key = getattr(n, '_key', None)
        if key is None or key not in self.p.funcs:
            return A('lambda', ast.dump(n)[:80])
        used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        fid, env, ctx = st.frames[-1]
        capt = tuple((k, v) for k, v in sorted(env.items()) if k in used)
        capt += tuple((k, v) for k, v in ctx[2] if k in used and k not in env)
        return ('f', key, capt)

    # comprehensions are desugared into loops with an accumulator
    def _comp(self, n, st, acc_init, add_stmt, wrap=None):
        tmp = '$acc%d' % len([k for k in st.env if k.startswith('$acc')])
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {k: st.env.get(k) for k in names}
        st.env[tmp] = acc_init(st)
        body = [add_stmt(tmp)]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for x in ast.walk(body[0]):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        ast.fix_missing_locations(body[0])
        out = []
        for s, ctl in self.exec_block(body, st):
            if ctl is not None and ctl[0] == 'raise':
                v = Raised(ctl[1])
            else:
                v = s.env[tmp]
            s.env.pop(tmp, None)
            for k, old in saved.items():
                if old is None:
                    s.env.pop(k, None)
                else:
                    s.env[k] = old
            out.append((s, v))
        return out

    def ev_ListComp(self, n, st):
        def addst(tmp):
            return ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=tmp, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[n.elt], keywords=[]))
        return self._comp(n, st, lambda s: self.new_list(s, ()), addst)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, n, st):
        def addst(tmp):
            return ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=tmp, ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[n.elt], keywords=[]))
        out = []
        for s, v in self._comp(n, st, lambda s: self.new_list(s, ()), addst):
            if not isinstance(v, Raised):
                vw = self.view(s, v)
                v = s.alloc(('set', tuple(dict.fromkeys(vw[1])))) if vw else s.alloc(('sym', 'set', A('set', self.freeze(s, v))))
            out.append((s, v))
        return out

    def ev_DictComp(self, n, st):
        def addst(tmp):
            return ast.Assign(targets=[ast.Subscript(value=ast.Name(id=tmp, ctx=ast.Load()), slice=n.key, ctx=ast.Store())], value=n.value)
        return self._comp(n, st, lambda s: self.new_dict(s, ()), addst)

    def ev_Starred(self, n, st):
        return self.ev(n.value, st)

    def ev_NamedExpr(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if not isinstance(v, Raised):
                s.env[n.target.id] = v
            out.append((s, v))
        return out

    def ev_Yield(self, n, st):
        out = []
        for s, v in (self.ev(n.value, st) if n.value is not None else [(st, NONE)]):
            if isinstance(v, Raised):
                out.append((s, v))
                continue
            self.container_method(s, s.env['$yield'], 'append', [v], (), n)
            out.append((s, NONE))
        return out

    # ------------------------------------------------------------ calls
    def is_noise(self, v):
        if v[0] == 'x':
            return v[1].split('.')[0] in NOISE_ROOTS
        if v[0] == 'a' and v[1] == 'call' and isinstance(v[2], str):
            return v[2].split('.')[0] in NOISE_ROOTS
        if v[0] == 'a' and v[1] == 'attr':
            return self.is_noise(v[2])
        return False

    def ev_Call(self, n, st):
        self.call_sites += 1
        f = n.func
        # any()/all() over a generator: loop with early exit
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(n.args) == 1 and \
                isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and self.lookup(st, f.id) == ('x', f.id):
            return self.anyall(n, st, f.id == 'any')
        if isinstance(f, ast.Attribute):
            heads = self.ev(f.value, st)
        else:
            heads = self.ev(f, st)
        out = []
        for s, hv in heads:
            if isinstance(hv, Raised):
                out.append((s, hv))
                continue
            if self.is_noise(hv):
                out.append((s, NONE if not (hv[0] == 'x' and hv[1] == 'logging') else A('call', 'logging.getLogger')))
                continue
            if isinstance(f, ast.Name) and f.id == 'super' and hv == ('x', 'super'):
                out.extend(self.do_super(n, s))
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            for s2, vs in self.ev_many(nodes, s):
                if isinstance(vs, Raised):
                    out.append((s2, vs))
                    continue
                args, kw = [], []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        vw = self.view(s2, v)
                        if vw is None and isA(v, 'call') and v[2] in self.cfg.arity:
                            vw = ('tuple', [A('getitem', v, C(i)) for i in range(self.cfg.arity[v[2]])])
                        if vw and vw[0] != 'dict':
                            args.extend(vw[1])
                        else:
                            args.append(('star', self.freeze(s2, v)))
                    else:
                        args.append(v)
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    if k.arg is None:
                        vw = self.view(s2, v)
                        if vw and vw[0] == 'dict' and all(isC(x) for x, _ in vw[1]):
                            kw.extend((x[2], y) for x, y in vw[1])
                        else:
                            kw.append(('**', self.freeze(s2, v)))
                    else:
                        kw.append((k.arg, v))
                kw = tuple(kw)
                if isinstance(f, ast.Attribute):
                    out.extend(self.call_method(s2, hv, f.attr, args, kw, n))
                else:
                    out.extend(self.call(s2, hv, args, kw, n))
        return self.merge_vals(out)

    def merge_vals(self, pairs):
        if len(pairs) < 2:
            return pairs
        tagged = []
        for s, v in pairs:
            tagged.append((s, ('raise', v.exc) if isinstance(v, Raised) else ('val', v)))
        return [(s, Raised(c[1]) if c[0] == 'raise' else c[1]) for s, c in self.merge(tagged)]

    def anyall(self, n, st, isany):
        g = n.args[0]
        tmp = '$q%d' % len([k for k in st.env if k.startswith('$q')])
        st.env[tmp] = FALSE if isany else TRUE
        test = g.elt if isany else ast.UnaryOp(op=ast.Not(), operand=g.elt)
        if len(g.generators) != 1:
            res = self.ev(g, st)
            return [(s, v if isinstance(v, Raised) else A('anyall', isany, self.freeze(s, v))) for s, v in res]
        names = {x.id for x in ast.walk(g.generators[0].target) if isinstance(x, ast.Name)}
        saved = {k: st.env.get(k) for k in names}
        body = [ast.If(test=test, body=[ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())],
                                                   value=ast.Constant(value=isany)), ast.Break()], orelse=[])]
        for gen in reversed(g.generators):
            for c in reversed(gen.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
        for x in ast.walk(body[0]):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        ast.fix_missing_locations(body[0])
        out = []
        for s, ctl in self.exec_block(body, st):
            if ctl is not None and ctl[0] == 'raise':
                v = Raised(ctl[1])
            else:
                v = s.env[tmp]
            s.env.pop(tmp, None)
            for k, old in saved.items():
                if old is None:
                    s.env.pop(k, None)
                else:
                    s.env[k] = old
            out.append((s, v))
        return self.merge_vals(out)

    def do_super(self, n, st):
        fi = self.p.funcs.get(self.stack[-1]) if self.stack else None
        if n.args:
            out = []
            for s, vs in self.ev_many(n.args, st):
                if isinstance(vs, Raised):
                    out.append((s, vs))
                elif vs[0][0] == 'k' and len(vs) > 1:
                    out.append((s, ('super', vs[0][1], vs[1])))
                else:
                    out.append((s, A('super')))
            return out
        cls = fi.cls.key if fi and fi.cls else None
        return [(st, ('super', cls, st.env.get(fi.params[0]) if fi else NONE))]

    def call_method(self, st, recv, name, args, kw, node):
        """recv.name(*args)"""
        if recv[0] in ('m', 'x', 'k', 'super'):
            if recv[0] == 'k' and recv[1] == MSG and self.cfg.msg_prims:
                r = self.msg_class_method(st, name, args, kw, node)
                if r is not None:
                    return r
            if recv[0] == 'super' and recv[1] in self.p.classes:
                pass
            out = []
            for s, fv in self.get_attr(st, recv, name, node):
                if isinstance(fv, Raised):
                    out.append((s, fv))
                elif fv[0] == 'bx':
                    if name == '__init__':
                        t = self.type_of(s, fv[1])
                        if t:
                            s.fields[(fv[1], 'args')] = ('t', tuple(self.freeze(s, a) for a in args))
                        out.append((s, NONE))
                    else:
                        out.append((s, A('super', name, *[self.freeze(s, a) for a in args])))
                else:
                    out.extend(self.call(s, fv, args, kw, node))
            return out
        if recv == NONE and self.cfg.none_errors and not name.startswith('__'):
            return [self.none_error(st, 'AttributeError', 'method %s' % name, node)]
        if self.is_msg(st, recv):
            r = self.msg_method(st, recv, name, args, kw, node)
            if r is not None:
                return r
        c = self.content(st, recv)
        if c is not None and isA(c, 'hash'):
            if name == 'update' and len(args) == 1 and not kw:
                st.heap[recv] = ('sym', 'hasher', c + (self.freeze(st, args[0]),))
                return [(st, NONE)]
            if name in ('finalize', 'digest', 'hexdigest') and not args:
                return [(st, A('hexdigest' if name == 'hexdigest' else 'digest', c))]
            if name == 'copy' and not args:
                return [(st, st.alloc(('sym', 'hasher', c)))]
            return self.opaque_method(st, c, name, args, kw, node)
        if self.view(st, recv) is not None or c is not None:
            r = self.container_method(st, recv, name, args, kw, node)
            if r is not None:
                return r
        if self.cfg.nullable and isA(recv) and (recv[1] == 'attr' and recv[3] in self.cfg.nullable or
                                                recv[1] == 'm:get' and 'get' in self.cfg.nullable and recv[-1] == NONE):
            out = []
            for s in self.assume(st.copy(), eq(recv, NONE), True):
                out += self.may_raise(s, ['AttributeError'])
            sts = self.assume(st, eq(recv, NONE), False)
            if not sts:
                return out
            if out:
                for s in sts:
                    out += self.call_method(s, recv, name, args, kw, node)
                return out
        t = self.type_of(st, recv)
        if (recv, name) in st.fields:
            return self.call(st, st.fields[(recv, name)], args, kw, node)
        if t and t in self.p.classes:
            out = []
            ca = self.p.class_attr(t, name)
            if ca or self.p.class_attr(t, '__getattr__'):
                for s, fv in self.get_attr(st, recv, name, node):
                    if isinstance(fv, Raised):
                        out.append((s, fv))
                    elif isA(fv, 'attr') and fv[2] == recv:
                        out.extend(self.opaque_method(s, recv, name, args, kw, node))
                    else:
                        out.extend(self.call(s, fv, args, kw, node))
                return out
        elif (t is None or t in SCALARS) and recv[0] in ('a', 's', 'g') and name not in BUILTIN_METHODS and name not in self.cfg.no_cha:
            owners = self.p.meth_owners.get(name, ())
            if len(owners) == 1:
                ca = self.p.classes[owners[0]]
                if self.cfg.msg_prims and ca.key == MSG:
                    self.types[recv] = MSG
                    r = self.msg_method(st, recv, name, args, kw, node)
                    if r is not None:
                        return r
                val = self.class_value(ca, name, ca.attrs[name])
                if val[0] == 'f':
                    return self.call(st, ('bm', recv, val), args, kw, node)
        r = self.scalar_method(st, recv, name, args, kw, node)
        if r is not None:
            return r
        return self.opaque_method(st, recv, name, args, kw, node)

    def scalar_method(self, st, recv, name, args, kw, node):
        """methods of strings, opaque dicts and similar pure values"""
        fargs = tuple(self.freeze(st, a) for a in args)
        if isC(recv) and isinstance(recv[2], (str, bytes)) and all(isC(a) for a in fargs) and not kw and name in STR_METHODS:
            try:
                v = getattr(recv[2], name)(*[a[2] for a in fargs])
                if isinstance(v, list):
                    return [(st, self.new_list(st, [C(x) for x in v]))]
                if isinstance(v, tuple):
                    return [(st, T([C(x) for x in v]))]
                return [(st, C(v))]
            except Exception as e:
                return [self.raised(st, type(e).__name__)]
        if name == 'join' and isC(recv):
            vw = self.view(st, args[0])
            if vw and vw[0] in ('list', 'tuple'):
                parts = []
                for i, x in enumerate(vw[1]):
                    if i:
                        parts.append(recv)
                    parts.append(x)
                return [(st, cat(*parts))]
            c = self.content(st, args[0])
            return [(st, A('m:join', recv, c if c is not None else fargs[0]))]
        if name == 'format' and isC(recv) and isinstance(recv[2], str):
            r = self.str_format(st, recv, args, kw)
            if r is not None:
                return [(st, r)]
        if name in ('iteritems', 'iterkeys', 'itervalues'):
            name = name[4:]
        if name == 'has_key':
            return [(st, self.contains(st, args[0], recv))]
        if name == '__contains__':
            return [(st, self.contains(st, args[0], recv))]
        if name == 'get' and (self.type_of(st, recv) is None) and args and len(args) <= 2 and not kw:
            for k, v in ((fargs[0], None),):
                if (recv, '[]', k) in st.fields:
                    return [(st, st.fields[(recv, '[]', k)])]
            d = args[1] if len(args) > 1 else NONE
            vw = self.view(st, recv)
            if vw and vw[0] == 'dict':
                return self.dict_lookup(st, vw[1], fargs[0], d)
            return [(st, A('m:get', self.freeze(st, recv), fargs[0], self.freeze(st, d)))]
        if name in ('items', 'keys', 'values') and not args:
            return [(st, A('m:' + name, self.freeze(st, recv)))]
        if name == 'copy' and not args and self.type_of(st, recv) is None:
            return [(st, A('list', self.freeze(st, recv)))] if False else [(st, A('m:copy', self.freeze(st, recv)))]
        if name in STR_METHODS and self.type_of(st, recv) in (None, 'x:str', 'x:bytes') and not any(k == '**' for k, _ in kw):
            fz = self.freeze(st, recv)
            if name in ('encode', 'decode'):
                enc = fargs[0] if fargs else C('utf-8')
                if isC(enc) and str(enc[2]).lower().replace('_', '-') in ('utf8', 'utf-8'):
                    enc = C('utf-8')
                inv = 'm:decode' if name == 'encode' else 'm:encode'
                if isA(fz, inv) and fz[3] == enc:
                    return [(st, fz[2])]
                out = [(st, A('m:' + name, fz, enc))]
                ascii_ = fz
                while isA(ascii_, 'slice') or isA(ascii_, 'getitem'):
                    ascii_ = ascii_[2]
                if isA(ascii_, 'call') and ascii_[2] in ('binascii.b2a_base64', 'base64.b64encode', 'binascii.hexlify'):
                    return out
                if name == 'decode' or enc != C('utf-8'):
                    out += self.may_raise(st, ['UnicodeDecodeError' if name == 'decode' else 'UnicodeEncodeError'] + ([] if isC(enc) else ['LookupError', 'ValueError']))
                return out
            if name in ('startswith', 'endswith') and len(fargs) == 1 and fargs[0][0] == 't' and fargs[0][1]:
                f = None
                for x in fargs[0][1]:
                    for s1, v in self.scalar_method(st, recv, name, [x], kw, node):
                        f = truth(v) if f is None else OR(f, truth(v))
                return [(st, f)]
            if name == 'startswith' and isA(fz, 'cat') and isC(fz[2]) and fargs and isC(fargs[0]):
                if fz[2][2].startswith(fargs[0][2]):
                    return [(st, TRUE)]
                if len(fz[2][2]) >= len(fargs[0][2]):
                    return [(st, FALSE)]
            if name == 'startswith' and fargs and isA(fz, 'cat') and fargs[0] == fz[2]:
                return [(st, TRUE)]
            if name in ('index', 'rindex'):
                pos = A('m:find' if name == 'index' else 'm:rfind', fz, *fargs)
                if len(fargs) == 1 and not isC(fz):
                    member = A('in', fargs[0], fz)
                    good, bad = self.assume(st.copy(), member, True), self.assume(st, member, False)
                    return [(s, pos) for s in good] + [r for s in bad for r in self.may_raise(s, ['ValueError'], exact=True)]
                return [(st, pos)] + self.may_raise(st, ['ValueError'])
            if name == 'find' and False:
                pass
            if name in ('strip', 'rstrip') and (not fargs or fargs[0] in (C('\n'), C(b'\n'))) and not kw or name == 'replace' and fargs in ((C('\n'), C('')), (C(b'\n'), C(b''))):
                # base64 in ASCII is one line with a line feed at its end
                line = fz[2] if isA(fz, 'm:decode') else fz
                if isA(line, 'call') and line[2] == 'binascii.b2a_base64':
                    cut = A('slice', line, NONE, C(-1), NONE)
                    return [(st, A('m:decode', cut, *fz[3:]) if isA(fz, 'm:decode') else cut)]
            return [(st, A('m:' + name, fz, *(fargs + tuple(('t', (C(k), self.freeze(st, v))) for k, v in kw))))]
        return None

    def container_method(self, st, recv, name, args, kw, node):
        vw = self.view(st, recv)
        content = self.content(st, recv)
        mutable = recv[0] == 'r'
        if name in ('iteritems', 'iterkeys', 'itervalues'):
            name = name[4:]
        if vw is not None:
            kind, items = vw
            if kind == 'dict':
                if name == 'get' and args:
                    return self.dict_lookup(st, items, self.freeze(st, args[0]), args[1] if len(args) > 1 else (kw[0][1] if kw else NONE))
                if name == 'items':
                    return [(st, self.new_list(st, [T(p) for p in items]))]
                if name == 'keys':
                    return [(st, self.new_list(st, [k for k, _ in items]))]
                if name == 'values':
                    return [(st, self.new_list(st, [v for _, v in items]))]
                if name == 'copy':
                    return [(st, self.new_dict(st, items))]
                if name in ('has_key', '__contains__'):
                    return [(st, self.contains(st, args[0], recv))]
                if not mutable:
                    return None
                if name == 'update':
                    pairs = list(items)
                    src = list(args[:1])
                    upd = []
                    if src:
                        v2 = self.view(st, src[0])
                        if v2 and v2[0] == 'dict':
                            upd = list(v2[1])
                        elif v2 and all(self.view(st, x) and len(self.view(st, x)[1]) == 2 for x in v2[1]):
                            upd = [self.view(st, x)[1] for x in v2[1]]
                        else:
                            st.heap[recv] = ('sym', 'dict', A('dupdate', self.freeze(st, recv), self.freeze(st, src[0])))
                            return [(st, NONE)]
                    upd += [(C(k), v) for k, v in kw]
                    cur = [st]
                    for k, v in upd:
                        nxt = []
                        for s in cur:
                            nxt += self.split_keys(s, recv, k)
                        for s in nxt:
                            self.set_item(s, recv, k, v, node)
                        cur = nxt
                    return [(s, NONE) for s in cur]
                if name == 'setdefault':
                    k = self.freeze(st, args[0])
                    out = []
                    d = args[1] if len(args) > 1 else NONE
                    mark = A('$absent')
                    for s, v in self.dict_lookup(st, items, k, mark):
                        if v == mark:
                            s.heap[recv] = ('dict', s.heap[recv][1] + ((k, d),))
                            v = d
                        out.append((s, v))
                    return out
                if name == 'pop':
                    k = self.freeze(st, args[0])
                    out = []
                    for s, v in self.dict_lookup(st, items, k, args[1] if len(args) > 1 else 'raise'):
                        if not isinstance(v, Raised):
                            s.heap[recv] = ('dict', tuple(p for p in s.heap[recv][1] if not self.same_key(s, p[0], k)))
                        out.append((s, v))
                    return out
                if name == 'clear':
                    st.heap[recv] = ('dict', ())
                    return [(st, NONE)]
                return None
            if kind == 'set':
                if name == 'add' and mutable:
                    if args[0] not in items:
                        st.heap[recv] = ('set', items + (args[0],))
                    return [(st, NONE)]
                if name == 'difference':
                    return [(st, self.binop(st, ast.Sub(), recv, args[0]))]
                if name == '__contains__':
                    return [(st, self.contains(st, args[0], recv))]
                if name in ('issubset',):
                    fs = [self.contains(st, x, args[0]) for x in items]
                    return [(st, AND(*fs))]
                return None
            if name == '__contains__':
                return [(st, self.contains(st, args[0], recv))]
            if name == 'index' and kind in ('list', 'tuple') and len(args) == 1 and len(items) <= 12:
                out, open_ = [], [st]
                y = self.freeze(st, args[0])
                for i, x in enumerate(items):
                    f = eq(self.freeze(st, x), y)
                    nxt = []
                    for s in open_:
                        yes, no = ([s], []) if f == TRUE else ([], [s]) if f == FALSE else (self.assume(s.copy(), f, True), self.assume(s, f, False))
                        out += [(s1, C(i)) for s1 in yes]
                        nxt += no
                    open_ = nxt
                return out + [r for s in open_ for r in self.may_raise(s, ['ValueError'], exact=True)]
            if name == 'index':
                return [(st, A('m:index', self.freeze(st, recv), self.freeze(st, args[0])))] + self.may_raise(st, ['ValueError'])
            if name == 'count':
                return [(st, A('m:count', self.freeze(st, recv), self.freeze(st, args[0])))]
            if name == 'copy':
                return [(st, self.new_list(st, items))]
            if not mutable:
                return None
            if name == 'append':
                st.heap[recv] = ('list', items + (args[0],))
                return [(st, NONE)]
            if name == 'extend':
                v2 = self.view(st, args[0])
                if v2:
                    st.heap[recv] = ('list', items + tuple(k for k, _ in v2[1]) if v2[0] == 'dict' else items + tuple(v2[1]))
                else:
                    ext = self.freeze(st, args[0])
                    st.heap[recv] = ('sym', 'list', ext if not items else A('extend', self.freeze(st, recv), ext))
                    if not items:
                        st.heap[recv] = ('sym', 'list', A('list', ext) if not isA(ext, 'comp') else ext)
                return [(st, NONE)]
            if name == 'insert' and isC(args[0]):
                l = list(items)
                l.insert(args[0][2], args[1])
                st.heap[recv] = ('list', tuple(l))
                return [(st, NONE)]
            if name == 'pop':
                i = args[0][2] if args and isC(args[0]) else -1
                if not items:
                    return [self.raised(st, 'IndexError')]
                l = list(items)
                try:
                    x = l.pop(i)
                except IndexError:
                    return [self.raised(st, 'IndexError')]
                st.heap[recv] = ('list', tuple(l))
                return [(st, x)]
            if name == 'sort':
                if all(isC(x) for x in items) and not kw:
                    try:
                        st.heap[recv] = ('list', tuple(sorted(items, key=lambda c: c[2])))
                        return [(st, NONE)]
                    except TypeError:
                        pass
                if len(items) > 1:
                    known = self.sort_known(st, items, kw)
                    if known is not None:
                        for s, l in known:
                            s.heap[recv] = ('list', l)
                        return [(s, NONE) for s, _ in known]
                    st.heap[recv] = ('sym', 'list', self.sorted_term(st, self.freeze(st, recv), kw))
                return [(st, NONE)]
            if name == 'reverse':
                st.heap[recv] = ('list', items[::-1])
                return [(st, NONE)]
            if name == 'remove':
                fa = self.freeze(st, args[0])
                for i, x in enumerate(items):
                    if eq(self.freeze(st, x), fa) == TRUE:
                        st.heap[recv] = ('list', items[:i] + items[i + 1:])
                        return [(st, NONE)]
                return [self.raised(st, 'ValueError')]
            return None
        # opaque content
        kind = st.heap[recv][1]
        fargs = tuple(self.freeze(st, a) for a in args)
        if name == 'append':
            st.heap[recv] = ('sym', kind, A('append', content, fargs[0]))
            return [(st, NONE)]
        if name == 'add':
            st.heap[recv] = ('sym', kind, A('append', content, fargs[0]))
            return [(st, NONE)]
        if name == 'extend':
            st.heap[recv] = ('sym', kind, A('extend', content, fargs[0]))
            return [(st, NONE)]
        if name == 'sort':
            st.heap[recv] = ('sym', kind, self.sorted_term(st, content, kw))
            return [(st, NONE)]
        if name == 'reverse':
            st.heap[recv] = ('sym', kind, A('rev', content))
            return [(st, NONE)]
        if name == 'pop' and kind == 'list':
            st.heap[recv] = ('sym', kind, A('popped', content, *fargs))
            return [(st, A('getitem', content, fargs[0] if fargs else C(-1)))] + self.may_raise(st, ['IndexError', 'KeyError'])
        if name == 'update':
            st.heap[recv] = ('sym', kind, A('dupdate', content, *fargs))
            return [(st, NONE)]
        if name == 'insert':
            st.heap[recv] = ('sym', kind, A('insert', content, *fargs))
            return [(st, NONE)]
        if name == 'get' and kind == 'dict':
            return [(st, A('m:get', content, fargs[0], fargs[1] if len(fargs) > 1 else NONE))]
        if name in ('items', 'keys', 'values'):
            return [(st, A('m:' + name, content))]
        if name == 'copy':
            r = st.alloc(('sym', kind, content))
            return [(st, r)]
        if name in ('index', 'count', 'difference', 'union'):
            return [(st, A('m:' + name, content, *fargs))]
        st.heap[recv] = ('sym', kind, A('mut', name, content, *fargs))
        return [(st, A('mres', name, content, *fargs))]

    def sorted_term(self, st, content, kw):
        key = NONE
        rev = False
        for k, v in kw:
            if k == 'key':
                key = self.key_term(st, v, A('elem', content))
            elif k == 'reverse':
                rev = v
        t = A('sorted', content, key)
        if rev == TRUE:
            return A('rev', t)
        if rev not in (False, FALSE):
            t = A('sorted', content, key, rev)
        return t

    def numeric(self, t):
        if isC(t):
            return isinstance(t[2], (int, float))
        return self.types.get(t) == 'x:int' or (t[0] == 's' and t[2] == 'x:int') or (isA(t) and t[1] in ('int', 'len', 'sum', 'lin'))

    def less(self, st, a, b):
        """[(state, a < b)] for numbers, constants, tuples of those and objects which define their order; None if unknown"""
        va, vb = (x if x[0] == 't' else None for x in (a, b))
        if va and vb:
            out, live = [], [st]
            for x, y in zip(a[1], b[1]):
                if self.freeze(st, x) == self.freeze(st, y):
                    continue
                nxt = []
                for s in live:
                    f = eq(self.freeze(s, x), self.freeze(s, y))
                    for s2 in self.assume(s.copy(), f, False):
                        r = self.less(s2, x, y)
                        if r is None:
                            return None
                        out += r
                    nxt += self.assume(s, f, True)
                live = nxt
                if not live:
                    break
            return out + [(s, len(a[1]) < len(b[1])) for s in live]
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if self.numeric(fa) and self.numeric(fb) or isC(fa) and isC(fb) and fa[1] == fb[1] and fa != NONE:
            f = lt(fa, fb)
            return [(s, v) for v in (True, False) for s in self.assume(st.copy(), f, v)]
        for x, y, op in ((a, b, '__lt__'), (b, a, '__gt__')):
            t = self.type_of(st, x)
            if t not in self.p.classes:
                continue
            ca = self.p.class_attr(t, op)
            if ca:
                return self._bools(self.call(st, self.bind(st, t, x, self.class_value(ca[0], op, ca[1])), [y], (), None))
            other = {'__lt__': '__gt__', '__gt__': '__lt__'}[op]
            ca = self.p.class_attr(t, other)
            if ca and self.total_ordering(t):
                r = self._bools(self.call(st, self.bind(st, t, x, self.class_value(ca[0], other, ca[1])), [y], (), None))
                if r is None:
                    return None
                out = []
                for s, v in r:
                    if v:
                        out.append((s, False))
                    else:
                        f = eq(self.freeze(s, x), self.freeze(s, y))
                        out += [(s2, not v2) for v2 in (True, False) for s2 in self.assume(s.copy(), f, v2)]
                return out
        return None

    def _bools(self, res):
        out = []
        for s, v in res:
            if isinstance(v, Raised):
                return None
            f = self.truth_of(s, v)
            out += [(s2, v2) for v2 in (True, False) for s2 in self.assume(s.copy(), f, v2)]
        return out

    def total_ordering(self, key):
        c = self.p.classes.get(key)
        return c is not None and any('total_ordering' in ast.dump(x) for x in c.node.decorator_list)

    def sort_known(self, st, items, kw):
        """every order the known items can be sorted in: [(state, items)]; None when their order is unknown"""
        if not 1 < len(items) <= 8 or any(k not in ('key', 'reverse') for k, _ in kw):
            return None
        kw = dict(kw)
        rev = kw.get('reverse', FALSE)
        if not isC(rev):
            return None
        alts = [(st, ())]
        if kw.get('key', NONE) != NONE:
            for x in items:
                nxt = []
                for s, ks in alts:
                    try:
                        res = self.call(s.copy(), kw['key'], [x], (), None)
                    except Budget:
                        return None
                    for s2, v in res:
                        if isinstance(v, Raised):
                            return None
                        nxt.append((s2, ks + (v,)))
                alts = nxt
        else:
            alts = [(st, tuple(items))]
        final = []
        for s0, keys in alts:
            out = [(s0.copy(), ())]
            for i in range(len(items)):
                nxt = []
                for s, order in out:
                    cur = [s]
                    for pos in range(len(order) + 1):      # insert before the first element that comes strictly after it
                        if pos == len(order):
                            nxt += [(c, order + (i,)) for c in cur]
                            break
                        a, b = keys[i], keys[order[pos]]
                        more = []
                        for c in cur:
                            r = self.less(c, b, a) if rev[2] else self.less(c, a, b)
                            if r is None:
                                return None
                            nxt += [(c2, order[:pos] + (i,) + order[pos:]) for c2, v in r if v]
                            more += [c2 for c2, v in r if not v]
                        cur = more
                out = nxt
                if len(out) > 24:
                    return None
            final += out
        return [(s, tuple(items[i] for i in order)) for s, order in final]

    def key_term(self, st, fv, el):
        """value of key function applied to a bound element"""
        if fv[0] in ('f', 'bm'):
            s = st.copy()
            try:
                res = [(s2, v) for s2, v in self.call(s, fv, [el], (), None) if not isinstance(v, Raised)]
            except Budget:
                res = []
            if len(res) == 1:
                return subst(self.freeze(res[0][0], res[0][1]), {el: A('$x')})
        if isA(fv, 'call') and fv[2] == 'operator.itemgetter':
            return A('getitem', A('$x'), fv[3])
        return self.freeze(st, fv)

    def opaque_method(self, st, recv, name, args, kw, node):
        if name == '__contains__' and len(args) == 1 and not kw:
            return [(st, self.contains(st, args[0], recv))]
        if name == '__init__' and recv[0] == 'k' and recv[1] in self.p.classes and len(args) <= 1 and not kw and all(b in self.p.classes or b in ('object', 'x:object') for b in self.p.mro(recv[1])):
            return [(st, NONE)]
        if name in ('match', 'search', 'fullmatch') and isA(self.freeze(st, recv), 'call') and self.freeze(st, recv)[2] == 're.compile':
            return self.opaque_call(st, '.' + name, recv, args, kw, node, pure=True)
        return self.opaque_call(st, '.' + name, recv, args, kw, node)

    def opaque_call(self, st, name, recv, args, kw, node, ext=False, pure=False):
        fargs = tuple(self.freeze(st, a) if a[0] != 'star' else a for a in args)
        fkw = tuple(sorted((k, self.freeze(st, v)) for k, v in kw))
        frecv = self.freeze(st, recv) if recv is not None else NONE
        base = ('a', 'call', name) + ((frecv,) if recv is not None else ()) + fargs + tuple(('t', (C(k), v)) for k, v in fkw)
        if pure or name in self.cfg.pure_calls:
            out = [(st, base)]
            if name in ('binascii.a2b_base64', 'base64.b64decode'):
                out += self.may_raise(st, self.cfg.pure_raises.get(name, ['binascii.Error', 'TypeError']))
            elif name in ('time.strptime',):
                out += self.may_raise(st, ['ValueError'])
            elif name in self.p.funcs:
                out += self.may_raise(st, self.cfg.pure_raises.get(name, ['ValueError']))
            return out
        k = sum(1 for e in st.events if e[0] == 'call' and e[6] is not None and e[6][:len(base)] == base)
        res = base if k == 0 else base + (('c', 'int', k),)
        mname = name[1:] if name.startswith('.') else name
        if mname in self.cfg.typed_calls and res not in self.types:
            self.types[res] = self.cfg.typed_calls[mname]
        ev = ('call', name, frecv if recv is None or recv[0] != 'r' else recv, fargs, fkw, self.loc(node), res, None)
        ev = ('call', name, frecv, fargs, fkw, self.loc(node), res, recv)
        raising = self.may_raise(st, self.cfg.pure_raises.get(name, 'any'), ext=ext, ev=ev, name=name)
        # heap objects handed to unknown code may be changed by it
        st.events += (ev,)
        return [(st, res)] + raising

    def call(self, st, fv, args, kw, node):
        h = fv[0]
        if h == 'f':
            return self.call_func(st, fv, args, kw, node)
        if h == 'bm':
            f = fv[2]
            return self.call_func(st, f, [fv[1]] + list(args), kw, node)
        if h == 'k':
            return self.instantiate(st, fv[1], args, kw, node)
        if h == 'x':
            return self.call_ext(st, fv[1], args, kw, node)
        if h in ('prop', 'sm', 'cm'):
            return self.call(st, fv[1], args, kw, node)
        if isA(fv, 'attr'):
            if fv[3] in BUILTIN_METHODS and (fv[2], fv[3]) not in st.fields and (fv[2][0] in ('r', 't') and (self.view(st, fv[2]) is not None or self.content(st, fv[2]) is not None) or fv[2][0] == 'c' or self.type_of(st, fv[2]) == 'x:str'):
                return self.call_method(st, fv[2], fv[3], args, kw, node)       # a bound method kept in a variable
            return self.opaque_method(st, fv[2], fv[3], args, kw, node)
        if isA(fv, 'call') and fv[2] == 'functools.partial':
            return self.call(st, fv[3], list(fv[4:]) + list(args), kw, node)
        if fv == NONE and self.cfg.none_errors:
            return [self.none_error(st, 'TypeError', 'call', node)]
        if isA(fv, 'setcontains'):
            return [(st, self.contains(st, args[0], fv[2]))]
        if isA(fv, 'call') and fv[2] == 'operator.itemgetter' and len(fv) == 4 and len(args) == 1 and not kw:
            return self.get_item(st, args[0], fv[3], node)
        t = self.type_of(st, fv)
        if t and t in self.p.classes:
            ca = self.p.class_attr(t, '__call__')
            if ca:
                return self.call(st, self.bind(st, t, fv, self.class_value(ca[0], '__call__', ca[1])), args, kw, node)
        return self.opaque_call(st, '<value>', fv, args, kw, node)

    def carries_none(self, st, v):
        return v == NONE or v[0] == 'r' and st.heap.get(v, ('',))[0] == 'obj' and any(f[0] == v and x == NONE for f, x in st.fields.items())

    def instantiate(self, st, key, args, kw, node):
        if key == MSG and self.cfg.msg_prims:
            ns = args[0] if args else dict(kw).get('openid_namespace', NONE)
            return [(st, self.msg_new(st, ns))]
        r = st.alloc(('obj', key))
        if any(x.startswith('x:') and self.exc_sub(x[2:], 'BaseException') for x in self.p.mro(key)):
            st.fields[(r, 'args')] = ('t', tuple(self.freeze(st, a) for a in args))
        ca = self.p.class_attr(key, '__init__')
        if not ca:
            return [(st, r)]
        out = []
        for s, v in self.call_func(st, ('f', ca[1][1].key, ()) if ca[1][0] == 'func' else ca[1][1], [r] + list(args), kw, node):
            out.append((s, v if isinstance(v, Raised) else self.record(s, key, r) if key in self.cfg.records else r))
        return out

    def record(self, st, key, r):
        fs = sorted((n, self.freeze(st, x)) for (o, n), x in st.fields.items() if o == r)
        v = ('a', 'rec', C(key)) + tuple(('t', (C(n), x)) for n, x in fs)
        self.types[v] = key
        return v

    def call_func(self, st, fv, args, kw, node):
        key = fv[1]
        if key in self.cfg.stubs:
            key = self.cfg.stubs[key]
            fv = ('f', key, ())
        fi = self.p.funcs.get(key)
        if fi is None:
            return self.opaque_call(st, key, None, args, kw, node)
        if key == 'openid.oidutil.string_to_text' and args and not (self.cfg.none_errors and args[0] == NONE):
            return [(st, args[0])]
        if key in self.cfg.watch:
            st.events += (('enter', key, NONE, tuple(self.freeze(st, a) for a in args), tuple(sorted((k, self.freeze(st, v)) for k, v in kw)), self.loc(node), None, tuple(args)),)
        if key in self.cfg.opaque or (self.cfg.inline is not None and not self.cfg.inline(key)):
            recv = args[0] if fi.cls is not None and args and fi.kind in ('func', 'property', 'classmethod') else None
            return self.opaque_call(st, key, recv, args[1:] if recv is not None else args, kw, node, pure=key in self.cfg.pure_calls)
        if self.cfg.none_errors and len(self.stack) > 2 and not any(self.carries_none(st, a) for a in list(args) + [v for _, v in kw]):
            recv = args[0] if fi.cls is not None and args and fi.kind in ('func', 'property', 'classmethod') else None
            return self.opaque_call(st, key, recv, args[1:] if recv is not None else args, kw, node)
        if key in self.stack or self.depth >= self.cfg.max_depth:
            st.imprecise += (('recursion', key) + self.loc(node),)
            return self.opaque_call(st, key, None, args, kw, node)
        env = self.bind_args(st, fi, args, kw)
        if env is None:
            st.imprecise += (('args', key) + self.loc(node),)
            return self.opaque_call(st, key, None, args, kw, node)
        if isinstance(env, Raised):
            return [(st, env)]
        entry_facts, entry_events, entry_n = set(st.facts), len(st.events), st.n
        self.inlined.add(key)
        self.depth += 1
        self.stack.append(key)
        fid = 'F%d' % len(st.frames)
        st.frames.append((fid, env, (fi.mod, fi.cls, fv[2])))
        if fi.is_gen:
            st.env['$yield'] = self.new_list(st, ())
        try:
            if isinstance(fi.node, ast.Lambda):
                res = [(s, ('raise', v.exc) if isinstance(v, Raised) else ('ret', v)) for s, v in self.ev(fi.node.body, st)]
            else:
                res = self.exec_block(fi.node.body, st)
            out = []
            for s, ctl in res:
                yl = s.env.get('$yield')
                s.frames = s.frames[:-1]
                if ctl is None:
                    v = NONE
                elif ctl[0] == 'ret':
                    v = ctl[1]
                elif ctl[0] == 'raise':
                    v = Raised(ctl[1])
                else:
                    v = NONE
                if fi.is_gen and not isinstance(v, Raised):
                    v = yl
                out.append((s, v))
            if len(out) > 1:
                out2 = []
                for s, v in out:
                    if self.cfg.keep is not None:
                        self.project(s, v, entry_facts, entry_events)
                    r = v.exc if isinstance(v, Raised) else v
                    self.gc(s, (r,) + tuple(args) + fv[2], entry_n)
                    r = self.canon(s, entry_n, r)
                    out2.append((s, Raised(r) if isinstance(v, Raised) else r))
                out = self.merge_vals(out2)
            return out
        finally:
            self.stack.pop()
            self.depth -= 1

    def project(self, st, v, entry_facts, nev):
        """property projection at a function exit: forget what the property under analysis does not mention"""
        keep, kev = self.cfg.keep, self.cfg.keep_event
        if isinstance(v, Raised) and not self.cfg.keep_on_raise:
            st.facts = {a: b for a, b in st.facts.items() if a in entry_facts}
        else:
            st.facts = {a: b for a, b in st.facts.items() if a in entry_facts or keep(a)}
        if kev is not None:
            st.events = st.events[:nev] + tuple(e for e in st.events[nev:] if e[0] == 'loop' or kev(e))
        if isinstance(v, Raised):
            for k in [k for k in st.fields if k[0] == v.exc]:
                x = st.fields[k]
                if k[1] == 'args' or isA(x, 'cat') or (isC(x) and isinstance(x[2], str)):
                    st.fields[k] = A('exctext')

    def canon(self, st, n0, root):
        """renumber objects created since n0 in order of discovery, so that equal states compare equal"""
        order, todo = {}, []

        def scan(x):
            for r in self.refs_of(x):
                if r[1] > n0 and r not in order:
                    order[r] = ('r', n0 + 1 + len(order))
                    todo.append(r)

        def drain():
            while todo:
                r = todo.pop(0)
                if r in st.heap:
                    scan(st.heap[r])
                for k in sorted((k for k in st.fields if k[0] == r), key=repr):
                    scan(st.fields[k])
        scan(root)
        drain()
        for f in st.frames:
            for k in sorted(f[1]):
                scan(f[1][k])
        drain()
        for e in st.events:
            scan(e)
        for r in sorted((r for r in st.heap if r[1] <= n0), key=lambda r: r[1]):
            scan(st.heap[r])
        for k in sorted(st.fields, key=repr):
            if k[0][0] != 'r' or k[0][1] <= n0:
                scan(st.fields[k])
        drain()
        for a in sorted(st.facts, key=repr):
            scan(a)
        drain()
        m = {k: v for k, v in order.items() if k != v}
        if not m:
            st.n = n0 + len(order)
            return root

        def ren(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'r':
                    return m.get(x, x)
                return tuple([ren(y) for y in x])
            if isinstance(x, frozenset):
                return frozenset([ren(y) for y in x])
            return x
        st.frames = [(f[0], {k: ren(v) for k, v in f[1].items()}, f[2]) for f in st.frames]
        st.heap = {ren(k): ren(v) for k, v in st.heap.items()}
        st.fields = {ren(k): ren(v) for k, v in st.fields.items()}
        st.facts = {ren(k): v for k, v in st.facts.items()}
        st.events = ren(st.events)
        st.n = n0 + len(order)
        return ren(root)

    def bind_args(self, st, fi, args, kw):
        env = {}
        params = list(fi.params)
        pos = list(args)
        if any(a[0] == 'star' for a in pos):
            if fi.vararg and [a[0] for a in pos].index('star') >= len(params):
                pass
            else:
                stars = [a for a in pos if a[0] == 'star']
                if len(stars) > 1 or pos[-1][0] != 'star':
                    return None
                sv = pos.pop()[1]
                i = 0
                while len(pos) < len(params) - sum(1 for k, _ in kw if k in params):
                    if isA(sv, 'slice') and isC(sv[3]) and isinstance(sv[3][2], int) and sv[3][2] >= 0 and sv[5] == NONE:
                        pos.append(A('getitem', sv[2], C(sv[3][2] + i)))
                    else:
                        pos.append(A('getitem', sv, C(i)))
                    i += 1
        for i, p in enumerate(params):
            if i < len(pos):
                env[p] = pos[i]
        rest = pos[len(params):]
        if rest:
            if fi.vararg:
                env[fi.vararg] = T(rest) if not any(a[0] == 'star' for a in rest) else rest[0][1]
            else:
                return Raised(self.new_exc(st, 'TypeError'))
        elif fi.vararg:
            env[fi.vararg] = T(())
        extra = []
        for k, v in kw:
            if k == '**':
                if fi.kwarg:
                    env[fi.kwarg] = v
                    continue
                return None
            if k in params or k in fi.kwonly:
                if k in env:
                    return Raised(self.new_exc(st, 'TypeError'))
                env[k] = v
            elif fi.kwarg:
                extra.append((C(k), v))
            else:
                return Raised(self.new_exc(st, 'TypeError'))
        if fi.kwarg and fi.kwarg not in env:
            env[fi.kwarg] = self.new_dict(st, extra)
        nd = len(fi.defaults)
        for i, d in enumerate(fi.defaults):
            p = params[len(params) - nd + i]
            if p not in env:
                env[p] = self.default_value(fi, d, p)
        for p, d in zip(fi.kwonly, fi.kw_defaults):
            if p not in env and d is not None:
                env[p] = self.default_value(fi, d, p)
        for p in params + fi.kwonly:
            if p not in env:
                return Raised(self.new_exc(st, 'TypeError'))
        return env

    def default_value(self, fi, d, p):
        k = ('default', fi.key, p)
        if k not in self.gcache:
            self.gcache[k] = self.const_eval(d, fi.mod, fi.cls, fi.key + '.' + p)
        return self.gcache[k]

    # ------------------------------------------------------------ external calls
    def call_ext(self, st, name, args, kw, node):
        b = name
        if self.cfg.none_errors and args and args[0] == NONE and name in NO_NONE:
            return [self.none_error(st, 'TypeError', 'argument of %s' % name, node)]
        if name in self.cfg.stubs:
            return self.call_func(st, ('f', self.cfg.stubs[name], ()), args, kw, node)
        if name.split('.')[0] in NOISE_ROOTS:
            return [(st, NONE)]
        if name.endswith('.__init__') and args and isinstance(getattr(builtins, name[:-9], None), type):
            if args[0][0] == 'r' and name != 'object.__init__':
                st.fields[(args[0], 'args')] = ('t', tuple(self.freeze(st, a) for a in args[1:]))
            return [(st, NONE)]
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is not None:
            r = h(st, args, kw, node)
            if r is not None:
                return r
        if HASHERS.search(name):
            c = A('hash', C(name), ('t', tuple(self.freeze(st, a) for a in args)),
                  ('t', tuple(('t', (C(k), self.freeze(st, a))) for k, a in kw if k is not None)))
            return [(st, st.alloc(('sym', 'hasher', c)))]
        cls = getattr(builtins, name, None)
        if isinstance(cls, type) and issubclass(cls, BaseException) or name in EXT_EXC:
            e = self.new_exc(st, name, [self.freeze(st, a) for a in args])
            return [(st, e)]
        return self.opaque_call(st, name, None, args, kw, node, ext=True, pure=name in PURE_EXT)

    def x_len(self, st, args, kw, node):
        v = args[0]
        vw = self.view(st, v)
        if vw is not None and vw[0] == 'set' and any(not isC(x) for x in vw[1]) and len(vw[1]) > 1:
            # elements which may be equal count once
            items = [self.freeze(st, x) for x in vw[1]]
            if len(items) > 4:
                return [(st, A('len', self.freeze(st, v)))]
            todo = [(st, [])]
            for x in items:
                nxt = []
                for s, reps in todo:
                    open_ = [s]
                    for r in reps:
                        more = []
                        for s1 in open_:
                            f = eq(x, r)
                            yes, no = ([s1], []) if f == TRUE else ([], [s1]) if f == FALSE else (self.assume(s1.copy(), f, True), self.assume(s1.copy(), f, False))
                            nxt += [(s2, reps) for s2 in yes]
                            more += no
                        open_ = more
                    nxt += [(s1, reps + [x]) for s1 in open_]
                todo = nxt
            return [(s, C(len(reps))) for s, reps in todo]
        if vw is not None:
            return [(st, C(len(vw[1])))]
        if isC(v) and isinstance(v[2], (str, bytes)):
            return [(st, C(len(v[2])))]
        t = self.type_of(st, v)
        if t and t in self.p.classes:
            ca = self.p.class_attr(t, '__len__')
            if ca:
                return self.call(st, self.bind(st, t, v, self.class_value(ca[0], '__len__', ca[1])), [], (), node)
        fz = self.freeze(st, v)
        while isA(fz) and fz[1] in ('list', 'sorted', 'rev', 'tuple', 'm:items', 'm:keys', 'm:values'):
            fz = fz[2]
        return [(st, A('len', fz))]

    def x_int(self, st, args, kw, node):
        if not args:
            return [(st, C(0))]
        v = self.freeze(st, args[0])
        if isC(v) and len(args) == 1:
            try:
                return [(st, C(int(v[2])))]
            except Exception:
                return [self.raised(st, 'ValueError')]
        if v == ('s', 'now', None):
            return [(st, v)]
        if len(args) == 1 and (is_num(v) or self.type_of(st, v) == 'x:int'):
            return [(st, v)]
        if len(args) == 1 and isA(v, 'text') and (is_int(v[2]) or self.type_of(st, v[2]) == 'x:int'):
            return [(st, v[2])]
        fa = tuple(self.freeze(st, a) for a in args[1:])
        if v[0] == 's' and v[2] == 'x:str' and not fa:
            like = A('intlike', v)
            good, bad = self.assume(st.copy(), like, True), self.assume(st, like, False)
            return [(s, A('int', v)) for s in good] + [r for s in bad for r in self.may_raise(s, ['ValueError'], exact=True)]
        out = self.may_raise(st, ['ValueError', 'TypeError'])
        return [(st, A('int', v, *fa) if fa else A('int', v))] + out

    def x_float(self, st, args, kw, node):
        return [(st, A('float', self.freeze(st, args[0])))] + self.may_raise(st, ['ValueError'])

    def x_bool(self, st, args, kw, node):
        return [(st, self.truth_of(st, args[0]) if args else FALSE)]

    def x_abs(self, st, args, kw, node):
        v = args[0]
        if isC(v):
            return [(st, C(abs(v[2])))]
        d, c = linear(v)
        lead = sorted(d.items(), key=lambda kv: repr(kv[0]))[0][1] if d else 1
        if lead < 0:
            v = mulc(v, -1)
        return [(st, A('abs', v))]

    def _minmax(self, op, st, args, kw):
        if len(args) == 1:
            vw = self.view(st, args[0])
            key = dict(kw).get('key')
            c = self.content(st, args[0])
            fz = c if c is not None else self.freeze(st, args[0])
            known = None
            if vw and len(vw[1]) > 1:
                # the first of the largest (smallest) items
                known = self.sort_known(st, [k for k, _ in vw[1]] if vw[0] == 'dict' else vw[1],
                                        [x for x in kw if x[0] != 'default'] + ([('reverse', TRUE)] if op == 'max' else []))
            if known is not None and kw:
                return [(s, l[0]) for s, l in known]
            if vw and len(vw[1]) == 1:
                return [(st, (vw[1][0][0] if vw[0] == 'dict' else vw[1][0]))]
            if vw and not vw[1] and 'default' in dict(kw):
                return [(st, dict(kw)['default'])]
            if vw and vw[0] != 'dict' and not kw and vw[1]:
                args = list(vw[1])
            else:
                kt = self.key_term(st, key, A('elem', fz)) if key is not None else NONE
                out = self.may_raise(st, ['ValueError']) if 'default' not in dict(kw) else []
                srt = A('sorted', fz, kt)
                val = A('getitem', srt, C(-1) if op == 'max' else C(0))
                if 'default' in dict(kw):
                    outs = []
                    t, f = self.branch(st, fz)
                    return [(s, val) for s in t] + [(s, dict(kw)['default']) for s in f]
                return [(st, val)] + out
        if kw:
            return None
        if all(isC(a) for a in args):
            return [(st, C((max if op == 'max' else min)(a[2] for a in args)))]
        return [(st, ('a', op) + tuple(sorted((self.freeze(st, a) for a in args), key=repr)))]

    def x_max(self, st, args, kw, node):
        return self._minmax('max', st, args, kw)

    def x_min(self, st, args, kw, node):
        return self._minmax('min', st, args, kw)

    def x_isinstance(self, st, args, kw, node):
        names = self.class_names(st, args[1])
        fz = self.freeze(st, args[0])
        x = args[0] if args[0][0] == 'r' else fz
        d = self.decide_isinst(st, x, names)
        if d is not None:
            return [(st, C(d))]
        d = self.decide_isinst(st, fz, names)
        if d is not None:
            return [(st, C(d))]
        if isA(fz, 'arg') and self.cfg.text_args:
            return [(st, NOT(eq(fz, NONE)))]
        return [(st, ('a', 'isinst', fz, tuple(sorted(names))))]

    def class_names(self, st, v):
        if v[0] == 't':
            out = []
            for x in v[1]:
                out.extend(self.class_names(st, x))
            return out
        if v[0] in ('k', 'x'):
            return [v[1]]
        return [show(v)]

    def x_issubclass(self, st, args, kw, node):
        return [(st, A('truthy', A('issubclass', *[self.freeze(st, a) for a in args])))]

    def x_type(self, st, args, kw, node):
        t = self.type_of(st, args[0])
        if t and t in self.p.classes and args[0][0] == 'r':
            return [(st, ('k', t))]
        return [(st, A('type', self.freeze(st, args[0])))]

    def x_hasattr(self, st, args, kw, node):
        v, n = args[0], args[1]
        vw = self.view(st, v)
        if vw is not None and isC(n):
            return [(st, C(hasattr({'list': [], 'dict': {}, 'set': set(), 'tuple': ()}[vw[0]], n[2])))]
        if v[0] == 'f' and isC(n) and n[2] in ('__name__', '__doc__'):
            return [(st, TRUE)]
        if isC(n):
            t = self.type_of(st, v)
            if t and t in self.p.classes and (self.p.class_attr(t, n[2]) or (v, n[2]) in st.fields):
                return [(st, TRUE)]
            if v[0] == 'k' and v[1] in self.p.classes:
                if self.p.class_attr(v[1], n[2]):
                    return [(st, TRUE)]
                if all(b in ('x:object', 'object') or b in self.p.classes for b in self.p.mro(v[1])):
                    return [(st, C(hasattr(type, n[2])))]
        return [(st, ('a', 'hasattr', self.freeze(st, v), n))]

    def x_getattr(self, st, args, kw, node):
        v, n = args[0], self.freeze(st, args[1])
        if isC(n):
            if len(args) > 2:
                if v[0] in ('f', 'k') and n[2] in ('__name__', '__doc__'):
                    return self.get_attr(st, v, n[2], node)
                t = self.type_of(st, v)
                known = (t in self.p.classes and self.p.class_attr(t, n[2])) if t else False
                if known or (v, n[2]) in st.fields:
                    return self.get_attr(st, v, n[2], node)
                if t in self.p.classes and not self.instance_assigned(t, n[2]) and not n[2].isidentifier():
                    return [(st, args[2])]
                return [(st, A('getattr', self.freeze(st, v), n, self.freeze(st, args[2])))]
            return self.get_attr(st, v, n[2], node)
        t = self.type_of(st, v) or (v[1] if v[0] == 'k' else None)
        if t and t in self.p.classes and isA(n, 'cat') and len(n) == 4:
            pre, mid, suf = '', None, ''
            if isC(n[2]) and isinstance(n[2][2], str):
                pre, mid = n[2][2], n[3]
            elif isC(n[3]) and isinstance(n[3][2], str):
                mid, suf = n[2], n[3][2]
            if mid is not None:
                out, cur = [], [st]
                names = [x for x in self.p.methods_with_prefix(t, pre) if x.endswith(suf)]
                for nm in names:
                    mm = nm[len(pre):len(nm) - len(suf) if suf else None]
                    nxt = []
                    for s in cur:
                        for s2 in self.assume(s.copy(), eq(mid, C(mm)), True):
                            out.extend(self.get_attr(s2, v, nm, node))
                        nxt.extend(self.assume(s, eq(mid, C(mm)), False))
                    cur = nxt
                for s in cur:
                    if len(args) > 2:
                        out.append((s, args[2]))
                    else:
                        out.append(self.raised(s, 'AttributeError'))
                return out
        return [(st, A('getattr', self.freeze(st, v), n, *[self.freeze(st, a) for a in args[2:]]))] + self.may_raise(st, ['AttributeError'])

    def x_setattr(self, st, args, kw, node):
        if isC(args[1]):
            self.set_attr(st, args[0], args[1][2], args[2], node)
        return [(st, NONE)]

    def x_property(self, st, args, kw, node):
        return [(st, ('prop', args[0]))]

    def x_staticmethod(self, st, args, kw, node):
        return [(st, ('sm', args[0]))]

    def x_classmethod(self, st, args, kw, node):
        return [(st, ('cm', args[0]))]

    def x_object(self, st, args, kw, node):
        return [(st, st.alloc(('obj', 'x:object')))]

    def _seq(self, kind, st, args):
        if not args:
            return st.alloc((kind, ())) if kind != 'tuple' else T(())
        vw = self.view(st, args[0])
        if vw is not None:
            items = tuple(k for k, _ in vw[1]) if vw[0] == 'dict' else tuple(vw[1])
            if kind == 'set':
                items = tuple(dict.fromkeys(items))
            return T(items) if kind == 'tuple' else st.alloc((kind, items))
        c = self.content(st, args[0])
        fz = c if c is not None else self.freeze(st, args[0])
        if isC(fz) and isinstance(fz[2], str) and kind == 'set' and len(fz[2]) <= 12:
            return st.alloc(('set', tuple(C(x) for x in sorted(set(fz[2])))))
        if kind == 'list':
            return st.alloc(('sym', 'list', A('list', fz) if not (isA(fz) and fz[1] in ('comp', 'list', 'sorted')) else fz))
        return A(kind, fz)

    def x_list(self, st, args, kw, node):
        if args and args[0][0] in ('k', 'f', 'bm', 'm'):
            return [self.raised(st, 'TypeError')]
        return [(st, self._seq('list', st, args))]

    def x_tuple(self, st, args, kw, node):
        if args and args[0][0] in ('k', 'f', 'bm', 'm'):
            return [self.raised(st, 'TypeError')]
        return [(st, self._seq('tuple', st, args))]

    def x_set(self, st, args, kw, node):
        if args and args[0][0] in ('k', 'f', 'bm', 'm'):
            return [self.raised(st, 'TypeError')]
        return [(st, self._seq('set', st, args))]

    def x_frozenset(self, st, args, kw, node):
        if args and args[0][0] in ('k', 'f', 'bm', 'm'):
            return [self.raised(st, 'TypeError')]
        return [(st, self._seq('set', st, args))]

    def x_iter(self, st, args, kw, node):
        vw = self.view(st, args[0])
        if len(args) == 1 and vw and vw[0] in ('list', 'tuple'):
            return [(st, st.alloc(('list', tuple(vw[1]))))]   # next() consumes it, and not the sequence it came from
        return [(st, args[0])]

    def x_dict(self, st, args, kw, node):
        pairs = []
        if args:
            vw = self.view(st, args[0])
            if vw and vw[0] == 'dict':
                pairs = list(vw[1])
            elif vw:
                for x in vw[1]:
                    v2 = self.view(st, x)
                    if not v2 or len(v2[1]) != 2:
                        return [(st, A('dict', self.freeze(st, args[0])))]
                    pairs = [p for p in pairs if p[0] != v2[1][0]] + [(self.freeze(st, v2[1][0]), v2[1][1])]
            else:
                c = self.content(st, args[0])
                fz = c if c is not None else self.freeze(st, args[0])
                if kw:
                    return [(st, A('dict', fz, *[('t', (C(k), self.freeze(st, v))) for k, v in kw]))]
                r = st.alloc(('sym', 'dict', self.dict_of(fz)))
                return [(st, r)]
        for k, v in kw:
            pairs = [p for p in pairs if p[0] != C(k)] + [(C(k), v)]
        return [(st, self.new_dict(st, pairs))]

    def dict_of(self, fz):
        if isA(fz, 'comp') and all(len(el) <= 1 and (not el or (el[0][0] == 't' and len(el[0][1]) == 2)) for _, el in fz[3]):
            return A('dcomp', fz[2], tuple((fs, tuple(('t', e[1]) for e in el)) for fs, el in fz[3]))
        if isA(fz, 'm:items'):
            return A('m:copy', fz[2])
        return A('dict', fz)

    def x_sorted(self, st, args, kw, node):
        vw = self.view(st, args[0])
        if vw is not None and not kw:
            items = [k for k, _ in vw[1]] if vw[0] == 'dict' else list(vw[1])
            if all(isC(x) for x in items):
                try:
                    return [(st, self.new_list(st, sorted(items, key=lambda c: c[2])))]
                except TypeError:
                    pass
            if len(items) < 2:
                return [(st, self.new_list(st, items))]
        if vw is not None:
            items = [k for k, _ in vw[1]] if vw[0] == 'dict' else list(vw[1])
            if len(items) < 2:
                return [(st, self.new_list(st, items))]
            known = self.sort_known(st, items, kw)
            if known is not None:
                return [(s, self.new_list(s, l)) for s, l in known]
        c = self.content(st, args[0])
        fz = c if c is not None else self.freeze(st, args[0])
        if isA(fz, 'list'):
            fz = fz[2]
        return [(st, st.alloc(('sym', 'list', self.sorted_term(st, fz, kw))))]

    def x_reversed(self, st, args, kw, node):
        vw = self.view(st, args[0])
        if vw and vw[0] != 'dict':
            return [(st, self.new_list(st, tuple(vw[1])[::-1]))]
        c = self.content(st, args[0])
        return [(st, A('rev', c if c is not None else self.freeze(st, args[0])))]

    def x_enumerate(self, st, args, kw, node):
        vw = self.view(st, args[0])
        start = args[1] if len(args) > 1 else dict(kw).get('start', C(0))
        if vw and isC(start):
            items = [k for k, _ in vw[1]] if vw[0] == 'dict' else list(vw[1])
            return [(st, self.new_list(st, [T((C(i + start[2]), x)) for i, x in enumerate(items)]))]
        c = self.content(st, args[0])
        fz = c if c is not None else self.freeze(st, args[0])
        return [(st, A('enumerate', fz, self.freeze(st, start)))]

    def x_zip(self, st, args, kw, node):
        vws = [self.view(st, a) for a in args]
        if all(v and v[0] != 'dict' for v in vws):
            return [(st, self.new_list(st, [T(x) for x in zip(*[v[1] for v in vws])]))]
        return [(st, A('zip', *[self.freeze(st, a) for a in args]))]

    def x_range(self, st, args, kw, node):
        if all(isC(a) for a in args):
            r = range(*[a[2] for a in args])
            if len(r) <= 64:
                return [(st, self.new_list(st, [C(i) for i in r]))]
        fa = [self.freeze(st, a) for a in args]
        if len(fa) == 2 and fa[0] == C(0):
            fa = fa[1:]
        return [(st, A('range', *fa))]

    def x_map(self, st, args, kw, node):
        return self._maplike(st, args, node, 'map')

    def x_filter(self, st, args, kw, node):
        return self._maplike(st, args, node, 'filter')

    def _maplike(self, st, args, node, kind):
        st.env['$mf'], st.env['$mi'] = args[0], args[1]
        if kind == 'map':
            e = ast.parse('[$f($x) for $x in $i]'.replace('$f', 'MF').replace('$x', 'MX').replace('$i', 'MI'), mode='eval').body
        else:
            e = ast.parse('[MX for MX in MI if MF(MX)]', mode='eval').body if args[0] != NONE else ast.parse('[MX for MX in MI if MX]', mode='eval').body
        for x in ast.walk(e):
            if isinstance(x, ast.Name):
                x.id = {'MF': '$mf', 'MX': '$mx', 'MI': '$mi'}[x.id]
        return self.ev(e, st)

    def x_any(self, st, args, kw, node):
        return self._anyall_value(st, args[0], True)

    def x_all(self, st, args, kw, node):
        return self._anyall_value(st, args[0], False)

    def _anyall_value(self, st, v, isany):
        vw = self.view(st, v)
        if vw:
            fs = [self.truth_of(st, x) for x in vw[1]]
            return [(st, OR(*fs) if isany else AND(*fs))]
        c = self.content(st, v)
        fz = c if c is not None else self.freeze(st, v)
        if isA(fz, 'comp'):
            paths, drop = [], []
            for fs, el in fz[3]:
                if not el:
                    paths.append(fs)
                    continue
                t = truth(el[0])
                if isany:
                    t = NOT(t)
                if t == TRUE:
                    paths.append(fs)
                elif t == FALSE:
                    drop.append(fs)
                elif t[0] == 'not':
                    paths.append(fs | {(t[1], False)})
                    drop.append(fs | {(t[1], True)})
                elif t[0] == 'a':
                    paths.append(fs | {(t, True)})
                    drop.append(fs | {(t, False)})
                else:
                    return [(st, ('a', 'truthy', A('anyall', isany, fz)))]
            if not exclusive(paths, drop):
                return [(st, ('a', 'truthy', A('anyall', isany, fz)))]
            f = forall(fz[2], paths)
            return [(st, NOT(f) if isany else f)]
        return [(st, ('a', 'truthy', A('anyall', isany, fz)))]

    def x_sum(self, st, args, kw, node):
        vw = self.view(st, args[0])
        if vw and all(isC(x) for x in vw[1]):
            return [(st, C(sum(x[2] for x in vw[1])))]
        return [(st, A('sum', self.freeze(st, args[0])))]

    def x_sys_exc_info(self, st, args, kw, node):
        e = st.env.get('$exc')
        if e is not None:
            return [(st, ('t', (A('exctype', self.freeze(st, e)), e, A('traceback'))))]
        return [(st, ('t', tuple(A('excinfo', C(i)) for i in range(3))))]

    def x_repr(self, st, args, kw, node):
        return [(st, A('fmt', 'r', self.freeze(st, args[0])))]

    def x_str(self, st, args, kw, node):
        if not args:
            return [(st, C(''))]
        fz = self.freeze(st, args[0])
        if isC(fz):
            return [(st, C(str(fz[2])))]
        if isA(fz) and fz[1] in ('cat', 'text') or self.type_of(st, fz) == 'x:str':
            return [(st, fz)]
        return [(st, A('text', fz))]

    x_six_text_type = x_str

    def x_bytes(self, st, args, kw, node):
        fz = self.freeze(st, args[0]) if args else C(b'')
        return [(st, A('bytes', fz))]

    def x_bytearray(self, st, args, kw, node):
        return [(st, A('bytearray', self.freeze(st, args[0]) if args else C(b'')))]

    def x_ord(self, st, args, kw, node):
        return [(st, A('ord', self.freeze(st, args[0])))]

    def x_chr(self, st, args, kw, node):
        return [(st, A('chr', self.freeze(st, args[0])))]

    def x_next(self, st, args, kw, node):
        t = self.type_of(st, args[0])
        if t in self.p.classes:
            m = next((m for m in ('__next__', 'next') if self.p.class_attr(t, m)), None)
            if m:
                out = []
                for s, v in self.call_method(st, args[0], m, [], (), node):
                    if len(args) > 1 and isinstance(v, Raised) and self.exc_match(self.exc_class(s, v.exc) or '', 'StopIteration'):
                        v = args[1]
                    out.append((s, v))
                return out
        c = self.content(st, args[0])
        vw = self.view(st, args[0])
        if vw and vw[0] != 'dict' and vw[1]:
            if vw[0] == 'list' and args[0][0] == 'r':
                st.heap[args[0]] = ('list', tuple(vw[1][1:]))
            return [(st, vw[1][0])]
        if vw and not vw[1]:
            return [(st, args[1])] if len(args) > 1 else [self.raised(st, 'StopIteration')]
        fz = c if c is not None else self.freeze(st, args[0])
        if isA(fz, 'comp') and len(args) > 1:
            t, f = self.branch(st, args[0])
            val = A('first', fz)
            els = [el for _, el in fz[3] if el]
            out = []
            for s in t:
                if len(els) == 1:
                    for fs, el in fz[3]:
                        if el:
                            s.facts.update(dict(fs))
                    out.append((s, els[0][0]))
                else:
                    out.append((s, val))
            return out + [(s, args[1]) for s in f]
        return None

    def x_callable(self, st, args, kw, node):
        if args[0][0] in ('k', 'f', 'bm'):
            return [(st, TRUE)]
        return [(st, ('a', 'callable', self.freeze(st, args[0])))]

    def x_six_iteritems(self, st, args, kw, node):
        return self.call_method(st, args[0], 'items', [], (), node)

    def x_six_itervalues(self, st, args, kw, node):
        return self.call_method(st, args[0], 'values', [], (), node)

    def x_six_iterkeys(self, st, args, kw, node):
        return self.call_method(st, args[0], 'keys', [], (), node)

    def x_time_time(self, st, args, kw, node):
        if self.cfg.clock:
            return self.opaque_call(st, 'time.time', None, args, kw, node)
        return [(st, ('s', 'now', None))]

    def x_copy_copy(self, st, args, kw, node):
        v = args[0]
        if self.is_msg(st, v):
            return self.msg_method(st, v, 'copy', [], (), node)
        if v[0] == 'r':
            o = st.heap.get(v)
            n = st.alloc(o)
            for (ob, a), x in list(st.fields.items()):
                if ob == v:
                    st.fields[(n, a)] = x
            return [(st, n)]
        t = self.type_of(st, v)
        if t and t in self.p.classes:
            n = st.alloc(('obj', t))
            st.fields[(n, '$copyof')] = v
            for a in self.attr_names(t):
                st.fields[(n, a)] = st.fields.get((v, a), self.attr_term(v, a))
            return [(st, n)]
        return [(st, A('copy', self.freeze(st, v)))]

    def attr_names(self, t):
        names = set()
        for c in self.p.mro(t):
            if c.startswith('x:'):
                continue
            for b in self.p.classes[c].attrs.values():
                if b[0] == 'func':
                    for n in ast.walk(b[1].node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and b[1].params and n.value.id == b[1].params[0]:
                            names.add(n.attr)
        return sorted(names)

    def x_copy_deepcopy(self, st, args, kw, node):
        v = args[0]
        if self.is_msg(st, v):
            return self.msg_method(st, v, 'copy', [], (), node)
        t = self.type_of(st, v)
        if t and t in self.p.classes and v[0] != 'r':
            n = st.alloc(('obj', t))
            st.fields[(n, '$copyof')] = v
            for a in self.attr_names(t):
                x = st.fields.get((v, a), self.attr_term(v, a))
                if self.is_msg(st, x):
                    x = self.msg_method(st, x, 'copy', [], (), node)[0][1]
                st.fields[(n, a)] = x
            return [(st, n)]
        if v[0] == 'r':
            return [(st, self.deep(st, v, {}, node))]
        return [(st, A('deepcopy', self.freeze(st, v)))]

    def deep(self, st, v, memo, node):
        """an independent copy of everything v reaches on the heap"""
        if v[0] == 't':
            return ('t', tuple(self.deep(st, x, memo, node) for x in v[1]))
        if v[0] != 'r':
            return v
        if v in memo:
            return memo[v]
        if self.is_msg(st, v):
            memo[v] = n = self.msg_method(st, v, 'copy', [], (), node)[0][1]
            return n
        h = st.heap[v]
        n = memo[v] = st.alloc(h)
        if h[0] == 'dict':
            st.heap[n] = ('dict', tuple((k, self.deep(st, x, memo, node)) for k, x in h[1]))
        elif h[0] in ('list', 'set') and isinstance(h[1], tuple):
            st.heap[n] = (h[0], tuple(self.deep(st, x, memo, node) for x in h[1])) + tuple(h[2:])
        for k in [k for k in st.fields if k[0] == v]:
            st.fields[(n,) + k[1:]] = self.deep(st, st.fields[k], memo, node)
        return n

    def x_cryptography_hazmat_primitives_constant_time_bytes_eq(self, st, args, kw, node):
        a, b = sorted((self.freeze(st, x) for x in args[:2]), key=repr)
        return [(st, ('a', 'bytes_eq', a, b))]

    x_hmac_compare_digest = x_cryptography_hazmat_primitives_constant_time_bytes_eq

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """-> [(state, ctl)], ctl None = falls through"""
        cur, out = [st], []
        for n in stmts:
            nxt = []
            for s in cur:
                for s2, ctl in self.ex(n, s):
                    if ctl is None:
                        nxt.append((s2, None))
                    else:
                        out.append((s2, ctl))
            if len(nxt) > 1:
                nxt = self.merge(nxt)
            cur = [s for s, _ in nxt]
            if not cur:
                break
        if len(out) > 1:
            out = self.merge(out)
        return [(s, None) for s in cur] + out

    def ex(self, n, st):
        self.ticks += 1
        if self.cfg.max_ticks and self.ticks > self.cfg.max_ticks:
            raise Budget('more than %d statements' % self.cfg.max_ticks)
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            st.imprecise += ((type(n).__name__,) + self.loc(n),)
            return [(st, None)]
        return m(n, st)

    def ex_Pass(self, n, st):
        return [(st, None)]

    ex_Global = ex_Nonlocal = ex_Pass

    def ex_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, ('raise', v.exc) if isinstance(v, Raised) else None) for s, v in self.ev(n.value, st)]

    def ex_Return(self, n, st):
        if n.value is None:
            return [(st, ('ret', NONE))]
        return [(s, ('raise', v.exc) if isinstance(v, Raised) else ('ret', v)) for s, v in self.ev(n.value, st)]

    def ex_Break(self, n, st):
        return [(st, ('break',))]

    def ex_Continue(self, n, st):
        return [(st, ('cont',))]

    def ex_Import(self, n, st):
        mod = st.frames[-1][2][0]
        for name, b in self.p._imports(mod, n):
            st.env[name] = self.binding_value(self.p.resolve_import(b))
        return [(st, None)] + [(s, ('raise', r.exc)) for s, r in self.may_raise(st, ['ImportError'])]

    ex_ImportFrom = ex_Import

    def ex_FunctionDef(self, n, st):
        st.env[n.name] = self.closure(st, n)
        return [(st, None)]

    def ex_ClassDef(self, n, st):
        st.env[n.name] = A('localclass', n.name)
        return [(st, None)]

    def ex_Assert(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v.exc)))
                continue
            t, f = self.branch(s, v)
            out.extend((x, None) for x in t)
            if self.cfg.none_errors and self.truth_of(s, v) == FALSE:
                out.append((s, ('raise', self.none_error(s, 'AssertionError', 'assertion', n)[1].exc)))
            elif self.cfg.asserts:
                for x in f:
                    out.append((x, ('raise', self.new_exc(x, 'AssertionError'))))
        return out

    def ex_Delete(self, n, st):
        cur = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, c in cur:
                if c is not None:
                    nxt.append((s, c))
                elif isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append((s, None))
                elif isinstance(t, ast.Subscript):
                    nodes = [t.value] + ([t.slice] if not isinstance(t.slice, ast.Slice) else [])
                    for s2, vs in self.ev_many(nodes, s):
                        if isinstance(vs, Raised):
                            nxt.append((s2, ('raise', vs.exc)))
                        else:
                            nxt.extend(self.del_item(s2, vs[0], vs[1] if len(vs) > 1 else A('slice'), t))
                elif isinstance(t, ast.Attribute):
                    for s2, v in self.ev(t.value, s):
                        if isinstance(v, Raised):
                            nxt.append((s2, ('raise', v.exc)))
                        else:
                            s2.fields.pop((v, t.attr), None)
                            s2.events += (('delattr', v, t.attr, None, None, self.loc(n), None, None),)
                            nxt.append((s2, None))
            cur = nxt
        return cur

    def del_item(self, st, c, i, node):
        vw = self.view(st, c)
        i = self.freeze(st, i)
        if vw and c[0] == 'r':
            if vw[0] == 'dict':
                out = []
                for s, v in self.dict_lookup(st, vw[1], i, 'raise'):
                    if isinstance(v, Raised):
                        out.append((s, ('raise', v.exc)))
                    else:
                        s.heap[c] = ('dict', tuple(p for p in s.heap[c][1] if not self.same_key(s, p[0], i)))
                        out.append((s, None))
                return out
            if isC(i) and isinstance(i[2], int):
                l = list(vw[1])
                try:
                    del l[i[2]]
                except IndexError:
                    return [(st, ('raise', self.new_exc(st, 'IndexError')))]
                st.heap[c] = ('list', tuple(l))
                return [(st, None)]
        cc = self.content(st, c)
        if cc is not None:
            st.heap[c] = ('sym', st.heap[c][1], A('ddel', cc, i))
            return [(st, None)] + [(s, ('raise', r.exc)) for s, r in self.may_raise(st, ['KeyError', 'IndexError'])]
        fz = self.freeze(st, c)
        ev = ('delitem', fz, i, None, None, self.loc(node), None, None)
        rs = self.may_raise(st, ['KeyError', 'IndexError'])
        out = []
        f = self.in_formula(i, fz)
        for s, r in rs:
            for s2 in (self.assume(s, f, False) if is_formula(f) and f[0] == 'a' else [s]):
                out.append((s2, ('raise', r.exc)))
        for k in [k for k in st.fields if k[0] == c and k[1] == '[]']:
            del st.fields[k]
        st.events += (ev,)
        return [(st, None)] + out

    def ex_Raise(self, n, st):
        if n.exc is None:
            e = st.env.get('$exc')
            if e is None:
                e = self.new_exc(st, 'Exception')
            return [(st, ('raise', e))]
        out = []
        for s, v in self.ev(n.exc, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v.exc)))
            elif v[0] == 'k':
                for s2, r in self.instantiate(s, v[1], [], (), n):
                    out.append((s2, ('raise', r.exc if isinstance(r, Raised) else r)))
            elif v[0] == 'x':
                out.append((s, ('raise', self.new_exc(s, v[1]))))
            else:
                if v[0] != 'r' and self.type_of(s, v) is None:
                    e = self.new_exc(s, 'Exception')
                    s.fields[(e, '$value')] = v
                    v = e
                out.append((s, ('raise', v)))
        res = []
        for s, c in out:
            if c[0] == 'raise' and (c[1], '$at') not in s.fields:
                s.fields[(c[1], '$at')] = ('at',) + self.loc(n)
            res.append((s, c))
        return res

    def ex_If(self, n, st):
        out = []
        for s, v in self.ev(n.test, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v.exc)))
                continue
            t, f = self.branch(s, v)
            for x in t:
                out.extend(self.exec_block(n.body, x))
            for x in f:
                out.extend(self.exec_block(n.orelse, x) if n.orelse else [(x, None)])
        return out

    def ex_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v.exc)))
                continue
            cur = [(s, None)]
            for t in n.targets:
                cur = [r for s2, c in cur for r in ([(s2, c)] if c is not None else self.assign(s2, t, v))]
            out.extend(cur)
        return out

    def ex_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v.exc)))
            else:
                out.extend(self.assign(s, n.target, v))
        return out

    def ex_AugAssign(self, n, st):
        out = []
        load = ast.copy_location(ast.fix_missing_locations(_as_load(n.target)), n)
        for s, vs in self.ev_many([load, n.value], st):
            if isinstance(vs, Raised):
                out.append((s, ('raise', vs.exc)))
                continue
            if isinstance(n.op, ast.Add) and vs[0][0] == 'r' and (self.view(s, vs[0]) or self.content(s, vs[0]) is not None):
                self.container_method(s, vs[0], 'extend', [vs[1]], (), n)
                out.append((s, None))
                continue
            out.extend(self.assign(s, n.target, self.binop(s, n.op, vs[0], vs[1])))
        return out

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            mod = st.frames[-1][2][0]
            if (mod.name, t.id) in self.reassigned and self._declared_global(t.id):
                st.events += (('setglobal', mod.name, t.id, self.freeze(st, v), None, self.loc(t), None, None),)
                if (mod.name, t.id) in self.rebound:
                    g = A('gvar', C(mod.name + '.' + t.id))
                    k = st.fields.get((g, '$now'))
                    st.fields[(g, '$now')] = v if isC(v) else A('gvar', g[2], C(k[3][2] + 1 if k is not None and isA(k) and len(k) > 3 else 1))
                return [(st, None)]
            st.env[t.id] = v
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, t, v)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, Raised):
                    out.append((s, ('raise', o.exc)))
                else:
                    self.set_attr(s, o, t.attr, v, t)
                    out.append((s, None))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for s, o in self.ev(t.value, st):
                    if not isinstance(o, Raised) and o[0] == 'r':
                        s.heap[o] = ('sym', 'list', A('sliceset', self.freeze(s, o), self.freeze(s, v)))
                    out.append((s, None))
                return out
            for s, vs in self.ev_many([t.value, t.slice], st):
                if isinstance(vs, Raised):
                    out.append((s, ('raise', vs.exc)))
                else:
                    for s2 in self.split_keys(s, vs[0], vs[1]):
                        self.set_item(s2, vs[0], vs[1], v, t)
                        out.append((s2, None))
            return out
        return [(st, None)]

    def _declared_global(self, name):
        fi = self.p.funcs.get(self.stack[-1]) if self.stack else None
        if fi is None:
            return False
        return any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(fi.node))

    def set_attr(self, st, o, name, v, node):
        st.fields[(o, name)] = v
        if o[0] != 'r':
            st.events += (('setattr', o, name, self.freeze(st, v), None, self.loc(node), None, v),)

    def split_keys(self, st, c, k):
        """states in which key k is known to be, or not to be, each key of the dictionary c"""
        vw = self.view(st, c)
        if not vw or c[0] != 'r' or vw[0] != 'dict':
            return [st]
        k = self.freeze(st, k)
        out, cur = [], [st]
        for kk, _ in vw[1]:
            f = eq(k, kk)
            if f == FALSE:
                continue
            if f == TRUE:
                return out + cur
            nxt = []
            for s in cur:
                out.extend(self.assume(s.copy(), f, True))
                nxt.extend(self.assume(s, f, False))
            cur = nxt
        return out + cur

    def same_key(self, st, a, b):
        if a == b:
            return True
        f = eq(a, b)
        return f == TRUE or (is_formula(f) and not self.assume(st.copy(), f, False))

    def set_item(self, st, c, k, v, node):
        k = self.freeze(st, k)
        vw = self.view(st, c)
        if vw and c[0] == 'r':
            if vw[0] == 'dict':
                k = next((p[0] for p in vw[1] if self.same_key(st, p[0], k)), k)
                st.heap[c] = ('dict', tuple(p if p[0] != k else (k, v) for p in vw[1]) if any(p[0] == k for p in vw[1])
                              else vw[1] + ((k, v),))
                return
            if isC(k) and isinstance(k[2], int) and -len(vw[1]) <= k[2] < len(vw[1]):
                l = list(vw[1])
                l[k[2]] = v
                st.heap[c] = ('list', tuple(l))
                return
            st.heap[c] = ('sym', 'list', A('lset', self.freeze(st, c), k, self.freeze(st, v)))
            return
        cc = self.content(st, c)
        if cc is not None:
            st.heap[c] = ('sym', st.heap[c][1], A('dset', cc, k, self.freeze(st, v)))
            return
        for q in [q for q in st.fields if q[0] == c and len(q) == 3 and not (isC(q[2]) and isC(k))]:
            if q[2] != k:
                del st.fields[q]
        st.fields[(c, '[]', k)] = v
        st.events += (('setitem', self.freeze(st, c), k, self.freeze(st, v), None, self.loc(node), None, v),)

    def unpack(self, st, t, v):
        vw = self.view(st, v)
        names = t.elts
        if vw and vw[0] != 'dict':
            items = vw[1]
            if len(items) != len(names):
                return [(st, ('raise', self.new_exc(st, 'ValueError')))]
            out = [(st, None)]
            for e, x in zip(names, items):
                out = [r for s, c in out for r in ([(s, c)] if c is not None else self.assign(s, e, x))]
            return out
        c = self.content(st, v)
        fz = c if c is not None else self.freeze(st, v)
        sure = isA(fz, 'elem') or (isA(fz, 'call') and isinstance(fz[2], str) and (fz[2].split('.')[-1] in URL_FIELDS or fz[2] in ('tempfile.mkstemp', 'os.path.split', 'os.path.splitext', 'os.pipe')))
        out = []
        sep = None
        if isA(fz) and fz[1] in ('m:split', 'm:rsplit') and len(fz) > 3 and isC(fz[3]) and isinstance(fz[3][2], (str, bytes)) and len(names) > 1:
            sep = A('in', fz[3], fz[2])
        sure = sure or (isA(fz) and fz[1] in ('m:partition', 'm:rpartition') and len(names) == 3)
        if not sure:
            fail = [st]
            if sep is not None and len(names) == 2 and len(fz) > 4 and fz[4] == C(1):
                fail = self.assume(st.copy(), sep, False)
            out = [(s, ('raise', r.exc)) for f in fail for s, r in self.may_raise(f, ['ValueError'])]
        cur = [(s, None) for s in (self.assume(st, sep, True) if sep is not None else [st])]
        for i, e in enumerate(names):
            item = self.item_of(fz, i)
            cur = [r for s, c in cur for r in ([(s, c)] if c is not None else self.assign(s, e, item))]
        return cur + out

    def item_of(self, fz, i):
        if isA(fz, 'elem') and isA(fz[2], 'm:items'):
            d = fz[2][2]
            k = A('elem', d)
            return k if i == 0 else A('getitem', d, k)
        return A('getitem', fz, C(i))

    # ------------------------------------------------------------ try
    def handler_names(self, st, h):
        if h.type is None:
            return ['BaseException']
        res = self.ev(h.type, st.copy())
        v = res[0][1]
        if isinstance(v, Raised):
            return ['Exception']
        vs = v[1] if v[0] == 't' else [v]
        out = []
        for x in vs:
            if x[0] in ('k', 'x'):
                out.append(EXC_ALIAS.get(x[1], x[1]))
            else:
                out.append('?' + show(x))
        return out

    def ex_Try(self, n, st):
        hs = [(h, self.handler_names(st, h)) for h in n.handlers]
        names = tuple(x for _, ns in hs for x in ns)
        saved = st.handlers
        if names:
            st.handlers = saved + (names,)
        res = self.exec_block(n.body, st)
        out = []
        for s, ctl in res:
            s.handlers = saved
            if ctl is not None and ctl[0] == 'raise':
                out.extend(self.handle(s, ctl, hs, n))
            elif ctl is None and n.orelse:
                out.extend(self.exec_block(n.orelse, s))
            else:
                out.append((s, ctl))
        if n.finalbody:
            fin = []
            for s, ctl in out:
                for s2, c2 in self.exec_block(n.finalbody, s):
                    fin.append((s2, c2 if c2 is not None else ctl))
            out = fin
        return out

    ex_TryStar = ex_Try

    def handle(self, st, ctl, hs, n):
        e = ctl[1]
        cls = self.exc_class(st, e)
        for h, names in hs:
            if any(self.exc_match(cls, x) or cls == x for x in names):
                old = st.env.get('$exc')
                st.env['$exc'] = e
                if h.name:
                    st.env[h.name] = e
                out = []
                for s, c in self.exec_block(h.body, st):
                    if old is None:
                        s.env.pop('$exc', None)
                    else:
                        s.env['$exc'] = old
                    if h.name:
                        s.env.pop(h.name, None)
                    out.append((s, c))
                return out
        return [(st, ctl)]

    def ex_With(self, n, st):
        cur = [(st, None)]
        mgrs = []
        for it in n.items:
            nxt = []
            for s, c in cur:
                if c is not None:
                    nxt.append((s, c))
                    continue
                for s2, v in self.ev(it.context_expr, s):
                    if isinstance(v, Raised):
                        nxt.append((s2, ('raise', v.exc)))
                        continue
                    s2.events += (('call', '.__enter__', self.freeze(s2, v), (), (), self.loc(n), v, v),)
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(s2, it.optional_vars, v))
                    else:
                        nxt.append((s2, None))
                    s2.fields[(('s', '$with', None), str(id(it)))] = v
            cur = nxt
        out = []
        for s, c in cur:
            if c is not None:
                out.append((s, c))
                continue
            for s2, c2 in self.exec_block(n.body, s):
                for it in reversed(n.items):
                    v = s2.fields.pop((('s', '$with', None), str(id(it))), NONE)
                    s2.events += (('call', '.__exit__', self.freeze(s2, v), (), (), self.loc(n), NONE, v),)
                out.append((s2, c2))
        return out

    # ------------------------------------------------------------ loops
    def iter_items(self, st, v):
        """known element list, or None"""
        vw = self.view(st, v)
        if vw is not None:
            items = [k for k, _ in vw[1]] if vw[0] == 'dict' else list(vw[1])
            if len(items) <= self.cfg.unroll:
                return items
        if isC(v) and isinstance(v[2], str) and len(v[2]) <= 4:
            return [C(x) for x in v[2]]
        return None

    def ex_For(self, n, st):
        out = []
        for s, v in self.ev(n.iter, st):
            if isinstance(v, Raised):
                out.append((s, ('raise', v.exc)))
                continue
            if v == NONE and self.cfg.none_errors:
                out.append((s, ('raise', self.none_error(s, 'TypeError', 'iteration', n)[1].exc)))
                continue
            items = self.iter_items(s, v)
            if items is not None:
                out.extend(self.unrolled(n, s, items))
                continue
            if isA(v, 'range') and all(isC(x) for x in v[2:]):
                # a long known range: exact when every path leaves the loop early
                r = self.unrolled(n, s.copy(), [C(i) for i in range(*[x[2] for x in v[2:]])[:16]], complete=False)
                if r is not None:
                    out.extend(r)
                    continue
            out.extend(self.loop(n, s, v))
        return out

    def unrolled(self, n, st, items, complete=True):
        out, cur = [], [st]
        after = []
        for x in items:
            nxt = []
            for s in cur:
                for s2, c in self.assign(s, n.target, x):
                    if c is not None:
                        out.append((s2, c))
                        continue
                    for s3, c3 in self.exec_block(n.body, s2):
                        if c3 is None or c3[0] == 'cont':
                            nxt.append((s3, None))
                        elif c3[0] == 'break':
                            after.append(s3)
                        else:
                            out.append((s3, c3))
            cur = [s for s, _ in self.merge(nxt)]
            if not cur:
                break
        if cur and not complete:
            return None
        for s in cur:
            out.extend(self.exec_block(n.orelse, s) if n.orelse else [(s, None)])
        out.extend((s, None) for s in after)
        return out

    def elem_of(self, st, it):
        """the arbitrary element of an unknown iterable"""
        if isA(it, 'enumerate'):
            base = it[2]
            i = A('idx', base) if it[3] == C(0) else add(A('idx', base), it[3])
            return T((i, self.elem_of(st, base)))
        if isA(it, 'zip'):
            return T([self.elem_of(st, x) for x in it[2:]])
        if isA(it, 'm:items'):
            k = A('elem', it[2])
            return T((k, A('getitem', it[2], k)))
        if isA(it, 'm:values'):
            k = A('elem', it[2])
            return A('getitem', it[2], k)
        b = base_iter(it)
        if b != it and not isA(it, 'sorted'):
            return self.elem_of(st, b)
        if isA(it, 'comp') and len(it[3]) == 1 and len(it[3][0][1]) == 1:
            return it[3][0][1][0]
        if isA(it, 'comp'):
            els = {el for _, el in it[3] if el}
            if len(els) == 1 and len(next(iter(els))) == 1:
                return next(iter(els))[0]
        if isA(it, 'm:items') or isA(b, 'm:items'):
            return self.elem_of(st, b)
        return A('elem', b)

    def elem_facts(self, st, it):
        """facts implied by membership (filtered comprehensions)"""
        b = base_iter(it)
        if isA(b, 'comp'):
            some = [fs for fs, el in b[3] if el]
            if len(some) == 1:
                return dict(some[0])
        return {}

    def havoc(self, st, keys, tag):
        for k in sorted(keys, key=repr):
            if k[0] == 'var':
                v = st.env.get(k[1])
                st.env[k[1]] = A('lv', tag, k[1])
            elif k[0] == 'heap':
                o = st.heap.get(k[1])
                if o is None:
                    continue
                kind = o[0] if o[0] in ('list', 'dict', 'set') else o[1]
                if o[0] != 'obj':
                    st.heap[k[1]] = ('sym', kind, A('lv', tag, 'obj%d' % k[1][1]))
            elif k[0] == 'field':
                st.fields[k[1]] = A('lv', tag, str(k[1][1]))

    def changed(self, a, b):
        """keys of variables/objects/fields whose value differs between state a (start) and b (end)"""
        out = set()
        for k, v in b.env.items():
            if a.env.get(k) != v:
                out.add(('var', k))
        for r, o in b.heap.items():
            if r in a.heap and a.heap[r] != o:
                out.add(('heap', r))
        for f, v in b.fields.items():
            if (f in a.fields or f[0] in a.heap or f[0][0] != 'r') and a.fields.get(f) != v:
                out.add(('field', f))
        return out

    def loop(self, n, st, itv):
        """for over an unknown iterable"""
        c = self.content(st, itv)
        it = c if c is not None else self.freeze(st, itv)
        el = self.elem_of(st, it)
        pre_facts = self.elem_facts(st, it)
        start0 = st

        def step(s):
            s.facts.update(pre_facts)
            res = []
            for s2, c2 in self.assign(s, n.target, el):
                if c2 is not None:
                    res.append((s2, c2))
                else:
                    res.extend(self.exec_block(n.body, s2))
            return res
        targets = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        H = set()
        for _ in range(5):
            s = st.copy()
            self.havoc(s, H, it)
            begin = s.copy()
            res = step(s)
            grow = set()
            for s2, ctl in res:
                if ctl is None or ctl[0] == 'cont':
                    grow |= {k for k in self.changed(begin, s2) if not (k[0] == 'var' and k[1] in targets)}
            if grow <= H:
                break
            H |= grow
        out = []
        norm = []
        nev = len(begin.events)
        for s2, ctl in res:
            if ctl is None or ctl[0] == 'cont':
                norm.append(s2)
        paths = []
        for s2 in norm:
            delta = frozenset((a, v) for a, v in s2.facts.items() if begin.facts.get(a) is None and pre_facts.get(a) is None)
            paths.append((delta, s2))
        # exits: earlier iterations may have had their effects
        after = []
        prior = tuple((p, s2.events[nev:]) for p, s2 in paths if len(s2.events) > nev)
        for s2, ctl in res:
            if ctl is None or ctl[0] == 'cont':
                continue
            if prior:
                s2.events = s2.events[:nev] + (('loop', it, prior, None, None, self.loc(n), 'some', el),) + s2.events[nev:]
            if ctl[0] == 'break':
                after.append(s2)
            else:
                out.append((s2, ctl))
        # normal completion
        fin = st.copy()
        if norm or True:
            lvs = {}
            for k in sorted(H, key=repr):
                self.summarise(fin, begin, k, it, paths, el, targets)
            f = forall(it, [p for p, _ in paths]) if norm else forall(it, [])
            exit_events = tuple((p, s2.events[nev:]) for p, s2 in paths if len(s2.events) > nev)
            if exit_events:
                fin.events += (('loop', it, exit_events, None, None, self.loc(n), None, el),)
            for t in targets:
                fin.env[t] = A('last', it, t)
            fin.n = max([fin.n] + [s2.n for _, s2 in paths])
            fin.imprecise = fin.imprecise + tuple(x for _, s2 in paths for x in s2.imprecise if x not in fin.imprecise)
            if not norm:
                # every iteration leaves the loop: completion means there was no element
                fin_states = self.assume(fin, self.truth_of_iter(it), False)
            else:
                fin_states = self.assume(fin, f, True) if f != TRUE else [fin]
            for s in fin_states:
                out.extend(self.exec_block(n.orelse, s) if n.orelse else [(s, None)])
        out.extend((s, None) for s in after)
        return out

    def truth_of_iter(self, it):
        return truth(it)

    def summarise(self, fin, begin, k, it, paths, el, targets):
        """value after the loop of something the body changes"""
        def paths_of(get):
            return tuple((p, get(s)) for p, s in paths)
        if k[0] == 'heap':
            lv = begin.heap[k[1]]
            o = fin.heap.get(k[1])
            if lv[0] != 'sym' or o is None:
                return
            L = lv[2]
            items, ok = [], True
            for p, s in paths:
                o2 = s.heap.get(k[1])
                if o2 is None or o2[0] != 'sym':
                    ok = False
                    break
                t, add_ = o2[2], []
                while isA(t) and t[1] in ('append', 'dset', 'extend') and t != L:
                    if t[1] == 'append':
                        add_.insert(0, t[3])
                    elif t[1] == 'dset':
                        add_.insert(0, ('t', (t[3], t[4])))
                    else:
                        add_.insert(0, A('*', t[3]))
                    t = t[2]
                if t != L:
                    ok = False
                    break
                items.append((p, tuple(self.freeze(s, x) for x in add_)))
            if ok:
                kind = o[0] if o[0] in ('list', 'dict', 'set') else o[1]
                items = self.merge_comp(items)
                isd = kind == 'dict'
                if not isd and len(items) == 1 and not items[0][0] and items[0][1] == (el,) and not isA(it, 'm:items'):
                    comp = it if isA(it) and it[1] in ('comp', 'sorted', 'list') else A('list', it)
                else:
                    comp = A('dcomp' if isd else 'comp', order_iter(it), items)
                empty = o[0] in ('list', 'dict', 'set') and not o[1]
                if empty:
                    fin.heap[k[1]] = ('sym', kind, comp)
                else:
                    init = self.freeze(fin, k[1])
                    fin.heap[k[1]] = ('sym', kind, A('extend' if not isd else 'dupdate', init, comp))
            else:
                kind = o[0] if o[0] in ('list', 'dict', 'set') else o[1]
                fin.heap[k[1]] = ('sym', kind, A('fold', it, self.freeze(fin, k[1]), paths_of(lambda s: self.freeze(s, k[1]))))
            return
        if k[0] == 'var':
            name = k[1]
            if name in targets:
                return
            init = fin.env.get(name)
            vals = paths_of(lambda s: self.freeze(s, s.env.get(name, NONE)))
            fin.env[name] = self.fold(it, self.freeze(fin, init) if init is not None else A('unbound', name), vals, A('lv', it, name))
            return
        f = k[1]
        init = fin.fields.get(f, A('attr', f[0], str(f[1])))
        vals = paths_of(lambda s: self.freeze(s, s.fields.get(f, NONE)))
        fin.fields[f] = self.fold(it, self.freeze(fin, init), vals, A('lv', it, str(f[1])))

    def fold(self, it, init, vals, lv):
        # counter
        incs = []
        for p, v in vals:
            d = sub(v, lv) if (isA(v) or v[0] == 'a' or isC(v)) else None
            if d is not None and isC(d) and isinstance(d[2], int):
                incs.append((p, d))
            else:
                incs = None
                break
        if incs:
            items = tuple((p, (A('one'),) * max(0, d[2])) for p, d in incs)
            items = self.merge_comp(items)
            n = A('len', A('comp', order_iter(it), items))
            if len(items) == 1 and not items[0][0] and len(items[0][1]) == 1:
                n = A('len', order_iter(it))
            return add(init, n) if init != C(0) else n
        best = self.running_best(it, init, vals, lv)
        if best is not None:
            return best
        return A('fold', order_iter(it), init, tuple(vals))

    def running_best(self, it, init, vals, lv):
        """a variable that holds the largest (smallest) element seen so far: ('maxof'|'minof', candidates, key)"""
        if init != NONE:
            return None
        new = {v for _, v in vals if v != lv}
        if len(new) != 1 or any(x == lv for v in new for x in subterms(v)):
            return None
        e = new.pop()
        key, groups = None, {}
        for p, v in vals:
            guard, empty, wins = set(), None, None
            for a, b in p:
                if not any(x == lv for x in subterms(a)):
                    guard.add((a, b))
                elif a[1] in ('eq', 'truthy') and a in (eq(lv, NONE), truth(lv)):
                    empty = b if a[1] == 'eq' else not b
                elif a[1] in ('le0', 'lt0') and wins is None:
                    co, c0 = linear(a[2])
                    old = {t: c for t, c in co.items() if any(x == lv for x in subterms(t))}
                    if len(old) != 1 or c0 != 0:
                        return None
                    t, c = list(old.items())[0]
                    if abs(c) != 1 or a[2] != (sub(t, subst(t, {lv: e})) if c == 1 else sub(subst(t, {lv: e}), t)):
                        return None
                    k = subst(t, {lv: A('$x')})
                    if key not in (None, k):
                        return None
                    key = k
                    wins = b if c == 1 else not b          # the new element is at least / more than the old one
                else:
                    return None
            groups.setdefault(frozenset(guard), set()).add((empty, wins, v == e))
        if key is None:
            return None
        op, comp = None, []
        for g, cases_ in groups.items():
            if cases_ <= {(None, None, False), (False, None, False)}:
                continue
            first = {c for c in cases_ if c[0] is True}
            later = {c for c in cases_ if c[0] is not True}
            if first != {(True, None, True)} or len(later) != 2 or len(cases_) != 3 or {c[1] for c in later} != {True, False} or \
                    len({c[1] == c[2] for c in later}) != 1:
                return None
            this = 'maxof' if all(c[1] == c[2] for c in later) else 'minof'
            if op not in (None, this):
                return None
            op = this
            comp.append((g, (e,)))
        if op is None:
            return None
        return A(op, A('comp', base_iter(it), self.merge_comp(tuple(comp))), key)

    def merge_comp(self, items):
        """join comprehension paths with the same element"""
        by = {}
        for p, el in items:
            by.setdefault(el, []).append(p)
        out = []
        for el, ps in by.items():
            for p in reduce_dnf(ps):
                out.append((p, el))
        return tuple(sorted(out, key=repr))

    def ex_While(self, n, st):
        if not self.cfg.peel:
            return self.while_rest(n, st)
        out, after, live = [], [], [st]
        for _ in range(self.cfg.peel):
            nxt = []
            for s in live:
                for s1, v in self.ev(n.test, s):
                    if isinstance(v, Raised):
                        out.append((s1, ('raise', v.exc)))
                        continue
                    t, f = self.branch(s1, v)
                    for x in f:
                        out.extend(self.exec_block(n.orelse, x) if n.orelse else [(x, None)])
                    for x in t:
                        for s2, ctl in self.exec_block(n.body, x):
                            if ctl is None or ctl[0] == 'cont':
                                nxt.append(s2)
                            elif ctl[0] == 'break':
                                after.append((s2, None))
                            else:
                                out.append((s2, ctl))
            live = nxt
        for s in live:
            out.extend(self.while_rest(n, s))
        return out + after

    def while_rest(self, n, st):
        tag = A('while', ast.dump(n.test)[:120])
        H = set()
        for _ in range(5):
            s = st.copy()
            self.havoc(s, H, tag)
            begin = s.copy()
            res, exits = [], []
            for s1, v in self.ev(n.test, s):
                if isinstance(v, Raised):
                    res.append((s1, ('raise', v.exc)))
                    continue
                t, f = self.branch(s1, v)
                exits.extend(f)
                for x in t:
                    res.extend(self.exec_block(n.body, x))
            grow = set()
            for s2, ctl in res:
                if ctl is None or ctl[0] == 'cont':
                    grow |= self.changed(begin, s2)
            if grow <= H:
                break
            H |= grow
        out, after = [], []
        nev = len(begin.events)
        loop_events = tuple((frozenset((a, v) for a, v in s2.facts.items() if begin.facts.get(a) != v), s2.events[nev:]) for s2, ctl in res if (ctl is None or ctl[0] == 'cont') and len(s2.events) > nev)
        for s2, ctl in res:
            if ctl is None or ctl[0] == 'cont':
                continue
            if ctl[0] == 'break':
                if loop_events:
                    s2.events = s2.events[:nev] + (('loop', tag, loop_events, None, None, self.loc(n), None, NONE),) + s2.events[nev:]
                after.append(s2)
            else:
                if loop_events:
                    s2.events = s2.events[:nev] + (('loop', tag, loop_events, None, None, self.loc(n), None, NONE),) + s2.events[nev:]
                out.append((s2, ctl))
        for s in exits:
            if loop_events:
                s.events += (('loop', tag, loop_events, None, None, self.loc(n), None, NONE),)
            out.extend(self.exec_block(n.orelse, s) if n.orelse else [(s, None)])
        out.extend((s, None) for s in after)
        return out

    # ------------------------------------------------------------ entry points
    def run(self, key, args, kw=(), setup=None):
        """analyse function `key`; args: list of values or name strings for unknown inputs"""
        self.p.func(key)
        st = State()
        st.frames = [('<entry>', {}, (self.p.func(key).mod, None, ()))]
        if setup:
            setup(st)
        return self.call_func(st, ('f', key, ()), list(args), tuple(kw), None)


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for x in ast.walk(t):
        if hasattr(x, 'ctx') and x is t:
            x.ctx = ast.Load()
    return t


def sym(name, cls=None):
    return ('s', name, cls)
