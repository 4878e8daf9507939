"""Value-number domain.

Values are immutable tuples:
  ('c', typename, v)     literal constant
  ('s', name, cls)       unknown input (cls: class key or None)
  ('g', qualname, cls)   a module/class level object with its own identity
  ('a', op, arg, ...)    an operation applied to values (value number)
  ('t', (v, ...))        tuple
  ('r', n)               object allocated by the analysed code
  ('f', key, captured)   function, ('bm', recv, key) bound method
  ('k', key)             class of the repository, ('m', name) module of the repository
  ('x', dotted)          name outside the repository
Truth values are formulas: boolean constants, atoms (('a', op, ...) with op in BOOL_OPS)
and ('not', f), ('and', fs), ('or', fs).
"""

NONE = ('c', 'NoneType', None)
TRUE = ('c', 'bool', True)
FALSE = ('c', 'bool', False)
BOOL_OPS = {'eq', 'lt0', 'le0', 'eq0', 'in', 'isinst', 'truthy', 'forall', 'bytes_eq', 'hasattr', 'callable',
            'm:startswith', 'm:endswith', 'is'}
NUM_OPS = {'lin', 'max', 'min', 'abs', 'int', 'len'}


def C(v):
    if v is None:
        return NONE
    return ('c', type(v).__name__, v)


def isC(t):
    return t[0] == 'c'


def A(op, *args):
    return ('a', op) + args


def isA(t, op=None):
    return t[0] == 'a' and (op is None or t[1] == op)


def T(items):
    return ('t', tuple(items))


def is_formula(t):
    return t in (TRUE, FALSE) or t[0] in ('not', 'and', 'or') or (t[0] == 'a' and t[1] in BOOL_OPS)


def NOT(f):
    if f == TRUE:
        return FALSE
    if f == FALSE:
        return TRUE
    if f[0] == 'not':
        return f[1]
    if f[0] == 'and':
        return OR(*[NOT(x) for x in f[1]])
    if f[0] == 'or':
        return AND(*[NOT(x) for x in f[1]])
    return ('not', f)


def AND(*fs):
    out = []
    for f in fs:
        if f == FALSE:
            return FALSE
        if f == TRUE:
            continue
        for x in (f[1] if f[0] == 'and' else (f,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def OR(*fs):
    out = []
    for f in fs:
        if f == TRUE:
            return TRUE
        if f == FALSE:
            continue
        for x in (f[1] if f[0] == 'or' else (f,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


# ---------------------------------------------------------------- arithmetic

def is_num(t):
    if isC(t):
        return t[1] in ('int', 'float', 'bool')
    return isA(t) and t[1] in NUM_OPS


def linear(t):
    """-> (dict term -> coefficient, constant)"""
    if isC(t) and t[1] in ('int', 'float', 'bool'):
        return {}, t[2]
    if isA(t, 'lin'):
        return dict(t[2]), t[3]
    if isA(t, '+'):
        a, ca = linear(t[2])
        b, cb = linear(t[3])
        return _ladd(a, b, 1), ca + cb
    if isA(t, 'int') and len(t) == 3:
        return {t[2]: 1}, 0
    return {t: 1}, 0


def _ladd(a, b, s):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
        if out[k] == 0:
            del out[k]
    return out


def mklin(d, c):
    if not d:
        return C(c)
    items = tuple(sorted(d.items(), key=lambda kv: repr(kv[0])))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('a', 'lin', items, c)


def add(a, b):
    (x, cx), (y, cy) = linear(a), linear(b)
    return mklin(_ladd(x, y, 1), cx + cy)


def sub(a, b):
    (x, cx), (y, cy) = linear(a), linear(b)
    return mklin(_ladd(x, y, -1), cx - cy)


def mulc(a, k):
    x, c = linear(a)
    if k == 0:
        return C(0)
    return mklin({t: v * k for t, v in x.items()}, c * k)


def _mm(t):
    """t = ±max/min/abs(..) + rest -> (kind, alternatives) with everything expanded, else None"""
    d, c = linear(t)
    for k, v in d.items():
        if isA(k) and k[1] in ('max', 'min', 'abs') and v in (1, -1):
            rest = dict(d)
            del rest[k]
            r = mklin(rest, c)
            op = k[1]
            alts = (k[2], mulc(k[2], -1)) if op == 'abs' else k[2:]
            kind = 'max' if op in ('max', 'abs') else 'min'
            if v == -1:
                kind = 'min' if kind == 'max' else 'max'
                alts = tuple(mulc(x, -1) for x in alts)
            return kind, [add(x, r) for x in alts]
    return None


def lt0(t):
    """formula for t < 0"""
    if isC(t):
        return C(bool(t[2] < 0))
    m = _mm(t)
    if m:
        return (AND if m[0] == 'max' else OR)(*[lt0(x) for x in m[1]])
    f = _findform('lt0', t)
    return f if f is not None else _atom('lt0', t)


def _findform(op, t):
    """s.find(x) compared with -1 or 0, as the membership test it stands for"""
    d, c = linear(t)
    if len(d) != 1:
        return None
    (k, v), = d.items()
    if v not in (1, -1) or not isA(k):
        return None
    if k[1] == 'len' and isA(k[2]) and k[2][1] in ('m:split', 'm:rsplit') and len(k[2]) in (4, 5) and isC(k[2][3]) and isinstance(k[2][3][2], (str, bytes)) and k[2][3][2]:
        # how many pieces s.split(sep[, 1]) has
        k = k[2]
        if len(k) == 5 and k[4] != C(1):
            return None
        none, some = 1, (2,) if len(k) == 5 else (2, 3, 10 ** 6)
    elif k[1] in ('m:find', 'm:rfind', 'm:count') and len(k) == 4:
        none, some = (0, (1, 2, 10 ** 6)) if k[1] == 'm:count' else (-1, (0, 1, 10 ** 6))
    else:
        return None
    test = {'lt0': lambda x: x < 0, 'le0': lambda x: x <= 0, 'eq0': lambda x: x == 0}[op]
    absent, rest = test(v * none + c), [test(v * n + c) for n in some]
    if all(r == rest[0] for r in rest) and absent != rest[0]:
        member = A('in', k[3], k[2])
        return NOT(member) if absent else member
    return None


def le0(t):
    if isC(t):
        return C(bool(t[2] <= 0))
    m = _mm(t)
    if m:
        return (AND if m[0] == 'max' else OR)(*[le0(x) for x in m[1]])
    f = _findform('le0', t)
    return f if f is not None else _atom('le0', t)


def eq0(t):
    if isC(t):
        return C(bool(t[2] == 0))
    m = _mm(t)
    if m:
        # max(..) == 0  <=>  max <= 0 and max >= 0
        return AND(le0(t), le0(mulc(t, -1)))
    f = _findform('eq0', t)
    if f is not None:
        return f
    d, c = linear(t)
    ln = _lenform(d, c)
    if ln is not None:
        return NOT(truth(ln)) if c == 0 else _atom('eq0', t)
    return _atom('eq0', t)


def _lenform(d, c):
    if len(d) == 1:
        (k, v), = d.items()
        if isA(k, 'len') and v == 1:
            return k[2]
    return None


def _whole(k):
    # a text in a linear form stands for int(text)
    return isA(k, 'int') or k[0] == 's' and k[2] == 'x:str'


def _atom(op, t):
    d, c = linear(t)
    if op in ('lt0', 'le0') and len(d) == 1:
        (k, v), = d.items()
        if isA(k, 'len'):
            if (op == 'le0' and v > 0 and c == 0) or (op == 'lt0' and v > 0 and c == -v):
                return NOT(truth(k[2]))
            if (op == 'lt0' and v < 0 and c == 0) or (op == 'le0' and v < 0 and c == -v):
                return truth(k[2])
            if (op == 'lt0' and v > 0 and c >= 0) or (op == 'le0' and v > 0 and c > 0):
                return FALSE
            if (op == 'le0' and v < 0 and c <= 0) or (op == 'lt0' and v < 0 and c < 0):
                return TRUE
    lead = sorted(d.items(), key=lambda kv: repr(kv[0]))[0][1]
    if op == 'eq0':
        if lead < 0:
            t = mulc(t, -1)
        return ('a', 'eq0', t)
    if op in ('lt0', 'le0') and len(d) == 1 and abs(lead) == 1 and isinstance(c, int) and _whole(next(iter(d))):
        # over the integers n + c < 0 and n + c + 1 <= 0 are one fact: keep the second spelling
        if lead < 0:
            t = mulc(t, -1)
            return ('not', ('a', 'le0', t if op == 'lt0' else add(t, C(1))))
        return ('a', 'le0', t if op == 'le0' else add(t, C(1)))
    if lead < 0:
        # -L < 0  <=>  not (L <= 0)
        return ('not', ('a', 'le0' if op == 'lt0' else 'lt0', mulc(t, -1)))
    return ('a', op, t)


# ---------------------------------------------------------------- comparison

def _distinct(a, b):
    """a and b certainly differ"""
    heads = (a[0], b[0])
    if a[0] == 'g' and b[0] == 'g':
        return a[1] != b[1]
    for x, y in ((a, b), (b, a)):
        if x[0] in ('g', 'r', 'k', 'f', 'bm', 'm') and y[0] in ('c',):
            return True
        if x[0] in ('g', 'k', 'f', 'm') and y[0] in ('r', 'g', 'k', 'f', 'm', 't') and x[0] != y[0]:
            return True
        if x[0] == 't' and y[0] == 'c':
            return True
        if x[0] == 's' and y[0] == 'c' and (x[2] == 'x:int' and y[1] in ('str', 'bytes', 'NoneType') or x[2] == 'x:str' and y[1] in ('int', 'NoneType')):
            return True
        if isA(x) and x[1] in ('L', 'D', 'cat', 'comp', 'len', 'int', 'lin') and y == NONE:
            return True
        if isA(x) and x[1] in ('cat', 'fmt', 'm:encode', 'm:decode', 'm:split', 'm:strip', 'm:lower', 'm:join') and (y == NONE or y[0] == 'g'):
            return True
    if isA(a, 'cat') and (isA(b, 'cat') or isC(b)) or isA(b, 'cat') and isC(a):
        return _cat_differ(a, b)
    return False


def _cat_differ(a, b):
    """two texts have different literal beginnings or endings, or lengths that cannot agree"""
    xs, ys = [list(t[2:]) if isA(t, 'cat') else [t] for t in (a, b)]
    lit = lambda t: isC(t) and isinstance(t[2], (str, bytes))  # noqa: E731
    for end in (0, -1):
        while xs and ys:
            x, y = xs[end], ys[end]
            if x == y:
                del xs[end], ys[end]
                continue
            if not (lit(x) and lit(y) and type(x[2]) is type(y[2])):
                break
            n = min(len(x[2]), len(y[2]))
            u, v = (x[2][:n], y[2][:n]) if end == 0 else (x[2][len(x[2]) - n:], y[2][len(y[2]) - n:])
            if u != v:
                return True
            for l, t in ((xs, x), (ys, y)):
                r = t[2][n:] if end == 0 else t[2][:len(t[2]) - n]
                if r:
                    l[end] = C(r)
                else:
                    del l[end]
    if not xs or not ys:
        return any(lit(t) and t[2] for t in xs + ys)
    return False


def eq(a, b):
    if a == b:
        return TRUE
    if isC(a) and isC(b):
        try:
            return C(bool(a[2] == b[2]))
        except Exception:
            return FALSE
    if a[0] == 't' and b[0] == 't':
        if len(a[1]) != len(b[1]):
            return FALSE
        return AND(*[eq(x, y) for x, y in zip(a[1], b[1])])
    if is_num(a) and (is_num(b) or not isC(b)) or is_num(b) and not isC(b) and not isC(a) or \
            (is_num(a) and isC(a) and isA(b, '+')) or (is_num(b) and isC(b) and is_num(a)):
        if not (isC(a) and a[1] == 'bool' or isC(b) and b[1] == 'bool') and a != NONE and b != NONE:
            if is_num(a) and not isC(a) or is_num(b) and not isC(b):
                return eq0(sub(a, b))
    if _distinct(a, b):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if isA(x, 'slice') and x[3] == NONE and x[5] == NONE and \
                (x[4] == A('len', y) or isC(x[4]) and isC(y) and isinstance(y[2], (str, bytes)) and x[4][2] == len(y[2])):
            return A('m:startswith', x[2], y)
        if isA(x) and x[1] in ('m:find', 'm:rfind') and len(x) == 4 and y == C(-1) or isA(x, 'm:count') and len(x) == 4 and y == C(0):
            return NOT(A('in', x[3], x[2]))
        if y == NONE and isA(x, 'call') and (x[2] in ('re.match', 're.search', 're.fullmatch') or x[2] in ('.match', '.search', '.fullmatch') and isA(x[3], 'call') and x[3][2] == 're.compile'):
            # a match object is never empty
            return NOT(truth(x))
        if _separator(x) and (y == C('') or y == _separator(x)[0]):
            member = A('in', *_separator(x))
            return NOT(member) if y == C('') else member
        if y in (TRUE, FALSE) and is_formula(x):
            return x if y == TRUE else NOT(x)
        if isA(x) and x[1] in ('m:encode', 'm:decode') and isA(y, x[1]) and x[3:] == y[3:]:
            return eq(x[2], y[2])
        if isA(x, 'L') and isA(y, 'L') and len(x) == len(y):
            return AND(*[eq(p, q) for p, q in zip(x[2:], y[2:])])
        if isA(x, 'cat') and isA(y, 'cat') and x[2] == y[2] and len(x) == len(y) == 4:
            return eq(x[3], y[3])
        if isA(x, 'D') and isA(y, 'D') and all(p[0] == 't' and len(p[1]) == 2 for p in x[2:] + y[2:]):
            u, v = dict(p[1] for p in x[2:]), dict(p[1] for p in y[2:])
            if not u or not v:
                return C(not u and not v)
            if all(isC(k) for k in u) and all(isC(k) for k in v):
                if set(u) != set(v):
                    return FALSE
                return AND(*[eq(u[k], v[k]) for k in u])
        if isA(x, 'L') and len(x) == 2 and not isA(y, 'L'):
            if isA(y) and y[1] in ('comp',):
                return NOT(truth(y))
    if isC(a) or (not isC(b) and repr(b) < repr(a)):
        a, b = b, a
    return ('a', 'eq', a, b)


def lt(a, b):
    if isC(a) and isC(b):
        try:
            return C(bool(a[2] < b[2]))
        except Exception:
            return ('a', 'truthy', A('lt?', a, b))
    return lt0(sub(a, b))


def le(a, b):
    if isC(a) and isC(b):
        try:
            return C(bool(a[2] <= b[2]))
        except Exception:
            return ('a', 'truthy', A('le?', a, b))
    return le0(sub(a, b))


def truth(t):
    """truthiness of a value as a formula"""
    if is_formula(t):
        return t
    if isC(t):
        return C(bool(t[2]))
    if t[0] == 't':
        return C(bool(t[1]))
    if t[0] in ('g', 'k', 'f', 'bm', 'm', 'x'):
        return TRUE
    if isA(t, 'L') or isA(t, 'D'):
        return C(len(t) > 2)
    if isA(t, 'comp'):
        if not exclusive([fs for fs, el in t[3] if el], [fs for fs, el in t[3] if not el]):
            return ('a', 'truthy', t)
        return NOT(forall(t[2], [fs | {('$never', True)} for fs, el in t[3] if el] +
                          [fs for fs, el in t[3] if not el]))
    if isA(t, 'len'):
        return truth(t[2])
    if isA(t, 'm:count') and len(t) == 4:
        return A('in', t[3], t[2])
    if is_num(t):
        return NOT(eq0(t))
    if isA(t) and t[1] in ('m:strip', 'list', 'sorted', 'set', 'm:keys', 'm:items', 'm:values', 'm:encode', 'm:decode', 'rev', 'tuple') and t[1] != 'm:strip':
        return truth(t[2])
    if isA(t, 'cat'):
        if any(isC(p) and p[2] for p in t[2:]):
            return TRUE
    if _separator(t):
        return A('in', *_separator(t))
    if isA(t, 'text') and is_int(t[2]):
        return TRUE
    return ('a', 'truthy', t)


def is_int(t):
    return isA(t, 'int') or isA(t, 'len') or t[0] == 's' and t[2] == 'x:int'


def _separator(t):
    """(separator, text) when t is the middle element of text.partition(separator)"""
    if isA(t, 'getitem') and t[3] == C(1) and isA(t[2]) and t[2][1] in ('m:partition', 'm:rpartition') and len(t[2]) == 4 and isC(t[2][3]) and t[2][3][2]:
        return t[2][3], t[2][2]
    return None


def exclusive(ps, qs):
    """no element can take a path of ps and a path of qs"""
    return all(any((a, not v) in q for a, v in p) for p in ps for q in qs)


def base_iter(i):
    """strip order/copy wrappers: the set of elements is unchanged"""
    while isA(i) and i[1] in ('list', 'tuple', 'sorted', 'set', 'rev', 'iter', 'frozenset', 'm:keys', 'enumerate'):
        i = i[2]
    return i


def order_iter(i):
    """strip copy wrappers: elements, their number and order are unchanged"""
    while isA(i) and i[1] in ('list', 'tuple', 'iter', 'm:keys', 'enumerate') and not (i[1] == 'list' and len(i) != 3):
        i = i[2]
    return i


def forall(it, paths):
    """every element takes one of `paths` (each a set of (atom, bool); ('$never',True) marks an excluded path)"""
    ok = []
    for p in paths:
        if ('$never', True) in p:
            continue
        if frozenset(p) not in ok:
            ok.append(frozenset(p))
    if any(not p for p in ok):
        return TRUE
    # complementary merging
    ok = reduce_dnf(ok)
    if any(not p for p in ok):
        return TRUE
    return ('a', 'forall', base_iter(it), frozenset(ok))


def reduce_dnf(sets):
    """exact simplification of a DNF given as list of frozensets of (atom, polarity)"""
    sets = list(dict.fromkeys(sets))
    changed = True
    while changed:
        changed = False
        n = len(sets)
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                a, b = sets[i], sets[j]
                if a <= b:
                    sets = [s for k, s in enumerate(sets) if k != j]
                    changed = True
                    break
                # a = X + l ; b ⊇ X + not l  -> b loses (not l)
                for at, v in a:
                    if (at, not v) in b and (a - {(at, v)}) <= (b - {(at, not v)}):
                        nb = b - {(at, not v)}
                        sets = [nb if k == j else s for k, s in enumerate(sets)]
                        sets = list(dict.fromkeys(sets))
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    return sets


def cat(*parts):
    """string concatenation"""
    out = []
    for p in parts:
        sub_ = p[2:] if isA(p, 'cat') else (p,)
        for q in sub_:
            if isA(q, 'text'):
                q = q[2]
            if isC(q) and not isinstance(q[2], (str, bytes)):
                q = C(str(q[2]))
            if isC(q) and q[2] in ('', b''):
                if q[2] == '':
                    continue
            if out and isC(out[-1]) and isC(q) and type(out[-1][2]) == type(q[2]):
                out[-1] = C(out[-1][2] + q[2])
            else:
                out.append(q)
    if not out:
        return C('')
    if len(out) == 1:
        o = out[0]
        return o if isC(o) else ('a', 'text', o) if o[0] != 'a' or o[1] not in ('m:join',) else o
    return ('a', 'cat') + tuple(out)


def subterms(t, seen=None):
    """all sub-values of a value (including itself), through tuples and frozensets"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield x
            for y in x:
                if isinstance(y, (tuple, frozenset)):
                    stack.append(y)


def contains(t, leaf):
    return any(s == leaf for s in subterms(t))


def subst(t, m):
    """replace sub-values by mapping"""
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        return tuple(subst(x, m) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, m) if isinstance(x, (tuple, frozenset)) else x for x in t)
    return t


def show(t, depth=0):
    """compact text of a value"""
    if not isinstance(t, tuple):
        if isinstance(t, frozenset):
            return '{%s}' % ' | '.join(sorted(show(x) for x in t))
        return repr(t)
    if not t:
        return '()'
    h = t[0]
    if h == 'c':
        return repr(t[2])
    if h in ('s', 'g'):
        return t[1].split('.')[-1] if h == 'g' else t[1]
    if h == 't':
        return '(%s)' % ', '.join(show(x) for x in t[1])
    if h == 'r':
        return '#%s' % (t[1],)
    if h in ('k', 'm', 'x'):
        return t[1]
    if h == 'f':
        return '<%s>' % (t[1],)
    if h == 'bm':
        return '%s.<%s>' % (show(t[1]), t[2])
    if h == 'not':
        return 'not(%s)' % show(t[1])
    if h in ('and', 'or'):
        return '(%s)' % ((' %s ' % h).join(show(x) for x in t[1]))
    if h == 'a':
        op = t[1]
        if op == 'attr':
            return '%s.%s' % (show(t[2]), t[3])
        if op == 'lin':
            return '(%s)' % ' + '.join(['%s*%s' % (v, show(k)) for k, v in t[2]] + ([repr(t[3])] if t[3] else []))
        return '%s(%s)' % (op, ', '.join(show(x) if isinstance(x, (tuple, frozenset)) else repr(x) for x in t[2:]))
    return '(%s)' % ', '.join(show(x) if isinstance(x, (tuple, frozenset)) else repr(x) for x in t)
