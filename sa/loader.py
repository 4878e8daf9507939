"""Parse /repo/openid and index modules, classes and functions (nothing is imported or executed)."""
import ast
import hashlib
import os


class AnchorMissing(Exception):
    """Something the analysis is anchored on is gone from the tree."""


def _mentions(node):
    """simple names a function body refers to, handler types left out; prefixes of names it builds for getattr"""
    names, prefixes = set(), set()

    def walk(n):
        if isinstance(n, ast.ExceptHandler):
            for c in n.body:
                walk(c)
            return
        if isinstance(n, ast.Name):
            names.add(n.id)
        elif isinstance(n, ast.Attribute):
            names.add(n.attr)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1:
            a = n.args[1]
            if isinstance(a, ast.BinOp):
                a = a.left
            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                prefixes.add(a.value.split('%')[0].split('{')[0])
            else:
                prefixes.add('')
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(node)
    return names, prefixes


class FuncInfo(object):
    def __init__(self, key, node, mod, cls, kind, parent=None):
        self.key, self.node, self.mod, self.cls, self.kind, self.parent = key, node, mod, cls, kind, parent
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = a.defaults
        self.kw_defaults = a.kw_defaults
        self.is_gen = False
        if isinstance(node, ast.FunctionDef):
            for n in _own_nodes(node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True

    @property
    def where(self):
        return '%s:%d %s' % (self.mod.relpath, self.node.lineno, self.key)


def _own_nodes(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo(object):
    def __init__(self, key, node, mod):
        self.key, self.node, self.mod = key, node, mod
        self.name = node.name
        self.attrs = {}      # name -> ('func', FuncInfo) | ('expr', node) | ('import', term) | ('class', ClassInfo)
        self.base_nodes = node.bases

    @property
    def where(self):
        return '%s:%d %s' % (self.mod.relpath, self.node.lineno, self.key)


class ModInfo(object):
    def __init__(self, name, path, relpath, tree):
        self.name, self.path, self.relpath, self.tree = name, path, relpath, tree
        self.globals = {}    # name -> list of bindings


class Program(object):
    def __init__(self, root='/repo', package='openid'):
        self.root = root
        self.mods = {}
        self.classes = {}
        self.funcs = {}
        self.digest = hashlib.sha256()
        pkg = os.path.join(root, package)
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x not in ('test', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        if not self.mods:
            raise AnchorMissing('no modules under %s' % pkg)
        self.meth_owners = {}
        for c in self.classes.values():
            for n, b in c.attrs.items():
                if b[0] in ('func', 'expr'):
                    self.meth_owners.setdefault(n, []).append(c.key)
        self._mro = {}

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        name = rel[:-3].replace(os.sep, '.')
        if name.endswith('.__init__'):
            name = name[:-9]
        src = open(path, 'rb').read()
        self.digest.update(rel.encode() + b'\0' + src + b'\0')
        tree = ast.parse(src, filename=rel)
        m = ModInfo(name, path, rel, tree)
        m.is_pkg = path.endswith('__init__.py')
        self.mods[name] = m
        self._index(m, tree.body, m.globals, name, None)

    def client(self, name, src):
        """add a module written by a rule: a client program of the package, analysed like the package itself"""
        if name not in self.mods:
            tree = ast.parse(src, filename='<%s>' % name)
            m = ModInfo(name, name, '<%s>' % name, tree)
            m.is_pkg = False
            self.mods[name] = m
            self._index(m, tree.body, m.globals, name, None)
            self._mro = {}

    def _bind(self, table, name, b):
        table.setdefault(name, []).append(b)

    def _imports(self, m, st):
        out = []
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out.append((a.asname, ('mod', a.name)))
                else:
                    out.append((a.name.split('.')[0], ('mod', a.name.split('.')[0])))
        else:
            base = st.module or ''
            if st.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (st.level - 1)]
                base = '.'.join(parts + ([st.module] if st.module else []))
            for a in st.names:
                out.append((a.asname or a.name, ('from', base, a.name)))
        return out

    def _index(self, m, body, table, prefix, cls):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                kind = 'func'
                for d in st.decorator_list:
                    dn = ast.unparse(d)
                    if dn in ('staticmethod', 'classmethod', 'property'):
                        kind = dn
                    elif dn.endswith('.setter'):
                        kind = 'setter'
                key = prefix + '.' + st.name
                fi = FuncInfo(key, st, m, cls, kind)
                if kind != 'setter':
                    self.funcs[key] = fi
                    self._add(table, st.name, ('func', fi), cls)
                self._nested(fi)
            elif isinstance(st, ast.ClassDef):
                key = prefix + '.' + st.name
                ci = ClassInfo(key, st, m)
                self.classes[key] = ci
                self._add(table, st.name, ('class', ci), cls)
                self._index(m, st.body, ci.attrs, key, ci)
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                for n, b in self._imports(m, st):
                    self._add(table, n, ('import', b), cls)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self._add(table, t.id, ('expr', st.value), cls)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self._add(table, e.id, ('item', st.value, i), cls)
                    elif isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and cls is None:
                        for b in table.get(t.value.id, ()):
                            if b[0] == 'class':
                                b[1].attrs[t.attr] = ('gexpr', st.value)
                self._lambdas(st, m, prefix)
            elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
                self._add(table, st.target.id, ('expr', st.value), cls)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self._add(table, st.target.id, ('aug', st), cls)
            elif isinstance(st, ast.If):
                self._index(m, st.body, table, prefix, cls)
                self._index(m, st.orelse, table, prefix, cls)
            elif isinstance(st, ast.Try):
                self._index(m, st.body, table, prefix, cls)
                for h in st.handlers:
                    self._index(m, h.body, table, prefix, cls)
                self._index(m, st.orelse, table, prefix, cls)
                self._index(m, st.finalbody, table, prefix, cls)

    def _add(self, table, name, b, cls):
        if cls is not None:
            if name in table and b[0] == 'expr' and isinstance(b[1], ast.Constant) and b[1].value is None:
                return      # try: import X as name / except: name = None
            table[name] = b
        else:
            table.setdefault(name, []).append(b)

    def _lambdas(self, st, m, prefix):
        for n in ast.walk(st):
            if isinstance(n, ast.Lambda):
                key = '%s.<lambda>@%d:%d' % (prefix, n.lineno, n.col_offset)
                if key not in self.funcs:
                    self.funcs[key] = FuncInfo(key, n, m, None, 'func')
                n._key = key

    def _nested(self, fi):
        for n in _own_nodes(fi.node):
            if isinstance(n, ast.FunctionDef):
                key = fi.key + '.<locals>.' + n.name
                if key in self.funcs:
                    key += '@%d' % n.lineno
                sub = FuncInfo(key, n, fi.mod, fi.cls, 'func', parent=fi)
                self.funcs[key] = sub
                n._key = key
                self._nested(sub)
            elif isinstance(n, ast.Lambda):
                key = '%s.<lambda>@%d:%d' % (fi.key, n.lineno, n.col_offset)
                self.funcs[key] = FuncInfo(key, n, fi.mod, fi.cls, 'func', parent=fi)
                n._key = key

    # -------------------------------------------------------------- exceptions of code that is not followed
    def may_mention(self, name, cls):
        """may a call of `name` (not followed) end with an exception of the package's class `cls`: does any function it
        may reach, by name, mention the class or one of its subclasses"""
        if name.startswith('.'):
            name = name[1:]
        key, name = name, name.split('.')[-1]
        if not name.isidentifier():
            return True
        memo = self.__dict__.setdefault('_mention', {})
        by_name = memo.get('$by_name')
        if by_name is None or memo['$n'] != len(self.funcs):
            memo.clear()
            by_name, memo['$n'] = {}, len(self.funcs)
            for f in self.funcs.values():
                by_name.setdefault(f.name, []).append(f)
                if f.cls is not None and f.name.startswith('__'):
                    by_name.setdefault('$' + (f.cls if isinstance(f.cls, str) else f.cls.key).split('.')[-1], []).append(f)
            memo['$by_name'] = by_name
        reach = memo.get(key)
        if reach is None:
            reach, todo, done = set(), [self.funcs[key]] if key in self.funcs else list(by_name.get(name, ())), set()
            while todo:
                f = todo.pop()
                if f.key in done:
                    continue
                done.add(f.key)
                names, prefixes = _mentions(f.node)
                reach |= names
                for n in names:
                    todo += by_name.get(n, []) + by_name.get('$' + n, [])
                for pre in prefixes:
                    for n in by_name:
                        if n.startswith(pre) and not n.startswith('$'):
                            todo += by_name[n]
            memo[key] = reach
        return any(c.split('.')[-1] in reach for c in self.classes if self.is_subclass(c, cls))

    # -------------------------------------------------------------- lookups
    def func(self, key):
        if key not in self.funcs:
            raise AnchorMissing('function %s not found' % key)
        return self.funcs[key]

    def cls(self, key):
        if key not in self.classes:
            raise AnchorMissing('class %s not found' % key)
        return self.classes[key]

    def resolve_name(self, mod, name, seen=()):
        """resolve a module-level name to ('func'|'class'|'expr'|'mod'|'ext', ...)"""
        if (mod.name, name) in seen:
            return None
        bs = mod.globals.get(name)
        if not bs:
            sub = mod.name + '.' + name
            if sub in self.mods:
                return ('mod', sub)
            return None
        b = bs[0]
        if b[0] == 'import':
            return self.resolve_import(b[1], seen + ((mod.name, name),))
        if b[0] in ('func', 'class'):
            return (bs[-1][0], bs[-1][1]) if bs[-1][0] in ('func', 'class') else ('expr', mod, name, bs)
        return ('expr', mod, name, bs)

    def resolve_import(self, b, seen=()):
        if b[0] == 'mod':
            if b[1] in self.mods:
                return ('mod', b[1])
            return ('ext', b[1])
        _, base, name = b
        if base + '.' + name in self.mods and (base not in self.mods or name not in self.mods[base].globals):
            return ('mod', base + '.' + name)
        if base in self.mods:
            r = self.resolve_name(self.mods[base], name, seen)
            if r is None:
                return ('ext', base + '.' + name)
            return r
        return ('ext', (base + '.' if base else '') + name)

    def bases(self, ci):
        out = []
        for b in ci.base_nodes:
            t = ast.unparse(b)
            parts = t.split('.')
            r = self.resolve_name(ci.mod, parts[0])
            if r is None and parts[0] in ci.mod.globals:
                r = None
            for p in parts[1:]:
                if r is None:
                    break
                if r[0] == 'mod':
                    r = self.resolve_name(self.mods[r[1]], p)
                elif r[0] == 'ext':
                    r = ('ext', r[1] + '.' + p)
                else:
                    r = None
            if r is None:
                out.append(('ext', t))
            elif r[0] == 'class':
                out.append(('class', r[1].key))
            elif r[0] == 'ext':
                out.append(r)
            else:
                out.append(('ext', t))
        return out

    def mro(self, key):
        """[class keys of the repository ... then external base names as 'x:Name']"""
        if key in self._mro:
            return self._mro[key]
        out, ext = [key], []
        for k, b in self.bases(self.classes[key]):
            if k == 'class':
                for x in self.mro(b):
                    if x.startswith('x:'):
                        if x not in ext:
                            ext.append(x)
                    elif x in out:
                        out.remove(x)
                        out.append(x)
                    else:
                        out.append(x)
            else:
                n = 'x:' + b
                if n not in ext:
                    ext.append(n)
        self._mro[key] = out + ext
        return self._mro[key]

    def is_subclass(self, key, base):
        return base in self.mro(key)

    def class_attr(self, key, name):
        for k in self.mro(key):
            if k.startswith('x:'):
                continue
            c = self.classes[k]
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def subclasses(self, key):
        return sorted(k for k in self.classes if key in self.mro(k))

    def methods_with_prefix(self, key, prefix):
        names = set()
        for k in self.mro(key):
            if not k.startswith('x:'):
                names.update(n for n in self.classes[k].attrs if n.startswith(prefix))
        return sorted(names)
