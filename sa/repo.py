"""
Loading and resolving the analysed program: modules, imports, classes, MRO.

Nothing of the program is executed or imported; everything is read from the
source below REPO on every run.
"""
import ast
import builtins
import glob
import hashlib
import os
import warnings

REPO = os.environ.get('VPATH_REPO', '/repo')
PKG = 'abl.vpath.base'


class Broken(Exception):
    """the analysis can't be carried out on this tree"""


class Func(object):
    def __init__(self, node, module, cls=None, outer=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, 'name', '<lambda>')
        base = cls.qual if cls else module.name
        self.qual = base + '.' + self.name
        self.is_gen = _is_gen(node)
        self.decorators = list(getattr(node, 'decorator_list', []))

    def __repr__(self):
        return '<%s>' % self.qual

    @property
    def short(self):
        q = self.qual
        return q[len(PKG) + 1:] if q.startswith(PKG + '.') else q

    def has_decorator(self, *names):
        for d in self.decorators:
            if isinstance(d, ast.Call):
                d = d.func
            n = d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)
            if n in names:
                return True
        return False

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


def _is_gen(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.AsyncFunctionDef, ast.GeneratorExp)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo(object):
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.qual = module.name + '.' + node.name
        self.methods = {}
        self.attrs = {}
        self.props = {}        # name -> (getter, setter)
        self.bases = []        # ClassInfo or dotted name
        for st in _flat(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(st, module, self)
                if f.has_decorator('setter'):
                    g = self.props.get(st.name, (None, None))[0]
                    self.props[st.name] = (g, f)
                elif f.has_decorator('property', 'cached_property'):
                    self.props[st.name] = (f, None)
                    self.methods.pop(st.name, None)
                else:
                    self.methods[st.name] = f
                    self.props.pop(st.name, None)
                    self.attrs.pop(st.name, None)
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                if st.value is None:
                    continue
                tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tgts:
                    if isinstance(t, ast.Name):
                        self._bind_attr(t.id, st.value)

    def _bind_attr(self, name, value):
        self.methods.pop(name, None)
        if isinstance(value, ast.Name) and value.id in self.methods:
            self.methods[name] = self.methods[value.id]
            return
        if (isinstance(value, ast.Call) and isinstance(value.func, ast.Name)
                and value.func.id == 'property'):
            fs = [self.methods.get(a.id) if isinstance(a, ast.Name) else None
                  for a in value.args]
            kw = {k.arg: self.methods.get(k.value.id) for k in value.keywords
                  if isinstance(k.value, ast.Name)}
            self.props[name] = (fs[0] if fs else kw.get('fget'),
                                fs[1] if len(fs) > 1 else kw.get('fset'))
            return
        self.attrs[name] = value

    def mro(self):
        # single inheritance is all the package uses; linearise depth first
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassInfo):
                    out.append(b)
        return out

    def find(self, name, after=None):
        """('method', Func) | ('prop', (g, s)) | ('attr', expr, class) | None"""
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro[1:]
        for c in mro:
            if name in c.props:
                return ('prop', c.props[name])
            if name in c.methods:
                return ('method', c.methods[name])
            if name in c.attrs:
                return ('attr', c.attrs[name], c)
        return None

    def method(self, name):
        r = self.find(name)
        return r[1] if r and r[0] == 'method' else None

    def isa(self, name):
        return any(c.name == name for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.qual


def _flat(body):
    """statements of a body, those below if/try/with included"""
    for st in body:
        yield st
        if isinstance(st, ast.If):
            for x in _flat(st.body + st.orelse):
                yield x
        elif isinstance(st, ast.Try):
            b = st.body + st.orelse + st.finalbody
            for h in st.handlers:
                b = b + h.body
            for x in _flat(b):
                yield x
        elif isinstance(st, ast.With):
            for x in _flat(st.body):
                yield x


class Module(object):
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, path)
        self.names = {}     # name -> ('func',F)|('class',C)|('import',dotted)|('expr',node,count)
        is_pkg = os.path.basename(path) == '__init__.py'
        for st in _flat(self.tree.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ('func', Func(st, self))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ('class', ClassInfo(st, self))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ('import', a.name)
                    else:
                        top = a.name.split('.')[0]
                        self.names[top] = ('import', top)
            elif isinstance(st, ast.ImportFrom):
                if st.level:
                    parts = name.split('.')
                    if not is_pkg:
                        parts = parts[:-1]
                    if st.level > 1:
                        parts = parts[:-(st.level - 1)]
                    base = '.'.join(parts + ([st.module] if st.module else []))
                else:
                    base = st.module
                for a in st.names:
                    if a.name == '*':
                        self.names.setdefault('*', ('star', []))[1].append(base)
                        continue
                    self.names.setdefault(a.asname or a.name,
                                          ('import', base + '.' + a.name))
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                if st.value is None:
                    continue
                tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tgts:
                    if isinstance(t, ast.Name):
                        old = self.names.get(t.id)
                        n = old[2] + 1 if old and old[0] == 'expr' else (2 if old else 1)
                        self.names[t.id] = ('expr', st.value, n)


class Repo(object):
    def __init__(self, root=None, overlay=None):
        self.root = root or REPO
        self.modules = {}
        self.digest = hashlib.sha256()
        top = os.path.join(self.root, 'abl', 'vpath')
        files = sorted(glob.glob(os.path.join(top, '**', '*.py'), recursive=True))
        if not files:
            raise Broken('no source found below %s' % top)
        for p in files:
            rel = os.path.relpath(p, self.root)
            if os.path.basename(p) == '_version.py':
                continue    # generated, no part of the semantics
            src = (overlay or {}).get(rel)
            if src is None:
                with open(p, encoding='utf-8') as f:
                    src = f.read()
            name = rel[:-3].replace(os.sep, '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            self.digest.update(rel.encode() + b'\0' + src.encode() + b'\0')
            try:
                self.modules[name] = Module(name, rel, src)
            except SyntaxError as e:
                raise Broken('%s does not parse: %s' % (rel, e))
        for m in self.modules.values():
            for kind in m.names.values():
                if kind[0] == 'class':
                    c = kind[1]
                    c.bases = [self._base(m, b) for b in c.node.bases]

    def _base(self, m, expr):
        d = dotted(expr)
        if d is None:
            return '?'
        r = self.resolve(m, d)
        return r[1] if r and r[0] == 'class' else (r[1] if r and r[0] == 'ext' else d)

    def resolve(self, m, name):
        """what a (dotted) name means in module m"""
        head, _, rest = name.partition('.')
        k = m.names.get(head)
        if k is None:
            for base in m.names.get('*', (None, []))[1]:
                mod = self.modules.get(base)
                if mod and head in mod.names:
                    return self.resolve(mod, name)
            if hasattr(builtins, head):
                return ('ext', name)
            return None
        if k[0] in ('func', 'class', 'expr'):
            if rest:
                return None
            return k + (m, head) if k[0] == 'expr' else k
        if k[0] == 'import':
            return self.resolve_abs(k[1] + ('.' + rest if rest else ''))
        return None

    def resolve_abs(self, full):
        if full in self.modules:
            return ('module', self.modules[full])
        parts = full.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = self.modules.get('.'.join(parts[:i]))
            if mod is not None:
                r = self.resolve(mod, '.'.join(parts[i:]))
                if r is not None:
                    return r
                break
        return ('ext', full)

    # -- lookup by the names the properties are anchored at -------------------
    def cls(self, name, required=True):
        found = []
        for m in self.modules.values():
            k = m.names.get(name)
            if k and k[0] == 'class':
                found.append(k[1])
        if not found:
            if required:
                raise Broken('class %s not found' % name)
            return None
        return found[0]

    def func(self, name, required=True):
        for m in self.modules.values():
            k = m.names.get(name)
            if k and k[0] == 'func':
                return k[1]
        if required:
            raise Broken('function %s not found' % name)

    def method(self, cname, mname, required=True):
        c = self.cls(cname, required)
        f = c.method(mname) if c else None
        if f is None and required:
            raise Broken('%s.%s not found' % (cname, mname))
        return f

    def classes(self):
        for m in self.modules.values():
            for k in m.names.values():
                if k[0] == 'class' and k[1].module is m:
                    yield k[1]

    def functions(self):
        """every function and method, nested ones excluded"""
        for m in self.modules.values():
            for k in m.names.values():
                if k[0] == 'func' and k[1].module is m:
                    yield k[1]
        for c in self.classes():
            seen = set()
            for f in list(c.methods.values()) + [x for gs in c.props.values() for x in gs if x]:
                if id(f) not in seen and f.cls is c:
                    seen.add(id(f))
                    yield f

    def subclasses(self, name):
        return [c for c in self.classes() if c.isa(name)]


def dotted(expr):
    if isinstance(expr, ast.Name):
        return expr.id
    if isinstance(expr, ast.Attribute):
        b = dotted(expr.value)
        return b + '.' + expr.attr if b else None
    return None
