"""C24: connections share no state."""
from . import rules_for
from .common import *
from ..repo import _flat

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'setdefault', 'add',
            'discard', 'sort', 'reverse', 'appendleft', 'popleft', 'move_to_end', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__setattr__'}
CONTAINERS = {'dict', 'list', 'set', 'defaultdict', 'OrderedDict', 'deque', 'Counter', 'bytearray', 'Bunch',
              'WeakKeyDictionary', 'WeakValueDictionary', 'WeakSet', 'SimpleNamespace', 'namedtuple', 'local'}
STATEFUL = {'Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore', 'Event', 'BytesIO', 'StringIO', 'Thread',
            'Queue', 'ZipFile', 'open', 'TemporaryFile', 'count', 'iter'} | CONTAINERS
DISPLAYS = (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)
CACHES = ('lru_cache', 'cache', 'cached', 'memoize', 'memoized')


def resolved(repo, m, name):
    r = repo.resolve(m, name)
    return r[1] if r and r[0] in ('class', 'func') else None


class Scope(object):
    """what the names of one function stand for"""

    def __init__(self, repo, f, cls):
        self.repo = repo
        self.f = f
        self.cls = cls
        self.mod = f.module
        n = f.node
        a = n.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        self.static = f.has_decorator('staticmethod')
        self.clsmeth = f.has_decorator('classmethod') or f.name == '__new__'
        self.self_name = ps[0] if cls is not None and ps and not self.static else None
        self.params = set(ps + [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x])
        self.defaults = {}
        for x, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if d is not None:
                self.defaults[x.arg] = d
        self.globals = set()
        self.binds = {}
        body = n.body if isinstance(n.body, list) else [n.body]
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, ast.Global):
                    self.globals |= set(x.names)
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            self.binds.setdefault(t.id, []).append(x.value)
                        else:
                            for y in ast.walk(t):
                                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                    self.binds.setdefault(y.id, []).append(None)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.binds.setdefault(x.id, [])
        for k in self.globals:
            self.binds.pop(k, None)

    def place(self, e, depth=0):
        """what an expression is part of: ('self', attr) | ('class', class, attr) | ('global', name) | None"""
        if depth > 12:
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == self.self_name:
                if self.clsmeth:
                    return ('class', self.cls, e.attr)
                return ('self', e.attr)
            k = self.klass(e.value, depth + 1)
            if k is not None:
                return ('class', k, e.attr)
            return self.place(e.value, depth + 1)
        if isinstance(e, ast.Subscript):
            if isinstance(e.value, ast.Call) and dotted(e.value.func) == 'globals' and isinstance(e.slice, ast.Constant):
                return ('global', e.slice.value)
            if isinstance(e.value, ast.Attribute) and e.value.attr == '__dict__' and isinstance(e.slice, ast.Constant):
                return self.place(ast.Attribute(value=e.value.value, attr=e.slice.value, ctx=ast.Load()), depth + 1)
            return self.place(e.value, depth + 1)
        if isinstance(e, ast.Call):
            f = e.func
            if dotted(f) == 'getattr' and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                return self.place(ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load()), depth + 1)
            if isinstance(f, ast.Attribute) and f.attr in ('get', 'setdefault', 'pop', '__getitem__'):
                return self.place(f.value, depth + 1)
            return None
        if isinstance(e, ast.IfExp):
            return self.place(e.body, depth + 1) or self.place(e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                p = self.place(v, depth + 1)
                if p:
                    return p
            return None
        if isinstance(e, ast.NamedExpr):
            return self.place(e.value, depth + 1)
        if isinstance(e, ast.Name):
            if e.id in self.binds:
                for v in self.binds[e.id]:
                    if v is not None:
                        p = self.place(v, depth + 1)
                        if p:
                            return p
                return None
            if e.id in self.params:
                return None
            if e.id in self.globals or e.id in module_vars(self.mod):
                return ('global', e.id)
        return None

    def klass(self, e, depth=0):
        """the class an expression denotes"""
        if isinstance(e, ast.Name):
            if e.id in self.params or e.id in self.binds:
                if e.id == self.self_name and self.clsmeth:
                    return self.cls
                for v in self.binds.get(e.id, []):
                    if v is not None and depth < 8:
                        k = self.klass(v, depth + 1)
                        if k is not None:
                            return k
                return None
            r = resolved(self.repo, self.mod, e.id)
            return r if isinstance(r, ClassInfo) else None
        of = None
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            of = e.value
        elif isinstance(e, ast.Call) and dotted(e.func) == 'type' and len(e.args) == 1:
            of = e.args[0]
        if of is not None:
            return self.cls if isinstance(of, ast.Name) and of.id == self.self_name and self.cls else \
                self.repo.cls('FileSystem')
        return None


def module_vars(m):
    """module level names and what they are bound to"""
    got = getattr(m, '_vars', None)
    if got is None:
        got = {}
        for st in _flat(m.tree.body):
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(t, ast.Name):
                        got[t.id] = st.value
        m._vars = got
    return got


def stateful_value(repo, m, e, containers=True):
    """does the expression make an object that has a state"""
    if isinstance(e, ast.Name) and e.id in module_vars(m) and not isinstance(module_vars(m)[e.id], ast.Name):
        return stateful_value(repo, m, module_vars(m)[e.id], containers)
    if isinstance(e, DISPLAYS):
        return containers
    if isinstance(e, ast.Call):
        n = (dotted(e.func) or '').split('.')[-1]
        r = resolved(repo, m, dotted(e.func)) if dotted(e.func) and '.' not in dotted(e.func) else None
        if isinstance(r, ClassInfo):
            return not r.isa('Exception') and bool(stores(r))
        if n in ('defaultdict', 'Bunch'):
            return True
        return n in STATEFUL and (containers or n not in CONTAINERS)
    return False


def stores(k):
    """attributes the methods of a class write"""
    out = set()
    for c in k.mro():
        for f in c.methods.values():
            ps = f.params()
            if not ps:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and \
                        isinstance(x.value, ast.Name) and x.value.id == ps[0]:
                    out.add(x.attr)
    return out


def changes(f):
    """(node, expression whose value is changed, attribute written or None) in a function"""
    for x in ast.walk(f.node):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For, ast.With)):
            if isinstance(x, ast.Assign) or isinstance(x, ast.Delete):
                ts = x.targets
            elif isinstance(x, ast.With):
                ts = [i.optional_vars for i in x.items if i.optional_vars is not None]
            else:
                ts = [x.target]
            for t in ts:
                for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                    if isinstance(y, ast.Subscript):
                        yield x, y.value, None
                    elif isinstance(y, ast.Attribute):
                        yield x, y.value, y.attr
                    elif isinstance(y, ast.Name):
                        yield x, y, ''
                    if isinstance(x, ast.AugAssign) and isinstance(y, (ast.Attribute, ast.Name)):
                        yield x, y, None
        elif isinstance(x, ast.Call):
            if isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                yield x, x.func.value, None
            d = dotted(x.func)
            if d in ('setattr', 'object.__setattr__', 'delattr') and x.args:
                a = x.args[1] if len(x.args) > 1 else None
                yield x, x.args[0], a.value if isinstance(a, ast.Constant) else '?'


def backends(repo):
    fs = repo.cls('FileSystem')
    out = [fs] + [c for c in repo.subclasses('FileSystem') if c is not fs]
    return out


@rules_for('C24', 'Every store, every call that changes a container and every attribute assignment in the backends '
           'and the objects they are made of is resolved to what it changes; changes of class attributes and module '
           'variables are refused, and what an instance keeps has to be made for it.')
def c24(chk):
    chk.rule('C24.class', 'nothing changes the attributes of a class', 40)
    chk.rule('C24.global', 'no backend changes a module variable', 40)
    chk.rule('C24.fresh', 'what an instance keeps and changes is made for it', 5)
    chk.rule('C24.start', 'every connection starts with an object of its own', 8)
    repo = chk.repo
    bes = backends(repo)
    mods = {b.module.name for b in bes if b.name not in ('FileSystem', 'RevisionedFileSystem')}
    classes = list(bes)
    for c in repo.classes():
        if c not in classes and (c.module.name in mods or c.isa('BaseUri')):
            classes.append(c)
    for k in classes:
        for f in funcs_of(k):
            chk.functions.add(f.qual)
            one_function(chk, k, f)
        kept(chk, k)
    for m in repo.modules.values():
        if m.name in mods:
            for f in [x[1] for x in m.names.values() if x[0] == 'func']:
                chk.functions.add(f.qual)
                one_function(chk, None, f)
    chk.entries |= {k.name for k in classes}
    chk.sample('classes: ' + ', '.join(k.name for k in classes))


def funcs_of(k):
    seen = []
    for f in list(k.methods.values()) + [x for g in k.props.values() for x in g if x is not None]:
        if f not in seen:
            seen.append(f)
    return seen


def is_mutable_attr(repo, k, attr):
    """the class attribute a read of self.attr would find, if it has a state"""
    r = k.find(attr)
    if r and r[0] == 'attr':
        return r[2], r[1], stateful_value(repo, r[2].module, r[1])
    return None


def made_by_ctor(repo, k, attr):
    """the constructor of k gives every instance an attribute of its own"""
    todo = [n for n in ('__init__', '_initialize', '__new__', 'setup') if k.method(n)]
    seen = set()
    while todo:
        n = todo.pop()
        f = k.method(n)
        if f is None or n in seen:
            continue
        seen.add(n)
        ps = f.params()
        for st in must_run(f.node.body):
            for x in ast.walk(st) if not isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With)) else []:
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == attr and \
                        isinstance(x.value, ast.Name) and ps and x.value.id == ps[0]:
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(
                        x.func.value, ast.Name) and ps and x.func.value.id == ps[0]:
                    todo.append(x.func.attr)
    return False


def must_run(body):
    """statements that run whenever the body does"""
    for st in body:
        yield st
        if isinstance(st, ast.With):
            for x in must_run(st.body):
                yield x
        elif isinstance(st, ast.Try):
            for x in must_run(st.body):
                yield x
        elif isinstance(st, ast.If):
            a, b = [list(must_run(z)) for z in (st.body, st.orelse)]
            names = [{ast.dump(t) for s in z if isinstance(s, ast.Assign) for t in s.targets} for z in (a, b)]
            for s in a:
                if isinstance(s, ast.Assign) and any(ast.dump(t) in names[1] for t in s.targets):
                    yield s


def one_function(chk, k, f):
    sc = Scope(chk.repo, f, k)
    cons = f.short
    if k is not None:
        chk.ok('C24.class')
        chk.ok('C24.global')
    for node, e, attr in changes(f):
        where = '%s:%s (%s)' % (f.module.path, node.lineno, f.short)
        if attr == '':
            # a plain name
            if isinstance(e, ast.Name) and e.id in sc.globals:
                chk.bad('C24.global', cons, '%s assigns the module variable %s' % (f.short, e.id), where=where)
            continue
        if attr is not None:
            # an attribute of e
            kl = sc.klass(e)
            if kl is not None:
                chk.must(False, 'C24.class', cons, '%s writes %s.%s, which all instances share' % (
                    f.short, kl.name, attr), where=where)
                continue
            if isinstance(e, ast.Name) and e.id == sc.self_name:
                if sc.clsmeth and f.name != '__new__':
                    chk.bad('C24.class', cons, '%s writes %s.%s, which all instances share' % (
                        f.short, k.name, attr), where=where)
                continue
        p = sc.place(e)
        if p is None:
            if isinstance(e, ast.Name) and e.id in sc.defaults and stateful_value(
                    chk.repo, sc.mod, sc.defaults[e.id]):
                chk.bad('C24.global', cons, '%s changes the default value of %s' % (f.short, e.id), where=where)
            continue
        chk.sites[('change', f.short, node.lineno)] += 1
        if p[0] == 'class':
            r = p[1].find(p[2])
            if r and r[0] == 'attr':
                chk.bad('C24.class', cons, '%s changes %s.%s, which all instances share' % (
                    f.short, p[1].name, p[2]), where=where)
        elif p[0] == 'global':
            chk.bad('C24.global', cons, '%s changes the module variable %s' % (f.short, p[1]), where=where)
        elif p[0] == 'self' and k is not None:
            r = is_mutable_attr(chk.repo, k, p[1])
            chk.must(not (r and r[2] and not made_by_ctor(chk.repo, k, p[1])), 'C24.fresh', k.name + '.' + p[1],
                     '%s changes %s.%s, which all instances share' % (f.short, r and r[0].name, p[1]), where=where)
    if k is not None and k.isa('FileSystem'):
        same = any(isinstance(x, ast.Attribute) and x.attr == '_shares_storage' or isinstance(x, ast.Compare) and
                   any(isinstance(y, ast.Name) and y.id == sc.self_name for y in [x.left] + x.comparators)
                   for x in ast.walk(f.node))
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr.startswith('_') and not x.attr.startswith('__') and \
                    of_connection(sc, x.value):
                chk.must(same, 'C24.class', cons, '%s reaches into another connection (%s)' % (f.short, ast.unparse(x)),
                         where='%s:%s (%s)' % (f.module.path, x.lineno, f.short))
    if any(f.has_decorator(c) for c in CACHES):
        # what is cached is handed out more than once
        for x in ast.walk(f.node):
            if isinstance(x, ast.Return) and x.value is not None:
                chk.must(not stateful_value(chk.repo, f.module, x.value), 'C24.fresh', cons,
                         '%s hands out the same object again and again' % f.short,
                         where='%s:%s (%s)' % (f.module.path, x.lineno, f.short))


def kept(chk, k):
    """where the objects in the attributes of an instance come from"""
    repo = chk.repo
    for c in k.mro():
        for n, v in c.attrs.items():
            if c is k and stateful_value(repo, c.module, v, containers=False) and n in uses(k):
                chk.must(made_by_ctor(repo, k, n), 'C24.start', '%s.%s' % (k.name, n),
                         'all instances of %s share the object in %s' % (k.name, n),
                         where='%s:%s (%s)' % (c.module.path, v.lineno, c.name))
    for f in funcs_of(k):
        sc = Scope(repo, f, k)
        if sc.self_name is None or sc.clsmeth:
            continue
        for x in ast.walk(f.node):
            if not isinstance(x, ast.Assign):
                continue
            for t in x.targets:
                pairs = [(t, x.value)]
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and len(
                        t.elts) == len(x.value.elts):
                    pairs = list(zip(t.elts, x.value.elts))
                for t, v in pairs:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sc.self_name:
                        why = shared(repo, sc, v)
                        chk.must(not why, 'C24.start', '%s.%s' % (k.name, t.attr), '%s.%s is set to %s' % (
                            k.name, t.attr, why), where='%s:%s (%s)' % (f.module.path, x.lineno, f.short))


def of_connection(sc, e, depth=0):
    """is it the connection of some uri"""
    if depth > 4:
        return False
    if isinstance(e, ast.Attribute) and e.attr == 'connection':
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get_connection':
        return True
    if isinstance(e, ast.Name):
        return any(v is not None and of_connection(sc, v, depth + 1) for v in sc.binds.get(e.id, []))
    return False


def uses(k):
    return {x.attr for c in k.mro() for f in funcs_of(c) for x in ast.walk(f.node)
            if isinstance(x, ast.Attribute)}


def shared(repo, sc, e, depth=0):
    """why the value of an expression is one that others have, too; None if there is no reason to think so"""
    if depth > 6:
        return None
    if isinstance(e, ast.IfExp):
        return shared(repo, sc, e.body, depth + 1) or shared(repo, sc, e.orelse, depth + 1)
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            r = shared(repo, sc, v, depth + 1)
            if r:
                return r
        return None
    if isinstance(e, ast.NamedExpr):
        return shared(repo, sc, e.value, depth + 1)
    if isinstance(e, ast.Name):
        if e.id in sc.binds:
            for v in sc.binds[e.id]:
                r = v is not None and shared(repo, sc, v, depth + 1)
                if r:
                    return r
            return None
        if e.id in sc.defaults and stateful_value(repo, sc.mod, sc.defaults[e.id]):
            return 'the default value of a parameter'
        if e.id in sc.params:
            return None
        if e.id in module_vars(sc.mod) and stateful_value(repo, sc.mod, module_vars(sc.mod)[e.id]):
            return 'the module variable %s' % e.id
        return None
    if isinstance(e, (ast.Attribute, ast.Subscript)) or isinstance(e, ast.Call) and isinstance(
            e.func, ast.Attribute) and e.func.attr in ('get', 'setdefault'):
        p = sc.place(e)
        if p is None:
            return None
        if p[0] == 'global':
            v = module_vars(sc.mod).get(p[1])
            return 'what is kept in the module variable %s' % p[1] if v is None or stateful_value(
                repo, sc.mod, v) else None
        if p[0] == 'class':
            r = is_mutable_attr(repo, p[1], p[2])
            return 'what is kept in %s.%s' % (r[0].name, p[2]) if r and r[2] else None
        r = is_mutable_attr(repo, sc.cls, p[1])
        if r and r[2] and not made_by_ctor(repo, sc.cls, p[1]):
            return 'what is kept in %s.%s' % (r[0].name, p[1])
        return None
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        f = None
        k = None
        if isinstance(e.func, ast.Name):
            f = resolved(repo, sc.mod, e.func.id)
        elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
                e.func.value.id == sc.self_name and sc.cls is not None:
            k = sc.cls
            f = sc.cls.method(e.func.attr)
        if isinstance(f, Func) and f.name not in ('URI',):
            if any(f.has_decorator(c) for c in CACHES):
                return 'what %s hands out again and again' % f.short
            s2 = Scope(repo, f, k)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Return) and x.value is not None:
                    r = shared(repo, s2, x.value, depth + 1)
                    if r:
                        return r
    return None
