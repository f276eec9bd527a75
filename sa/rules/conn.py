"""
C01 dispatch of URI operations, C02 signatures of the backends, C03/C04/C05 the
registry of connections.
"""
import ast

from . import rules_for
from .common import *

REG = 'ConnectionRegistry'
COMPOSED = {'remove', 'md5'}
HOOKS = {'pre_call_hook', 'close'}


# ------------------------------------------------------------------------------ C01

def uri_ops(repo):
    """(class, method) of every operation a URI offers"""
    out = []
    for c in repo.subclasses('BaseUri'):
        for n, f in sorted(c.methods.items()):
            if n in URI_OPS and f.cls is c:
                out.append((c, f))
    return out


def entry_args(f):
    a = f.node.args
    args = [P(x.arg) for x in (a.posonlyargs + a.args)[1:]]
    if a.vararg:
        args.append(('star', P(a.vararg.arg)))
    kw = [(x.arg, P(x.arg)) for x in a.kwonlyargs]
    if a.kwarg:
        kw.append(('**', P(a.kwarg.arg)))
    return args, kw


def types_of(f, repo):
    t = {}
    for x in f.params():
        if x in ('other', 'link_name', 'dest', 'destination', 'source', 'target'):
            t[P(x)] = 'BaseUri'
    return t


@rules_for('C01', 'Every operation of the URI classes is interpreted through its decorators on a symbolic '
           'receiver; on every path the connection used is the one just looked up, and the operation, '
           'its subject, arguments and result are compared with those of the URI operation.')
def c01(chk):
    repo = chk.repo
    chk.rule('C01.fresh', 'every backend call goes to the connection looked up by this very call', 26)
    chk.rule('C01.used', 'last_used of that connection is set to the current time before the backend acts', 26)
    chk.rule('C01.hook', 'the pre-call hook of that connection is called with the URI before the backend acts', 26)
    chk.rule('C01.dispatch', 'the operation of the same name is called once with the URI as subject', 24)
    chk.rule('C01.args', 'every argument is handed on in its own role', 15)
    chk.rule('C01.result', 'the caller gets the result of the operation', 24)
    chk.rule('C01.address', 'the lookup uses scheme, host, port, credentials, archive and extras as they are now', 7)
    for c, f in uri_ops(repo):
        args, kw = entry_args(f)
        types = types_of(f, repo)
        types[SELF] = c
        cons = f.short
        ps = chk.run(f, recv=SELF, decorated=True, args=args, kwargs=kw, types=types, exc='none')
        for p in ps:
            conn = None
            used = hooked = False
            done = []
            for e in p.events:
                if e.kind == 'op' and e.name == 'get_connection' and e.recv == SELF:
                    conn, used, hooked = e.res, False, False
                elif e.kind == 'setattr' and e.name == 'last_used':
                    v = e.args[0]
                    if e.recv == conn and conn is not None and v[0] == 'call' and v[1] == ('g', 'time.time'):
                        used = True
                elif e.kind == 'op' and e.raw[0] != 'uri' and e.name != 'get_connection':
                    via = e.raw[0]
                    chk.must(conn is not None and via == conn, 'C01.fresh', cons,
                             '%s is asked of %s, not of the connection looked up for this call' % (
                                 e.name, show(via)), e, p)
                    if e.name == 'pre_call_hook':
                        if e.recv == SELF:
                            hooked = True
                        chk.must(e.recv == SELF, 'C01.hook', cons,
                                 'the pre-call hook is given %s, not the URI' % show(e.recv), e, p)
                        continue
                    chk.must(used, 'C01.used', cons,
                             '%s is asked before last_used was set to the current time' % e.name, e, p)
                    chk.must(hooked, 'C01.hook', cons,
                             '%s is asked before the pre-call hook was called' % e.name, e, p)
                    done.append(e)
            if f.name == 'md5':
                chk.must(used and hooked, 'C01.used', cons, 'the connection is not marked as used', None, p)
            if f.name in COMPOSED or p.outcome != 'return':
                continue
            same = [e for e in done if e.name == f.name and e.recv == SELF]
            chk.must(len(same) == 1, 'C01.dispatch', cons,
                     'a path calls %s of the backend with the URI as subject %d times, not once' % (
                         f.name, len(same)), done[0] if done else None, p)
            others = [e for e in done if e not in same and e.name not in QUERIES]
            chk.must(not others, 'C01.dispatch', cons, 'a path also calls %s of the backend' % (
                others[0].name if others else ''), others[0] if others else None, p)
            if not same:
                continue
            e = same[0]
            bf = backend_method(repo, f.name)
            names = params(bf)[1:] if bf is not None else []
            got = dict(zip(names, e.args))
            for i, n in enumerate(params(f)):
                v = got.get(n) if n in got else (e.args[i] if i < len(e.args) else None)
                chk.must(v is not None and v == P(n), 'C01.args', cons,
                         'the argument %s of %s reaches the backend as %s' % (
                             n, f.name, show(v) if v else 'nothing'), e, p)
            a = f.node.args
            if a.vararg:
                chk.must(any(contains(x, P(a.vararg.arg)) for x in e.args), 'C01.args', cons,
                         'the positional arguments do not reach the backend', e, p)
            if a.kwarg:
                chk.must(any(contains(x, P(a.kwarg.arg)) for x in e.args), 'C01.args', cons,
                         'the keyword arguments do not reach the backend', e, p)
            if not f.name.startswith('_'):
                chk.must(p.value == e.res, 'C01.result', cons, 'the caller gets %s, not the result' % (
                    show(p.value)), e, p)
    address(chk, 'C01.address', extras=False)


def backend_method(repo, name):
    for c in ('FileSystem', 'RevisionedFileSystem'):
        f = repo.cls(c).method(name)
        if f is not None:
            return f
    return None


def sources(p, t):
    """attributes of self that flow into t, by way of its updates too"""
    out = set()
    seen = []
    todo = [t]
    while todo:
        x = todo.pop()
        for y in subterms(x):
            if y[0] == 'a' and (y[1] == SELF or y[1] == ('a', SELF, 'parse_result')):
                out.add(y[2])
            if y[0] == 'call' and y not in seen:
                seen.append(y)
                for e in p.events:
                    if e.kind in ('mut', 'setitem') and e.recv == y and e.name not in ('pop',):
                        todo.extend(e.args)
                        todo.extend(v for _, v in e.kw)
    out.discard('parse_result')
    return out


PARTS = ('scheme', 'hostname', 'port', 'username', 'password', 'vpath_connector')


def address(chk, rule, extras):
    """what BaseUri.get_connection asks the registry for"""
    repo = chk.repo
    f = repo.method('BaseUri', 'get_connection')
    reg = repo.method(REG, 'get_connection')
    ps = chk.run(f, recv=SELF, types={SELF: 'BaseUri'}, inline_uri=True, exc='none',
                 opaque={reg.short})
    names = params(reg)
    dropped = []
    for p in ps:
        calls = [e for e in p.of('icall') if e.raw is reg]
        if p.outcome != 'return':
            continue
        if not chk.must(bool(calls), rule, f, 'a path does not ask the registry for the connection', None, p):
            continue
        chk.must(p.value == calls[-1].res, rule, f, 'the connection returned is %s, not the one looked up' % (
            show(p.value)), calls[-1], p)
        for e in calls:
            got = dict(zip(names, [a for a in e.args if a[0] != 'kw']))
            kws = {a[1][2]: a[2] for a in e.args if a[0] == 'kw'}
            rest = kws.pop('**', None)
            got.update(kws)
            for n in PARTS:
                v = got.get(n)
                ok = v in (('a', SELF, n), ('a', ('a', SELF, 'parse_result'), n))
                chk.must(ok, rule, f, 'the connection is looked up with %s = %s' % (
                    n, show(v) if v else 'its default'), e, p)
            if not extras:
                continue
            chk.must(rest is not None and 'extras' in sources(p, rest), rule, f,
                     'the extra parameters do not take part in the lookup', e, p)
            if rest is None:
                continue
            sc = ('a', SELF, 'scheme')
            http = [fact(p, ('op', '==', sc, C(s))) for s in ('http', 'https')]
            if True in http:
                chk.must('query' not in sources(p, rest), rule, f,
                         'the query of an http URI takes part in the lookup', e, p)
            elif http == [False, False]:
                chk.must('query' in sources(p, rest), rule, f,
                         'the query of a URI that is not http does not take part in the lookup', e, p)
            else:
                chk.must(not odd(p, sc, rest), rule, f, 'whether the query takes part in the lookup depends on something '
                         'else than the scheme being http or https', odd(p, sc, rest), p)
            dropped.append((p, e, {x.args[0] for x in p.of('mut', 'delitem') if x.args and contains(rest, x.recv)} | {
                g.recv[2] for g in p.of('guard') if g.recv[0] == 'op' and g.recv[1] == 'in' and not g.res
                and contains(rest, g.recv[3])}))
            for x in p.events:
                if x.kind in ('mut', 'delitem') and x.name in ('pop', 'clear', 'popitem', None) \
                        and contains(rest, x.recv):
                    chk.must((x.name == 'pop' or x.kind == 'delitem') and x.args and x.args[0] in (C('username'), C('password')),
                             rule, f, 'the parameter %s is dropped from the lookup' % (
                                 show(x.args[0]) if x.args else 'all'), x, p)
    for n in ('username', 'password'):
        if any(C(n) in d for _, _, d in dropped):
            for p, e, d in dropped:
                chk.must(C(n) in d, rule, f, 'the %s is passed as an extra parameter, too' % n, e, p)
    uri = repo.cls('BaseUri')
    for n in PARTS:
        m = uri.find(n)
        m = m[1][0] if m and m[0] == 'prop' else None
        if m is None or n == 'scheme':
            continue
        part = ('a', ('a', SELF, 'parse_result'), n)
        for p in chk.run(m, recv=SELF, types={SELF: 'BaseUri'}, exc='none'):
            if p.outcome == 'return':
                chk.must(p.value == NONE or injective(p.value, part) or not contains(p.value, part)
                         or p.value[:3] in [('call', ('g', x), (part,)) for x in ('int', 'str')]
                         or p.value[0] == 'call' and p.value[1] == ('g', 'getattr'), rule, m,
                         'the %s of a URI is %s' % (n, show(p.value)), None, p)


def odd(p, sc, rest):
    """a look at the scheme that does not tell http and https from all others"""
    for g in p.of('guard'):
        t = g.recv
        if not contains(t, sc):
            continue
        if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('startswith', 'endswith') and t[1][1] == sc and len(t[2]) == 1:
            pre = t[2][0]
            pre = [x[2] for x in ([pre] if isc(pre) else pre[1] if pre[0] == 'tuple' else []) if isc(x)]
            if any(s.startswith(x) if t[1][2] == 'startswith' else s.endswith(x) for x in pre for s in (
                    'file', 'memory', 'zip', 'hg', 'ftp', 'svn', 'h')):
                return g
    return None


# ------------------------------------------------------------------------------ C02

def bundled(repo):
    return [c for c in repo.subclasses('FileSystem') if c.name not in ('FileSystem', 'RevisionedFileSystem')]


def binds(f, shape):
    """does a call of that shape fit the method; None if it can't be told"""
    n, kws, star = shape
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    if n > len(names) and not a.vararg:
        return 'takes %d arguments, is given %d' % (len(names), n)
    for k in kws:
        if k not in names and k not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'has no argument %r' % k
        if k in names[:n]:
            return 'gets the argument %r twice' % k
    if star:
        return ''
    need = names[:len(names) - len(a.defaults)]
    missing = [x for x in need[n:] if x not in kws]
    missing += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kws]
    if missing:
        return 'is not given %r' % missing[0]
    return ''


def const(I, f, node):
    if node is None:
        return None
    v = I.const_expr(node, f.module, f.cls)
    return v if v is not None else ('unk', ast.dump(node))


def defaults(I, f):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], [const(I, f, x) for x in a.defaults]))
    d.update({x.arg: const(I, f, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


GENERIC = ('copy', 'move', 'walk', 'makedirs', 'glob', 'removefile', 'removedir', 'islink', 'readlink', 'symlink')


@rules_for('C02', 'Every call of a backend operation met while interpreting the URI classes, the generic file '
           'system code and the bundled backends is bound against the signature that method resolution '
           'finds on every bundled backend; overrides are compared with what they override.')
def c02(chk):
    repo = chk.repo
    chk.rule('C02.bind', 'a call of an operation binds to the signature of every bundled backend', 60)
    chk.rule('C02.override', 'an override takes the arguments of the generic operation at their places and '
                             'with their defaults', 20)
    chk.rule('C02.stub', 'an operation that the generic file system lacks is refused, not ignored', 12)
    chk.rule('C02.uricall', 'a call of a URI operation binds to its signature', 20)
    calls = {}

    def collect(f, ps):
        for p in ps:
            for e in p.of('op'):
                if e.raw[2] is not None:
                    calls.setdefault((e.name, e.raw[2], 'uri' if e.raw[0] == 'uri' else 'backend'), (f, e))
            for e in p.of('badcall'):
                chk.bad('C02.bind', '%s in %s' % (e.name, f.short),
                        'the call does not fit the signature of %s' % e.name, e, p)

    revisioned = set()
    for c, f in uri_ops(repo):
        args, kw = entry_args(f)
        t = types_of(f, repo)
        t[SELF] = c
        ps = chk.run(f, recv=SELF, decorated=True, args=args, kwargs=kw, types=t, exc='none')
        if c.isa('RevisionedUri') and f.cls.name == 'RevisionedUri':
            revisioned.add(f.name)
        collect(f, ps)
    for cname in [c.name for c in repo.subclasses('FileSystem')]:
        c = repo.cls(cname)
        for n, f in sorted(c.methods.items()):
            if n in ('__init__',) or f.cls is not c:
                continue
            t = {SELF: c}
            for x in params(f):
                if x in ('path', 'unc', 'source', 'dest', 'destination', 'other', 'link_name', 'top', 'target', 'src'):
                    t[P(x)] = 'BaseUri'
            if c.isa('ZipFileSystem'):
                t[('a', SELF, 'vpath_connector')] = 'BaseUri'
                t[('a', SELF, 'zip_uri')] = 'BaseUri'
            try:
                ps = chk.run(f, recv=SELF, types=t, exc='none', unroll=1,
                             opaque_fn=lambda g, recv: True)
            except Broken:
                continue
            collect(f, ps)
    for f in [f for f in (repo.func('remove_dir_recursively', False),) if f]:
        ns = f.params()
        ps = chk.run(f, recv=None, args=[P(n) for n in ns], kwargs=[],
                     types={P(ns[0]): 'FileSystem', P(ns[1]): 'BaseUri'}, exc='none')
        collect(f, ps)

    for (name, shape, kind), (f, e) in sorted(calls.items(), key=lambda x: x[0][:2]):
        if kind == 'uri':
            for c in repo.subclasses('BaseUri'):
                m = c.method(name)
                if m is None:
                    if name not in revisioned:
                        chk.must(False, 'C02.uricall', '%s in %s' % (name, f.short),
                                 '%s has no operation %s' % (c.name, name), e)
                    continue
                why = binds(m, shape)
                chk.must(not why, 'C02.uricall', '%s in %s' % (name, f.short),
                         '%s.%s %s' % (c.name, name, why), e)
            continue
        targets = [repo.cls('RevisionedFileSystem')] if name in revisioned else \
            bundled(repo) + [repo.cls('FileSystem')]
        for c in targets:
            m = c.method(name)
            cons = '%s.%s' % (c.name, name)
            if not chk.must(m is not None, 'C02.bind', cons, 'the operation %s, asked in %s, is missing' % (
                    name, f.short), e):
                continue
            why = binds(m, shape)
            chk.must(not why, 'C02.bind', cons, '%s %s by %s' % (m.short, why, f.short), e)
    # overrides
    I = Interp(repo, Cfg())
    I._reset([])
    base = repo.cls('FileSystem')
    for c in repo.subclasses('FileSystem'):
        if c is base:
            continue
        for n, f in sorted(c.methods.items()):
            g = base.method(n)
            if g is None or f.cls is not c or n not in BACKEND_OPS | {'_path'}:
                continue
            fa, ga = params(f), params(g)
            cons = f.short
            for i, x in enumerate(ga[1:], 1):
                if x in fa:
                    chk.must(fa.index(x) == i, 'C02.override', cons,
                             'the argument %r is number %d, in %s it is number %d' % (
                                 x, fa.index(x), g.short, i), where=where(f))
            fd, gd = defaults(I, f), defaults(I, g)
            for i, x in enumerate(ga):
                if x in gd:
                    y = x if x in fa else (fa[i] if i < len(fa) else None)
                    if y is None:
                        continue
                    chk.must(y in fd and fd[y] == gd[x], 'C02.override', cons,
                             'the argument %r defaults to %s, in %s to %s' % (
                                 y, show(fd[y]) if y in fd else 'nothing', g.short, show(gd[x])),
                             where=where(f))
            chk.ok('C02.override')
    # stubs
    for c in (base, repo.cls('RevisionedFileSystem')):
        for n, f in sorted(c.methods.items()):
            if n not in BACKEND_OPS or n in HOOKS or f.cls is not c or n in ('dump',):
                continue
            t = {SELF: c}
            for x in params(f):
                if x in ('path', 'unc', 'source', 'dest', 'destination', 'other', 'link_name', 'top', 'target'):
                    t[P(x)] = 'BaseUri'
            for p in chk.run(f, recv=SELF, types=t, exc='none'):
                acts = p.of('op', 'call', 'icall', 'rec', 'yield', 'mut', 'setattr', 'loop')
                if p.outcome == 'raise' and not acts:
                    chk.must(excname(p.value) in ('NotImplementedError', 'OperationIsNotSupportedOnPlatform'),
                             'C02.stub', f, 'the operation is refused with %s' % excname(p.value), None, p)
                elif p.outcome == 'return' and not acts:
                    chk.must(False, 'C02.stub', f, 'the operation does nothing and reports success', None, p)
                else:
                    chk.ok('C02.stub')


def where(f):
    return '%s:%s (%s)' % (f.module.path, f.node.lineno, f.short)


# ------------------------------------------------------------------------------ registry

def held(path, ev=None):
    """locks held just before ev"""
    out = []
    for e in before(path, ev):
        if e.kind == 'enter' and e.recv is not None:
            out.append(e.recv)
        elif e.kind == 'exit' and e.recv in out:
            out.remove(e.recv)
        elif e.kind == 'call' and e.name in ('acquire', '__enter__') and e.recv is not None:
            if not e.args and not e.kw or fact(path, e.res, ev) is True:
                out.append(e.recv)
        elif e.kind == 'call' and e.name in ('release', '__exit__') and e.recv in out:
            out.remove(e.recv)
    return out


class Registry(object):
    def __init__(self, chk):
        repo = self.repo = chk.repo
        self.cls = repo.cls(REG)
        self.get = self.cls.method('get_connection')
        if self.get is None:
            raise Broken('no get_connection')
        # the tables: attributes that __init__ sets to dictionaries
        self.conns = ('a', SELF, 'connections')
        self.schemes = ('a', SELF, 'schemes')
        self.types = {SELF: self.cls}

    def paths(self, chk, exc):
        return chk.run(self.get, recv=SELF, types=self.types, exc=exc)

    def created(self, p):
        """calls of a factory"""
        out = []
        for e in p.of('call'):
            fn = e.res[1]
            if contains(fn, self.schemes) and not (fn[0] == 'a' and fn[2] in ('keys', 'values', 'items', 'get')):
                out.append(e)
        return out

    def lookups(self, p):
        """(event index, key, what the result is called) of every look into the table"""
        out = []
        for e in p.events:
            ts = []
            if e.kind == 'dictget' and e.recv == self.conns:
                out.append((e.idx, e.args[0]))
                continue
            if e.kind == 'guard':
                ts = [e.recv]
            for t in ts:
                for x in subterms(t):
                    if x[0] == 'op' and x[1] == 'in' and x[3] == self.conns:
                        out.append((e.idx, x[2]))
                    if x[0] == 'i' and x[1] == self.conns:
                        out.append((e.idx, x[2]))
        return out

    def stores(self, p):
        out = []
        for e in p.events:
            if e.kind == 'setitem' and e.recv == self.conns:
                out.append((e, e.args[0], e.args[1]))
            elif e.kind == 'mut' and e.recv == self.conns and e.name == 'setdefault':
                out.append((e, e.args[0], e.args[1] if len(e.args) > 1 else NONE))
            elif e.kind == 'mut' and e.recv == self.conns and e.name in ('update', '__setitem__'):
                out.append((e, e.args[0], e.args[-1]))
        return out


def injective(t, leaf, table=False, canonical=False):
    """t tells the value of leaf, in its own place: t is the leaf or a reversible wrapping of it;
    the items of a table have to be brought into an order of their own"""
    if t == leaf:
        return not table
    if canonical and t[0] in ('list', 'set'):
        return all(item_of(x, leaf) for x in t[1])
    if t[0] in ('tuple', 'list'):
        return not canonical and any(injective(x, leaf, table) for x in t[1])
    if t[0] == 'call' and t[1][0] == 'g' and len(t[2]) == 1 and t[1][1] in ('frozenset', 'set', 'sorted'):
        return table and injective(t[2][0], leaf, table, True)
    if t[0] == 'call' and t[1][0] == 'g' and len(t[2]) == 1 and t[1][1] in ('tuple', 'list'):
        return t[2][0] != leaf and injective(t[2][0], leaf, table, canonical)
    if t[0] == 'call' and t[1] == ('a', leaf, 'items') and not t[2]:
        return canonical
    if t[0] == 'op' and t[1] == '+':
        return injective(t[2], leaf, table) or injective(t[3], leaf, table)
    return False


def item_of(x, leaf):
    """x is a name of the table together with what the table holds under it"""
    its = ('call', ('a', leaf, 'items'))
    if x[0] == 'elem' and x[1][:2] == its:
        return True
    return x[0] == 'tuple' and (
        any(k[0] == 'elem' and k[1] == leaf and ('i', leaf, k) in x[1] for k in x[1]) or
        any(k[0] == 'i' and k[2] == C(0) and item_of(k[1], leaf) and ('i', k[1], C(1)) in x[1] for k in x[1]))


def picky(p, leaf):
    """a guard that looks at the items of the table"""
    return any(x[0] == 'elem' and contains(x[1], leaf) for g in p.of('guard') if g.recv[0] != 'q'
               and not contains(g.recv, ('p', 'self')) for x in subterms(g.recv))


def leaves_only(t, allowed):
    """everything t depends on is allowed"""
    if t in allowed or isc(t) or t == SELF:
        return True
    k = t[0]
    if k in ('p', 'unk'):
        return False
    if k == 'call':
        if t[4] is not None:
            return False
        return (t[1][0] == 'g' or leaves_only(t[1][1] if t[1][0] == 'a' else t[1], allowed)) and \
            all(leaves_only(x, allowed) for x in t[2])
    if k in ('tuple', 'list', 'set'):
        return all(leaves_only(x, allowed) for x in t[1])
    if k == 'gen':
        return True
    if k in ('i', 'elem'):
        return all(leaves_only(x, allowed) for x in t[1:] if isinstance(x, tuple))
    if k == 'op':
        return all(leaves_only(x, allowed) for x in t[2:] if isinstance(x, tuple))
    if k == 'a':
        return False
    return k == 'g'


@rules_for('C03', 'The lookup of connections is interpreted on symbolic arguments: the key, the table accesses '
           'and the call of the factory are compared component by component with the arguments.')
def c03(chk):
    r = Registry(chk)
    chk.rule('C03.key', 'the key tells every component of the address and nothing else', 7)
    chk.rule('C03.same', 'a connection is stored under the key it was looked up with', 1)
    chk.rule('C03.factory', 'the factory of the scheme gets every component in its own role', 6)
    chk.rule('C03.noscheme', 'an unregistered scheme raises NoSchemeError and creates nothing', 2)
    chk.rule('C03.returned', 'what is handed out is what the table holds under that key or what was created', 2)
    chk.rule('C03.register', 'registering binds the given factory to the given scheme', 1)
    chk.rule('C03.address', 'a URI hands over every component of its address, its query unless it is http', 6)
    names = params(r.get)
    a = r.get.node.args
    parts = [P(n) for n in names] + ([P(a.kwarg.arg)] if a.kwarg else [])
    extras = P(a.kwarg.arg) if a.kwarg else None
    cons = r.get.short
    ps = r.paths(chk, 'none')
    init = r.repo.method('FileSystem', '__init__')
    inames = params(init)
    raised = 0
    for p in ps:
        keys = {}
        for i, k in r.lookups(p):
            keys.setdefault(k, p.events[i])
        for e, k, v in r.stores(p):
            keys.setdefault(k, e)
        for k, e in keys.items():
            for x in parts:
                chk.must(injective(k, x, x == extras) and not (x == extras and picky(p, x)), 'C03.key', cons,
                         'the key does not tell %s apart' % show(x), e, p)
            chk.must(leaves_only(k, set(parts)), 'C03.key', cons,
                     'the key depends on more than the address', e, p)
        if r.stores(p):
            chk.must(len(keys) == 1, 'C03.same', cons,
                     'connections are looked up and stored under different keys', r.stores(p)[0][0], p)
        made = r.created(p)
        for e in made:
            fn = e.res[1]
            reg = ('i', r.schemes, P('scheme'))
            get = fn[0] == 'call' and fn[1] == ('a', r.schemes, 'get') and fn[2][:1] == (P('scheme'),)
            chk.must(fn == reg or get, 'C03.factory', cons,
                     'the connection is made by %s' % show(fn), e, p)
            got = dict(zip(inames, [x for x in e.args if x[0] != 'star']))
            for k, v in e.kw:
                if k != '**':
                    got[k] = v
            for n in inames:
                if P(n) not in parts:
                    continue
                chk.must(got.get(n) == P(n), 'C03.factory', cons, 'the factory gets %s as %s' % (
                    show(got[n]) if n in got else 'nothing', n), e, p)
            if extras:
                chk.must(any(k == '**' and v == extras for k, v in e.kw), 'C03.factory', cons,
                         'the extra parameters do not reach the factory', e, p)
            st = [v for _, _, v in r.stores(p)]
            chk.must(e.res in st, 'C03.same', cons, 'a connection is created and not stored', e, p)
            known = any(fact(p, ('op', 'in', P('scheme'), v), e) is True for v in views(r.schemes)) or \
                get and fact(p, ('op', 'is', fn, NONE), e) is False or fact(p, fn, e) is True
            chk.must(known, 'C03.noscheme', cons,
                     'a connection is created for a scheme not known to be registered', e, p)
        if p.outcome == 'raise' and is_exc(p.value, 'NoSchemeError'):
            raised += 1
            chk.must(not made and not r.stores(p), 'C03.noscheme', cons,
                     'something is created for an unregistered scheme', None, p)
        elif any(fact(p, ('op', 'in', P('scheme'), v)) is False for v in views(r.schemes)):
            chk.must(False, 'C03.noscheme', cons, 'an unregistered scheme ends in %s' % (
                show(p.value)), None, p)
        if p.outcome == 'return':
            v = p.value
            ok = v in [e.res for e in made] or (
                (v[0] == 'call' and v[1] == ('a', r.conns, 'get') or v[0] == 'i' and v[1] == r.conns
                 or v[0] == 'call' and v[1] == ('a', r.conns, 'setdefault')) and
                (v[2][0] if v[0] == 'call' else v[2]) in keys)
            chk.must(ok, 'C03.returned', cons, 'the lookup yields %s' % show(v), None, p)
    chk.must(raised > 0, 'C03.noscheme', cons, 'no path raises NoSchemeError', where=where(r.get))
    reg = r.cls.method('register')
    if reg is None:
        raise Broken('no register')
    n1, n2 = params(reg)[:2]
    for p in chk.run(reg, recv=SELF, types=r.types, exc='none'):
        st = [(e.args[0], e.args[1]) for e in p.of('setitem') if e.recv == r.schemes]
        chk.must(st == [(P(n1), P(n2))], 'C03.register', reg, 'registering stores %s' % (
            ', '.join('%s: %s' % (show(k), show(v)) for k, v in st) or 'nothing'), None, p)
    address(chk, 'C03.address', extras=True)


@rules_for('C04', 'Lock sets are computed along every path of the lookup, including those on which a call '
           'fails: creations and stores happen under a lock of the registry, after a look into the table '
           'made under that lock.')
def c04(chk):
    r = Registry(chk)
    chk.rule('C04.locked', 'a connection is created and stored while a lock of the registry is held', 2)
    chk.rule('C04.shared', 'that lock is one object for all threads that ask for the address', 1)
    chk.rule('C04.recheck', 'under that lock the table was found to lack the key before the creation', 1)
    chk.rule('C04.handout', 'every thread gets the connection the table holds', 2)
    chk.rule('C04.release', 'no lock is left held on any exit', 4)
    cons = r.get.short
    a = r.get.node.args
    parts = {P(n) for n in params(r.get)} | ({P(a.kwarg.arg)} if a.kwarg else set())
    locks = set()
    for p in r.paths(chk, 'all'):
        made = r.created(p)
        for e in made:
            ls = held(p, e)
            if not chk.must(bool(ls), 'C04.locked', cons, 'a connection is created with no lock held', e, p):
                continue
            locks |= set(ls)
            shared = [l for l in ls if root(l) == SELF or root(l)[0] == 'g']
            chk.must(bool(shared), 'C04.shared', cons, 'the lock %s is not shared by the threads' % show(ls[0]), e, p)
            for l in shared[:1]:
                chk.must(same_for_all(l, parts), 'C04.shared', cons,
                         'which lock is taken, %s, depends on more than the address' % show(l), e, p)
                taken = [x for x in before(p, e) if x.kind in ('enter', 'call') and x.recv == l and (
                    x.kind == 'enter' or x.name == 'acquire')][-1]
                st = [s for s in r.stores(p) if s[0].idx > e.idx]
                key = st[0][1] if st else None
                ok = False
                for i, k in r.lookups(p):
                    if taken.idx < i < e.idx and (key is None or k == key):
                        ok = ok or absent(p, i, k, r.conns, e)
                chk.must(ok, 'C04.recheck', cons,
                         'a connection is created without having seen under the lock that there is none', e, p)
        for e, k, v in r.stores(p):
            ls = held(p, e)
            chk.must(bool(ls), 'C04.locked', cons, 'a connection is stored with no lock held', e, p)
            # the same stretch of holding the lock
            for m in made:
                if v == m.res:
                    gone = [x for x in p.events[m.idx:e.idx] if x.kind == 'exit' or x.kind == 'call' and x.name == 'release']
                    chk.must(not gone, 'C04.locked', cons, 'the lock is released between creation and store', e, p)
        left = held(p)
        chk.must(not left, 'C04.release', cons, 'the lock %s is still held when the lookup ends with %s' % (
            show(left[0]) if left else '', p.outcome), None, p)
        if p.outcome == 'return':
            v = p.value
            st = r.stores(p)
            if v in [e.res for e in made]:
                chk.must(v in [s[2] for s in st], 'C04.handout', cons,
                         'a connection is handed out that others do not get', None, p)
            else:
                chk.must(contains(v, r.conns), 'C04.handout', cons,
                         'a connection is handed out that is not in the table', None, p)
                if v[0] == 'call' and v[1] == ('a', r.conns, 'get') and len(v[2]) == 1:
                    chk.must(fact(p, ('op', 'is', v, NONE)) is False or fact(p, v) is True, 'C04.handout', cons, 'what is '
                             'handed out was not found to be a connection: another thread may have withdrawn it', None, p)
    # stores elsewhere in the registry
    for n, f in sorted(r.cls.methods.items()):
        if n in ('__init__', '__new__') or f is r.get:
            continue
        for p in chk.run(f, recv=SELF, types=r.types, exc='none'):
            for e, k, v in r.stores(p):
                chk.must(bool(held(p, e)), 'C04.locked', f, 'a connection is stored with no lock held', e, p)
    # the locks themselves
    for l in locks:
        t = l
        while t[0] in ('i', 'call') and t != SELF:
            t = t[1][1] if t[0] == 'call' and t[1][0] == 'a' else t[1]
        if t[0] == 'a' and t[1] == SELF:
            ok = False
            for p in chk.run(r.cls.method('__init__'), recv=SELF, types=r.types, exc='none'):
                for e in p.of('setattr'):
                    if e.name == t[2]:
                        v = show(e.args[0])
                        ok = ok or 'Lock' in v
            chk.must(ok, 'C04.shared', cons, 'self.%s is not a lock made once by the registry' % t[2],
                     where=where(r.get))


def same_for_all(l, parts):
    """threads that ask for the same address get the same lock out of the table of locks"""
    if l[0] == 'i':
        return same_for_all(l[1], parts) and leaves_only(l[2], parts)
    if l[0] == 'call' and l[1][0] == 'a' and l[1][2] in ('get', 'setdefault', '__getitem__'):
        return same_for_all(l[1][1], parts) and leaves_only(l[2][0], parts)
    return l[0] != 'call' or not any(x[0] == 'p' and x in parts for x in subterms(l)) or leaves_only(l, parts)


def absent(p, i, key, table, ev):
    """the look at event i found nothing, as established before ev"""
    e = p.events[i]
    if e.kind == 'dictget':
        for g in p.events[i:ev.idx]:
            if g.kind != 'guard':
                continue
            t = g.recv
            if t[0] == 'op' and t[1] == 'is' and t[3] == NONE and g.res and getof(t[2], table, key):
                return True
            if getof(t, table, key) and not g.res:
                return True
        return False
    if e.kind == 'guard':
        if e.recv == ('op', 'in', key, table) and not e.res:
            return True
    return False


def views(table):
    """the table and copies of its keys (schemes are only ever added)"""
    ks = ('call', ('a', table, 'keys'), (), (), None)
    out = [table, ks]
    for n in ('list', 'tuple', 'set', 'frozenset', 'sorted'):
        out += [('call', ('g', n), (table,), (), None), ('call', ('g', n), (ks,), (), None)]
    return out


def getof(t, table, key):
    return t[0] == 'call' and t[1] == ('a', table, 'get') and t[2] and t[2][0] == key


# ------------------------------------------------------------------------------ C05

def linear(t, sign=1, out=None):
    out = {} if out is None else out
    if t[0] == 'op' and t[1] in ('+', '-') and len(t) == 4:
        linear(t[2], sign, out)
        linear(t[3], sign if t[1] == '+' else -sign, out)
    else:
        out[t] = out.get(t, 0) + sign
    return out


def visits(p, table):
    """the path goes over the table, or finds it empty"""
    for e in p.events:
        if e.kind == 'loop' and contains(e.recv, table):
            return True
        if e.kind in ('mut', 'callraise', 'call') and e.name in ('popitem', 'pop') and e.recv is not None and contains(e.recv, table):
            return True
        if e.kind == 'guard':
            size = ('call', ('g', 'len'), (table,), (), None)
            if e.recv in (table, size) and not e.res:
                return True
            if e.recv[0] == 'op' and len(e.recv) == 4 and size in e.recv[2:4]:
                other = e.recv[3] if e.recv[2] == size else e.recv[2]
                if other == C(0) and (e.res if e.recv[1] == '==' else not e.res):
                    return True
    return False


def idle_guard(e, conn, clock):
    """does the guard event say that conn has (True) or has not (False) been unused for too long"""
    t, v = e.recv, e.res
    if not (t[0] == 'op' and t[1] == '<'):
        return None
    lin = linear(t[3])
    for k, n in linear(t[2]).items():
        lin[k] = lin.get(k, 0) - n
    lin = {k: n for k, n in lin.items() if n}
    used = ('a', conn, 'last_used')
    if used not in lin:
        return None
    sign = -lin.pop(used)
    rest = {k: n * sign for k, n in lin.items()}
    now = [k for k, n in rest.items() if n == 1]
    lim = [k for k, n in rest.items() if n == -1]
    if len(rest) != 2 or len(now) != 1 or len(lim) != 1:
        return 'odd'
    if not (now[0][0] == 'call' and now[0][1] == clock):
        return 'odd'
    if not (lim[0][0] == 'a' and 'timeout' in lim[0][2]):
        return 'odd'
    # sign 1: t reads last_used + timeout < now
    return v if sign == 1 else not v


def stamps(chk):
    repo = chk.repo

    def now(e):
        return e.name == 'last_used' and e.args[0][0] == 'call' and e.args[0][1][0] == 'g' and \
            e.args[0][1][1].startswith('time.')
    c = repo.cls('FileSystem')
    f = c.method('__init__')
    for p in chk.run(f, recv=SELF, types={SELF: c}, exc='none', opaque={
            m.short for m in [c.method('_initialize')] if m is not None}):
        if p.outcome == 'return':
            ws = [e for e in p.of('setattr') if e.recv == SELF and e.name == 'last_used']
            chk.must(bool(ws) and now(ws[-1]), 'C05.stamp', f.short, 'a new connection is not marked as used at the time '
                     'it is made', ws[-1] if ws else None, p)
    for c, f in uri_ops(repo):
        args, kw = entry_args(f)
        types = types_of(f, repo)
        types[SELF] = c
        for p in chk.run(f, recv=SELF, decorated=True, args=args, kwargs=kw, types=types, exc='none'):
            used = set()
            for e in p.events:
                if e.kind == 'setattr' and now(e):
                    used.add(e.recv)
                elif e.kind == 'op' and e.raw[0] != 'uri' and e.name not in ('get_connection', 'pre_call_hook'):
                    chk.must(e.raw[0] in used, 'C05.stamp', f.short, '%s is asked of a connection that is not marked as '
                             'used' % e.name, e, p)


@rules_for('C05', 'Every path of cleanup, shutdown and the cleaner is interpreted with up to two connections in '
           'the table and every call failing in turn: which connections are closed, under which comparison, '
           'and in what order they are withdrawn and closed.')
def c05(chk):
    r = Registry(chk)
    repo = chk.repo
    chk.rule('C05.idle', 'only a connection unused for longer than the timeout is closed unless forced', 2)
    chk.rule('C05.all', 'every idle, and if forced every, connection is closed', 2)
    chk.rule('C05.first', 'a connection is withdrawn from the table before it is closed', 2)
    chk.rule('C05.lost', 'a connection that another thread withdrew meanwhile is no error', 1)
    chk.rule('C05.snapshot', 'the loop does not run over the table it changes', 1)
    chk.rule('C05.contained', 'a connection that fails to close does not end the cleanup', 1)
    chk.rule('C05.shutdown', 'shutdown stops the cleaner and forces the cleanup', 2)
    chk.rule('C05.cleaner', 'the cleaner stops when told so and never forces', 1)
    chk.rule('C05.stamp', 'every operation marks its connection as used at the current time', 20)
    clock = clock_of(chk)
    stamps(chk)
    f = r.cls.method('cleanup')
    if f is None:
        raise Broken('no cleanup')
    force = params(f)[0] if params(f) else None

    def look(f, ps, forced=None):
        cons = f.short
        for p in ps:
            closes = [e for e in p.of('call', 'op') if e.name == 'close']
            els = {}
            for e in p.events:
                for x in [e.recv] + list(e.args or ()):
                    if isinstance(x, tuple):
                        for t in subterms(x):
                            if t[0] == 'elem' and contains(t[1], r.conns):
                                els.setdefault(t, e)
            subjects = {}
            for t in els:
                view = view_of(t[1], r.conns)
                if view is None:
                    continue
                subjects[t] = {'items': (('i', t, C(0)), ('i', t, C(1))),
                               'keys': (t, ('i', r.conns, t)), 'values': (None, t)}[view]
            for e in closes:
                conn = e.recv
                sub = [s for s in subjects.values() if s[1] == conn or popped(conn, r.conns) == s[0]
                       or getof(conn, r.conns, s[0])]
                if not sub:
                    chk.must(False, 'C05.idle', cons, 'something is closed that the table does not hold', e, p)
                    continue
                key, elem = sub[0]
                ids = [conn, elem]
                verdict = None
                for g in before(p, e):
                    if g.kind == 'guard':
                        for c in ids + [x for x in subterms(g.recv) if getof(x, r.conns, key) or popped(x, r.conns) == key]:
                            v = idle_guard(g, c, clock)
                            if v is not None:
                                verdict = v
                isforced = forced if forced is not None else fact(p, P(force), e) is True
                chk.must(verdict is True or isforced, 'C05.idle', cons,
                         'a connection is closed that is not known to be idle%s' % (
                             ' (the comparison is %s)' % 'odd' if verdict == 'odd' else ''), e, p)
                gone = [x for x in before(p, e) if removal_of(x, r.conns) == key and key is not None]
                if chk.must(bool(gone), 'C05.first', cons, 'a connection is closed while lookups still find it', e, p):
                    g = gone[-1]
                    if g.kind == 'mut' and len(g.args) > 1:
                        t = g.res
                        lost = t == conn or any(x.kind == 'guard' and contains(x.recv, t) for x in before(p, e))
                        none = any(x.kind == 'guard' and x.recv == ('op', 'is', t, NONE) and x.res or
                                   x.kind == 'guard' and x.recv == t and not x.res for x in before(p, e))
                        chk.must(lost and not none, 'C05.lost', cons,
                                 'a connection that another thread withdrew is closed again', e, p)
                    elif g.kind in ('mut', 'delitem'):
                        hot = any(x.kind == 'callraise' and x.node is g.node for q_ in ps for x in q_.events)
                        esc = [q_ for q_ in ps if q_.outcome == 'raise' and any(
                            x.kind == 'callraise' and x.node is g.node for x in q_.events[-3:])]
                        chk.must(hot and not esc, 'C05.lost', cons,
                                 'withdrawing a connection that another thread withdrew raises KeyError', g, p)
            # completeness
            if p.outcome == 'return' and p.value == NONE:
                for b in p.of('loop'):
                    if b.name == 'begin' and contains(b.recv, r.conns):
                        chk.must(any(x.name == 'end' and x.recv == b.recv and x.idx > b.idx for x in p.of('loop')), 'C05.all',
                                 cons, 'the connections are not all gone through', b, p)
            if p.outcome == 'return':
                for t, (key, elem) in subjects.items():
                    if key is None:
                        continue
                    idle = None
                    for g in p.events:
                        if g.kind == 'guard':
                            for c in [elem] + [x for x in subterms(g.recv) if getof(x, r.conns, key)
                                               or popped(x, r.conns) == key]:
                                v = idle_guard(g, c, clock)
                                if v in (True, False):
                                    idle = v
                    isforced = forced if forced is not None else fact(p, P(force)) is True
                    closed = [e for e in closes if e.recv == elem or popped(e.recv, r.conns) == key
                              or getof(e.recv, r.conns, key)]
                    def looked(y):
                        return popped(y, r.conns) == key or getof(y, r.conns, key)
                    lost = any(x.kind == 'guard' and (
                        x.recv[0] == 'op' and x.recv[1] == 'is' and looked(x.recv[2]) and x.res or
                        looked(x.recv) and not x.res) for x in p.events) or any(
                        x.kind == 'callraise' for x in p.events)
                    if isforced or idle is not False:
                        chk.must(bool(closed) or lost, 'C05.all', cons,
                                 'a connection that %s is not closed' % (
                                     'is to be closed by force' if isforced else 'is idle' if idle else 'may be idle'),
                                 els[t], p)
            # snapshot
            for b in p.of('loop'):
                if b.name == 'begin' and live_view(b.recv, r.conns):
                    end = [x.idx for x in p.of('loop') if x.name == 'end' and x.recv == b.recv and x.idx > b.idx]
                    inner = p.events[b.idx:end[0] if end else None]
                    chk.must(not any(removal_of(x, r.conns) for x in inner), 'C05.snapshot', cons,
                             'the loop runs over the table itself while entries are removed', b, p)
                elif b.name == 'begin' and contains(b.recv, r.conns):
                    chk.ok('C05.snapshot')

    ps = chk.run(f, recv=SELF, types=r.types, exc='none', unroll=2)
    look(f, ps)
    chk.must(any(e.name == 'close' for p in ps for e in p.of('call')), 'C05.all', f,
             'cleanup closes nothing', where=where(f))
    # what happens if close fails
    pe = chk.run(f, recv=SELF, types=r.types, exc='all', unroll=1)
    for p in pe:
        for e in p.of('callraise'):
            if e.name == 'close':
                chk.must(p.outcome == 'return', 'C05.contained', f,
                         'a failing close ends the cleanup with the exception', e, p)
                caught = [x for x in p.events[e.idx:] if x.kind in ('caught', 'swallow')]
                ends = [x for x in p.events[e.idx:] if x.kind == 'loop' and x.name == 'end' and contains(x.recv, r.conns)]
                chk.must(bool(caught) and bool(ends) and caught[0].idx < ends[0].idx, 'C05.contained', f,
                         'a failing close leaves the loop over the connections', e, p)
                if caught:
                    chk.must(catches_all(caught[0]), 'C05.contained', f,
                             'only %s from a failing close is contained' % caught[0].name, caught[0], p)
    look(f, [p for p in chk.run(f, recv=SELF, types=r.types, exc='try', unroll=1)])
    # shutdown
    sd = r.cls.method('shutdown')
    if sd is None:
        raise Broken('no shutdown')
    ps = chk.run(sd, recv=SELF, types=r.types, exc='none', unroll=1)
    look(sd, ps, forced=True)
    flags = set()
    for p in ps:
        st = [e for e in p.of('setattr') if e.recv == SELF and e.args[0] in (FALSE, TRUE)]
        flags |= {(e.name, e.args[0]) for e in st}
        chk.must(bool(st) or any(e.name == 'set' for e in p.of('call')), 'C05.shutdown', sd,
                 'the cleaner is not told to stop', None, p)
        joins = [e for e in p.of('call') if e.name == 'join']
        for j in joins:
            chk.must(any(e.idx < j.idx for e in st) or any(e.name == 'set' and e.idx < j.idx for e in p.of('call')),
                     'C05.shutdown', sd, 'the cleaner is waited for before it is told to stop', j, p)
        chk.must(any(e.name == 'close' for q_ in ps for e in q_.of('call')), 'C05.shutdown', sd,
                 'shutdown closes nothing', None, p)
        if p.outcome == 'return':
            chk.must(visits(p, r.conns), 'C05.shutdown', sd, 'shutdown may end without having looked at the connections', None, p)
    cl = r.cls.method('cleaner')
    if cl is None:
        raise Broken('no cleaner')
    try:
        ps = chk.run(cl, recv=SELF, types=r.types, exc='none', unroll=2, opaque={f.short})
    except Broken:
        read = {x.attr for m in r.cls.methods.values() for x in ast.walk(m.node) if isinstance(x, ast.Attribute)
                and isinstance(x.ctx, ast.Load)}
        if any(name in read for name, _ in flags):
            raise
        chk.must(False, 'C05.cleaner', cl, 'no path of the cleaner ends', where=where(cl))
        return
    seen = 0
    for p in ps:
        for e in p.of('icall'):
            if e.raw is f:
                seen += 1
                chk.must(not e.args or e.args[0] in (FALSE, NONE), 'C05.cleaner', cl,
                         'the cleaner closes connections by force', e, p)
    if not seen:
        ps = chk.run(cl, recv=SELF, types=r.types, exc='none', unroll=1)
    look(cl, ps, forced=False)
    for name, val in flags:
        t = ('a', SELF, name)
        stop = [p for p in ps if p.outcome == 'return' and fact(p, t) == val[2]]
        on = [p for p in ps if p.outcome == 'return' and stop == [] ]
        chk.must(bool(stop), 'C05.cleaner', cl, 'no path of the cleaner ends because of %s' % name, where=where(cl))
        for p in ps:
            gs = [e for e in p.events if e.kind == 'guard' and e.recv == t and e.res == val[2]]
            if gs:
                later = [e for e in p.events[gs[0].idx:] if e.name == 'close' or e.kind == 'call' and e.name == 'time.sleep']
                chk.must(not later, 'C05.cleaner', cl, 'the cleaner goes on after it was told to stop', gs[0], p)
    # the loop waits on the flag: between two cleanups it is looked at
    init = r.cls.method('__init__')
    for p in chk.run(init, recv=SELF, types=r.types, exc='none'):
        for name, val in flags:
            sets = [e for e in p.of('setattr') if e.name == name]
            starts = [e for e in p.of('call') if e.name == 'start']
            chk.must(bool(sets) and sets[-1].args[0] != val and all(sets[0].idx < s.idx for s in starts),
                     'C05.cleaner', init, 'the cleaner starts out as told to stop', None, p)


def catches_all(ev):
    return any(t in (('g', 'BaseException'), ('g', 'Exception')) for t in ev.raw) if ev.raw else ev.kind == 'swallow'


def popped(t, table):
    if t is not None and t[0] == 'call' and t[1] == ('a', table, 'pop') and t[2]:
        return t[2][0]
    return None


def removal_of(e, table):
    """the key an event takes out of the table"""
    if e.kind == 'mut' and e.name == 'pop' and e.recv == table and e.args:
        return e.args[0]
    if e.kind == 'delitem' and e.recv == table:
        return e.args[0]
    return None


def strip_views(t):
    while t[0] == 'call' and (t[1][0] == 'g' and t[1][1] in ('list', 'tuple', 'sorted', 'set', 'frozenset', 'iter', 'dict')) and t[2]:
        t = t[2][0]
    return t


def view_of(t, table):
    t = strip_views(t)
    name = 'keys'
    while t[0] == 'call' and t[1][0] == 'a':
        if t[1][2] in ('items', 'keys', 'values'):
            name = t[1][2]
        t = strip_views(t[1][1])
    return name if t == table else None


def live_view(t, table):
    """t changes while the table does"""
    if t == table:
        return True
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('items', 'keys', 'values', '__iter__') and not t[2]:
        return live_view(t[1][1], table)
    if t[0] == 'call' and t[1] == ('g', 'iter'):
        return live_view(t[2][0], table)
    return False


def clock_of(chk):
    """the clock that marks connections as used"""
    repo = chk.repo
    f = repo.method('BaseUri', 'exists')
    for p in chk.run(f, recv=SELF, decorated=True, args=[], types={SELF: 'BaseUri'}, exc='none'):
        for e in p.of('setattr'):
            if e.name == 'last_used' and e.args[0][0] == 'call':
                return e.args[0][1]
    return ('g', 'time.time')
