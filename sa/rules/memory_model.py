"""
The node model of the memory backend: which term denotes a node, of which kind
it is known to be, whether it may be absent.  Recursive lookups are summarised
by a fixed point over their own body (may the result be None / a link).
"""
from .common import *
from ..interp import Rse, EXC_ALIASES, BUILTIN_EXC

PUBLIC = ('exists', 'isfile', 'isdir', 'islink', 'isexec', 'set_exec', 'mkdir', 'open', 'info', 'copystat',
          'listdir', 'mtime', 'removefile', 'removedir', 'lock', 'symlink', 'readlink')
QUERY_OPS = ('exists', 'isfile', 'isdir', 'islink')


class Model(object):
    def __init__(self, repo):
        self.repo = repo
        self.fs = repo.cls('MemoryFileSystem')
        self.nodes = {}
        cands = [c for c in self.fs.module.names.values() if c[0] == 'class']
        I = Interp(repo, Cfg(exc='none'))
        for k in cands:
            c = k[1]
            f = c.find('kind')
            if f and f[0] == 'attr':
                v = I_const(repo, f[1], f[2])
                if v is not None:
                    self.nodes[v] = c
        if len(self.nodes) != 3:
            raise Broken('expected three kinds of memory nodes, found %s' % sorted(
                c.name for c in self.nodes.values()))
        by = {c.name: (v, c) for v, c in self.nodes.items()}
        try:
            self.FILE, self.fcls = by['MemoryFile']
            self.DIR, self.dcls = by['MemoryDir']
            self.LINK, self.lcls = by['MemorySymlink']
        except KeyError as e:
            raise Broken('no node class %s' % e)
        self.attrs = {c: instance_attrs(c) for c in self.nodes.values()}
        # where a directory keeps its entries, where the file system keeps its root
        self.store = None
        for p in self._ctor(self.dcls):
            for e in p.of('setattr'):
                v = e.args[0]
                if e.recv == SELF and (v[0] == 'dict' or v[0] == 'call' and v[1][0] == 'g' and v[1][1].split('.')[-1] in (
                        'dict', 'defaultdict', 'OrderedDict')):
                    self.store = e.name
        self.root = None
        for p in Interp(repo, Cfg(types={SELF: 'MemoryFileSystem'}, exc='none')).paths(
                repo.method('MemoryFileSystem', '_initialize'), recv=SELF):
            for e in p.of('setattr'):
                if e.args[0][0] == 'new' and e.args[0][1] is self.dcls:
                    self.root = e.name
        if not self.store or not self.root:
            raise Broken('no table of entries / no root directory found in the memory backend')
        self.rootterm = ('a', SELF, self.root)
        self.summaries = {}
        self.attr_types = {('MemoryFileSystem', self.root): 'MemoryDir'}

    def _ctor(self, c):
        return Interp(self.repo, Cfg(types={SELF: c}, exc='none')).paths(c.method('__init__'), recv=SELF)

    # -- nodes --------------------------------------------------------------------
    def files(self, d):
        return ('a', d, self.store)

    def is_node(self, I, t):
        """None, 'node' or 'maybe' (may be None)"""
        k = t[0]
        if t == self.rootterm:
            return 'node'
        if k == 'new' and t[1] in self.attrs:
            return 'node'
        if k == 'i':
            b = t[1]
            if b[0] == 'a' and b[2] == self.store:
                return 'node'
            if b[0] == 'r' and b[2] == SELF and isc(t[2]) and self.known_rec(b):
                return 'maybe'
            if b[0] == 'elem' and t[2] == C(1) and self._items(b[1]):
                return 'node'
        if k == 'call' and t[1][0] == 'a' and t[1][2] == 'get' and t[1][1][0] == 'a' \
                and t[1][1][2] == self.store:
            return 'maybe'
        if k == 'elem' and t[1][0] == 'call' and t[1][1][0] == 'a' and t[1][1][2] == 'values' \
                and t[1][1][1][0] == 'a' and t[1][1][1][2] == self.store:
            return 'node'
        if k == 'r' and t[2] == SELF and self.known_rec(t) == 'node':
            return 'maybe'
        if k == 'p' and t[1] == '#base':
            return 'node'
        return None

    def _items(self, t):
        while t[0] == 'call' and t[1][0] == 'g' and t[1][1] in ('sorted', 'list', 'tuple') and t[2]:
            t = t[2][0]
        return t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'items' and t[1][1][0] == 'a' \
            and t[1][1][2] == self.store

    def known_rec(self, t):
        s = self.recs.get(t)
        return s and s['shape']

    recs = {}

    def kinds(self, facts, eqs, t):
        """node classes t may be of"""
        if t[0] == 'new':
            return {t[1]}
        if t == self.rootterm or t == ('p', '#base'):
            return {self.dcls}
        ka = ('a', t, 'kind')
        if ka in eqs and isc(eqs[ka]):
            c = self.nodes.get(eqs[ka][2])
            return {c} if c else set()
        poss = set(self.attrs)
        for v, c in self.nodes.items():
            f = facts.get(('op', '==', ka, C(v)))
            if f is False:
                poss.discard(c)
            elif f is True:
                poss &= {c}
        for c in list(self.attrs):
            f = facts.get(('op', 'isinstance', t, ('cls', c)))
            if f is False:
                poss.discard(c)
            elif f is True:
                poss &= {c}
        return poss

    def nonnone(self, facts, eqs, t):
        if facts.get(('op', 'is', t, NONE)) is False or facts.get(t) is True:
            return True
        # an answered question about it shows it's there
        return any(k[0] == 'op' and k[1] in ('==', 'isinstance') and v is True and (
            k[2] == ('a', t, 'kind') or (k[1] == 'isinstance' and k[2] == t)) for k, v in facts.items())

    # -- hooks ----------------------------------------------------------------------
    def type_hook(self, I, t):
        if t[0] == 'a' and t[2] == 'target':
            return I.uri
        if self.is_node(I, t):
            ks = self.kinds(I.facts, I.eqs, t)
            if len(ks) == 1:
                return next(iter(ks))
        return None

    def attr_hook(self, I, b, name, node):
        what = self.is_node(I, b)
        if not what:
            return
        if what == 'maybe' and not self.nonnone(I.facts, I.eqs, b):
            self.use(I, b, name, False, 'it may be missing (None)', node)
            return
        ks = self.kinds(I.facts, I.eqs, b)
        bad = [c.name for c in ks if name not in self.attrs[c] and not c.find(name)]
        self.use(I, b, name, not bad, 'it may be a %s' % '/'.join(sorted(bad)), node)

    def use(self, I, b, name, ok, why, node):
        I.emit(Ev('nodeuse', name, recv=I.resolve(b), args=(C(ok),), raw=why), node)

    def item_hook(self, I, b, i, node):
        if b[0] == 'a' and b[2] == self.store:
            known = I.facts.get(('op', 'in', i, b)) is True or self.member_elem(b, i)
            I.emit(Ev('nodeuse', '[]', recv=b, args=(C(known),), raw='the name may be absent'), node)

    def member_elem(self, b, i):
        """i iterates over the table itself"""
        return i[0] == 'elem' and contains(i[1], b) or (
            i[0] == 'i' and i[1][0] == 'elem' and contains(i[1][1], b))

    def table_hook(self, I, b):
        return b[0] == 'a' and b[2] == self.store

    def truth_hook(self, I, t):
        if t[0] == 'op' and t[1] == 'is' and t[3] == NONE and self.is_node(I, t[2]) == 'node':
            return False
        # every path of the memory backend is absolute
        if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'startswith' and t[2] == (C('/'),):
            x = t[1][1]
            if x[0] == 'a' and x[2] in ('path',) and I.is_uri(x[1]):
                return True
        return None

    def rec_hook(self, I, e, f, recv, args, kw):
        if recv != SELF or e.kind != 'rec':
            return
        s = self.summary(f, e.args)
        self.recs[e.res] = s
        comps = {None: e.res} if s['shape'] == 'node' else {
            k: ('i', e.res, C(k)) for k in s['comps']}
        for k, t in comps.items():
            may_none, may_link = s['comps'][k]
            for fact_, v in ((('op', 'is', t, NONE), may_none),
                             (('op', '==', ('a', t, 'kind'), C(self.LINK)), may_link)):
                if not v:
                    I.facts[fact_] = False
                    I.emit(Ev('guard', 'summary', recv=fact_, res=False))
        if I.cfg.exc != 'none' and s['raises']:
            rs = sorted(s['raises'])
            n = I.choose(len(rs) + 1)
            if n:
                cls, err = rs[n - 1]
                x = ('exc', cls, (('g', err),) if err else (), I.fresh())
                I.emit(Ev('callraise', f.name, args=(x,)))
                raise Rse(x)
        return True

    def summary(self, f, bound):
        names = params(f)
        key = (f.qual, tuple((n, a if isc(a) and not isinstance(a[2], int) or a in (TRUE, FALSE) else None)
                             for n, a in zip(names, bound)), tuple(
                                 a == self.rootterm for a in bound))
        if key in self.summaries:
            return self.summaries[key]
        args = []
        for n, a in zip(names, bound):
            if isc(a) and (isinstance(a[2], bool) or a[2] is None):
                args.append(a)
            elif a == self.rootterm:
                args.append(a)
            else:
                args.append(('p', n))
        s = self.summaries[key] = {'shape': 'pair', 'comps': {0: (False, False), 1: (False, False)},
                                   'raises': set()}
        types = {('p', n): 'BaseUri' for n in names if n in ('path', 'unc', 'target')}
        types[SELF] = 'MemoryFileSystem'
        for _ in range(6):
            I = Interp(self.repo, self.cfg(types=types, unroll=2, exc='summary'))
            ps = I.paths(f, args=args, kwargs=[], recv=SELF)
            shape, comps, raises = None, {}, set()
            for p in ps:
                if p.outcome != 'return':
                    cls, err = exc_of(p.value)
                    raises.add((cls, err))
                    continue
                v = p.value
                if v[0] in ('list', 'tuple'):
                    sh, parts = 'pair', dict(enumerate(v[1]))
                else:
                    sh, parts = 'node', {None: v}
                if shape not in (None, sh):
                    sh = 'mixed'
                shape = sh
                for k, t in parts.items():
                    n = t == NONE or (self.is_node(I, t) == 'maybe' and not self.nonnone(p.facts, {}, t)) or \
                        self.is_node(I, t) is None
                    l = t != NONE and self.lcls in self.kinds(p.facts, eqs_of(p), t)
                    o = comps.get(k, (False, False))
                    comps[k] = (o[0] or n, o[1] or l)
            new = {'shape': shape or 'pair', 'comps': comps or {0: (False, False), 1: (False, False)},
                   'raises': raises}
            if new == s:
                break
            s.clear()
            s.update(new)
        return s

    def cfg(self, types=None, unroll=2, exc='none', **kw):
        types = dict(types or {})
        types.setdefault(SELF, 'MemoryFileSystem')
        at = dict(self.attr_types)
        return Cfg(types=types, unroll=unroll, exc=exc, inline_self_ops=True, attr_types=at,
                   type_hook=self.type_hook, attr_hook=self.attr_hook, item_hook=self.item_hook,
                   rec_hook=self.rec_hook, truth_hook=self.truth_hook, table_hook=self.table_hook, **kw)

    # -- traces -----------------------------------------------------------------------
    def run(self, chk, name, unroll=2, exc='none', types=None, args=None, **kw):
        f = chk.repo.method('MemoryFileSystem', name)
        t = {('p', n): 'BaseUri' for n in f.params() if n in (
            'path', 'unc', 'link_name', 'src', 'dest', 'source', 'target', 'other')}
        if f.params()[1:]:
            t[('p', f.params()[1])] = 'BaseUri'
        t.update(types or {})
        c = self.cfg(types=t, unroll=unroll, exc=exc, **kw)
        return f, chk.run(f, args=args, **{k: v for k, v in vars(c).items()})

    def steps(self, p, subj):
        """the non-empty components of the path of subj on this path, in order"""
        els = {}
        for e in p.events:
            for x in (e.recv,) + tuple(e.args):
                if x is None or not isinstance(x, tuple):
                    continue
                for t in subterms(x):
                    if t[0] == 'elem' and split_of(t[1], subj):
                        els[t] = els.get(t)
            if e.kind == 'guard' and e.recv[0] == 'elem' and split_of(e.recv[1], subj):
                els[e.recv] = e.res
            elif e.kind == 'guard' and e.recv[0] == 'op' and e.recv[1] == '==' and e.recv[3] == C('') \
                    and e.recv[2][0] == 'elem' and split_of(e.recv[2][1], subj):
                els[e.recv[2]] = not e.res
        return [t for t in sorted(els, key=lambda t: t[2]) if els[t] is not False]

    def dirs_for(self, p, steps):
        """what may denote the directory that holds the last step"""
        cur = [self.rootterm]
        for s in steps[:-1]:
            nxt = []
            for d in cur:
                x = ('i', self.files(d), s)
                nxt.append(x)
                nxt.append(('call', ('a', self.files(d), 'get')))
                for e in p.of('rec', 'icall'):
                    if any(contains(a, ('a', x, 'target')) for a in e.args) or last_target(p, e) == x:
                        nxt.append(e.res)
                        nxt.extend(('i', e.res, C(k)) for k in (0, 1, -1))
            cur = nxt
        return cur


def last_target(p, ev):
    """the link whose target was read last before ev"""
    for e in reversed(p.events[:ev.idx]):
        if e.kind == 'nodeuse' and e.name == 'target':
            return e.recv
    return None


def facts_at(p, ev=None):
    return {e.recv: e.res for e in before(p, ev) if e.kind == 'guard'}


def exc_of(v):
    """(class name, errno name) of a raised value"""
    c = v[1]
    if hasattr(c, 'name'):
        c = c.name
    if not isinstance(c, str):
        # an instance made by a class held in an attribute
        if c[0] == 'call' and c[1] == ('a', SELF, 'lookup_exc_class'):
            return 'OSError', c[2][0][1] if c[2] and c[2][0][0] == 'g' else ''
        return show(c), ''
    err = v[2][0][1] if v[0] == 'exc' and v[2] and v[2][0][0] == 'g' else ''
    return c, err


def eqs_of(p):
    return eqs_from(p.facts)


def eqs_from(facts):
    out = {}
    for t, v in facts.items():
        if v is True and t[0] == 'op' and t[1] == '==' and isc(t[3]):
            out[t[2]] = t[3]
    return out


def split_of(t, subj):
    """t is what splitting the path of subj yields"""
    if not (t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('split', 'rsplit')):
        return False
    return text_of(t[1][1], subj)


def text_of(t, subj):
    """t is a text cut out of the path of subj"""
    while True:
        if t == ('a', subj, 'path') or t == subj:
            return True
        if t[0] == 'slice':
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'a':
            t = t[1][1]
        elif t[0] == 'op' and t[1] == '+':
            t = t[2]
        else:
            return False


def I_const(repo, expr, cls):
    I = Interp(repo, Cfg(exc='none'))
    I._reset([])
    v = I.const_expr(expr, cls.module, cls)
    return v[2] if v is not None and isc(v) else None


def instance_attrs(c):
    import ast
    out = set()
    for k in c.mro():
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Name) and n.value.id == 'self':
                    out.add(n.attr)
        out |= set(k.attrs) | set(k.methods) | set(k.props)
    return out | {'__class__'}


_models = {}


def model(repo):
    if id(repo) not in _models:
        _models.clear()
        _models[id(repo)] = (repo, Model(repo))
        Model.recs = {}
    return _models[id(repo)][1]


def node_effects(m, p):
    """changes of directory tables: ('add'|'del'|'other', directory, name, value, event)"""
    out = []
    for e in p.events:
        r = e.recv
        if r is None or r[0] != 'a' or r[2] != m.store:
            continue
        if e.kind == 'setitem':
            out.append(('add', r[1], e.args[0], e.args[1], e))
        elif e.kind == 'delitem':
            out.append(('del', r[1], e.args[0], None, e))
        elif e.kind == 'mut':
            if e.name in ('pop', '__delitem__') and e.args:
                out.append(('del', r[1], e.args[0], None, e))
            elif e.name == 'setdefault' and len(e.args) == 2:
                out.append(('add', r[1], e.args[0], e.args[1], e))
            elif e.name == '__setitem__':
                out.append(('add', r[1], e.args[0], e.args[1], e))
            else:
                out.append(('other', r[1], NONE, None, e))
    for e in p.of('setattr'):
        if e.name == m.store and e.recv[0] not in ('new', 'obj') or (e.name == m.root and e.recv == SELF):
            out.append(('other', e.recv, NONE, None, e))
    return out


def removal_rules(chk):
    m = model(chk.repo)
    for name in ('removefile', 'removedir'):
        f, ps = m.run(chk, name)
        subj = ('p', params(f)[0])
        done = 0
        for p in ps:
            eff = node_effects(m, p)
            S = m.steps(p, subj)
            for kind, d, key, val, e in eff:
                chk.must(kind == 'del', 'backend', 'memory.%s:effect' % name,
                         '%s changes a directory other than by deleting one entry' % name, e, p)
                if kind != 'del' or not S:
                    continue
                done += 1
                chk.must(key == S[-1] and any(same(d, x) for x in m.dirs_for(p, S)), 'backend',
                         'memory.%s:subject' % name, '%s deletes %s from %s, which is not the entry it was asked '
                         'to delete' % (name, show(key), show(d)), e, p)
                x = ('i', m.files(d), key)
                fa = facts_at(p, e)
                ks = m.kinds(fa, eqs_from(fa), x)
                if name == 'removefile':
                    chk.must(m.dcls not in ks, 'backend', 'memory.%s:kind' % name,
                             'removefile deletes what may be a directory', e, p)
                else:
                    chk.must(ks == {m.dcls}, 'backend', 'memory.%s:kind' % name,
                             'removedir deletes what may be a file or a link', e, p)
                    chk.must(fact(p, m.files(x), e) is False, 'backend', 'memory.%s:empty' % name,
                             'removedir deletes a directory that may hold entries', e, p)
            if p.outcome == 'return':
                chk.must(len(eff) == 1 or (name == 'removedir' and not S), 'backend',
                         'memory.%s:effect' % name, '%s returns after %d deletions' % (name, len(eff)), path=p,
                         where=f.short)
            else:
                chk.must(not eff, 'backend', 'memory.%s:partial' % name, '%s deletes and fails' % name, path=p,
                         where=f.short)
        chk.must(done >= 2, 'backend', 'memory.%s:any' % name, '%s never deletes anything' % name, where=f.short)


def same(a, b):
    if a == b:
        return True
    return b[0] == 'call' and len(b) == 2 and a[0] == 'call' and a[1] == b[1]
