"""
C19-C21: operations of the memory backend, decided over partially known trees.

Every operation is analysed in line, for paths of up to three components, on
abstract paths that fork where the code asks whether a name is there, and of
which kind a node is.  What an abstract path has asked is a partially known
tree; an independent resolver enumerates everything the path may denote in the
trees that agree with it.  An answer, a failure or a change has to be right in
all of them - else some tree exists for which the code is wrong.
"""
import ast

from . import rules_for
from .memory_model import *
from .uris import leaves
from ..interp import Drop

PATH, PATH2 = P('path'), P('path2')
X = P('x')
# where the links lead, by the name of the entry that holds the link
TARGETS = {'a': '/t', 'b': '/s/w', 'c': '/t', 't': '/u', 's': '/u', 'w': '/u', 'k': '/t', ' aB.%~ ': '/t', '..': '/t'}


class World(object):
    def __init__(self, chk):
        self.chk = chk
        self.repo = chk.repo
        self.m = model(chk.repo)
        self.targets = TARGETS
        self.laid = None
        self.m.pin = None
        self.m.targets = TARGETS
        self.consts = self.class_attrs()

    def class_attrs(self):
        """attributes of the file system that hold an exception class"""
        out = {}
        for p in Interp(self.repo, Cfg(types={SELF: 'MemoryFileSystem'}, exc='none')).paths(
                self.repo.method('MemoryFileSystem', '_initialize'), recv=SELF):
            for e in p.of('setattr'):
                v = e.args[0]
                if v[0] == 'g' and v[1].split('.')[-1] in ('OSError', 'IOError', 'EnvironmentError', 'FileDoesNotExistError'):
                    out[e.name] = ('g', 'OSError') if v[1] in ('IOError', 'EnvironmentError') else v
        return out

    def run(self, src, text, text2='/k', **cfg):
        m = self.m

        def attr(I, b, name, node):
            rb = I.resolve(b)
            if name == 'path' and rb in (PATH, PATH2):
                return C(text if rb == PATH else text2)
            if name in ('path', 'unipath') and self.laid is not None:
                v = self.laid.text(rb, text, text2)
                if v is not None:
                    return C(v)
            if name == 'path' and rb[0] == 'a' and rb[2] == 'target':
                n = entry_name(m, rb[1])
                if n in self.targets:
                    return C(self.targets[n])
                raise Drop()
            if rb == SELF and name in self.consts:
                return self.consts[name]
            return m.attr_hook(I, b, name, node)

        def typ(I, t):
            if t in (PATH, PATH2):
                return I.uri
            return m.type_hook(I, t)

        def truth(I, t):
            if self.laid is not None:
                r = self.laid.answer(I, t, text, text2)
                if r is not None:
                    I.facts[t] = r
                    return r
            if m.pin is not None:
                r = pinned(m, t)
                if r is not None:
                    I.facts[t] = r
                    I.emit(Ev('guard', 'pinned', recv=t, res=r))
                    return r
            if t[0] == 'op' and t[1] == 'is' and t[3] == NONE and m.is_node(I, t[2]) == 'node':
                return False
            if m.is_node(I, t) == 'node' and not any(c.find(n) for c in m.kinds(I.facts, I.eqs, t)
                                                     for n in ('__len__', '__bool__')):
                return True
            if t[0] == 'op' and t[1] in ('==', 'isinstance'):
                n, cls = (t[2][1], m.nodes.get(t[3][2])) if t[1] == '==' and t[2][0] == 'a' and t[2][2] == 'kind' and isc(t[3]) \
                    else (t[2], t[3][1] if t[3][0] == 'cls' else None) if t[1] == 'isinstance' else (None, None)
                if cls in m.attrs and n is not None and m.is_node(I, n):
                    ks = m.kinds(I.facts, I.eqs, n)
                    if cls not in ks:
                        return False
                    if ks == {cls} and m.is_node(I, n) == 'node':
                        return True
            return m.truth_hook(I, t)

        c = dict(types={SELF: 'MemoryFileSystem', PATH: 'MemoryFileSystemUri', PATH2: 'MemoryFileSystemUri'},
                 unroll=1, exc='none', inline_self_ops=True, attr_types=dict(m.attr_types), attr_hook=attr, type_hook=typ,
                 item_hook=m.item_hook, truth_hook=truth, table_hook=m.table_hook, recurse=12, inline_ops=PUBLIC)
        c.update(cfg)
        return client(self.chk, m.fs.module, src, {
            'fs': SELF, 'path': PATH, 'path2': PATH2, 'x': X, 'YES': ('g', 'YES'), 'NO': ('g', 'NO'), 'MARK': ('g', 'MARK')},
            '%s at %s' % (src.split('\n')[0], text), **c)


def pinned(m, t):
    """the answer to a question about a tree that is laid down by name"""
    if t[0] != 'op' or len(t) < 4:
        return None
    if t[1] == 'in' and isc(t[2]) and t[3][0] == 'a' and t[3][2] == m.store and t[2][2] in m.pin:
        return m.pin[t[2][2]] is not None
    n, want = None, ()
    if t[1] == '==' and t[2][0] == 'a' and t[2][2] == 'kind' and isc(t[3]):
        n, want = t[2][1], (m.nodes.get(t[3][2]),)
    elif t[1] == 'isinstance' and t[3][0] == 'cls':
        n, want = t[2], (t[3][1],)
    elif t[1] == 'is' and t[3] == NONE:
        n, want = t[2], None
    if n is None:
        return None
    n = noepoch(n)
    if not (n[0] == 'i' and n[1][0] == 'a' and n[1][2] == m.store or n[0] == 'call' and n[1][0] == 'a' and n[1][2] == 'get'):
        return None
    k = m.pin.get(entry_name(m, n), 0)
    if k == 0:
        return None
    if want is None:
        return k is None
    return k in want


def entry_name(m, t):
    """the name under which the node t is kept"""
    t = noepoch(t)
    if t[0] == 'i' and isc(t[2]):
        return t[2][2]
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'get' and t[2] and isc(t[2][0]):
        return t[2][0][2]
    return None


# -- the resolver: what a path may denote -------------------------------------------------

class Tree(object):
    """the trees that agree with what an abstract path has asked before ev"""

    def __init__(self, m, p, ev=None):
        self.m = m
        self.facts = {}
        for e in before(p, ev):
            if e.kind == 'guard':
                self.facts.setdefault(self.norm(noepoch(e.recv)), e.res)
        self.eqs = eqs_from(self.facts)

    def norm(self, t):
        """one name for an entry, however it was fetched; absence as a missing name"""
        m = self.m
        if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'get' and t[1][1][0] == 'a' and t[1][1][2] == m.store and t[2]:
            return ('i', self.norm(t[1][1]), t[2][0])
        return tuple(self.norm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                     tuple(self.norm(y) if isinstance(y, tuple) and y and isinstance(y[0], str) else y for y in x)
                     if isinstance(x, tuple) else x for x in t)

    def has(self, d, name):
        if self.m.pin is not None and name in self.m.pin:
            return self.m.pin[name] is not None
        files = self.m.files(d)
        x = ('i', files, C(name))
        f = self.facts.get(('op', 'in', C(name), files))
        if f is None:
            n = self.facts.get(('op', 'is', x, NONE))
            if n is not None:
                f = not n
        if f is None and any(contains(t, ('a', x, 'kind')) for t in self.facts):
            f = True
        empty = self.facts.get(files)
        if f is None and empty is False:
            f = False
        return f

    def kinds(self, n):
        k = self.m.pin.get(entry_name(self.m, n)) if self.m.pin is not None else None
        return {k} if k is not None else self.m.kinds(self.facts, self.eqs, n)

    def resolve(self, text, follow=True, depth=0):
        """the set of what text may denote: ('absent',), ('node', term, class, links), ('open',) (not analysed)"""
        m = self.m
        targets = m.targets
        comps = [c for c in text.split('/') if c]
        states = {('node', m.rootterm, m.dcls, 0)}
        for i, c in enumerate(comps):
            new = set()
            for s in states:
                if s[0] != 'node':
                    new.add(s)
                elif s[2] is not m.dcls:
                    new.add(('absent',))
                else:
                    h = self.has(s[1], c)
                    if h is not True:
                        new.add(('absent',))
                    if h is not False:
                        x = ('i', m.files(s[1]), C(c))
                        for k in self.kinds(x):
                            if k is m.lcls and (follow or i < len(comps) - 1):
                                if c not in targets or depth > 3:
                                    new.add(('open',))
                                else:
                                    for r in self.resolve(targets[c], True, depth + 1):
                                        new.add(r[:3] + (r[3] + 1 + s[3],) if r[0] == 'node' else r)
                            else:
                                new.add(('node', x, k, s[3]))
            states = new
        return states

    def parent(self, text):
        comps = [c for c in text.split('/') if c]
        return self.resolve('/' + '/'.join(comps[:-1])), comps[-1] if comps else None


def known(states):
    return [s for s in states if s[0] != 'open']


def via_links(states):
    return any(s[0] == 'node' and s[3] for s in states)


def describe(states):
    return ' or '.join(sorted({'absent' if s[0] == 'absent' else 'a ' + s[2].name for s in known(states)})) or '?'


# -- the operations ------------------------------------------------------------------------

ODD = ' aB.%~ '
TEXTS = ('/', '/a', '/a/b', '/a/b/', '/' + ODD, '/..')
DEEP = ('/a/b/c',)
LOOKUP = {
    'info': ('return fs.info(path)', True, None),
    'info nofollow': ('return fs.info(path, followlinks=False)', False, None),
    'set info': ('fs.info(path, dict(mode=1, mtime=2))', True, None),
    'set info nofollow': ('fs.info(path, dict(mode=1, mtime=2), False)', False, None),
    'mtime': ('return fs.mtime(path)', True, None),
    'isexec': ('return fs.isexec(path, 1)', True, None),
    'set_exec': ('fs.set_exec(path, 1)', True, None),
    'listdir': ('return fs.listdir(path)', True, 'DIR'),
    'readlink': ('return fs.readlink(path)', False, 'LINK'),
    'open r': ('return fs.open(path, "r", "x/y")', True, 'FILE'),
    'open rb': ('return fs.open(path, "rb", "x/y")', True, 'FILE'),
    'open r+': ('return fs.open(path, "r+", "x/y")', True, 'FILE'),
    'open None': ('return fs.open(path, None, "x/y")', True, 'FILE'),
    'copystat from': ('fs.copystat(path, path2)', True, None),
    'copystat to': ('fs.copystat(path2, path)', True, None),
}
CREATE = {
    'mkdir': ('fs.mkdir(path)', 'DIR'),
    'symlink': ('fs.symlink(path2, path)', 'LINK'),
    'open w': ('return fs.open(path, "w", "x/y")', 'FILE'),
    'open wb': ('return fs.open(path, "wb", "x/y")', 'FILE'),
    'open w+': ('return fs.open(path, "w+", "x/y")', 'FILE'),
    'open a': ('return fs.open(path, "a", "x/y")', 'FILE'),
    'open ab': ('return fs.open(path, "ab", "x/y")', 'FILE'),
    'lock': ('l = fs.lock(path, False, False)\nreturn l.__enter__()', 'FILE'),
}
REMOVE = {'removefile': ('fs.removefile(path)', False), 'removedir': ('fs.removedir(path)', False)}
QUERIES4 = {'exists': None, 'isfile': 'FILE', 'isdir': 'DIR', 'islink': 'LINK'}
FOLLOWED = {'islink': False}


def world(chk):
    w = getattr(chk.repo, '_world', None)
    if w is None:
        w = chk.repo._world = World(chk)
    w.chk = chk
    return w


def texts(chk):
    return TEXTS + (DEEP if chk.thorough else ())


def cls_of(m, kind):
    return {'FILE': m.fcls, 'DIR': m.dcls, 'LINK': m.lcls, None: None}[kind]


def op_where(chk, op):
    f = chk.repo.method('MemoryFileSystem', {'set info': 'info', 'set info nofollow': 'info', 'info nofollow': 'info',
                                             'copystat from': 'copystat', 'copystat to': 'copystat'}.get(op, op.split()[0]))
    return '%s:%d (%s)' % (f.module.path, f.node.lineno, f.short) if f else None


def oserror(p):
    v = p.value
    if is_exc(v, 'OSError'):
        return True
    c = v[1] if v[0] == 'exc' else None
    if isinstance(c, tuple) and c[0] == 'call' and c[1][0] == 'g':
        return c[1][1] in ('OSError', 'IOError')
    return False


def failure(chk, rule, op, p, e=None):
    """uses of nodes that may be missing or of the wrong kind"""
    for x in p.events:
        if x.kind == 'nodeuse':
            chk.must(x.args[0] == TRUE, rule, '%s:%s' % (op.split()[0], x.name), '%s uses %r of %s, but %s' % (op, x.name, show(x.recv), x.raw), x, p)
        elif x.kind in ('badindex', 'badunpack', 'badcall'):
            chk.bad(rule, '%s:%s' % (op.split()[0], x.kind), '%s fails with %s on %s' % (op, x.kind, show(x.recv or NONE)), x, p)


def sides(chk, w, src, text):
    """runs of one operation in which nothing but the paths is known"""
    return w.run(src, text)


@rules_for('C19', 'Node-kind and absence analysis of every operation of the memory backend, in line over partially known '
           'trees: what an abstract path has asked about the tree is compared with everything its answer, its failure '
           'or the node it uses may be in a tree that agrees.')
def c19(chk):
    chk.rule('C19.node-use', 'every attribute or entry of a node is only used where the node is known to be there and '
             'to be of a kind that has it', 200)
    chk.rule('C19.raises', 'every failure of an operation is an OSError', 30)
    chk.rule('C19.query-total', 'queries never raise', 12)
    chk.rule('C19.query-answer', 'queries answer what the path denotes in every tree that agrees with what was asked', 40)
    chk.rule('C19.boolean', 'queries answer with a boolean', 4)
    chk.rule('C19.kind', 'an operation that succeeds used the node its path denotes, of the kind it needs', 60)
    chk.rule('C19.reach', 'an operation does not refuse a node of the kind it needs', 30)
    w = world(chk)
    m = w.m
    for op, kind in QUERIES4.items():
        for text in texts(chk):
            query(chk, w, op, kind, text, 'C19')
        for p in w.run('return fs.%s(path)' % op, '/a'):
            failure(chk, 'C19.node-use', op, p)
            if p.outcome == 'return':
                chk.must(boolish(p.value), 'C19.boolean', op, '%s answers with %s, no boolean' % (op, show(p.value)[:60]), None, p, op_where(chk, op))
    for op, (src, follow, kind) in LOOKUP.items():
        for text in texts(chk):
            n = 0
            for p in w.run(src, text):
                failure(chk, 'C19.node-use', op, p)
                n += lookup(chk, w, op, follow, kind, text, p, 'C19')
            comps = [c for c in text.split('/') if c]
            if n == 0 and (comps or kind not in ('FILE', 'LINK')):
                chk.bad('C19.reach', op, '%s never succeeds at %s' % (op, text), where=op_where(chk, op))
    deeper(chk, w, 'C19')
    for op, (src, kind) in list(CREATE.items()) + list(REMOVE.items()):
        for text in texts(chk):
            for p in w.run(src, text):
                failure(chk, 'C19.node-use', op, p)
                if p.outcome == 'raise':
                    chk.must(oserror(p), 'C19.raises', op, '%s fails with %s' % (op, show(p.value)[:60]), None, p, op_where(chk, op))
                if op in REMOVE:
                    for k, d, key, val, e in node_effects(m, p):
                        if k == 'del':
                            removed(chk, m, op, text, p, d, key, e, 'C19.kind')


def boolish(t):
    return t in (TRUE, FALSE) or (t[0] == 'op' and t[1] in ('==', 'is', 'in', 'not', 'isinstance', '<', '!=')) or t[0] == 'q' or (
        t[0] == 'call' and t[1] == ('g', 'bool'))


def query(chk, w, op, kind, text, prop):
    m = w.m
    cls = cls_of(m, kind)
    follow = FOLLOWED.get(op, True)
    n = 0
    for p in w.run('if fs.%s(path):\n    YES()\nelse:\n    NO()' % op, text):
        if prop == 'C19':
            failure(chk, 'C19.node-use', op, p)
        if p.outcome == 'raise':
            if prop == 'C19':
                chk.bad('C19.query-total', op, '%s raises %s' % (op, show(p.value)[:60]), None, p, op_where(chk, op))
            continue
        said = bool(marks(p, 'YES'))
        states = known(Tree(m, p).resolve(text, follow))
        if not states:
            continue
        n += 1
        linked = links_asked(m, p)
        if m.pin is None and (prop == 'C20') != linked:
            continue
        rule = 'C20.query' if prop == 'C20' else 'C19.query-answer'
        wrong = [s for s in states if (s[0] == 'node' and (cls is None or s[2] is cls)) != said]
        chk.must(not wrong, rule, '%s:%s' % (op, said), '%s at %s answers %s where the path may denote %s' % (
            op, text, said, describe(wrong)), None, p, op_where(chk, op))
    if prop == 'C19':
        chk.ok('C19.query-total')


def links_asked(m, p):
    """a link was met on the path"""
    t = Tree(m, p)
    return any(c is m.lcls for k in t.facts for x in subterms(k) if x[0] == 'a' and x[2] == 'kind'
               for c in (t.kinds(x[1]) if len(t.kinds(x[1])) == 1 else ())) or any(
                   e.kind == 'nodeuse' and e.name == 'target' for e in p.events)


def used_nodes(m, p, comps):
    """the nodes a succeeding operation worked on: in its result, and what was set, reset or handed on"""
    out = []

    def add(t, e):
        t = noepoch(t)
        for x in subterms(t):
            if x[0] == 'i' and x[1][0] == 'a' and x[1][2] == m.store or x == m.rootterm:
                out.append((x, e))
    return out


def outermost(m, t):
    """the node terms of t that are not merely on the way to others"""
    t = noepoch(t)
    found = []

    def walk(x):
        if x[0] == 'i' and len(x) > 2 and isinstance(x[1], tuple) and x[1][0] == 'a' and x[1][2] == m.store or x == m.rootterm:
            found.append(x)
            return
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], str):
                    walk(y)
                else:
                    for z in y:
                        if isinstance(z, tuple) and z and isinstance(z[0], str):
                            walk(z)
                        elif isinstance(z, tuple):
                            for q_ in z:
                                if isinstance(q_, tuple) and q_ and isinstance(q_[0], str):
                                    walk(q_)
    if t and isinstance(t[0], str):
        walk(t)
    return found


def result_nodes(m, p, op):
    out = []
    t = Tree(m, p)
    if p.outcome == 'return' and p.value is not None and not op.startswith(('set', 'copystat')):
        out += [(t.norm(x), None) for x in outermost(m, p.value)]
    for e in p.events:
        if e.kind == 'setattr' and e.recv is not None:
            if m.is_node(None, e.recv) and e.recv[0] != 'new':
                if not op.startswith('copystat'):
                    out.append((t.norm(noepoch(e.recv)), e))
            elif e.recv[0] in ('new', 'obj') and e.args:
                if m.is_node(None, e.args[0]) and e.args[0][0] != 'new':
                    out.append((t.norm(noepoch(e.args[0])), e))
    return out


def lookup(chk, w, op, follow, kind, text, p, prop):
    m = w.m
    cls = cls_of(m, kind)
    tr = Tree(m, p)
    if op.startswith('copystat'):
        return copystat(chk, w, op, text, p, prop)
    states = known(tr.resolve(text, follow))
    if not states:
        return 0
    linked = links_asked(m, p)
    mine = m.pin is not None or (prop == 'C20') == linked
    rules = ('C20.node', 'C20.node') if prop == 'C20' else ('C19.kind', 'C19.reach')
    if p.outcome == 'raise':
        if prop == 'C19':
            chk.must(oserror(p), 'C19.raises', op, '%s fails with %s' % (op, show(p.value)[:60]), None, p, op_where(chk, op))
        if mine:
            good = [s for s in states if s[0] == 'node' and (cls is None or s[2] is cls)]
            if kind == 'FILE' and text.endswith('/') and text != '/':
                good = []
            chk.must(not good, rules[1], op, '%s at %s fails though the path may denote %s' % (op, text, describe(good)), None, p,
                     op_where(chk, op))
        return 0
    if not mine:
        return 1
    bad = [s for s in states if s[0] != 'node' or cls is not None and s[2] is not cls]
    chk.must(not bad, rules[0], op, '%s at %s succeeds where the path may denote %s' % (op, text, describe(bad)), None, p, op_where(chk, op))
    nodes = {s[1] for s in states if s[0] == 'node'}
    for n, e in result_nodes(m, p, op):
        chk.must(n in nodes, rules[0], op, '%s at %s works on %s' % (op, text, show(n)), e, p, None if e is not None else op_where(chk, op))
    return 1


def copystat(chk, w, op, text, p, prop):
    m = w.m
    frm, to = (text, '/k') if op.endswith('from') else ('/k', text)
    sets = [e for e in p.events if e.kind == 'setattr' and e.recv is not None and m.is_node(None, e.recv) and e.recv[0] != 'new']
    tr = Tree(m, p)
    a, b = tr.resolve(frm), tr.resolve(to)
    if p.outcome == 'raise':
        if prop == 'C19':
            chk.must(oserror(p), 'C19.raises', op, '%s fails with %s' % (op, show(p.value)[:60]), None, p, op_where(chk, op))
        return 0
    linked = links_asked(m, p)
    if m.pin is None and (prop == 'C20') != linked:
        return 1
    rule = 'C20.node' if prop == 'C20' else 'C19.kind'
    for st in (a, b):
        bad = [s for s in known(st) if s[0] != 'node']
        chk.must(not bad, rule, op, '%s succeeds where a path may be absent' % op, None, p, op_where(chk, op))
    na, nb = {s[1] for s in a if s[0] == 'node'}, {s[1] for s in b if s[0] == 'node'}
    if ('open',) in a or ('open',) in b:
        return 1
    for e in sets:
        chk.must(tr.norm(noepoch(e.recv)) in nb, rule, op, 'copystat changes %s' % show(e.recv), e, p)
        for n in outermost(m, e.args[0]):
            chk.must(tr.norm(n) in na, rule, op, 'copystat takes what it copies from %s' % show(n), e, p)
    return 1


DEPTH = ('a', 'b', 'c', 'd', 'e', 'f')


def deep(chk, w, prop, visit):
    """paths of six names over trees laid down by name: directories all the way, but for one entry"""
    m = w.m
    text = '/' + '/'.join(DEPTH)
    m.targets = w.targets = dict.fromkeys(DEPTH, '/t')
    kinds = {'C20': (m.lcls,), 'C19': (m.fcls, None)}.get(prop, (m.lcls, m.fcls, None))
    lasts = (m.dcls, m.fcls, m.lcls) + ((None,) if prop == 'C21' else ())
    try:
        for j, x in enumerate(DEPTH):
            for k in kinds:
                for last in lasts:
                    if j == len(DEPTH) - 1 and last is not m.dcls or prop == 'C21' and j % 2:
                        continue
                    m.pin = dict.fromkeys(DEPTH, m.dcls)
                    m.pin[DEPTH[-1]] = last
                    m.pin[x] = k
                    m.pin['t'] = m.dcls
                    visit(text, '%s is %s' % (x, k.name if k else 'absent'))
    finally:
        m.pin = None
        m.targets = w.targets = TARGETS


# -- C20 --------------------------------------------------------------------------------------

LOOPS = ({'a': '/a'}, {'a': '/b', 'b': '/a'}, {'a': '/a/x'}, {'a': '/b/x', 'b': '/a'})


def recursions(chk, w):
    """the functions lookups recur through, with what calls them from outside"""
    found, entries = {}, {}
    m = w.m
    for op, (src, _, _) in ops_all():
        for p in w.run(src, '/a', recurse=0):
            for e in p.of('rec'):
                found[e.raw.qual] = e.raw
                entries.setdefault(op, []).append((p, e))
    return found, entries


def ops_all():
    out = [(op, (v[0], v[1], v[2])) for op, v in LOOKUP.items()]
    out += [(q_, ('fs.%s(path)' % q_, FOLLOWED.get(q_, True), k)) for q_, k in QUERIES4.items()]
    out += [(op, (v[0], True, None)) for op, v in CREATE.items()]
    out += [(op, (v[0], True, None)) for op, v in REMOVE.items()]
    return out


def limit(fa, L):
    """the constant that bounds L on a path where fa holds"""
    for t, r in fa.items():
        if t[0] == 'op' and t[1] == '<':
            if t[2] == L and isc(t[3]) and r is True:
                return t[3][2]
            if t[3] == L and isc(t[2]) and r is False:
                return t[2][2] + 1
        if t[0] == 'op' and t[1] == '==' and t[2] == L and isc(t[3]) and r is False:
            return t[3][2]
    return None


def floor(fa, L):
    for t, r in fa.items():
        if t[0] == 'op' and t[1] == '<':
            if t[3] == L and isc(t[2]) and r is True or t[2] == L and isc(t[3]) and r is False:
                return True
        if t == L and r is True or t[0] == 'op' and t[1] == '==' and t[2] == L and isc(t[3]) and r is False:
            return True
    return None


def step_of(a, L):
    """a = L + k -> k"""
    if a[0] == 'op' and a[1] in ('+', '-') and a[2] == L and isc(a[3]) and isinstance(a[3][2], int):
        return a[3][2] if a[1] == '+' else -a[3][2]
    if a[0] == 'op' and a[1] == '+' and a[3] == L and isc(a[2]) and isinstance(a[2][2], int):
        return a[2][2]
    return 0


@rules_for('C20', 'Size-change analysis of the recursive lookups of the memory backend (each cycle must count up to a '
           'constant limit) and in-line analysis of every operation over constellations of links, compared with an '
           'independent resolver; loops of links are followed to the cut-off.')
def c20(chk):
    chk.rule('C20.bound', 'every recursive lookup hands its nesting level on increased, after comparing it with a '
             'constant limit', 0)
    chk.rule('C20.eloop', 'a loop of links is cut off with ELOOP, which queries answer with no', 60)
    chk.rule('C20.query', 'queries answer over links what the path denotes in every tree that agrees', 20)
    chk.rule('C20.node', 'operations over links work on the node the path denotes, the link itself where the operation is '
             'about it', 60)
    w = world(chk)
    m = w.m
    recs, _ = recursions(chk, w)
    limits = [bound(chk, w, f) for f in recs.values()]
    if None not in limits:
        loops(chk, w, max(limits + [0]) + 5)
    for op, kind in QUERIES4.items():
        for text in texts(chk):
            query(chk, w, op, kind, text, 'C20')
    for op, (src, follow, kind) in LOOKUP.items():
        for text in texts(chk):
            for p in w.run(src, text):
                lookup(chk, w, op, follow, kind, text, p, 'C20')
    deeper(chk, w, 'C20')


def deeper(chk, w, prop):
    def visit(text, what):
        for op, kind in QUERIES4.items():
            query(chk, w, op, kind, text, prop)
        for op, (src, follow, kind) in LOOKUP.items():
            for p in w.run(src, text):
                if prop == 'C19':
                    failure(chk, 'C19.node-use', op, p)
                lookup(chk, w, op, follow, kind, text, p, prop)
    deep(chk, w, prop, visit)


def bound(chk, w, f):
    """the recursion of f on itself, through whatever lies between"""
    m = w.m
    names = params(f)
    types = {('p', n): 'MemoryFileSystemUri' for n in names if n in ('path', 'unc')}
    types[SELF] = 'MemoryFileSystem'
    def explore(extra):
        I = Interp(chk.repo, m.cfg(types=types, unroll=2, recurse=0))
        I.cfg.rec_hook = None
        ps = I.paths(f, args=[('p', '#base') if n in ('base', 'parent') else ('p', n) for n in names],
                     kwargs=[(n, ('p', n)) for n in extra], recv=SELF)
        out = []
        for p in ps:
            for e in p.of('rec'):
                if e.raw is f or e.raw.node is f.node:
                    by = {a[1][2]: a[2] for a in e.args if a[0] == 'kw' and isc(a[1])}
                    by.update(zip(names, [a for a in e.args if a[0] != 'kw']))
                    out.append((p, e, by))
        return out

    evs = explore(())
    more = sorted({n for _, _, by in evs for n in by} - set(names))
    if more:
        evs = explore(more)
    if not evs:
        raise Broken('%s does not recur from symbolic arguments' % f.short)
    best = max(list(names) + more, key=lambda n: sum(
        1 for p, e, by in evs if n in by and step_of(by[n], ('p', n))))
    L = ('p', best)
    limits = []
    for p, e, by in evs:
        limits.append(None)
        s = step_of(by[best], L) if best in by else 0
        fa = facts_at(p, e)
        if not s:
            chk.bad('C20.bound', f, 'the recursive lookup does not count the nesting: no argument of %s grows' % e, e, p)
            continue
        lim = limit(fa, L) if s > 0 else floor(fa, L) and 60
        chk.must(lim is not None, 'C20.bound', f, 'the nesting level %s of the recursive lookup is not compared with a '
                 'constant limit' % show(L), e, p)
        if lim is not None:
            chk.must(lim <= 100, 'C20.bound', f, 'the limit of nested lookups, %s, is beyond what the interpreter can '
                     'nest' % lim, e, p)
            limits[-1] = lim if lim <= 100 else None
    return None if None in limits else max(limits)


def loops(chk, w, nested):
    m = w.m
    try:
        for targets in LOOPS:
            w.targets = targets
            for op, (src, follow, kind) in ops_all():
                q_ = op in QUERIES4
                for text in ('/a', '/a/x'):
                    if text == '/a' and (not follow or op in ('mkdir', 'symlink', 'removefile')):
                        continue
                    code = 'if fs.%s(path):\n    YES()\nelse:\n    NO()' % op if q_ else src
                    n = 0
                    for p in w.run(code, text, recurse=nested):
                        t = Tree(m, p)
                        links = [('i', m.files(m.rootterm), C(x)) for x in targets]
                        if not all(t.has(m.rootterm, x) is True for x in targets) or any(
                                t.kinds(x) != {m.lcls} for x in links):
                            continue
                        if any('x' in (a[2] for a in subterms(k) if isc(a)) for k in t.facts if k[0] == 'op' and k[1] == 'in'
                               and k[3] != m.files(m.rootterm)):
                            continue
                        n += 1
                        if q_:
                            chk.must(p.outcome == 'return' and bool(marks(p, 'NO')), 'C20.eloop', op,
                                     '%s of a loop of links does not answer no (%s)' % (op, p.outcome), None, p, op_where(chk, op))
                        else:
                            chk.must(p.outcome == 'raise' and errno_is(p, 'ELOOP'), 'C20.eloop', op,
                                     '%s of a loop of links does not fail with ELOOP: %s %s' % (
                                         op, p.outcome, show(p.value or NONE)[:60]), None, p, op_where(chk, op))
                    if not n:
                        chk.bad('C20.eloop', op, '%s does not get to the end of a loop of links (%s)' % (op, targets),
                                where=op_where(chk, op))
    finally:
        w.targets = TARGETS


def errno_is(p, name):
    return any(x == ('g', 'errno.' + name) or x == ('g', name) for x in subterms(p.value)) if p.value else False


# -- C15 --------------------------------------------------------------------------------------

class Laid(object):
    """a tree that is laid down by the names of its entries, as clients see it"""

    def __init__(self, w, kinds):
        self.w = w
        self.kinds = kinds
        self.hit = None

    def text(self, t, text, text2):
        t = noepoch(t)
        if t == PATH:
            return text
        if t == PATH2:
            return text2
        if t[0] != 'u':
            return None
        if t[1] == 'join':
            b = self.text(t[2], text, text2)
            names = [x[2] if isc(x) else self.text(x, text, text2) for x in t[3]]
            if b is None or None in names:
                return None
            return b.rstrip('/') + '/' + '/'.join(names)
        if t[1] in ('last', 'basename'):
            b = self.text(t[2], text, text2)
            return b and b.rstrip('/').split('/')[-1]
        return None

    def denoted(self, text, follow=True, depth=0):
        names = [x for x in text.split('/') if x]
        kind = 'DIR'
        for i, n in enumerate(names):
            if kind != 'DIR':
                return None
            kind = self.kinds.get(n)
            if kind == 'LINK' and (follow or i < len(names) - 1):
                return self.denoted('/'.join([self.w.targets[n]] + names[i + 1:]), follow, depth + 1) if depth < 8 else None
        return kind

    def answer(self, I, t, text, text2):
        hit = [e for e in I.events if on_disk(e)]
        if hit:
            # what comes after that does not matter
            self.hit = hit[0]
            raise Drop()
        t = noepoch(t)
        if t[0] == 'q' and t[1] in ('isdir', 'isfile', 'exists', 'islink'):
            v = self.text(t[2], text, text2)
            if v is not None:
                k = self.denoted(v, t[1] != 'islink')
                return k is not None if t[1] == 'exists' else k == {'isdir': 'DIR', 'isfile': 'FILE', 'islink': 'LINK'}[t[1]]
        if t[0] == 'op' and t[1] == 'hasattr' and t[2] == SELF and isc(t[3]):
            return self.w.repo.cls('MemoryFileSystem').find(t[3][2]) is not None
        if t[0] == 'op' and t[1] in ('is', '==') and len(t) == 4 and all(
                x == SELF or x[:2] == ('r', 'get_connection') or x[0] == 'a' and x[2] == 'connection' for x in t[2:4]):
            return True
        return None


def on_disk(e):
    """an operation that changes what is stored"""
    return e.kind == 'op' and (
        e.name in ('mkdir', 'makedirs', 'symlink', 'removefile', 'removedir', 'remove', 'copystat') or e.name == 'open'
        and e.args and isc(e.args[0]) and any(ch in str(e.args[0][2]) for ch in 'wa+'))


# what lies there, where the link leads, source, destination, tree
OVERLAPS = (
    ({'a': 'FILE', 'l': 'LINK'}, {'l': '/a'}, '/a', '/l', False),
    ({'a': 'FILE', 'l': 'LINK'}, {'l': '/a'}, '/l', '/a', False),
    ({'a': 'FILE', 'l': 'LINK', 'k': 'LINK'}, {'l': '/a', 'k': '/l'}, '/a', '/k', False),
    ({'a': 'FILE', 'd': 'DIR', 'l': 'LINK'}, {'l': '/d'}, '/d/a', '/l', False),
    ({'a': 'FILE', 'd': 'DIR', 'l': 'LINK'}, {'l': '/d'}, '/d/a', '/l/a', False),
    ({'a': 'FILE', 'd': 'DIR', 'l': 'LINK'}, {'l': '/d'}, '/l/a', '/d/a', False),
    ({'a': 'FILE'}, {}, '/a', '/a', False),
    ({'a': 'FILE', 'd': 'DIR'}, {}, '/d//a', '/d/a', False),
    ({'d': 'DIR', 'l': 'LINK', 'x': None}, {'l': '/d'}, '/d', '/l/x', True),
    ({'d': 'DIR', 'l': 'LINK', 'x': None}, {'l': '/d'}, '/l', '/d/x', True),
    ({'d': 'DIR', 'l': 'LINK', 'e': 'DIR', 'x': None}, {'l': '/d/e'}, '/d', '/l/x', True),
    ({'d': 'DIR', 'x': None}, {}, '/d', '/d/x', True),
    ({'d': 'DIR', 'x': None}, {}, '/d', '/d//x', True),
)


@rules_for('C15', None)
def c15_memory(chk):
    chk.rule('C15.memory', 'copying within memory is refused, without any effect, where both paths lead to the same entry or '
             'the destination lies inside of the source, through whatever links', len(OVERLAPS))
    w = world(chk)
    m = w.m
    f = chk.repo.method('MemoryFileSystem', 'copy')
    where = '%s:%d (%s)' % (f.module.path, f.node.lineno, f.short)
    try:
        for kinds, targets, src, dst, tree in OVERLAPS:
            w.targets, w.laid = targets, Laid(w, kinds)
            m.pin = {n: cls_of(m, k) for n, k in kinds.items()}
            code = 'fs.copy(path, path2%s)' % (', recursive=True' if tree else '')
            what = 'copy of %s to %s%s' % (src, dst, ''.join(', where %s leads to %s' % x for x in sorted(targets.items())))
            try:
                ps = w.run(code, src, dst, unroll=8, recurse=8)
            except Broken:
                if w.laid.hit is None:
                    raise
                ps = ()
            if w.laid.hit is not None:
                chk.bad('C15.memory', 'copy:%s' % ('tree' if tree else 'file'), '%s is not refused before %s' % (
                    what, w.laid.hit.name), w.laid.hit, where=where)
            for p in ps:
                eff = [e for e in p.events if on_disk(e)]
                eff += [e for _, e in content_changes(m, p)] + [x[4] for x in node_effects(m, p)]
                chk.must(p.outcome == 'raise' and not eff, 'C15.memory', 'copy:%s' % ('tree' if tree else 'file'),
                         '%s is not refused%s' % (what, ' before %s' % eff[0].name if eff else ''), eff[0] if eff else None, p,
                         where)
    finally:
        w.targets, w.laid, m.pin = TARGETS, None, None


# -- C23 --------------------------------------------------------------------------------------

# what lies there, where the links lead, paths of one and the same file, paths of others
ALIASES = (
    ({'d': 'DIR', 'l': 'LINK', 'x': None}, {'l': '/d'}, ('/d/x', '/l/x', '/d//x'), ('/x',)),
    ({'d': 'DIR', 'l': 'LINK', 'k': 'LINK', 'x': None}, {'l': '/k', 'k': '/d'}, ('/d/x', '/l/x', '/k/x'), ('/x', '/d/y')),
    ({'d': 'DIR', 'e': 'DIR', 'l': 'LINK', 'x': None}, {'l': '/d/e'}, ('/d/e/x', '/l/x', '/l//x'), ('/d/x', '/e/x')),
    ({'a': 'FILE', 'l': 'LINK', 'k': 'LINK'}, {'l': '/a', 'k': '/l'}, ('/a', '/l', '/k', '//a'), ('/b',)),
    ({'a': 'FILE', 'd': 'DIR', 'l': 'LINK', 'k': 'LINK'}, {'l': '/d', 'k': '/l/a'}, ('/d/a', '/l/a', '/k'), ('/d/b',)),
)


@rules_for('C23', None)
def c23_aliases(chk):
    chk.rule('C23.alias', 'all paths of one file, through whatever links and however spelled, have one lock, and the file is '
             'created with it', len(ALIASES))
    w = world(chk)
    m = w.m
    f = chk.repo.method('MemoryFileSystem', 'lock')
    where = '%s:%d (%s)' % (f.module.path, f.node.lineno, f.short)
    seen = 0
    try:
        for kinds, targets, paths, others in ALIASES:
            locks = {}
            strange = []
            for text in paths + others:
                w.targets, w.laid = targets, Laid(w, kinds)
                m.pin = {n: cls_of(m, k) for n, k in kinds.items()}
                for p in w.run('with fs.lock(path, False, False) as f:\n    BODY(f)\n', text, unroll=8, recurse=8):
                    for e in p.events:
                        got = []
                        if e.recv is not None and (e.kind in ('call', 'mut') and e.name in ('acquire', '__enter__')
                                                   or e.kind == 'enter' and e.name is None and 'lock' in show(e.recv)):
                            got = [e.recv]
                        elif e.kind == 'new' and e.name == m.fcls.name:
                            got = [a for a in list(e.args) + [v for _, v in e.kw] if 'lock' in show(a)]
                        for l in got:
                            seen += 1
                            if text in paths:
                                locks.setdefault(noepoch(l), (text, e, p))
                            else:
                                strange.append((noepoch(l), text, e, p))
            (l0, (t0, _, _)), rest = list(locks.items())[0], list(locks.items())[1:]
            chk.must(True, 'C23.alias', 'lock', '', None, None, where)
            for l, (t, e, p) in rest:
                chk.must(False, 'C23.alias', 'lock', '%s has the lock %s as %s, but %s as %s' % (
                    paths[0], show(l0), t0, show(l), t), e, p, where)
            for l, t, e, p in strange:
                chk.must(l not in locks, 'C23.alias', 'lock', '%s and %s have the same lock %s' % (
                    paths[0], t, show(l)), e, p, where)
    finally:
        w.targets, w.laid, m.pin = TARGETS, None, None
    if not seen:
        raise Broken('C23: no lock is acquired')


# -- C21 --------------------------------------------------------------------------------------

META = ('mtime', 'ctime', 'mode', 'atime')


def contents(m):
    """the attributes of a file node that hold its content"""
    out = set()
    for n in ('write', 'read', 'truncate'):
        k = m.fcls.method(n)
        for x in ast.walk(k.node) if k else ():
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr not in META \
                    and x.attr not in m.fcls.methods:
                out.add(x.attr)
    return out


def content_changes(m, p):
    """(node, event) where the content of an existing node is changed"""
    hold = contents(m)
    out = []
    for e in p.events:
        r = e.recv
        if r is None:
            continue
        if e.kind == 'setattr' and e.name in hold and m.is_node(None, r) and r[0] not in ('new', 'obj'):
            out.append((r, e))
        elif e.kind in ('call', 'mut', 'extcall') and e.name in ('truncate', 'write', 'writelines') and r[0] == 'a' \
                and r[2] in hold and m.is_node(None, r[1]) and r[1][0] not in ('new', 'obj'):
            out.append((r[1], e))
    return out


@rules_for('C21', 'Effect analysis of every public operation of the memory backend, in line over partially known trees: what '
           'is added under which name to which directory, what is emptied, and what every tree that agrees with the abstract '
           'path has there.')
def c21(chk):
    chk.rule('C21.absent', 'an entry is only added under a name found absent in the directory it is added to', 30)
    chk.rule('C21.place', 'the entry is added under the last name of the path, to the directory the rest of it leads to', 30)
    chk.rule('C21.exists', 'mkdir and symlink refuse a name that exists with EEXIST', 10)
    chk.rule('C21.creates', 'mkdir adds a directory, symlink a link, opening a file for writing a file, exactly one', 30)
    chk.rule('C21.only', 'no other operation adds, none but removal takes away, and that only the entry named', 40)
    chk.rule('C21.keep', 'only opening for writing empties a node: the file its path denotes', 40)
    chk.rule('C21.refuse', 'opening a directory for writing is refused', 10)
    chk.rule('C21.partial', 'an operation that fails has changed nothing', 20)
    w = world(chk)
    m = w.m
    if not contents(m):
        raise Broken('no attribute holds the content of a memory file')
    for op, (src, kind) in CREATE.items():
        for text in texts(chk):
            n = [0]
            for p in w.run(src, text):
                create(chk, w, op, kind, text, p, n)
            if text in ('/a', '/a/b') and not n[0]:
                chk.bad('C21.creates', op, '%s never creates anything' % op, where=op_where(chk, op))
    def visit(text, what):
        for op, (src, kind) in CREATE.items():
            for p in w.run(src, text):
                create(chk, w, op, kind, text, p, [0])
    deep(chk, w, 'C21', visit)
    for op, (src, follow) in REMOVE.items():
        for text in texts(chk):
            for p in w.run(src, text):
                for kind, d, key, val, e in node_effects(m, p):
                    if chk.must(kind == 'del', 'C21.only', '%s:%s' % (op, kind), '%s changes a directory other than by '
                                'deleting an entry' % op, e, p):
                        removed(chk, m, op, text, p, d, key, e, 'C21.only')
                unchanged(chk, m, op, p)
    rest = [(op, v[0]) for op, v in LOOKUP.items()] + [(op, 'return fs.%s(path)' % op) for op in QUERIES4]
    for op, src in rest:
        for text in texts(chk):
            for p in w.run(src, text):
                for kind, d, key, val, e in node_effects(m, p):
                    chk.bad('C21.only', '%s:%s' % (op, kind), '%s changes a directory' % op, e, p)
                chk.ok('C21.only')
                unchanged(chk, m, op, p)


def removed(chk, m, op, text, p, d, key, e, rule):
    """what removal takes away is the entry the path names, and never one of the other kind"""
    tr = Tree(m, p, e)
    states, name = tr.parent(text)
    dirs = {s[1] for s in known(states) if s[0] == 'node' and s[2] is m.dcls}
    if ('open',) not in states:
        chk.must(key == C(name) and tr.norm(noepoch(d)) in dirs, rule, op, '%s at %s takes the entry %s away from %s' % (
            op, text, show(key), show(d)), e, p)
    wrong = [s for s in known(tr.resolve(text, False)) if s[0] == 'node' and (s[2] is m.dcls) != (op == 'removedir')]
    chk.must(not wrong, rule, '%s:kind' % op, '%s at %s takes away what may be %s' % (op, text, describe(wrong)), e, p)


def unchanged(chk, m, op, p):
    for r, e in content_changes(m, p):
        chk.bad('C21.keep', '%s:%s' % (op, e.name), '%s changes the content of %s' % (op, show(r)), e, p)
    chk.ok('C21.keep')


def create(chk, w, op, kind, text, p, count):
    m = w.m
    cls = cls_of(m, kind)
    eff = node_effects(m, p)
    for k, d, key, val, e in eff:
        if not chk.must(k == 'add', 'C21.only', '%s:%s' % (op, k), '%s changes a directory other than by adding an entry' % op,
                        e, p):
            continue
        tr = Tree(m, p, e)
        d = tr.norm(noepoch(d))
        states, name = tr.parent(text)
        chk.must(isc(key) and tr.has(d, key[2]) is False, 'C21.absent', op,
                 '%s adds %s to %s without having found the name absent there' % (op, show(key), show(d)), e, p)
        dirs = {s[1] for s in known(states) if s[0] == 'node' and s[2] is m.dcls}
        if ('open',) not in states:
            bad = [s for s in states if s[0] != 'node' or s[2] is not m.dcls]
            chk.must(key == C(name) and d in dirs and not bad, 'C21.place', op, '%s at %s adds the entry %s to %s%s' % (
                op, text, show(key), show(d), ' where its parent may be ' + describe(bad) if bad else ''), e, p)
        chk.must(val[0] in ('new', 'obj') and val[1] is cls, 'C21.creates', op, '%s adds %s' % (op, show(val)[:60]), e, p)
        count[0] += 1
    changes = content_changes(m, p)
    tr = Tree(m, p)
    if p.outcome == 'raise':
        chk.must(not eff and not changes, 'C21.partial', op, '%s fails after it changed the tree' % op,
                 (eff[0][4] if eff else changes[0][1]) if eff or changes else None, p, op_where(chk, op))
    # before the entry was added
    pre = Tree(m, p, eff[0][4]) if eff else tr
    states, name = pre.parent(text)
    if name is None:
        chk.must(p.outcome == 'raise', 'C21.refuse', op, '%s of the root does not fail' % op, None, p, op_where(chk, op))
        if op in ('mkdir', 'symlink'):
            chk.must(errno_is(p, 'EEXIST'), 'C21.exists', op, '%s of the root does not fail with EEXIST' % op, None, p,
                     op_where(chk, op))
        return
    if ('open',) in states:
        return
    there = {pre.has(s[1], name) if s[0] == 'node' and s[2] is m.dcls else 'no parent' for s in states}
    if op in ('mkdir', 'symlink'):
        for r, e in changes:
            chk.bad('C21.keep', '%s:%s' % (op, e.name), '%s changes the content of %s' % (op, show(r)), e, p)
        chk.ok('C21.keep')
        if there == {True}:
            chk.must(p.outcome == 'raise' and errno_is(p, 'EEXIST'), 'C21.exists', op, '%s at %s of a name that exists '
                     'does not fail with EEXIST: %s %s' % (op, text, p.outcome, show(p.value or NONE)[:60]), None, p, op_where(chk, op))
        elif p.outcome == 'return':
            chk.must(there == {False} and len(eff) == 1, 'C21.creates', op, '%s at %s returns after adding %d entries' % (
                op, text, len(eff)), None, p, op_where(chk, op))
        else:
            chk.must(False not in there, 'C21.creates', op, '%s at %s fails though the name is absent in a directory' % (op, text),
                     None, p, op_where(chk, op))
        return
    # opening for writing
    denoted = pre.resolve(text)
    if p.outcome != 'return':
        if op == 'lock':
            return
        files = {s for s in known(denoted) if s[0] == 'node' and s[2] is m.fcls}
        if not text.endswith('/') and ('open',) not in denoted:
            chk.must(not files and there != {False}, 'C21.creates', op, '%s at %s fails where the path denotes a file or a '
                     'name that is absent' % (op, text), None, p, op_where(chk, op))
        return
    bad = [s for s in known(denoted) if s[0] == 'node' and s[2] is not m.fcls]
    chk.must(not bad, 'C21.refuse', op, '%s at %s is accepted where the path may denote %s' % (op, text, describe(bad)), None, p,
             op_where(chk, op))
    if ('open',) in denoted:
        return
    files = {s[1] for s in denoted if s[0] == 'node'}
    if eff:
        chk.must(len(eff) == 1, 'C21.creates', op, '%s at %s adds %d entries' % (op, text, len(eff)), None, p, op_where(chk, op))
    elif files:
        chk.must(('absent',) not in denoted, 'C21.creates', op, '%s at %s creates no file where none may be' % (op, text), None, p,
                 op_where(chk, op))
    else:
        chk.bad('C21.creates', op, '%s at %s returns without a file' % (op, text), None, p, op_where(chk, op))
    empties = op.startswith('open w') or op == 'lock'
    for r, e in changes:
        chk.must(empties and tr.norm(noepoch(r)) in files, 'C21.keep', '%s:%s' % (op, e.name),
                 '%s at %s changes the content of %s' % (op, text, show(r)), e, p)
    if empties and not eff:
        chk.must(len({tr.norm(noepoch(r)) for r, e in changes}) == 1, 'C21.keep', '%s:empty' % op,
                 '%s at %s does not empty the file that exists' % (op, text), None, p, op_where(chk, op))
    for n, e in result_nodes(m, p, op):
        if not eff:
            chk.must(n in files, 'C21.keep', '%s:handle' % op, '%s at %s hands out %s' % (op, text, show(n)), e, p)


# -- C32 --------------------------------------------------------------------------------------

MOVING = {'read', 'readline', 'readlines', 'readinto', 'read1', 'seek', 'write', 'writelines', 'truncate', 'close', 'detach'}
QUEUE = {'append', 'appendleft', 'insert', 'extend', 'extendleft', 'add', 'put', 'push'}


def flat(ts):
    for t in ts:
        if t[0] in ('tuple', 'list'):
            for x in flat(t[1]):
                yield x
        else:
            yield t


@rules_for('C32', 'The dump is analysed in line on every abstract path, for each kind an entry may be of: what is written for it '
           'and in which order, where the traversal goes on, and that nothing of the tree is changed or moved.')
def c32(chk):
    chk.rule('C32.entry', 'every entry is written, behind the path of the directory that holds it', 6)
    chk.rule('C32.file', 'a file is written with its whole content, decoded as UTF-8, whatever handles on it have read', 2)
    chk.rule('C32.digest', 'instead of an image the digest of its whole content is written, exactly if that is asked for', 1)
    chk.rule('C32.link', 'a link is written with its target and not followed', 2)
    chk.rule('C32.dir', 'the dump goes on in a directory, below its path, after it was written', 2)
    chk.rule('C32.order', 'the entries are written in the order of their names', 6)
    chk.rule('C32.pure', 'a dump changes neither the tree nor any content nor the position of a handle', 8)
    w = world(chk)
    m = w.m
    f = chk.repo.method('MemoryFileSystem', 'dump')
    if f is None:
        raise Broken('C32: memory file systems have no dump')
    where = '%s:%d (%s)' % (f.module.path, f.node.lineno, f.short)
    hold = contents(m)
    seen = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'sorted' or isinstance(
                n.func, ast.Attribute) and n.func.attr == 'sort'):
            ks = [k.value for k in n.keywords if k.arg == 'key']
            chk.must(not any(isinstance(x, ast.Attribute) and x.attr in ('lower', 'upper', 'casefold', 'kind') or isinstance(
                x, ast.Name) and x.id in ('len', 'hash', 'id') for k in ks for x in ast.walk(k)), 'C32.order', 'dump',
                'the entries are not sorted by their names as they are', where='%s:%d (%s)' % (
                    f.module.path, n.lineno, f.short))
    for flag in ('', ', True', ', False'):
        for p in w.run('fs.dump(x%s)' % flag, '/', unroll=1, recurse=2):
            kinds = dumped(chk, m, p, flag == ', True', hold, where)
            seen |= kinds
            for k, d, key, val, e in node_effects(m, p):
                chk.bad('C32.pure', 'dump', 'dumping changes a directory', e, p)
            for e in p.events:
                r = e.recv
                moves = r is not None and e.kind in ('call', 'mut', 'extcall') and e.name in MOVING and any(
                    x[0] == 'a' and x[2] in hold and m.is_node(None, x[1]) for x in subterms(r) if x[0] == 'a')
                sets = e.kind == 'setattr' and r is not None and (
                    m.is_node(None, r) and r[0] not in ('new', 'obj') or r == SELF) or e.kind == 'op' and e.name not in (
                        'exists', 'isfile', 'isdir', 'islink')
                chk.must(not moves and not sets, 'C32.pure', 'dump', 'dumping calls %s on %s' % (
                    e.name, show(r)) if moves else 'dumping sets %s' % e.name, e, p)
    lacks = {m.fcls, m.dcls, cls_of(m, 'LINK')} - seen
    chk.must(not lacks, 'C32.entry', 'dump', 'there is no path on which a %s is dumped' % ', '.join(
        sorted(c.name for c in lacks)), where=where)


def dumped(chk, m, p, digest, hold, where):
    nodes = []
    for e in p.events:
        for t in [e.recv] + list(e.args):
            for x in subterms(t) if isinstance(t, tuple) else ():
                if x[0] == 'i' and x[1][0] == 'a' and x[1][2] == m.store and x not in nodes and m.is_node(None, x):
                    nodes.append(x)
    seen = set()
    if p.outcome == 'raise':
        chk.bad('C32.entry', 'dump', 'the dump ends with %s' % show(p.value), None, p, where)
        return seen
    written = [(x, e) for e in p.events if e.recv == X and e.kind in ('call', 'mut') and e.name in ('write', 'writelines')
               for a in flat(e.args) for x in leaves(a)]
    for n in nodes:
        name = n[2]
        facts = {g.recv: g.res for g in p.of('guard')}
        ks = m.kinds(facts, {k[2]: k[3] for k, v in facts.items() if v and k[0] == 'op' and k[1] == '==' and len(k) == 4}, n)
        at = [i for i, (x, e) in enumerate(written) if x == name or x[0] == 'i' and x[2] == C(0) and contains(x, name)]
        what = '/'.join(sorted(c.name for c in ks))
        if not chk.must(bool(at), 'C32.entry', 'dump', 'an entry (%s) is not written' % what, None, p, where):
            continue
        i = at[0]
        ev = written[i][1]
        chk.must(ends_with([x for x, e in written[:i] if e is ev], above(n, m)), 'C32.entry', 'dump',
                 'an entry (%s) is written without the path that leads to it' % what, ev, p)
        loops = [e for e in p.events if e.kind == 'loop' and e.name == 'begin' and e.idx < ev.idx]
        srt = [e for e in p.events if e.idx < ev.idx and e.kind == 'mut' and e.name == 'sort']
        over = [x for e in loops for x in subterms(e.recv) if x[0] == 'call' and x[1] == ('g', 'sorted')]
        chk.must(bool(over or srt) and not any(k == 'reverse' and v != FALSE for x in over for k, v in x[3]) and not any(
            k == 'reverse' and v != FALSE for e in srt for k, v in e.kw) and not any(
                x[0] == 'call' and x[1] == ('g', 'reversed') for e in loops for x in subterms(e.recv)),
            'C32.order', 'dump', 'the entries are not written in the order of their names', ev, p)
        goes_on = [e for e in p.events if e.idx > 0 and (e.kind == 'rec' or e.kind == 'mut' and e.name in QUEUE)
                   and n in list(flat(e.args)) or e.kind == 'loop' and e.name == 'begin' and contains(
                       e.recv, ('a', n, m.store))]
        rest = [x for x, e in written[i + 1:]]
        if len(ks) != 1:
            chk.bad('C32.entry', 'dump', 'entries of different kinds are dumped alike: %s' % what, ev, p)
            continue
        k = next(iter(ks))
        seen.add(k)
        if k is not m.dcls:
            chk.must(not goes_on, 'C32.link', 'dump', 'the dump goes on in a %s' % k.name, ev, p)
        if k is m.fcls:
            image = any(v and k_[0] == 'op' and k_[1] == 'in' and 'guess_type' in show(k_) for k_, v in facts.items())
            whole = [x for x in rest if x[0] == 'call' and x[1][0] == 'a' and x[1][2] == 'decode' and is_whole(x[1][1], n, hold)
                     and (not x[2] or isc(x[2][0]) and str(x[2][0][2]).lower().replace('_', '-') in ('utf-8', 'utf8'))]
            md = [x for x in rest if any(y[0] == 'call' and y[1][0] == 'a' and y[1][2] == 'hexdigest' and hashes(
                p, y[1][1], n, hold) for y in subterms(x))]
            if digest and image:
                chk.must(bool(md) and not whole, 'C32.digest', 'dump', 'an image is written as %s' % ', '.join(map(show, rest)),
                         ev, p)
            else:
                chk.must(bool(whole), 'C32.file', 'dump', 'what is written of a file is %s' % ', '.join(map(show, rest)), ev, p)
            if digest and not image and md:
                chk.bad('C32.digest', 'dump', 'a digest is written of what is no image', ev, p)
        elif k is m.dcls:
            st = ('a', n, m.store)
            empty = any(contains(g, st) and (g[0] == 'op' and g[1] == '==' and C(0) in g and v or not v and not (
                g[0] == 'op' and g[1] in ('==', '<', 'is', 'in', '!='))) for g, v in facts.items())
            if empty and not goes_on:
                continue
            ok = bool(goes_on) and goes_on[0].idx > ev.idx
            chk.must(ok, 'C32.dir', 'dump', 'the entries of a directory are not dumped' if not goes_on else
                     'a directory is written after its entries', ev, p)
            if ok and goes_on[0].kind != 'loop':
                below = [leaves(a) for a in flat(goes_on[0].args) if a != n]
                want = above(n, m) + [name, C('/')]
                chk.must(any(ends_with(ls, want) for ls in below), 'C32.dir', 'dump',
                         'the entries of a directory are dumped below %s' % ', '.join(
                             ''.join(map(show, ls)) for ls in below), goes_on[0], p)
        else:
            chk.must(any(x == ('a', n, 'target') or contains(x, ('a', n, 'target')) for x in rest), 'C32.link', 'dump',
                     'a link is written without its target', ev, p)
    return seen


def above(n, m):
    """the path of the directory that holds n, in pieces"""
    d = n[1][1]
    return [C('memory:///')] if d[0] != 'i' else above(d, m) + [d[2], C('/')]


def ends_with(got, want):
    def merged(ls):
        out = []
        for x in ls:
            if isc(x) and out and isc(out[-1]):
                out[-1] = C(str(out[-1][2]) + str(x[2]))
            else:
                out.append(x)
        return out
    got, want = merged(got)[::-1], merged(want)[::-1]
    return len(got) >= len(want) and got[:len(want) - 1] == want[:-1] and (
        got[len(want) - 1] == want[-1] or isc(want[-1]) and isc(got[len(want) - 1]) and str(
            got[len(want) - 1][2]).endswith(str(want[-1][2])))


def is_whole(t, n, hold):
    """all bytes of the file"""
    return t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('getvalue', 'getbuffer') and t[1][1][0] == 'a' \
        and t[1][1][1] == n and t[1][1][2] in hold


def hashes(p, t, n, hold):
    if t[0] != 'call':
        return False
    fed = [a for a in t[2] if not isc(a)]
    for e in p.events:
        if e.name == 'update' and e.recv is not None and noepoch(e.recv) == noepoch(t):
            fed += e.args
    return len(fed) == 1 and is_whole(fed[0], n, hold)
