"""C13-C16: copying and moving files and trees."""
from . import rules_for
from .common import *
from .removal import _writes

READING = ('open', 'walk', 'listdir', 'glob', 'md5')
CREATING = ('open', 'mkdir', 'makedirs', 'symlink', 'removefile', 'removedir', 'remove', 'copystat', 'set_exec',
            'copy', 'move', 'lock', 'sync', '_manipulate')


def base(t):
    """the parameter whose location t lies at or below"""
    while True:
        k = t[0]
        if k == 'u' and t[1] in ('join', 'add'):
            t = t[2]
        elif k in ('i', 'slice', 'elem', 'havoc'):
            t = t[1]
        elif k == 'r' and t[1] in ('walk', 'listdir', 'glob'):
            t = t[2]
        elif k == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] in ('sorted', 'list', 'tuple', 'reversed', 'iter') and t[2]:
            t = t[2][0]
        else:
            return t


def chain(t):
    """(root, names joined to it)"""
    names = ()
    while t[0] == 'u' and t[1] in ('join', 'add'):
        names = tuple(t[3]) + names
        t = t[2]
    return t, names


class Copy(object):
    """one path of copy"""
    def __init__(self, f, p):
        ps = f.params()
        ps = [x for x in ps if x != 'self']
        self.f = f
        self.p = p
        self.src, self.dst = P(ps[0]), P(ps[1])
        self.rec = P('recursive') if 'recursive' in ps else P(ps[2])
        self.ign = P('ignore') if 'ignore' in ps else P(ps[3])
        self.fol = P('followlinks') if 'followlinks' in ps else P(ps[4])

    def side(self, t):
        b = noepoch(base(t))
        return 'src' if b == self.src else 'dst' if b == self.dst else None

    def follow(self, e):
        """what the caller wants, as far as the path knows before e"""
        return fact(self.p, self.fol, e)

    def link(self, s, e):
        return q(self.p, 'islink', s, e)

    def may_reach_link(self, s, e):
        return self.follow(e) is not True and self.link(s, e) is not False

    def follow_arg(self, t, e):
        """does the option passed on stand for the caller's choice"""
        if t == self.fol:
            return True
        f = self.follow(e)
        return isc(t) and f is not None and bool(t[2]) == f or f is False and t == FALSE

    def droots(self, e):
        d = q(self.p, 'isdir', self.dst, e)
        if d is True:
            return [('u', 'join', self.dst, (('u', 'last', self.src, ()),))]
        if d is False:
            return [self.dst]
        return []

    def walked(self, s):
        """(directory yielded by a walk, component, name) of an entry of a walk of the source"""
        if s[0] == 'u' and s[1] == 'join' and len(s[3]) == 1 and s[2][0] == 'i' and s[2][2] == C(0) \
                and s[2][1][0] == 'elem' and s[2][1][1][0] == 'r' and s[2][1][1][1] == 'walk':
            n = s[3][0]
            for comp in (1, 2):
                if contains(n, ('i', s[2][1], C(comp))):
                    return s[2], comp, n
        return None

    def relative(self, t, r):
        """is t the path of r relative to the source"""
        t = noepoch(t)
        while t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('lstrip', 'strip') and t[2]:
            if not separators(t[2][0]):
                return False
            t = t[1][1]
        if t[0] == 'call' and t[1][0] == 'g' and t[1][1].endswith('relpath'):
            return t[2][0][1:2] == (r,) and t[2][1][1:2] == (self.src,)
        if t[0] == 'slice' and t[1][0] == 'a' and t[1][1] == r and t[1][2] in ('path', 'unipath') and t[3] == NONE:
            return t[2] == ('op', 'len', ('a', self.src, t[1][2])) or t[2] == (
                'call', ('g', 'builtins.len'), (('a', self.src, t[1][2]),), ()) or show(t[2]) == 'len(source.%s)' % t[1][2]
        return False

    def empty(self, t, e):
        return fact(self.p, t, e) is False or fact(self.p, ('op', '==', t, C('')), e) is True

    def places(self, s, d, e):
        """is d the place below the destination that corresponds to s"""
        s, d = noepoch(s), noepoch(d)
        for root in self.droots(e):
            if s == self.src:
                if d == root:
                    return True
                continue
            w = self.walked(s)
            if w is None:
                r, names = chain(s)
                if r == self.src and d == ('u', 'join', root, names):
                    return True
                continue
            r, comp, n = w
            if d[0] != 'u' or d[1] != 'join' or d[3][-1:] != (n,):
                continue
            dd = d[2] if len(d[3]) == 1 else ('u', 'join', d[2], d[3][:-1])
            if dd == root:
                # the root of the walk itself
                for g in before(self.p, e):
                    if g.kind == 'guard' and isinstance(g.recv, tuple):
                        t = noepoch(g.recv)
                        if not g.res and self.relative(t, r):
                            return True
                        if t[0] == 'op' and t[1] in ('==', 'is') and r in t[2:] and self.src in t[2:] and g.res:
                            return True
                        if t[0] == 'op' and t[1] == '==' and g.res and any(self.relative(x, r) for x in t[2:]):
                            return True
            elif dd[0] == 'u' and dd[1] == 'join' and dd[2] == root and len(dd[3]) == 1 and self.relative(dd[3][0], r):
                return True
        return False

    # -- what happens ---------------------------------------------------------
    def opens(self, side, write):
        for e in self.p.ops('open'):
            if self.side(e.recv) == side and _writes(e) == write:
                yield e

    def transfers(self):
        """(source file handle, destination handle, event) of each transfer of content"""
        out = []
        for e in self.p.events:
            if e.kind == 'call' and e.name in ('shutil.copyfileobj', 'copyfileobj') and len(e.args) >= 2:
                out.append((noepoch(e.args[0]), noepoch(e.args[1]), e))
            elif e.kind in ('call', 'mut') and e.name == 'write' and e.args and e.recv is not None:
                a = noepoch(e.args[0])
                for x in subterms(a):
                    if x[0] == 'call' and x[1][0] == 'a' and x[1][2] == 'read':
                        out.append((x[1][1], noepoch(e.recv), e))
            elif e.kind in ('call', 'mut') and e.name == 'writelines' and e.args:
                out.append((noepoch(e.args[0]), noepoch(e.recv), e))
            elif e.kind == 'guard' and e.res is False:
                # reading until there is nothing left: what remains to be written is nothing
                t = noepoch(e.recv)
                if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'read' and self.reads_on(e):
                    for h in self.opens('dst', True):
                        if h.idx < e.idx and not closed(self.p, h, e):
                            out.append((t[1][1], noepoch(h.res), e))
        return out

    def reads_on(self, e):
        """is the guard inside a loop that reads and writes"""
        for n in ast.walk(e.fn.node) if e.fn is not None else ():
            if isinstance(n, (ast.While, ast.For)) and n.lineno <= getattr(e.node, 'lineno', 0) <= n.end_lineno:
                called = {x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
                if 'read' in called and 'write' in called:
                    return True
        return False

    def handled(self, s, comp):
        """events that create the counterpart of the entry s"""
        out = []
        s = noepoch(s)
        for e in self.p.ops('mkdir', 'makedirs', 'symlink', 'copy'):
            if e.name in ('mkdir', 'makedirs') and comp != 2:
                if self.side(e.recv) == 'dst' and self.places(s, e.recv, e):
                    out.append(e)
            elif e.name == 'symlink':
                if noepoch(e.recv)[:3] == ('r', 'readlink', s) and e.args and self.places(s, e.args[0], e):
                    out.append(e)
            elif e.name == 'copy' and noepoch(e.recv) == s and e.args and self.places(s, e.args[0], e):
                out.append(e)
        if comp != 1:
            for a, b, e in self.transfers():
                if self.handle_of(a) == s and self.places(s, self.handle_of(b) or NONE, e):
                    out.append(e)
        return out

    def handle_of(self, h):
        return noepoch(h[2]) if h[0] == 'r' and h[1] == 'open' else None

    def entries(self):
        """(entry, component) of every entry of the source met on the path"""
        out = {}
        for e in self.p.events:
            for x in (e.recv, e.args):
                if isinstance(x, tuple):
                    for t in subterms(x):
                        if t[0] == 'elem':
                            for y in subterms(t[1]):
                                if y[0] == 'i' and y[1][0] == 'elem' and y[1][1][0] == 'r' and y[1][1][1] == 'walk' \
                                        and y[2] in (C(1), C(2)) and noepoch(base(y)) == self.src and not any(
                                            z[0] == 'elem' and z != t and contains(z[1], y) for z in subterms(t[1])):
                                    out[('u', 'join', noepoch(('i', y[1], C(0))), (noepoch(t),))] = y[2][2]
        return sorted(out.items(), key=repr)


def copy_paths(chk, cls='FileSystem', exc='none', **cfg):
    f = chk.repo.method(cls, 'copy')
    ps = [x for x in f.params() if x != 'self']
    got = chk.run(f, types={SELF: cls, P(ps[0]): 'BaseUri', P(ps[1]): 'BaseUri'}, exc=exc, **cfg)
    out = []
    for p in got:
        c = Copy(f, p)
        # an optimisation offered by a backend of its own
        if p.calls('internal_copy') or any(e.kind == 'call' and e.name == 'internal_copy' for e in p.events):
            continue
        # everything at or below the destination lies in one storage
        if len({r for r in shares(c, None)}) > 1:
            continue
        out.append(c)
    if not out:
        raise Broken('copy has no path of its own')
    return f, out, got


def taken_out(chk, c):
    """what is taken out of a list of folders that a walk yielded is to be ignored"""
    p = c.p
    for e in p.events:
        if e.kind not in ('mut', 'delitem', 'setitem') or e.recv is None:
            continue
        lst = noepoch(e.recv)
        if not (lst[0] == 'i' and lst[2] == C(1) and lst[1][0] in ('elem', 'each') and contains(lst[1], c.src)):
            continue
        args = [noepoch(a) for a in e.args]
        if e.kind == 'mut' and e.name == 'remove' or e.kind == 'delitem' or e.kind == 'mut' and e.name == 'pop':
            n = args[0] if args else None
            if n is not None and e.name != 'remove':
                n = n[2][0] if n[0] == 'call' and n[1][0] == 'a' and n[1][2] == 'index' and n[2] else ('i', lst, n)
            ok = n is not None and is_ignored(c, n, e)
        elif e.kind == 'setitem' and args[0][0] == 'call' and args[0] == ('call', ('g', 'slice3'), (NONE, NONE, NONE)) or \
                e.kind == 'setitem' and 'slice3(None, None, None)' == show(args[0]):
            v = args[1]
            names = {s[3][0] for s, comp in c.entries() if comp == 1}
            if v[0] in ('list', 'tuple'):
                ok = all(n in v[1] or is_ignored(c, n) for n in names)
            else:
                ok = contains(v, c.ign) or v[0] == 'call' and v[1] in (('g', 'sorted'), ('g', 'list')) and v[2] == (lst,)
        elif e.kind == 'mut' and e.name in ('sort', 'reverse'):
            ok = True
        else:
            ok = False
        chk.must(ok, 'C14.every', 'copy:prune', 'a folder that may not be one to ignore is taken out of the walk', e, p)


def two_folders(chk, f):
    """the first directory of a walk has two folders, each to be ignored or not"""
    ps = [x for x in f.params() if x != 'self']

    def count(I, t):
        if t[0] == 'r' and t[1] == 'walk':
            return 1
        if t[0] == 'i' and t[1][0] == 'elem' and t[1][1][0] == 'r' and t[1][1][1] == 'walk' and t[2] in (C(1), C(2)):
            return 2 if t[2] == C(1) else 0
        return None

    n = 0
    _, cs, _ = copy_paths(chk, count_hook=count, facts={P(ps[2]): True, P(ps[4]): True})
    for c in cs:
        taken_out(chk, c)
        if c.p.outcome != 'return':
            continue
        for s, comp in c.entries():
            if comp != 1:
                continue
            n += 1
            done = c.handled(s, comp)
            if is_ignored(c, s[3][0]):
                pruned = [e for e in c.p.events if e.kind in ('mut', 'delitem', 'setitem') and noepoch(e.recv)[:2] == (
                    'i', s[2][1])]
                chk.must(bool(pruned) and not done, 'C14.every', 'copy:ignore', 'a folder to ignore is created or not taken out '
                         'of the walk', None, c.p)
            else:
                chk.must(bool(done), 'C14.every', 'copy:directories', '%s has no counterpart' % show(s), None, c.p)
    if not n:
        raise Broken('copy goes through no folders')


def separators(t):
    """characters that only part names"""
    if isc(t):
        return isinstance(t[2], str) and not t[2].strip('/\\')
    if t[0] == 'op' and t[1] in ('+', 'fmt'):
        return all(separators(x) for x in t[2:])
    return t[0] == 'a' and t[2] == 'sep' or t[0] == 'g' and t[1].split('.')[-1] in ('sep', 'altsep')


def is_ignored(c, n, e=None):
    """the path found the name n among those to ignore"""
    for g in before(c.p, e):
        if g.kind == 'guard' and isinstance(g.recv, tuple):
            t = noepoch(g.recv)
            if t[0] == 'op' and t[1] == 'in' and len(t) == 4 and t[2] == n and contains(t[3], c.ign) and g.res:
                # in a collection of names, not in a text made of them
                return not (t[3][0] == 'call' and (t[3][1][0] == 'a' and t[3][1][2] in ('join', 'format', 'lower', 'upper')
                            or t[3][1] in (('g', 'str'), ('g', 'repr'))) or t[3][0] == 'op')
    return False


@rules_for('C13', 'Path-sensitive abstract interpretation of copy with its helpers in line; every opening, walk and '
           'creation on a path is compared with what the path knows about the entry being a link and about the '
           'choice of the caller.')
def c13(chk):
    chk.rule('C13.nofollow', 'without following links nothing is read through an entry that may be a link', 20)
    chk.rule('C13.walk', 'the walk of the source carries the choice of the caller', 4)
    chk.rule('C13.recreate', 'a link is recreated at its place, with the target of the original', 4)
    chk.rule('C13.only-then', 'links are only created where the caller does not follow them', 4)
    chk.rule('C13.replace', 'a file in the way of a link is removed first, nothing else is', 4)
    chk.rule('C13.every', 'every link met is recreated', 4)
    chk.rule('C13.default', 'links are followed unless asked otherwise', 2)
    for f in (chk.repo.method('FileSystem', 'copy'), chk.repo.method('BaseUri', 'copy')):
        a = f.node.args
        names = [x.arg for x in a.args]
        if 'followlinks' in names:
            i = names.index('followlinks') - len(names) + len(a.defaults)
            d = a.defaults[i] if i >= 0 else None
            chk.must(d is None or getattr(d, 'value', None) is True, 'C13.default', f, 'links are not followed by default')
    own = [b for b in chk.repo.subclasses('FileSystem') if b.method('internal_copy') is not None]
    for b in own:
        for p in copy_paths(chk)[2]:
            for e in p.events:
                if e.name == 'internal_copy':
                    chk.must(any(contains(a, P('followlinks')) for a in list(e.args) + [v for _, v in e.kw]) or
                             fact(p, P('followlinks'), e) is not None, 'C13.nofollow', b.name + '.internal_copy',
                             'the backend copies by itself without being told how to treat links', e, p)
    for cls in ('FileSystem',):
        f, cs, _ = copy_paths(chk, cls)
        replaced = False
        linked = 0
        for c in cs:
            p = c.p
            for e in p.ops():
                s = noepoch(e.recv)
                if c.side(e.recv) == 'src' and (e.name in READING or e.name == 'copystat'):
                    if e.name == 'walk':
                        chk.must(len(e.args) < 2 or c.follow_arg(e.args[1], e), 'C13.walk', 'copy:walk',
                                 'the source is walked with followlinks=%s' % show(e.args[1]), e, p)
                        if len(e.args) < 2:
                            chk.bad('C13.walk', 'copy:walk', 'the source is walked following links', e, p)
                    chk.must(not c.may_reach_link(e.recv, e), 'C13.nofollow', 'copy:%s' % e.name,
                             '%s of %s, which may be a link that is not to be followed' % (e.name, show(s)), e, p)
                if e.name == 'copy' and c.side(e.recv) == 'src':
                    a = e.args + (NONE,) * 4
                    chk.must(c.follow_arg(a[3], e), 'C13.nofollow', 'copy:copy',
                             'an entry is copied with followlinks=%s' % show(a[3]), e, p)
                if e.name in ('mkdir', 'makedirs') and c.side(e.recv) == 'dst':
                    for s, comp in [(c.src, 0)] + c.entries():
                        if comp != 2 and c.places(s, e.recv, e):
                            chk.must(not c.may_reach_link(s, e), 'C13.nofollow', 'copy:%s' % e.name,
                                     'a directory is created for %s, which may be a link that is not to be followed'
                                     % show(s), e, p)
                if e.name == 'symlink':
                    linked += 1
                    chk.must(c.follow(e) is False, 'C13.only-then', 'copy:symlink',
                             'a link is created though links may have to be followed', e, p)
                    t = noepoch(e.recv)
                    s = t[2] if t[0] == 'r' and t[1] == 'readlink' else None
                    d = e.args[0] if e.args else NONE
                    chk.must(s is not None, 'C13.recreate', 'copy:symlink', 'the link is created to %s, not to the '
                             'target of the original' % show(t), e, p)
                    if s is not None:
                        chk.must(c.link(s, e) is True, 'C13.recreate', 'copy:symlink',
                                 '%s is taken for a link without being known to be one' % show(s), e, p)
                        chk.must(c.places(s, d, e), 'C13.recreate', 'copy:symlink', 'the link %s is recreated at %s'
                                 % (show(s), show(d)), e, p)
                    d = noepoch(d)
                    gone = [x for x in before(p, e) if x.kind == 'op' and x.name in ('removefile', 'remove')
                            and noepoch(x.recv) == d]
                    replaced = replaced or bool(gone)
                    if q(p, 'isfile', d, e) is True or q(p, 'exists', d, e) is True and q(p, 'isdir', d, e) is False:
                        chk.must(bool(gone), 'C13.replace', 'copy:symlink', 'a file is in the way of the link', e, p)
                    else:
                        chk.ok('C13.replace')
                if e.name in ('removefile', 'remove', 'removedir') and c.side(e.recv) == 'dst':
                    d = noepoch(e.recv)
                    later = [x for x in p.ops('symlink') if x.idx > e.idx and x.args and noepoch(x.args[0]) == d]
                    chk.must(e.name != 'removedir' and (q(p, 'isfile', d, e) is True or q(p, 'islink', d, e) is True)
                             and (bool(later) or p.outcome == 'raise'), 'C13.replace', 'copy:%s' % e.name,
                             'what is removed at the destination is not a file that is replaced by a link', e, p)
            if p.outcome == 'return':
                for s, comp in [(c.src, 0)] + c.entries():
                    if c.link(s, None) is True and fact(p, c.fol) is False:
                        n = s[3][0] if comp else None
                        if comp == 1 and is_ignored(c, n):
                            continue
                        done = [e for e in c.handled(s, comp) if e.name in ('symlink', 'copy')]
                        chk.must(bool(done), 'C13.every', 'copy:links', 'the link %s is not recreated' % show(s), None, p)
        if linked:
            chk.must(replaced, 'C13.replace', 'copy:symlink', 'no file in the way of a link is ever removed',
                     where='%s:%s' % (f.module.path, f.node.lineno))


@rules_for('C14', 'Path-sensitive abstract interpretation of copy: modes, transfer and closing of the files on all '
           'paths including those on which any operation fails; place of every created entry; order of content '
           'and metadata.')
def c14(chk):
    chk.rule('C14.mode', 'the source is read and the destination overwritten, both in binary mode', 20)
    chk.rule('C14.transfer', 'the content goes from the file at the source to the file at its place', 10)
    chk.rule('C14.closed', 'both files are closed on every exit', 20)
    chk.rule('C14.every', 'every directory is created, every file copied, unless in a folder to ignore', 20)
    chk.rule('C14.loop', 'a list is not changed while it is gone through', 4)
    chk.rule('C14.place', 'what is created lies at the place that corresponds to its origin', 20)
    chk.rule('C14.missing', 'a missing source is refused as such', 2)
    chk.rule('C14.stat', 'metadata is carried over within a storage, after the content', 10)
    f, cs, _ = copy_paths(chk)
    two_folders(chk, f)
    dirs_made = files_copied = 0
    for c in cs:
        p = c.p
        ops = p.ops()
        for e in p.ops('open'):
            m = e.args[0] if e.args else NONE
            side = c.side(e.recv)
            text = m[2] if isc(m) and isinstance(m[2], str) else ''
            if side == 'src':
                chk.must('b' in text and not _writes(e), 'C14.mode', 'copy:source', 'the source is opened with mode %s'
                         % show(m), e, p)
            elif side == 'dst':
                chk.must('b' in text and 'w' in text, 'C14.mode', 'copy:destination',
                         'the destination is opened with mode %s' % show(m), e, p)
        for a, b, e in c.transfers():
            s, d = c.handle_of(a), c.handle_of(b)
            chk.must(s is not None and d is not None and c.side(s) == 'src' and c.side(d) == 'dst', 'C14.transfer',
                     'copy:transfer', 'content goes from %s to %s' % (show(a), show(b)), e, p)
            if s is not None and d is not None:
                chk.must(c.places(s, d, e), 'C14.place', 'copy:file', 'the content of %s goes to %s' % (
                    show(s), show(d)), e, p)
            for x in subterms(noepoch(e.args[0])) if e.kind != 'guard' else ():
                if x[0] == 'call' and x[1][0] == 'a' and x[1][2] == 'read' and e.name == 'write':
                    whole = not x[2] or isc(x[2][0]) and (x[2][0][2] is None or x[2][0][2] < 0)
                    chk.must(whole or any(y.kind in ('while', 'loop') and y.idx < e.idx and y.fn is e.fn and not (
                        y.kind == 'loop' and 'walk' in show(y.recv)) for y in p.events), 'C14.transfer', 'copy:transfer',
                        'only a part of the content is transferred', e, p)
            if e.kind == 'call' and e.name.endswith('copyfileobj') and len(e.args) > 2:
                n = e.args[2]
                chk.must(not isc(n) or isinstance(n[2], int) and n[2] != 0, 'C14.transfer', 'copy:transfer',
                         'the content is transferred in chunks of %s' % show(n), e, p)
        for e in p.events:
            if e.kind in ('call', 'mut') and e.name in ('truncate', 'seek') and e.recv is not None:
                side = c.side(c.handle_of(e.recv) or NONE)
                moved = e.name == 'seek' and e.args and e.args[0] == C(0) and len(e.args) == 1
                if side == 'dst' or side == 'src' and not moved:
                    chk.must(not any(c.handle_of(t[1] if side == 'dst' else t[0]) == c.handle_of(e.recv)
                                     for t in c.transfers()) or side == 'src' and any(
                        x.kind == e.kind and x.name == 'seek' and x.recv == e.recv and x.idx > e.idx
                        for x in p.events), 'C14.transfer', 'copy:transfer',
                        '%s is applied to the file %s' % (e.name, show(c.handle_of(e.recv))), e, p)
        for e in p.of('guard'):
            t = e.recv
            if e.res is True and t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'read' and p.outcome == 'return' \
                    and c.side(c.handle_of(noepoch(t[1][1])) or NONE) == 'src' and c.reads_on(e):
                chk.must(any(x.kind in ('call', 'mut') and x.name == 'write' and x.args and x.idx > e.idx
                             and contains(x.args[0], t) for x in p.events), 'C14.transfer', 'copy:transfer',
                         'a part that was read is not written', e, p)
        if p.outcome == 'return':
            for h in c.opens('dst', True):
                got = [t for t in c.transfers() if t[1] == noepoch(h.res)]
                chk.must(bool(got), 'C14.transfer', 'copy:transfer', 'a destination is opened and nothing is '
                         'written to it', h, p)
        for e in p.ops('mkdir', 'makedirs'):
            if c.side(e.recv) == 'dst':
                cand = [(c.src, 0)] + c.entries()
                chk.must(any(comp != 2 and c.places(s, e.recv, e) for s, comp in cand), 'C14.place', 'copy:directory',
                         'the directory %s is created' % show(e.recv), e, p)
        for e in p.events:
            if e.kind == 'loop' and e.name == 'begin' and e.recv[0] == 'i':
                inside = 0
                for x in p.events[e.idx + 1:]:
                    if x.kind == 'loop' and x.name == 'end' and x.recv == e.recv:
                        break
                    chk.must(not (x.kind == 'mut' and x.recv == e.recv), 'C14.loop', 'copy:loop',
                             'the list %s is changed while it is gone through' % show(e.recv), x, p)
        # what has to be there at the end
        rec = fact(p, c.rec)
        if p.outcome == 'return':
            for s, comp in c.entries():
                done = c.handled(s, comp)
                n = s[3][0]
                dirs_made += comp == 1 and any(e.name in ('makedirs', 'mkdir', 'copy') for e in done)
                files_copied += comp == 2 and any(e.name not in ('symlink',) for e in done)
                if comp == 1 and is_ignored(c, n):
                    pruned = [e for e in p.events if e.kind in ('mut', 'delitem', 'setitem') and noepoch(e.recv)[:2] == (
                        'i', s[2][1])]
                    chk.must(bool(pruned), 'C14.every', 'copy:ignore', 'a folder to ignore is not taken out of the walk',
                             None, p)
                    chk.must(not done, 'C14.every', 'copy:ignore', 'a folder to ignore is created', None, p)
                    continue
                chk.must(bool(done), 'C14.every', 'copy:%s' % ('directories' if comp == 1 else 'files'),
                         '%s has no counterpart' % show(s), None, p)
            taken_out(chk, c)
            for e in p.events:
                if e.kind == 'loop' and e.name == 'begin':
                    r = noepoch(e.recv)
                    if r[0] == 'r' and r[1] == 'walk' and noepoch(r[2]) == c.src:
                        el = {noepoch(t) for x in p.events for y in (x.recv, x.args) if isinstance(y, tuple)
                              for t in subterms(y) if t[0] == 'elem' and noepoch(t[1]) == r}
                        for t in el:
                            for comp in (1, 2):
                                its = [x for x in p.events if x.kind == 'loop' and x.name == 'begin'
                                       and contains(noepoch(x.recv), ('i', t, C(comp)))]
                                chk.must(bool(its), 'C14.every', 'copy:walk', 'the %s of a walked directory are not '
                                         'gone through' % ('directories' if comp == 1 else 'files'), e, p)
            # the source itself
            if rec is False:
                done = c.handled(c.src, 0)
                chk.must(bool(done), 'C14.every', 'copy:file', 'copy returns without having copied the source', None, p)
            elif rec is True:
                done = [e for e in c.handled(c.src, 0)]
                chk.must(bool(done), 'C14.every', 'copy:tree', 'copy returns without having created the destination', None, p)
        # missing source
        a = derive(atoms(p, c.src))
        if a.get('exists') is False or p.outcome == 'raise' and a.get('exists') is None and not [
                e for e in ops if e.name in CREATING]:
            chk.must(p.outcome == 'raise' and is_exc(p.value, 'FileDoesNotExistError') and not [
                e for e in ops if e.name in CREATING], 'C14.missing', 'copy:missing',
                'a missing source leads to %s' % (show(p.value) if p.outcome == 'raise' else 'no error'), None, p)
        # metadata
        trs = c.transfers()
        for e in p.ops('copystat'):
            d = e.args[0] if e.args else NONE
            chk.must(c.side(e.recv) == 'src' and c.places(e.recv, d, e), 'C14.stat', 'copy:copystat',
                     'metadata goes from %s to %s' % (show(e.recv), show(d)), e, p)
            later = [t for t in trs if c.handle_of(t[1]) == noepoch(d) and t[2].idx > e.idx]
            chk.must(not later, 'C14.stat', 'copy:copystat', 'metadata is carried over before the content', e, p)
            still = open_at(c, noepoch(d), e)
            chk.must(not still, 'C14.stat', 'copy:copystat', 'metadata is carried over while the file is open for '
                     'writing', e, p)
        if p.outcome == 'return' and sharing(c, None) is True:
            for x, y, e in trs:
                s, d = c.handle_of(x), c.handle_of(y)
                got = [z for z in p.ops('copystat') if noepoch(z.recv) == s and z.args and noepoch(z.args[0]) == d]
                chk.must(bool(got), 'C14.stat', 'copy:copystat', 'the metadata of a copied file is not carried over', e, p)
    site = '%s:%s (%s)' % (f.module.path, f.node.lineno, f.short)
    chk.must(dirs_made > 0, 'C14.every', 'copy:directories', 'no path creates a counterpart of a directory below the source',
             where=site)
    chk.must(files_copied > 0, 'C14.every', 'copy:files', 'no path copies a file below the source', where=site)
    # on all exits
    _, cs, _ = copy_paths(chk, exc='all')
    for c in cs:
        p = c.p
        for e in p.ops('open'):
            failed = p.events[e.idx + 1:e.idx + 2]
            if failed and failed[0].kind == 'callraise' and failed[0].node is e.node:
                continue
            chk.must(closed(p, e), 'C14.closed', 'copy:%s' % c.side(e.recv), 'the file %s is not closed on the path '
                     'that %s' % (show(e.recv), 'ends in an error' if p.outcome == 'raise' else 'returns'), e, p)


def closed(p, e, before=None):
    h = noepoch(e.res)
    for x in p.events[e.idx + 1:before.idx if before is not None else None]:
        if x.kind == 'exit' and noepoch(x.recv) == h:
            return True
        if x.kind in ('call', 'mut') and x.name == 'close' and noepoch(x.recv) == h:
            return True
    return False


def open_at(c, d, e):
    for h in c.opens('dst', True):
        if noepoch(h.recv) == d and h.idx < e.idx:
            hh = noepoch(h.res)
            if not any(x.kind == 'exit' and noepoch(x.recv) == hh or x.kind in ('call', 'mut') and x.name == 'close'
                       and noepoch(x.recv) == hh for x in c.p.events[h.idx + 1:e.idx]):
                return True
    return False


def about_dest(c, t):
    """does the term tell where the destination is"""
    for x in subterms(t):
        if x[0] in ('r', 'q') and x[1] == 'get_connection' and c.side(x[2]) == 'dst':
            return True
        if x[0] == 'a' and x[2] in ('connection', 'scheme') and c.side(x[1]) == 'dst':
            return True
    return False


def shares(c, e):
    """the answers on the path before e about the destination lying in the storage of the source"""
    out = []
    for g in before(c.p, e):
        if g.kind == 'guard' and isinstance(g.recv, tuple) and about_dest(c, g.recv):
            t = noepoch(g.recv)
            if t[0] == 'op' and t[1] in ('is', '==', 'isinstance'):
                if t[1] == 'is' and contains(t, ('a', c.src, 'connection')):
                    if g.res:
                        out.append(True)
                    continue
                if g.res and scheme_only(t) and not local_schemes(c, e):
                    # two storages of one scheme
                    continue
                out.append(g.res)
            elif t[0] in ('call', 'r', 'q'):
                out.append(g.res)
    return out


def scheme_only(t):
    return t[1] == '==' and not any(x[0] in ('r', 'q') and x[1] == 'get_connection' or x[0] == 'a' and x[2] == 'connection'
                                    for x in subterms(t))


def local_schemes(c, e):
    """both ends are known to be of the scheme whose storage all connections share"""
    ends = set()
    for g in before(c.p, e):
        t = noepoch(g.recv) if g.kind == 'guard' and g.res and isinstance(g.recv, tuple) else ()
        if t and t[0] == 'op' and t[1] == '==' and len(t) == 4 and C('file') in t[2:4]:
            ends |= {c.side(x[1]) or 'src' for x in subterms(t) if x[0] == 'a' and x[2] == 'scheme'}
        if t and t[0] == 'op' and t[1] == '==' and len(t) == 4 and all(x[0] == 'a' and x[2] == 'scheme' for x in t[2:4]):
            ends.add('eq')
    return len(ends & {'src', 'dst'}) == 2 or 'eq' in ends and len(ends) > 1


def sharing(c, e):
    """does the path know before e whether the destination lies in the storage of the source"""
    res = shares(c, e)
    return res[-1] if res else None


def normal(t, subj):
    """a form of the path in which a trailing separator does not count"""
    return any(x[0] == 'call' and (x[1][0] == 'a' and x[1][2] in ('rstrip', 'strip') or x[1][0] == 'g' and x[1][1].split(
        '.')[-1] in ('normpath', 'realpath', 'abspath', 'Path')) for x in subterms(t))


def overlap_guards(c, e):
    """('same' | 'inside', droot term, guard) of the comparisons of source and destination found negative"""
    out = []
    for g in before(c.p, e):
        if g.kind != 'guard' or not isinstance(g.recv, tuple):
            continue
        t = noepoch(g.recv)
        pair = None
        if t[0] == 'op' and t[1] == '==' and len(t) == 4:
            pair, kind = (t[2], t[3]), 'same'
        elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'startswith' and t[2]:
            pair, kind = (t[1][1], t[2][0]), 'inside'
        elif t[0] == 'op' and t[1] == 'in' and len(t) == 4:
            pair, kind = (t[2], t[3]), 'inside'
        elif t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] == 'samefile' and len(t[2]) == 2:
            pair, kind = t[2], 'same'
        if not pair:
            continue
        sides = [located(c, x) for x in pair]
        if {s for s, _ in sides if s} == {'src', 'dst'}:
            d = [u for s, u in sides if s == 'dst'][0]
            out.append((kind, d, g, pair, sides))
    return out


def located(c, t):
    """which side's location the text t tells, and the URI"""
    for x in subterms(t):
        if x[0] == 'a' and x[2] in ('path', 'unipath') and c.side(x[1]) == 'dst':
            return 'dst', x[1]
        if x == c.dst or x[0] == 'u' and c.side(x) == 'dst':
            return 'dst', x
    for x in subterms(t):
        if x[0] == 'a' and x[2] in ('path', 'unipath') and c.side(x[1]) == 'src' or x == c.src:
            return 'src', c.src
    return None, None


@rules_for('C15', 'Path-sensitive effect-order analysis of copy: on every path within one storage the comparison of '
           'the two locations precedes the first effect on the destination; operations of the backend of the '
           'source on the destination need the answer that both share a storage.')
def c15(chk):
    chk.rule('C15.same', 'within one storage a copy onto itself is excluded before the destination is touched', 10)
    chk.rule('C15.inside', 'a tree is not copied into itself', 4)
    chk.rule('C15.refuse', 'source and destination that overlap are refused, without any effect', 2)
    chk.rule('C15.apart', 'operations of the backend of the source reach the destination only in the same storage', 6)
    chk.rule('C15.storage', 'a backend takes only its own storage for its own', 2)
    f, cs, got = copy_paths(chk)
    for c in cs:
        p = c.p
        effects = [e for e in p.events if e.kind == 'op' and (
            e.name in CREATING and c.side(e.recv) == 'dst' and (e.name != 'open' or _writes(e)) or e.name in (
                'symlink', 'copystat') and e.args and c.side(e.args[0]) == 'dst')]
        if effects:
            e = effects[0]
            sh = sharing(c, e)
            rec = fact(p, c.rec, e)
            gs = overlap_guards(c, e)
            if sh is not False:
                d = noepoch(e.recv if c.side(e.recv) == 'dst' else e.args[0])
                roots = c.droots(e)
                # what does not even begin with the location of the source is not the source
                same = [g for g in gs if (g[0] == 'same' or g[0] == 'inside' and g[4][0][0] == 'dst') and not g[2].res
                        and noepoch(g[1]) in roots]
                chk.must(bool(same), 'C15.same', 'copy:%s' % ('tree' if rec else 'file'),
                         '%s of %s before the two locations were found to differ' % (e.name, show(d)), e, p)
                for g in same:
                    norm = all(normal(x, None) for x in g[3]) or 'samefile' in show(g[2].recv)
                    chk.must(norm, 'C15.same', 'copy:trailing', 'the locations are compared as texts that may differ in '
                             'a trailing separator', g[2], p)
                if rec is not False:
                    inside = [g for g in gs if g[0] == 'inside' and not g[2].res and noepoch(g[1]) in roots]
                    exempt = q(p, 'islink', c.src, e) is True and fact(p, c.fol, e) is False
                    chk.must(bool(inside) or exempt, 'C15.inside', 'copy:tree',
                             '%s of %s before it was found to lie outside of the source' % (e.name, show(d)), e, p)
                    for g in inside:
                        t = noepoch(g[2].recv)
                        if t[0] == 'call' and t[1][2] == 'startswith':
                            x = t[2][0]
                            ends = x[0] == 'op' and x[1] == '+' and isc(x[3]) and str(x[3][2]).endswith('/') or \
                                x[0] == 'op' and x[1] == '+' and 'sep' in show(x[3]) or (isc(x) and str(x[2]).endswith('/'))
                            chk.must(ends, 'C15.inside', 'copy:prefix', 'a location that merely begins with the same '
                                     'text is taken for one inside (%s)' % show(x), g[2], p)
                            chk.must(g[4][0][0] == 'dst', 'C15.inside', 'copy:direction', 'the source is tested for lying '
                                     'inside of the destination, not the other way round', g[2], p)
        # found to overlap
        for g in overlap_guards(c, None):
            if g[2].res and (g[0] == 'same' or noepoch(g[1]) in c.droots(None) and g[4][0][0] == 'dst'):
                done = effects if noepoch(g[1]) in c.droots(None) else [
                    e for e in effects if e.name == 'open' and noepoch(e.recv) == noepoch(g[1])]
                chk.must(p.outcome == 'raise' and not done, 'C15.refuse', 'copy:overlap',
                         'source and destination overlap and copy goes on', g[2], p)
        apart(chk, c)
    chk.rule('C15.links', 'where a file is overwritten from the local file system, the places both paths lead to, through '
             'links, were found to differ', 20)
    _, local, _ = copy_paths(chk, 'LocalFileSystem')
    for c in local:
        through_links(chk, c)
    for c in [Copy(f, p) for p in got]:
        for e in c.p.events:
            if e.kind == 'call' and e.recv == SELF and e.name == 'internal_copy':
                ok = any(g.kind == 'guard' and g.res and g.recv[0] == 'op' and g.recv[1] == 'is' and contains(
                    g.recv, ('a', c.dst, 'connection')) for g in before(c.p, e))
                chk.must(ok, 'C15.apart', 'copy:internal_copy', 'the backend copies by itself to a destination that may '
                         'belong to another', e, c.p)
    storage(chk)


RESOLVING = ('realpath', 'samefile', 'resolve', 'stat')


def resolved(t):
    """is the text t that of a path whose links were followed"""
    return any(any(isinstance(z, str) and z.split('.')[-1] in RESOLVING for z in (y[1:3] if y[0] in ('a', 'g', 'q', 'r') else ()))
               for y in subterms(noepoch(t)))


def through_links(chk, c):
    p = c.p
    for e in p.ops('makedirs', 'mkdir')[:1]:
        exempt = q(p, 'islink', c.src, e) is True and fact(p, c.fol, e) is False
        if noepoch(e.recv) in c.droots(e) and sharing(c, e) is not False and not exempt:
            chk.must(any(g[0] == 'inside' and not g[2].res and all(resolved(x) for x in g[3]) for g in overlap_guards(c, e)),
                     'C15.links', 'copy:inside', '%s is created before the place it leads to, through links, was found to lie '
                     'outside of the source' % show(e.recv), e, p)
    for e in c.opens('dst', True):
        if sharing(c, e) is False:
            continue
        d = noepoch(e.recv)
        srcs = {noepoch(c.handle_of(a) or NONE) for a, b, x in c.transfers() if b == noepoch(e.res)}
        found = []
        for g in overlap_guards(c, e):
            if g[2].res or noepoch(g[1]) != d:
                continue
            if not all(resolved(x) for x in g[3]) and 'samefile' not in show(g[2].recv):
                continue
            for (side, _), x in zip(g[4], g[3]):
                if side == 'src':
                    found += [s for s in srcs if contains(noepoch(x), s)]
        chk.must(bool(srcs) and set(found) >= srcs, 'C15.links', 'copy:%s' % ('file' if d in c.droots(e) else 'tree'),
                 '%s is overwritten from %s before the places they lead to, through links, were found to differ' % (
                     show(d), ', '.join(map(show, sorted(srcs, key=repr)))), e, p)


def apart(chk, c):
    p = c.p
    for e in p.ops():
        via = e.raw[0] if e.raw else 'uri'
        mine = via != 'uri'
        dst_recv = c.side(e.recv) == 'dst' and e.name != 'get_connection'
        dst_arg = any(isinstance(a, tuple) and a and c.side(a) == 'dst' and a[0] in ('p', 'u') for a in e.args)
        if e.name == 'copy':
            continue
        if dst_recv and mine and via in (SELF, 'self') or dst_recv and mine and isinstance(via, tuple) and (
                via == SELF or contains(via, c.src)) or dst_arg and not dst_recv:
            chk.must(sharing(c, e) is True, 'C15.apart', 'copy:%s' % e.name,
                     '%s of the backend of the source is applied to the destination, which may lie in another storage'
                     % e.name, e, p)


def storage(chk):
    """which locations a backend takes for its own"""
    repo = chk.repo
    for cls in repo.subclasses('FileSystem'):
        f = cls.method('_shares_storage')
        if f is None:
            continue
        u = P(params(f)[0])
        ps = chk.run(f, types={SELF: cls, u: 'BaseUri'}, exc='none')
        for p in ps:
            if p.outcome != 'return':
                chk.ok('C15.storage')
                continue
            v = noepoch(p.value)
            ok = True
            if cls.isa('LocalFileSystem'):
                alone = [t for t in [v] + [g.recv for g in p.of('guard') if not g.res and v == FALSE] for x in subterms(t)
                         if x[0] == 'op' and x[1] in ('is', '==') and len(x) == 4 and SELF in x[2:4] and any(
                             connection_of(noepoch(y), u) for y in x[2:4])]
                chk.must(not alone, 'C15.storage', f if f.cls is cls else '%s.%s' % (cls.name, f.name), 'all connections to '
                         'local files share one storage, but another connection is taken for another', None, p,
                         where='%s:%s (%s)' % (f.module.path, f.node.lineno, f.short))
            if isc(v) and v[2]:
                ok = any(g.kind == 'guard' and g.res and decides(g.recv, u) for g in p.events)
            elif not isc(v):
                ok = decides(v, u)
            if ok and not isc(v) and v[0] == 'op' and v[1] == '==' and contains(v, ('a', u, 'scheme')):
                ok = cls.isa('LocalFileSystem')
            chk.must(ok, 'C15.storage', f if f.cls is cls else '%s.%s' % (cls.name, f.name),
                     'a location is taken for one of this storage by %s' % show(v), None, p,
                     where='%s:%s (%s)' % (f.module.path, f.node.lineno, f.short))


def connection_of(t, u):
    return t == ('a', u, 'connection') or t[:3] == ('r', 'get_connection', u)


def decides(t, u):
    t = noepoch(t)
    if t[0] == 'op' and t[1] in ('is', '==') and len(t) == 4:
        a, b = t[2], t[3]
        for x, y in ((a, b), (b, a)):
            if connection_of(x, u) and y == SELF:
                return True
            if x == ('a', u, 'scheme') and (y == ('a', SELF, 'scheme') or isc(y) and y[2] == 'file' or y[0] == 'a' and y[2] == 'scheme'):
                return True
    if t[0] == 'op' and t[1] == 'isinstance' and connection_of(t[2], u):
        return True
    return False
