"""C27-C28: the archive backend."""
from . import rules_for
from .common import *

FS, PATH, X, Y = P('fs'), P('path'), P('x'), P('y')
OPS = ['open', 'close', 'exists', 'isfile', 'isdir', 'listdir']
WRITERS = {'writestr', 'write', 'mkdir'}


def session(chk, src, exc='try', root=False, **cfg):
    repo = chk.repo
    fs = repo.cls('ZipFileSystem')
    base = repo.cls('BaseUri')

    def hook(I, t):
        if t[0] == 'r' and t[1] == 'URI':
            return base

    def attr(I, b, name, node):
        if root and name == 'path' and I.resolve(b) == PATH:
            return C('/')
        if name == 'closed':
            b = I.resolve(b)
            if b[0] == 'call' and b[1][0] == 'g' and b[1][1].endswith('BytesIO'):
                return C(any(e.kind in ('call', 'mut') and e.name == 'close' and e.recv == b for e in I.events))
    return client(chk, fs.module, src, {
        'fs': FS, 'path': PATH, 'x': X, 'y': Y, 'MARK': ('g', 'MARK'), 'BODY': ('g', 'BODY')},
        'client: ' + ' ; '.join(src.split('\n')), types={FS: fs, PATH: 'ZipFileSystemUri', Y: 'ZipFileSystemUri'},
        opaque=['URI', 'content_item', 'compare_path_strings', 'compare_parts'], type_hook=hook, inline_ops=OPS, attr_hook=attr,
        exc=exc, **cfg)


def is_archive(t):
    """the uri of the archive itself"""
    t = noepoch(t)
    return t is not None and contains(t, ('a', FS, 'vpath_connector')) and t not in (PATH, Y)


def failed(p, e):
    nx = p.events[e.idx + 1:e.idx + 2]
    return bool(nx) and nx[0].kind == 'callraise' and nx[0].node is e.node


def is_zipfile(e):
    return e.kind == 'call' and e.name in ('ZipFile', 'zipfile.ZipFile') or e.kind == 'call' and e.res is not None and \
        noepoch(e.res)[0] == 'call' and noepoch(e.res)[1] == ('g', 'zipfile.ZipFile') and e.recv is None


def zipmode(e):
    kw = dict(e.kw)
    m = e.args[1] if len(e.args) > 1 else kw.get('mode', C('r'))
    return m[2] if isc(m) and isinstance(m[2], str) else None


def filemode(e):
    kw = dict(e.kw)
    m = e.args[0] if e.args else kw.get('options', C('r'))
    if m == NONE:
        return 'r'
    return m[2] if isc(m) and isinstance(m[2], str) else None


def archive_open(e):
    return e.kind == 'op' and e.name == 'open' and is_archive(e.recv)


def known_directory(chk, p):
    """a member lies below the path, as far as the path of the analysis has found out"""
    isdir = [C(x.value.value) for x in chk.repo.cls('ZipFileSystem').module.tree.body if isinstance(x, ast.Assign) and isinstance(
        x.value, ast.Constant) and any(isinstance(t, ast.Name) and t.id == 'ISDIR' for t in x.targets)]
    if not isdir:
        return True
    for g in p.of('guard'):
        t = noepoch(g.recv)
        if not g.res:
            continue
        if t[0] == 'r' and t[1] == 'content_item':
            return True
        if t[0] == 'op' and t[1] == '==' and any(x[0] == 'r' and x[1] in ('compare_path_strings', 'compare_parts') for x in t[2:]) \
                and isdir[0] in t[2:]:
            return True
    return False


def there(p, ev):
    """whether the archive exists, as far as known last"""
    r = None
    for e in before(p, ev):
        if e.kind == 'guard' and e.recv[0] == 'q' and e.recv[1] in ('exists', 'isfile') and is_archive(e.recv[2]):
            r = e.res
        elif archive_open(e) and not failed(p, e):
            r = True
    return r


class Handle(object):
    """an opened archive: its file, its mode, whether it has been closed"""

    def __init__(self, ev, p):
        self.ev = ev
        self.term = ev.res
        self.mode = zipmode(ev)
        self.file = ev.args[0] if ev.args else dict(ev.kw).get('file')
        self.opened = next((e for e in p.events[:ev.idx][::-1] if archive_open(e)
                            and e.res == self.file), None)
        self.fmode = filemode(self.opened) if self.opened is not None else None
        self.closed = None
        self.fclosed = None


def handles(p):
    out = []
    for e in p.events:
        if is_zipfile(e) and not failed(p, e):
            out.append(Handle(e, p))
        elif e.kind in ('call', 'mut') and e.name == 'close' and e.recv is not None:
            for h in out:
                if e.recv == h.term and h.closed is None:
                    h.closed = e
                elif e.recv == h.file and h.fclosed is None:
                    h.fclosed = e
        elif e.kind == 'exit' and e.recv is not None:
            for h in out:
                if e.recv == h.term and h.closed is None:
                    h.closed = e
                elif e.recv == h.file and h.fclosed is None:
                    h.fclosed = e
    return out


def where_of(chk, name, cls='ZipFileSystem'):
    f = chk.repo.method(cls, name)
    return '%s:%s (%s)' % (f.module.path, f.node.lineno, f.short) if f else None


WRITE = {
    'close': 's = fs.open(path, "w", "x/y")\ns.write(x)\nMARK()\ns.close()',
    'twice': 's = fs.open(path, "wb", "x/y")\ns.write(x)\nMARK()\ns.close()\ns.close()',
    'block': 'with fs.open(path, "w", "x/y") as s:\n    s.write(x)\n    MARK()',
    'block and close': 'with fs.open(path, "wb", "x/y") as s:\n    s.write(x)\n    MARK()\n    s.close()',
    'failing block': 'try:\n    with fs.open(path, "w", "x/y") as s:\n        s.write(x)\n        MARK()\n'
                     '        raise ValueError(x)\nexcept ValueError:\n    pass',
    'read in between': 's = fs.open(path, "w", "x/y")\ns.write(x)\nt = fs.open(y, "r", "x/y")\nMARK()\ns.close()',
    'query in between': 's = fs.open(path, "w", "x/y")\ns.write(x)\nfs.isfile(y)\nMARK()\ns.close()',
    'closed in between': 's = fs.open(path, "w", "x/y")\ns.write(x)\nfs.close()\nMARK()\ns.close()',
    'listed in between': 's = fs.open(path, "w", "x/y")\ns.write(x)\nfs.listdir(y)\nMARK()\ns.close()',
}


@rules_for('C27', 'Clients that write members, with other operations in between, are analysed as a typestate of the '
           'archive and the file below it: the mode each is opened with against what is known about the archive, what '
           'is stored when, and in which order the two are closed.')
def c27(chk):
    chk.rule('C27.keep', 'an existing archive is never truncated or replaced', 40)
    chk.rule('C27.update', 'the archive is stored to in a mode that keeps what it holds', 8)
    chk.rule('C27.create', 'a missing archive is created', 1)
    chk.rule('C27.store', 'a member is stored under its name exactly once, when it is closed', 8)
    chk.rule('C27.content', 'what is stored is what was written', 8)
    chk.rule('C27.open', 'the archive is open for writing when a member is stored', 8)
    chk.rule('C27.finish', 'the archive is closed before the file below it, after storing', 8)
    created = 0
    for what, src in WRITE.items():
        n = 0
        for p in session(chk, 'fs._initialize()\n' + src):
            m = marks(p, 'MARK')
            hs = handles(p)
            keep(chk, p)
            if p.outcome == 'raise' or not m or what == 'failing block' and any(
                    e.kind == 'callraise' and e.idx > m[0].idx for e in p.events):
                continue
            n += 1
            created += any(h.fmode and h.fmode[0] in 'wx' for h in hs)
            stores = [e for e in p.events if e.kind in ('call', 'mut') and e.name in WRITERS and e.recv is not None
                      and any(e.recv == h.term for h in hs)]
            early = [e for e in stores if e.idx < m[0].idx]
            chk.must(not early, 'C27.store', 'WriteStatement', 'the member is stored before it is closed', early and early[0] or None, p)
            chk.must(len(stores) == 1, 'C27.store', 'WriteStatement', 'the member is stored %d times (%s)' % (len(stores), what),
                     stores[-1] if stores else None, p, None if stores else where_of(chk, 'close', 'WriteStatement'))
            for e in stores:
                one_store(chk, p, e, hs)
            for h in hs:
                if h.mode and h.mode[0] in 'wax':
                    chk.must(h.closed is not None, 'C27.finish', 'close_zip', 'the archive stays open for writing (%s)' % what,
                             h.ev, p)
                if h.closed is not None and h.fclosed is not None:
                    chk.must(h.closed.idx < h.fclosed.idx, 'C27.finish', 'close_zip',
                             'the file below the archive is closed first', h.fclosed, p)
                elif h.mode and h.mode[0] in 'wax':
                    chk.must(h.fclosed is not None or h.closed is None, 'C27.finish', 'close_zip',
                             'the file below the archive is not closed (%s)' % what, h.ev, p)
        if not n:
            raise Broken('C27: no path of the client "%s" ends normally' % what)
    chk.must(created > 0, 'C27.create', 'open_zip', 'a missing archive is not created', where=where_of(chk, 'open_zip'))
    two_members(chk)
    for src in ('fs.open(path, "r", "x/y")', 'fs.isfile(path)', 'fs.listdir(path)', 'fs.close()', 'fs.exists(path)',
                'fs.isdir(path)', 'fs.open(path, "w", "x/y")', 'fs.open(path, "r+", "x/y")', 'fs.open(path, "wb", "x/y")',
                'fs.open(path, "rb", "x/y")', 'fs.open(path, "w+", "x/y")'):
        for p in session(chk, src):
            keep(chk, p)
            if '"w' not in src:
                bad = [h for h in handles(p) if h.mode and h.mode[0] in 'wx' or h.fmode and h.fmode[0] in 'wx']
                chk.must(not bad, 'C27.keep', 'open_zip', '%s creates the archive' % src, bad[0].ev if bad else None, p)


def keep(chk, p):
    for e in p.events:
        if archive_open(e):
            m = filemode(e)
            if m is None:
                raise Broken('C27: mode of the archive unknown: %s' % (e,))
            if m[0] in 'w':
                chk.must(there(p, e) is False, 'C27.keep', 'open_zip', 'the archive is opened with %r %s' % (
                    m, 'though it exists' if there(p, e) else 'whether it exists or not'), e, p)
            else:
                chk.ok('C27.keep')
            chk.must('b' in m, 'C27.keep', 'open_zip', 'the archive is opened as text (%r)' % m, e, p)
        elif is_zipfile(e):
            m = zipmode(e)
            a = e.args[0] if e.args else None
            op = next((x for x in before(p, e) if archive_open(x) and x.res == a), None)
            if m and m[0] == 'w':
                ok = op is not None and (filemode(op) or '?')[0] in 'wx' and there(p, op) is not True or there(p, op or e) is False
                chk.must(ok, 'C27.keep', 'open_zip', 'an archive that may exist is started anew (%r)' % m, e, p)
            if m and m[0] == 'a' and op is not None:
                fm = filemode(op)
                chk.must('+' in fm, 'C27.update', 'open_zip', 'an archive is extended through a file opened with %r' % fm, e, p)
            if a is not None and op is None and not (a[0] == 'a' and a[1] == FS):
                if is_path_of(a, PATH):
                    chk.bad('C27.keep', 'open_zip', 'something else than the archive is opened: %s' % show(a), e, p)
        elif e.kind == 'op' and is_archive(e.recv) and e.name not in READS and e.name not in ('open', 'size', 'info'):
            chk.bad('C27.keep', 'open_zip', 'the archive is changed by %s' % e.name, e, p)


def one_store(chk, p, e, hs):
    h = [h for h in hs if h.term == e.recv][-1]
    chk.must(h.ev.idx < e.idx and (h.closed is None or h.closed.idx > e.idx) and (
        h.fclosed is None or h.fclosed.idx > e.idx), 'C27.open', 'WriteStatement',
        'the member is stored into an archive that has been closed', e, p)
    chk.must(h.mode is not None and h.mode[0] in 'awx', 'C27.open', 'WriteStatement',
             'the member is stored into an archive opened with %r' % h.mode, e, p)
    chk.must(e.name == 'writestr', 'C27.content', 'WriteStatement', 'the member is stored by %s' % e.name, e, p)
    if e.name != 'writestr' or len(e.args) < 2:
        return
    name, data = e.args[0], noepoch(e.args[1])
    while name[0] == 'call' and name[1] == ('g', 'zipfile.ZipInfo') and name[2]:
        name = name[2][0]
    chk.must(is_path_of(name, PATH) or is_member_name(name), 'C27.store', 'WriteStatement', 'the member is stored as %s' % show(name), e, p)
    ws = [w for w in p.events[:e.idx] if w.kind in ('call', 'mut') and w.name == 'write' and w.recv is not None
          and w.args and w.args[0] == X]
    chk.must(bool(ws), 'C27.content', 'WriteStatement', 'what is written gets lost', e, p)
    for w in ws:
        got = data[0] == 'call' and data[1][0] == 'a' and data[1][2] in ('getvalue', 'getbuffer') and data[1][1] == noepoch(w.recv)
        if not got and data[0] == 'call' and data[1][0] == 'a' and data[1][2] == 'read' and data[1][1] == noepoch(w.recv):
            # from where it stands
            got = any(s.kind in ('call', 'mut') and s.name == 'seek' and s.recv == w.recv and s.args and s.args[0] == C(0)
                      for s in p.events[w.idx:e.idx])
        got = got or data[:2] == ('call', ('g', 'bytes')) and contains(data, noepoch(w.recv))
        chk.must(got, 'C27.content', 'WriteStatement', 'what is stored is %s' % show(data), e, p)


def is_member_name(t):
    """the path without its leading slash would be another member"""
    return False


def two_members(chk):
    src = ('fs._initialize()\ns = fs.open(path, "w", "x/y")\nt = fs.open(y, "w", "x/y")\ns.write(x)\nt.write(x)\n'
           's.close()\nMARK()\nt.close()')
    for p in session(chk, src):
        keep(chk, p)
        m = marks(p, 'MARK')
        if p.outcome == 'raise' or not m:
            continue
        hs = handles(p)
        stores = [e for e in p.events if e.kind in ('call', 'mut') and e.name in WRITERS and e.recv is not None
                  and any(e.recv == h.term for h in hs)]
        a = [e for e in stores if e.idx < m[0].idx]
        b = [e for e in stores if e.idx > m[0].idx]
        chk.must(len(a) == 1 and is_path_of(a[0].args[0], PATH), 'C27.store', 'WriteStatement',
                 'of two members, the first is stored %d times when it is closed' % len(a), a[-1] if a else None, p)
        chk.must(len(b) == 1 and is_path_of(b[0].args[0], Y), 'C27.store', 'WriteStatement',
                 'of two members, the second is stored %d times when it is closed' % len(b), b[-1] if b else None, p)
        for e in stores:
            h = [h for h in hs if h.term == e.recv][-1]
            chk.must((h.closed is None or h.closed.idx > e.idx) and h.mode and h.mode[0] in 'awx', 'C27.open',
                     'WriteStatement', 'of two members, one is stored into an archive not open for writing', e, p)


# ------------------------------------------------------------------------------ C28

QUERY = {'exists': 'return fs.exists(path)', 'isfile': 'return fs.isfile(path)', 'isdir': 'return fs.isdir(path)',
         'listdir': 'return fs.listdir(path)'}
LOOKS = {'namelist', 'infolist', 'getinfo', 'NameToInfo', 'filelist', 'open', 'read'}


def handle_attrs(chk):
    """the attributes that keep the archive and the file below it"""
    zips, files = set(), set()
    for src in ('fs.open(path, "r", "x/y")', 'fs.open(path, "w", "x/y")'):
        for p in session(chk, src):
            for e in p.events:
                if e.kind == 'setattr' and noepoch(e.recv) == FS:
                    v = noepoch(e.args[0])
                    if v[0] == 'call' and v[1] == ('g', 'zipfile.ZipFile'):
                        zips.add(e.name)
                    elif v[:2] == ('r', 'open'):
                        files.add(e.name)
    if len(zips) != 1 or len(files) != 1:
        raise Broken('C28: handles of the archive not found: %s %s' % (zips, files))
    return zips.pop(), files.pop()


def root_known(p):
    for e in p.events:
        if e.kind == 'guard' and e.recv[0] == 'op' and e.recv[1] in ('==', 'in') and (
                C('/') in e.recv[2:4] or C('') in e.recv[2:4]) and contains(noepoch(e.recv), PATH):
            if e.res:
                return True
    return False


@rules_for('C28', 'The handles of the archive are followed as a typestate from every state they can be in: what has to '
           'be known before an answer, what is opened on demand, and what is closed, in which order, and forgotten.')
def c28(chk):
    chk.rule('C28.demand', 'queries open the archive if it is not open', 8)
    chk.rule('C28.missing', 'a missing archive holds nothing but its root and is not created', 8)
    chk.rule('C28.absent', 'an absent member is reported as FileDoesNotExistError', 3)
    chk.rule('C28.root', 'the root of an archive is a directory, whether the archive exists or not', 3)
    chk.rule('C28.every', 'what is not found was looked for among all members', 0)
    chk.rule('C28.member', 'an opened member does not depend on the archive', 2)
    chk.rule('C28.close', 'both handles are closed once, the archive first, and forgotten', 12)
    chk.rule('C28.invalid', 'an unsupported mode is refused before the archive is touched', 4)
    z, f = handle_attrs(chk)
    ZT, FT = ('a', FS, z), ('a', FS, f)
    for name, src in QUERY.items():
        for start in ('', 'fs._initialize()\n'):
            n = 0
            for p in session(chk, start + src):
                n += one_query(chk, name, p, ZT, bool(start))
            chk.must(n > 0, 'C28.demand', name, '%s never looks into the archive' % name, where=where_of(chk, name))
    absent = [p for p in session(chk, QUERY['listdir']) if p.outcome == 'raise' and 'FileDoesNotExistError' in show(p.value)
              and there(p, None) is not False]
    chk.must(bool(absent), 'C28.absent', 'listdir', 'listing what is no directory of the archive is never refused',
             where=where_of(chk, 'listdir'))
    for p in session(chk, QUERY['listdir']):
        if p.outcome != 'return' or there(p, None) is False or root_known(p):
            continue
        chk.must(known_directory(chk, p), 'C28.absent', 'listdir', 'what may be no directory of the archive is listed', None, p,
                 where_of(chk, 'listdir'))
    for name, want in (('exists', True), ('isdir', True), ('isfile', False)):
        for p in session(chk, QUERY[name], root=True):
            v = noepoch(p.value) if p.outcome == 'return' else None
            chk.must(v == C(want), 'C28.root', name, 'of the root of an archive, %s answers %s' % (
                name, show(p.value)), None, p, where_of(chk, name))
    for opts in ('r', 'rb', None):
        found = 0
        for p in session(chk, 'return fs.open(path, %r, "x/y")' % (opts,)):
            if p.outcome == 'raise':
                found += 'FileDoesNotExistError' in show(p.value) and told_absent(p)
                again = [e for e in p.events if e.kind == 'raise' and e.name == 'reraise']
                chk.must(not is_exc(p.value, 'KeyError') and not (
                    again and told_absent(p) and p.value is not None and p.value[0] == 'exc?'),
                    'C28.absent', 'open', 'an absent member ends with %s' % ('KeyError' if again else show(p.value)),
                         None, p, where_of(chk, 'open'))
                continue
            member(chk, p, ZT)
        chk.must(found > 0, 'C28.absent', 'open', 'no path reports an absent member as FileDoesNotExistError',
                 where=where_of(chk, 'open'))
    closing(chk, ZT, FT)
    for opts in ('a', 'q', '', 'ab', 'x', '+'):
        for p in session(chk, 'return fs.open(path, %r, "x/y")' % opts):
            chk.must(p.outcome == 'raise' and is_exc(p.value, 'OSError'), 'C28.invalid', 'open',
                     'the mode %r ends with %s' % (opts, show(p.value)), None, p, where_of(chk, 'open'))
            t = [e for e in p.events if archive_open(e) or is_zipfile(e) or e.name == 'close'
                 or e.kind == 'setattr' and noepoch(e.recv) == FS]
            chk.must(not t, 'C28.invalid', 'open', 'the mode %r is refused after %s' % (opts, t and t[0].name), t and t[0] or None, p)


KEYERRORS = {'KeyError', 'LookupError', 'Exception', 'BaseException'}


def told_absent(p):
    """the archive was asked for the member and has none"""
    for e in p.events:
        if e.kind == 'caught':
            x = p.events[:e.idx][::-1]
            x = next((y for y in x if y.kind == 'callraise'), None)
            if x is not None and (not e.raw or any(t[0] == 'g' and t[1].split('.')[-1] in KEYERRORS for t in e.raw)):
                return True
        if e.kind == 'guard' and contains(noepoch(e.recv), PATH) and any(
                s[0] == 'call' and s[1][0] == 'a' and s[1][2] in LOOKS or s[0] == 'a' and s[2] in LOOKS
                for s in subterms(noepoch(e.recv))):
            return True
        if e.kind == 'guard' and e.recv[0] == 'q' and noepoch(e.recv[2]) == PATH:
            return True
    return False


def looks(p, ZT):
    """where the archive is looked into"""
    out = []
    for e in p.events:
        if e.kind in ('call', 'mut') and e.name in LOOKS and e.recv is not None:
            r = noepoch(e.recv)
            if r == ZT or r == NONE or r[0] == 'call' and r[1] == ('g', 'zipfile.ZipFile'):
                out.append(e)
    return out


def one_query(chk, name, p, ZT, fresh):
    ls = looks(p, ZT)
    hs = handles(p)
    root = root_known(p)
    where = where_of(chk, name)
    if p.outcome == 'raise':
        v = p.value
        if is_exc(v, 'AttributeError') or is_exc(v, 'TypeError'):
            chk.bad('C28.demand', name, '%s ends with %s' % (name, show(v)), None, p, where)
    for e in ls:
        r = noepoch(e.recv)
        if r == ZT:
            chk.must(not fresh and fact(p, ('op', 'is', ZT, NONE), e) is False or not fresh and fact(p, ZT, e) is True,
                     'C28.demand', name, '%s looks into an archive that may not be open' % name, e, p)
        elif r == NONE:
            chk.bad('C28.demand', name, '%s looks into an archive that is not open' % name, e, p)
        else:
            h = [h for h in hs if noepoch(h.term) == r]
            chk.must(bool(h) and (h[-1].closed is None or h[-1].closed.idx > e.idx), 'C28.demand', name,
                     '%s looks into an archive that has been closed' % name, e, p)
        chk.must(there(p, e) is True, 'C28.missing', name, '%s answers without looking whether the archive exists' % name, e, p)
    begins = [e for e in p.of('loop') if e.name == 'begin' and any(noepoch(x.recv) is not None and x.res is not None and (
        contains(noepoch(e.recv), noepoch(x.res))) for x in ls)]
    if begins and p.outcome == 'return' and (name == 'listdir' or noepoch(p.value) == FALSE):
        chk.must(any(x.name == 'end' and noepoch(x.recv) == noepoch(begins[-1].recv) for x in p.of('loop') if x.idx > begins[-1].idx),
                 'C28.every', name, '%s answers %s before every member has been looked at' % (name, show(p.value)[:40]),
                 begins[-1], p)
    gone = there(p, None) is False
    opened = [e for e in p.events if archive_open(e)]
    for e in opened:
        chk.must(there(p, e) is True, 'C28.missing', name, '%s opens an archive that may not exist' % name, e, p)
    if gone and p.outcome == 'return':
        chk.must(not opened, 'C28.missing', name, 'a missing archive is opened by %s' % name, opened and opened[0] or None, p)
        v = noepoch(p.value)
        if name == 'listdir':
            chk.must(v[0] in ('list', 'tuple') and not v[1] or v == ('call', ('g', 'list'), (), ()) or 'list()' == show(v)
                     or show(v) == '[]', 'C28.missing', name, 'a missing archive is listed as %s' % show(v), None, p, where)
        else:
            chk.must(v == C(bool(root)) if isc(v) else True, 'C28.missing', name, '%s in a missing archive is %s' % (
                name, show(v)), None, p, where)
    if name == 'listdir' and not gone and p.outcome == 'return':
        chk.must(bool(ls), 'C28.demand', name, 'the archive is listed without looking into it', None, p, where)
    if gone and p.outcome == 'raise' and name != 'listdir':
        chk.bad('C28.missing', name, '%s of a missing archive raises %s' % (name, show(p.value)), None, p, where)
    return len(ls)


def member(chk, p, ZT):
    v = noepoch(p.value)
    where = where_of(chk, 'open')
    live = [s for s in subterms(v) if s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'open' and (
        s[1][1] == ZT or s[1][1][0] == 'call' and s[1][1][1] == ('g', 'zipfile.ZipFile'))]
    wrapped = v[0] == 'call' and v[1][0] == 'g' and v[1][1].split('.')[-1] == 'BytesIO' and live and any(
        s[0] == 'call' and s[1][0] == 'a' and s[1][2] == 'read' and s[1][1] in live for s in subterms(v))
    chk.must(not live or bool(wrapped), 'C28.member', 'open', 'the opened member is %s, which ends with the archive' % show(v), None, p, where)
    reads = [s for s in subterms(v) if s[0] == 'call' and s[1][0] == 'a' and s[1][2] in ('read', 'open') and (
        s[1][1] == ZT or s[1][1][0] == 'call' and s[1][1][1] == ('g', 'zipfile.ZipFile'))]
    chk.must(bool(reads) and any(s[2] and (is_path_of(s[2][0], PATH) or contains(s[2][0], PATH)) for s in reads), 'C28.member', 'open',
             'the opened member is %s' % show(v), None, p, where)


def closing(chk, ZT, FT):
    for what, src in (('close', 'fs.close()'), ('read', 'fs.open(path, "r", "x/y")'), ('write', 'fs.open(path, "w", "x/y")')):
        for p in session(chk, src):
            if what != 'close' and p.outcome == 'raise' and 'FileDoesNotExist' not in show(p.value):
                continue
            first = next((e for e in p.events if archive_open(e)), None)
            closes = {}
            for e in p.events:
                if e.kind in ('call', 'mut') and e.name == 'close' and e.recv is not None and noepoch(e.recv) in (ZT, FT):
                    closes.setdefault(noepoch(e.recv), []).append(e)
            last = {}
            for e in p.events:
                if e.kind == 'setattr' and noepoch(e.recv) == FS and ('a', FS, e.name) in (ZT, FT):
                    last[('a', FS, e.name)] = e
            for t, label in ((ZT, 'archive'), (FT, 'file below the archive')):
                none = fact(p, ('op', 'is', t, NONE), first) is True or fact(p, t, first) is False
                cs = closes.get(t, [])
                if none:
                    chk.must(not cs, 'C28.close', what, 'a %s that is not open is closed' % label, cs and cs[0] or None, p)
                    continue
                chk.must(len(cs) == 1, 'C28.close', what, '%s: the %s that was open is closed %d times' % (what, label, len(cs)),
                         cs[-1] if cs else None, p, None if cs else where_of(chk, 'close'))
                if first is not None and cs:
                    chk.must(cs[0].idx < first.idx, 'C28.close', what, 'the %s is closed after the new one has been opened' % label,
                             cs[0], p)
                if what == 'close' and cs:
                    e = last.get(t)
                    chk.must(e is not None and e.args[0] == NONE, 'C28.close', what, 'the %s is remembered after it was closed' % label,
                             cs[0], p)
            if closes.get(ZT) and closes.get(FT):
                chk.must(closes[ZT][0].idx < closes[FT][0].idx, 'C28.close', what, 'the file below the archive is closed first',
                         closes[FT][0], p)
