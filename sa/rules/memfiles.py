"""C22-C23: what the handles of memory files allow, and the locks of memory files."""
from . import rules_for
from .common import *

FS, PATH, X, Y = P('fs'), P('path'), P('x'), P('y')
LOOKUPS = ['_get_dir', '_get_file', '_get_node_for_path', '_get_node', '_steps', '_child', '_get_node_prev']
NODES = {'_get_file', '_child', '_get_node_for_path', '_get_node'}

MODES = {None: 'r', 'r': 'r', 'rb': 'r', 'rt': 'r', 'r+': 'r+', 'rb+': 'r+', 'r+b': 'r+',
         'w': 'w', 'wb': 'w', 'wt': 'w', 'w+': 'w+', 'wb+': 'w+', 'w+b': 'w+',
         'a': 'a', 'ab': 'a', 'at': 'a', 'a+': 'a+', 'ab+': 'a+', 'a+b': 'a+'}
INVALID = ['', 'x', 'b', '+', 'q', 'xb', 't']
READERS = {'read()': 'read', 'read(x)': 'read', 'readline()': 'readline', '__next__()': '__next__',
           'next()': 'next'}
LISTERS = ['f.readlines()', 'f']
WRITERS = {'write(x)': 'write', 'truncate()': 'truncate', 'truncate(x)': 'truncate'}
READING = {'read', 'readline', 'readlines', 'readinto', 'read1', 'getvalue', 'getbuffer', '__next__', 'peek',
           'readall'}
WRITING = {'write', 'writelines', 'truncate'}


def memory_types(repo):
    mf = repo.cls('MemoryFile')

    def hook(I, t):
        if t[0] == 'r' and t[1] in NODES:
            return mf
    return hook


def session(chk, src, mode=None, exc='try', **cfg):
    fs = chk.repo.cls('MemoryFileSystem')
    types = {FS: fs, PATH: 'MemoryFileSystemUri'}
    types.update(cfg.pop('types', {}))
    return client(chk, fs.module, src, {
        'fs': FS, 'path': PATH, 'x': X, 'y': Y, 'mode': C(mode), 'MARK': ('g', 'MARK'), 'USE': ('g', 'USE'),
        'BODY': ('g', 'BODY')}, 'client: ' + ' '.join(src.split()), types=types,
        opaque=cfg.pop('opaque', LOOKUPS), inline_ops=cfg.pop('inline_ops', ['open', 'lock']),
        type_hook=cfg.pop('type_hook', memory_types(chk.repo)), exc=exc, **cfg)


DATA = {'_data'}


def find_data(repo):
    """the attributes in which a memory file keeps its buffer"""
    found = {n.targets[0].attr for c in repo.cls('MemoryFile').mro() for m in c.methods.values()
             for n in ast.walk(m.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute)
             and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'BytesIO'}
    if not found:
        raise Broken('no buffer of a memory file found')
    DATA.clear()
    DATA.update(found)


def is_data(t):
    """the buffer of a memory file"""
    t = noepoch(t)
    return t[0] == 'a' and t[2] in DATA or t[0] == 'call' and t[1][0] == 'g' and t[1][1].endswith('BytesIO')


def touching(p, names, since=-1):
    return [e for e in p.events if e.kind in ('call', 'mut') and e.idx > since and e.name in names
            and e.recv is not None and is_data(e.recv)]


def emptied(p, until):
    """events that replace or truncate the content of a file before until"""
    out = []
    for e in p.events[:until]:
        if e.kind == 'setattr' and e.name in DATA:
            out.append(e)
        elif e.kind in ('call', 'mut') and e.name == 'truncate' and e.recv is not None and is_data(e.recv):
            out.append(e)
    return out


def position(p, until):
    """where the buffer stands: 'start', 'end', or None if that cannot be told"""
    pos = None
    told = {}
    for e in p.events[:until]:
        if e.kind == 'setattr' and e.name in DATA:
            pos = 'start'
        elif e.kind in ('call', 'mut') and e.recv is not None and is_data(e.recv):
            if e.name == 'tell':
                told[e.res] = pos
            elif e.name == 'seek':
                a = list(e.args) + [v for k, v in e.kw]
                w = a[1] if len(a) > 1 else C(0)
                if w in (C(2), ('g', 'os.SEEK_END'), ('g', 'io.SEEK_END')) and a[0] == C(0):
                    pos = 'end'
                elif w not in (C(0), ('g', 'os.SEEK_SET'), ('g', 'io.SEEK_SET')):
                    pos = None
                elif a[0] == C(0):
                    pos = 'start'
                elif a[0] in told:
                    pos = told[a[0]]
                elif a[0][0] == 'call' and a[0][1] == ('g', 'len'):
                    pos = 'end'
                else:
                    pos = None
            elif e.name in READING | WRITING and e.name != 'truncate':
                pos = 'end' if e.name in ('getvalue', 'getbuffer') and pos == 'end' else \
                    pos if e.name in ('getvalue', 'getbuffer') else None
    return pos


def utf8(t):
    if not isc(t) or not isinstance(t[2], str):
        return False
    return t[2].lower().replace('-', '').replace('_', '') == 'utf8'


def coded(t, name, inner):
    """t is inner decoded/encoded as UTF-8"""
    t, inner = noepoch(t), noepoch(inner)
    if t[0] != 'call':
        return False
    if t[1] == ('a', inner, name):
        enc = list(t[2]) + [v for k, v in t[3] if k == 'encoding']
        return (not enc or utf8(enc[0])) and strict(t, 1)
    if t[1][0] == 'g' and t[1][1] in ('str', 'bytes', 'codecs.' + name) and t[2] and t[2][0] == inner:
        enc = list(t[2][1:]) + [v for k, v in t[3] if k == 'encoding']
        return bool(enc) and utf8(enc[0]) and strict(t, 2)
    return False


def strict(t, i):
    """nothing is dropped or replaced"""
    how = list(t[2][i:i + 1]) + [v for k, v in t[3] if k == 'errors']
    return not how or how[0] == C('strict')


@rules_for('C22', 'Client programs that open a memory file in every mode and then use the handle are analysed '
           'against the source of the backend, down to the operations on the buffer of the file: which of them are '
           'reached, from which position, with what coding, and which calls are refused.')
def c22(chk):
    find_data(chk.repo)
    chk.rule('C22.open', 'a mode leaves or empties the content and starts where it says', 30)
    chk.rule('C22.create', 'writing and appending create a missing file, reading does not', 12)
    chk.rule('C22.invalid', 'an invalid mode is refused before anything happens', 5)
    chk.rule('C22.read', 'only a handle opened for reading reads', 60)
    chk.rule('C22.write', 'only a handle opened for writing changes the content', 40)
    chk.rule('C22.refused', 'what the mode does not allow is refused with an OSError, without effect', 60)
    chk.rule('C22.allowed', 'what the mode allows reaches the content', 60)
    chk.rule('C22.coding', 'text is decoded and encoded as UTF-8 exactly in text mode', 60)
    chk.rule('C22.args', 'sizes and positions are passed on', 4)
    for mode in MODES:
        opening(chk, mode)
    for mode in INVALID:
        for p in session(chk, 'f = fs.open(path, mode, "x/y")\nMARK()', mode):
            m = marks(p, 'MARK')
            chk.must(not m, 'C22.invalid', 'mode', 'the mode %r is accepted' % mode, m[0] if m else None, p)
            if not m:
                bad = effects(p)
                chk.must(not bad, 'C22.invalid', 'mode', 'the mode %r is refused after the file was touched' % mode,
                         bad[0] if bad else None, p)
    for mode in MODES:
        using(chk, mode)
    other_ways(chk)
    pass_on(chk)


def effects(p, since=-1):
    return [e for e in p.events if e.idx > since and (
        e.kind == 'new' and e.name in ('MemoryFile', 'MemoryDir', 'MemorySymlink') or
        e.kind == 'setattr' and e.name in DATA or
        e.kind in ('call', 'mut') and e.recv is not None and is_data(e.recv) and e.name not in (
            'tell', 'seekable', 'flush', 'getvalue'))]


def created(p, until):
    return [e for e in p.events[:until] if e.kind == 'new' and e.name == 'MemoryFile']


def opening(chk, mode):
    kind = MODES[mode]
    cons = 'open:%s' % kind
    made = got = 0
    for p in session(chk, 'f = fs.open(path, mode, "x/y")\nMARK()\nreturn f', mode):
        m = marks(p, 'MARK')
        if not m:
            if p.outcome == 'raise' and is_exc(p.value, 'OSError') and p.value[0] == 'exc' and 'EINVAL' in show(p.value):
                chk.bad('C22.open', cons, 'the mode %r is refused' % mode, None, p)
            continue
        at = m[0].idx
        new = created(p, at)
        if new:
            made += 1
            chk.must(kind[0] != 'r', 'C22.create', cons, 'opening for reading creates a file', new[0], p)
        else:
            got += 1
        pos = position(p, at)
        empt = emptied(p, at)
        if new:
            chk.must(pos in ('start', 'end'), 'C22.open', cons, 'a new file is not started at its beginning', None, p)
            continue
        absent = q(p, 'exists', PATH) is False
        if kind[0] == 'r':
            chk.must(not empt and not touching(p, WRITING), 'C22.open', cons,
                     'opening for reading changes the content', empt[0] if empt else None, p)
            chk.must(pos == 'start', 'C22.open', cons, 'reading does not start at the beginning', None, p)
        elif kind[0] == 'w':
            chk.must(bool(empt), 'C22.open', cons, 'opening for writing keeps the former content', None, p)
            chk.must(pos == 'start', 'C22.open', cons, 'writing does not start at the beginning', None, p)
        elif not absent:
            chk.must(not empt and not touching(p, WRITING), 'C22.open', cons,
                     'opening for appending changes the content', empt[0] if empt else None, p)
            chk.must(pos == 'end', 'C22.open', cons, 'appending does not start at the end', None, p)
    chk.must(got > 0, 'C22.open', cons, 'an existing file cannot be opened with %r' % mode,
             where=where_of(chk, 'open'))
    if kind[0] != 'r':
        chk.must(made > 0, 'C22.create', cons, 'no path creates a missing file for %r' % mode,
                 where=where_of(chk, 'open'))


def where_of(chk, name, cls='MemoryFileSystem'):
    f = chk.repo.method(cls, name)
    return '%s:%s (%s)' % (f.module.path, f.node.lineno, f.short) if f else None


def is_refusal(v):
    """io.UnsupportedOperation is an OSError, too"""
    return v is not None and (is_exc(v, 'OSError') or 'UnsupportedOperation' in show(v))


def using(chk, mode):
    kind = MODES[mode]
    may_read = kind[0] == 'r' or '+' in kind
    may_write = kind[0] != 'r' or '+' in kind
    binary = bool(mode) and 'b' in mode
    style = '%s%s' % (kind, ' (binary)' if binary else '')
    progs = [('r', n, 'return f.%s' % c) for c, n in READERS.items()] + \
        [('r', 'readlines' if '.' in s else '__iter__', 'for l in %s:\n    USE(l)' % s) for s in LISTERS] + \
        [('r', '__next__', 'return next(f)')] + \
        [('w', n, 'return f.%s' % c) for c, n in WRITERS.items()]
    for what, n, call in progs:
        allowed = may_read if what == 'r' else may_write
        reached = 0
        cons = 'proxy:%s' % n
        for p in session(chk, 'f = fs.open(path, mode, "x/y")\nMARK()\n' + call, mode):
            m = marks(p, 'MARK')
            if not m:
                continue
            at = m[0].idx
            reads, writes = touching(p, READING, at), touching(p, WRITING, at)
            new = [e for e in p.events if e.idx > at and e.kind == 'setattr' and e.name in DATA]
            chk.must(may_read or not reads, 'C22.read', cons, 'a file opened with %s is read by %s' % (style, n),
                     reads[0] if reads else None, p)
            chk.must(may_write or not (writes or new), 'C22.write', cons,
                     'a file opened with %s is changed by %s' % (style, n), (writes + new)[0] if writes + new else None, p)
            if what == 'r':
                chk.must(not writes and not new, 'C22.write', cons, 'reading changes the content',
                         (writes + new)[0] if writes + new else None, p)
            if not allowed:
                chk.must(p.outcome == 'raise' and is_refusal(p.value) and not (reads or writes or new),
                         'C22.refused', cons, 'with a file opened with %s, %s ends with %s' % (
                             style, n, show(p.value) if p.value else p.outcome), None, p)
                continue
            if p.outcome == 'raise' and not is_exc(p.value, 'StopIteration'):
                chk.must(not is_refusal(p.value), 'C22.allowed', cons,
                         'a file opened with %s refuses %s' % (style, n), None, p)
                continue
            if p.outcome == 'raise':
                continue
            reached += bool(reads if what == 'r' else writes)
            if what == 'r':
                got = [p.value] if 'return' in call else [e.args[0] for e in marks(p, 'USE')]
                for v in got:
                    if v == NONE or v is None:
                        chk.bad('C22.allowed', cons, 'with %s, %s yields nothing' % (style, n), None, p)
                        continue
                    src = [e.res for e in reads]
                    if binary:
                        chk.must(any(noepoch(v) == noepoch(s) for s in src), 'C22.coding', cons,
                                 'in binary mode %s yields %s' % (n, show(v)), None, p)
                    else:
                        chk.must(any(coded(v, 'decode', s) for s in src), 'C22.coding', cons,
                                 'in text mode %s yields %s' % (n, show(v)), None, p)
            elif n == 'write':
                for e in writes:
                    v = e.args[0] if e.args else NONE
                    isb = [x.res for x in p.events if x.kind == 'guard' and 'isinstance' in show(x.recv)
                           and contains(x.recv, X)]
                    raw = noepoch(v) == X
                    if binary:
                        chk.must(raw, 'C22.coding', cons, 'in binary mode %s is written' % show(v), e, p)
                    else:
                        chk.must(coded(v, 'encode', X) or raw and bool(isb), 'C22.coding', cons,
                                 'in text mode %s is written' % show(v), e, p)
        if allowed:
            chk.must(reached > 0, 'C22.allowed', cons, 'with a file opened with %s, no path of %s reaches the '
                     'content' % (style, n), where=where_of(chk, n, 'MemoryFileProxy') or where_of(chk, 'open'))


def other_ways(chk):
    """whatever else of the file can be called through a handle"""
    mf = chk.repo.cls('MemoryFile')
    done = {c.split('(')[0] for c in list(READERS) + list(WRITERS)} | {'readlines', 'reset', 'items', 'size'}
    px = chk.repo.cls('MemoryFileProxy')
    names = sorted({n for k in (mf, px) for c in k.mro() for n in c.methods
                    if not n.startswith('_') and n not in done})
    for n in names:
        f = px.method(n) or mf.method(n)
        args = ', '.join('xy'[:len(params(f)) - len(f.node.args.defaults)])
        for mode in ('r', 'w', 'a'):
            for p in session(chk, 'f = fs.open(path, mode, "x/y")\nMARK()\nreturn f.%s(%s)' % (n, args), mode):
                m = marks(p, 'MARK')
                if not m:
                    continue
                reads, writes = touching(p, READING, m[0].idx), touching(p, WRITING, m[0].idx)
                if mode == 'r':
                    chk.must(not writes, 'C22.write', 'proxy:' + n, 'a file opened for reading is changed by %s' % n,
                             writes[0] if writes else None, p)
                else:
                    chk.must(not reads, 'C22.read', 'proxy:' + n, 'a file opened for writing only is read by %s' % n,
                             reads[0] if reads else None, p)


def pass_on(chk):
    """arguments and results of what a handle passes on to the buffer"""
    for src, mode, name, want in (('f.read(x)', 'rb', 'read', [X]), ('f.seek(x)', 'r', 'seek', [X]),
                                  ('f.seek(x, y)', 'r', 'seek', [X, Y]), ('f.truncate(x)', 'w', 'truncate', [X]),
                                  ('f.tell()', 'r', 'tell', []), ('f.truncate()', 'w', 'truncate', [])):
        for p in session(chk, 'f = fs.open(path, mode, "x/y")\nMARK()\nreturn ' + src, mode):
            m = marks(p, 'MARK')
            if not m or p.outcome != 'return':
                continue
            es = [e for e in p.events if e.idx > m[0].idx and e.kind in ('call', 'mut') and e.name == name
                  and e.recv is not None and is_data(e.recv)]
            cons = 'proxy:' + name
            if not es:
                chk.bad('C22.args', cons, '%s has no effect' % src, None, p, where_of(chk, 'open'))
                continue
            e = es[-1]
            got = list(e.args) + [v for k, v in e.kw]
            while len(got) > len(want) and got[-1] in (C(0), NONE):
                got.pop()
            chk.must(got == want or name == 'truncate' and not want and got and 'tell' in show(got[0]),
                     'C22.args', cons, '%s calls %s(%s)' % (
                src, name, ', '.join(map(show, e.args))), e, p)
            if name in ('tell', 'read'):
                chk.must(noepoch(p.value) == noepoch(e.res), 'C22.args', cons, '%s yields %s' % (src, show(p.value)), e, p)


# ------------------------------------------------------------------------------ C23

def lock_of(e):
    """(what happens to a lock, the lock)"""
    if e.kind in ('call', 'mut') and e.recv is not None and e.name in ('acquire', 'release', '__enter__', '__exit__'):
        return {'__enter__': 'acquire', '__exit__': 'release'}.get(e.name, e.name), noepoch(e.recv)
    if e.kind in ('enter', 'exit') and e.recv is not None and e.name is None and lockish(e.recv):
        return {'enter': 'acquire', 'exit': 'release'}[e.kind], noepoch(e.recv)
    return None, None


def lockish(t):
    t = noepoch(t)
    return t[0] == 'i' and t[1][0] == 'a' and 'lock' in t[1][2] or t[0] == 'a' and t[2] == 'lock'


def of_path(p, k, ev):
    """k is made of the path: a constant where the path has been looked at (the root), see C23.alias"""
    return contains(k, PATH) or isc(k) and any(
        e.kind in ('guard', 'icall') and (PATH in e.args or show(PATH) in show(e.recv)) for e in before(p, ev))


def own_lock(p, t, ev):
    """is t the lock of the file the path leads to: that of the node, or the one kept for the path as long as
    there is no file"""
    t = noepoch(t)
    if t[0] == 'a' and t[1][0] == 'r' and t[1][1] in NODES:
        return PATH in t[1][3]
    if t[0] == 'i' and t[1][0] == 'a' and t[1][1] == FS:
        k = t[2]
        if not of_path(p, k, ev):
            return False
        # there must be no file that has a lock of its own
        for r in (e for e in before(p, ev) if e.kind == 'icall' and e.name in NODES and PATH in e.args):
            node = noepoch(r.res)
            if fact(p, ('op', 'is', node, NONE), ev) is True:
                return True
            for g in before(p, ev):
                if g.kind != 'guard' or g.recv[0] != 'op' or g.recv[1] not in ('==', 'is', 'in'):
                    continue
                ab = [noepoch(z) for z in g.recv[2:4]]
                if ('a', node, 'kind') in ab:
                    c = [z for z in ab if isc(z)]
                    if c and g.res is (c[0] != C(0)):
                        return True
                if g.recv[1] == 'is' and ('call', ('g', 'type'), (node,), ()) in ab and g.res is False:
                    return True
            if any(g.kind == 'guard' and g.res is False and 'isinstance' in show(g.recv)[:11] and
                   contains(noepoch(g.recv), node) for g in before(p, ev)):
                return True
            if fact(p, node, ev) is False:
                return True
        return any(e.kind == 'guard' and e.recv[0] == 'q' and e.recv[1] in ('exists', 'isfile') and not e.res
                   for e in before(p, ev)) or any(e.kind in ('caught', 'handled') for e in before(p, ev))
    return False


def lost(p, e):
    x = p.events[e.idx + 1:e.idx + 2]
    return bool(x) and x[0].kind == 'callraise' and x[0].node is e.node


@rules_for('C23', 'The life of a lock is analysed through a client that locks a file for a block, on every path, '
           'including those on which any call fails: order of acquiring, opening, cleaning up and releasing, and '
           'which lock it is.')
def c23(chk):
    find_data(chk.repo)
    chk.rule('C23.own', 'the lock is that of the file the path leads to', 8)
    chk.rule('C23.order', 'the file is only touched while its lock is held', 20)
    chk.rule('C23.wait', 'a taken lock is waited for, or refused at once if that is asked for', 8)
    chk.rule('C23.refuse', 'a refused lock raises LockFileObtainException and touches nothing', 2)
    chk.rule('C23.release', 'an acquired lock is released exactly once, on every exit', 20)
    chk.rule('C23.cleanup', 'the file is removed if, and only if, that is asked for', 8)
    chk.rule('C23.body', 'the block gets the opened file and its failure is passed on', 4)
    chk.rule('C23.same', 'a created file gets the lock that is kept for its path', 1)
    for fail in (True, False):
        for clean in (True, False):
            for p in session(chk, 'with fs.lock(path, %s, %s) as f:\n    BODY(f)\nMARK()' % (fail, clean),
                             exc='all', inline_ops=['lock'], type_hook=None):
                one_lock(chk, p, fail, clean)
    n = 0
    for p in session(chk, 'f = fs.open(path, mode, "x/y")', 'w'):
        made = [e.res for e in p.of('new')]
        for e in p.events:
            if e.kind in ('setattr', 'delattr') and 'lock' in str(e.name).lower() and e.recv not in made:
                chk.must(False, 'C23.same', 'open:lock', 'the lock of a file that is there is replaced', e, p)
            if e.kind == 'new' and e.name == 'MemoryFile':
                n += 1
                locks = [a for a in e.args if lockish(a)] + [v for k, v in e.kw if lockish(v)]
                chk.must(bool(locks) and noepoch(locks[0])[0] == 'i' and of_path(p, noepoch(locks[0])[2], e),
                         'C23.same', 'open:lock', 'a new file gets the lock %s' % [show(a) for a in locks], e, p)
    if not n:
        raise Broken('C23: no path creates a memory file')


def one_lock(chk, p, fail, clean):
    cons = 'lock'
    held = None
    acquired = []
    released = []
    last = len(p.events)
    body = marks(p, 'BODY')
    refused = False
    for e in p.events:
        what, lk = lock_of(e)
        if what == 'acquire':
            if lost(p, e):
                continue
            chk.must(own_lock(p, lk, e), 'C23.own', cons, 'the lock acquired is %s' % show(lk), e, p)
            kw = dict(e.kw)
            blocking = not (e.args and e.args[0] == FALSE or kw.get('blocking') == FALSE or kw.get('timeout') == C(0)
                            or len(e.args) > 1 and e.args[1] == C(0))
            chk.must(blocking is (not fail), 'C23.wait', cons, 'with fail_on_lock=%s the lock is acquired %s' % (
                fail, 'waiting' if blocking else 'without waiting'), e, p)
            got = fact(p, e.res) if e.res is not None else None
            if not blocking and got is not True:
                refused = got is False
                if got is None:
                    # nobody looked whether it was acquired
                    chk.bad('C23.refuse', cons, 'it is not checked whether the lock was obtained', e, p)
                continue
            held = lk
            acquired.append(e)
        elif what == 'release':
            released.append(e)
            chk.must(bool(acquired) and lk == noepoch(acquired[0].recv), 'C23.release', cons,
                     'a lock is released that is not held: %s' % show(lk), e, p)
            chk.must(held is not None, 'C23.release', cons, 'the lock is released twice', e, p)
            held = None
        elif e.kind == 'op' and noepoch(e.recv) == PATH and e.name not in READS:
            chk.must(held is not None, 'C23.order', cons, 'the file is %s without holding its lock' % {
                'open': 'opened'}.get(e.name, 'changed (%s)' % e.name), e, p)
            if e.name in ('remove', 'removefile'):
                chk.must(clean, 'C23.cleanup', cons, 'the file is removed without that being asked for', e, p)
                chk.must(bool(body) and e.idx > body[0].idx, 'C23.cleanup', cons, 'the file is removed before the '
                         'block has ended', e, p)
        elif e.kind == 'call' and e.name == 'BODY':
            chk.must(held is not None, 'C23.order', cons, 'the block runs without the lock', e, p)
            a = noepoch(e.args[0])
            chk.must(a[:3] == ('r', 'open', PATH), 'C23.body', cons, 'the block gets %s' % show(a), e, p)
            if a[0] == 'r':
                m = a[3][0] if a[3] else NONE
                chk.must(isc(m) and isinstance(m[2], str) and 'w' in m[2], 'C23.body', cons,
                         'the locked file is opened with %s' % show(m), e, p)
            chk.must(not lost(p, e) or p.outcome == 'raise', 'C23.body', cons, 'the failure of the block is lost', e, p)
    if refused:
        chk.must(p.outcome == 'raise' and 'LockFileObtainException' in show(p.value) and not released and not [
            e for e in p.events if e.kind == 'op' and noepoch(e.recv) == PATH and e.name not in READS] and not body,
            'C23.refuse', cons, 'a lock that is taken ends with %s' % (show(p.value) if p.value else p.outcome), None, p)
    if acquired:
        chk.must(len(released) == 1 and held is None, 'C23.release', cons, 'the lock is released %d times' % len(
            released), acquired[0], p)
    if body and clean and acquired:
        rm = [e for e in p.events if e.kind == 'op' and noepoch(e.recv) == PATH and e.name in ('remove', 'removefile')]
        chk.must(bool(rm), 'C23.cleanup', cons, 'the file is not removed after the block', body[0], p)
