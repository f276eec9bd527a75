"""C29-C31: what happens when something fails."""
import ast

from ..interp import Ev
from ..repo import Func, dotted
from . import rules_for
from .common import *

OSERR = {'OSError', 'IOError', 'EnvironmentError', 'FileNotFoundError', 'PermissionError', 'FileExistsError',
         'IsADirectoryError', 'NotADirectoryError', 'InterruptedError', 'BlockingIOError', 'TimeoutError', 'os.error',
         'error', 'shutil.Error', 'PathError', 'FileDoesNotExistError', 'NoSchemeError', 'RemoteConnectionTimeout',
         'OperationIsNotSupportedOnPlatform', 'LockFileObtainException', 'NotImplementedError', 'RuntimeError', 'RecursionError'}
BROAD = {'Exception', 'BaseException', '*'}
QUERY = {'exists', 'isfile', 'isdir', 'islink'}
PURE = {'int', 'float', 'str', 'bool', 'len', 'ord', 'chr', 'list', 'tuple', 'dict', 'set', 'getattr', 'next', 'iter', 'index',
        'split', 'rsplit', 'decode', 'encode', 'pop', 'remove', 'get', 'min', 'max', 'isdigit', 'strip'}
FOREIGN = ('os.', 'shutil.', 'tempfile.', 'zipfile.', 'io.', 'open', 'subprocess.', 'pathlib.')


def scope(repo):
    for f in repo.functions():
        yield f


def tname(t):
    if t[0] == 'cls':
        return t[1].name
    if t[0] == 'g':
        return t[1] if t[1] in OSERR else t[1].split('.')[-1]
    return show(t)


def broad(types):
    """OSError and the like, or everything"""
    return not types or any(tname(t) in OSERR or tname(t) in BROAD or tname(t).split('.')[-1] in BROAD | OSERR for t in types)


def has_handlers(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Try) or n.__class__.__name__ == 'TryStar':
            return True
        if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'suppress':
            return True
    return False


def callers(repo):
    """name -> functions (or None for module code) that mention it"""
    out = {}
    for f in scope(repo):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                out.setdefault(n.attr, set()).add(f)
            elif isinstance(n, ast.Name):
                out.setdefault(n.id, set()).add(f)
    return out


def only_for(f, names, by, seen=()):
    """f is one of the functions named, or a private helper of nothing else"""
    if f.name in names:
        return True
    if not f.name.startswith('_') or f.name.startswith('__') or f in seen:
        return False
    cs = by.get(f.name, set()) - {f}
    return bool(cs) and all(only_for(c, names, by, tuple(seen) + (f,)) for c in cs)


def errno_known(p, exc, name, upto):
    for e in p.events[:upto]:
        if e.kind == 'guard' and e.recv[0] == 'op' and e.recv[1] in ('==', 'in', '!='):
            a, b = noepoch(e.recv[2]), noepoch(e.recv[3])
            x = noepoch(exc)
            mine = [t for t in (a, b) if t[0] == 'a' and t[2] == 'errno' and t[1] == x or
                    t[0] == 'i' and t[1] == ('a', x, 'args')]
            other = [t for t in (a, b) if t not in mine]
            if mine and other and (e.res is True) == (e.recv[1] != '!='):
                o = other[0]
                if o == ('g', 'errno.' + name):
                    return True
                if o[0] in ('tuple', 'list', 'set') and o[1] == (('g', 'errno.' + name),):
                    return True
    return False


def source_of(p, caught):
    """the failing event behind a caught exception"""
    exc = caught.args[0]
    for e in p.events[:caught.idx][::-1]:
        if e.kind == 'callraise' and e.args and e.args[0] == exc:
            prev = p.events[e.idx - 1] if e.idx else None
            return e, (prev if prev is not None and prev.node is e.node else None)
        if e.kind == 'raise' and e.args and e.args[0] == exc:
            return e, e
    return None, None


def can_fail(f):
    """does the function call or raise anything at all"""
    if not isinstance(f, Func):
        return True
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Raise, ast.With, ast.Assert)):
            return True
        if isinstance(n, ast.Call) and (dotted(n.func) or '?').split('.')[-1] not in PURE | {'isinstance', 'issubclass', 'hasattr'}:
            return True
    return False


def foreign(src, site):
    """the failure comes from a backend or the operating system"""
    if src is None:
        return False
    if site is None:
        return src.name not in PURE
    if site.kind == 'op':
        return True
    if site.kind == 'icall':
        return can_fail(site.raw)
    if site.kind == 'raise':
        return True
    if site.kind in ('call', 'mut'):
        if site.recv is None:
            n = show(noepoch(site.res)[1]) if site.res is not None and noepoch(site.res)[0] == 'call' else str(site.name)
            return str(n).startswith(FOREIGN) or str(site.name).startswith(FOREIGN)
        return site.name not in PURE
    return False


def end_of(p, caught):
    """'same', 'other' or 'absorbed'"""
    exc = caught.args[0]
    for e in p.events[caught.idx + 1:]:
        if e.kind == 'handled' and e.args and e.args[0] == exc and e.node is caught.node:
            return 'absorbed'
    if p.outcome == 'raise':
        return 'same' if p.value == exc or noepoch(p.value) == noepoch(exc) else 'other'
    return 'absorbed'


def allowed(chk, f, p, caught, by):
    """the failures a handler may absorb"""
    repo = chk.repo
    types = caught.raw or []
    src, site = source_of(p, caught)
    exc = caught.args[0]
    name = f.name
    # the registry's cleaning: nobody is there to be told
    if f.cls is not None and f.cls.name == 'ConnectionRegistry' and only_for(f, {'cleanup', 'cleaner'}, by):
        return True
    if f.cls is not None and f.cls.isa('FileSystem') and only_for(f, QUERY, by) and p.outcome == 'return':
        if errno_known(p, exc, 'ELOOP', len(p.events)):
            return True
        if site is not None and site.kind == 'call' and isc(p.value) and not p.value[2]:
            s = str(site.name)
            if s in ('os.stat', 'os.lstat', 'os.readlink', 'os.path.getmtime', 'stat', 'lstat', 'is_symlink', 'is_dir', 'is_file'):
                return True     # what os.path.exists does
    if only_for(f, {'makedirs'}, by) and (errno_known(p, exc, 'EEXIST', len(p.events)) or all(tname(t) == 'FileExistsError' for t in types)):
        return True         # C18 tells whether that is right
    # loading a plug-in: C06 tells that the others go on
    if f.cls is None and site is not None and site.kind == 'call' and site.name == 'load':
        return True
    if broad(types):
        return src is not None and not foreign(src, site)
    return not (foreign(src, site) and site is not None and site.kind == 'op')


@rules_for('C29', 'Every function with an exception handler, a finally block or contextlib.suppress is analysed with '
           'every call in its try blocks failing: where the failure goes is followed to the end of the path. Context '
           'managers are judged by what their __exit__ can return, module code and options that silence failures by '
           'the syntax tree.')
def c29(chk):
    chk.rule('C29.absorb', 'a failure is absorbed only where that is meant', 6)
    chk.rule('C29.convert', 'a failure of the operating system or of a backend is passed on as it is', 1)
    chk.rule('C29.finally', 'no finally block ends a failure', 0)
    chk.rule('C29.exit', 'no context manager of the package suppresses an exception', 5)
    chk.rule('C29.module', 'handlers of module code', 1)
    chk.rule('C29.ignore', 'no call is told to ignore failures', 0)
    repo = chk.repo
    by = callers(repo)
    for f in scope(repo):
        silencing(chk, f)
        if has_handlers(f.node):
            one_function(chk, f, by)
    for c in repo.classes():
        if '__exit__' in c.methods:
            one_exit(chk, c, c.methods['__exit__'])
    for m in repo.modules.values():
        module_code(chk, m)


def one_function(chk, f, by):
    reached = set()
    try:
        ps = chk.run(f, types={SELF: f.cls} if f.cls is not None else {}, exc='try', unroll=1, max_paths=20000, opaque_fn=lambda g, recv: not nested(f, g))
    except Broken:
        ps = []
    for p in ps:
        for e in p.of('swallow'):
            reached.add(id(e.node))
            if e.name == 'finally':
                chk.bad('C29.finally', f, 'the finally block of %s ends a failure' % f.short, e, p)
        for e in p.of('caught'):
            reached.add(id(e.node))
            end = end_of(p, e)
            if end == 'absorbed':
                chk.must(allowed(chk, f, p, e, by), 'C29.absorb', f, '%s absorbs %s%s' % (
                    f.short, ','.join(tname(t) for t in e.raw or []) or 'everything', raised_by(p, e)), e, p)
            elif end == 'other' and broad(e.raw):
                src, site = source_of(p, e)
                chk.must(not foreign(src, site) or contains(p.value, e.args[0]), 'C29.convert', f, '%s turns %s%s into %s' % (
                    f.short, ','.join(tname(t) for t in e.raw or []), raised_by(p, e), show(p.value)[:60]), e, p)
            else:
                chk.ok('C29.convert')
    for n in ast.walk(f.node):
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if id(h) not in reached:
                    unreached(chk, f, h, by)
            for st in n.finalbody:
                ends = [x for x in flow(st) if isinstance(x, (ast.Return, ast.Break, ast.Continue))]
                chk.must(not ends, 'C29.finally', f, 'the finally block of %s can end a failure' % f.short,
                         where='%s:%d (%s)' % (f.module.path, st.lineno, f.short))


def flow(st, loop=False):
    """statements that leave st, loops and functions inside it respected"""
    if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return
    if isinstance(st, ast.Return) or isinstance(st, (ast.Break, ast.Continue)) and not loop:
        yield st
    inner = loop or isinstance(st, (ast.For, ast.While))
    for c in ast.iter_child_nodes(st):
        for x in flow(c, inner):
            yield x


def nested(f, g):
    if g is f:
        return False
    return any(n is g.node for n in ast.walk(f.node))


def raised_by(p, e):
    src, site = source_of(p, e)
    return ' raised by %s' % (site.name if site is not None else src.name) if src is not None else ''


def unreached(chk, f, h, by):
    """a handler no analysed path leads to"""
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
    names = [(dotted(t) or '?').split('.')[-1] for t in ts]
    wide = not names or any(n in BROAD | OSERR for n in names)
    raises = any(isinstance(n, ast.Raise) for n in ast.walk(h))
    ok = not wide or raises or f.cls is not None and f.cls.name == 'ConnectionRegistry' and only_for(f, {'cleanup', 'cleaner'}, by)
    chk.must(ok, 'C29.absorb', f, '%s absorbs %s' % (f.short, ','.join(names) or 'everything'),
             where='%s:%d (%s)' % (f.module.path, h.lineno, f.short))


def one_exit(chk, c, f):
    E = ('p', 'etype'), ('p', 'evalue'), ('p', 'etb')
    n = [x for x in f.params() if x not in ('self',)]
    ps = chk.run(f, args=[SELF] + list(E), recv=None, types={SELF: c}, exc='none', unroll=1) if False else chk.run(
        f, types={SELF: c}, exc='none', unroll=1)
    for p in ps:
        if p.outcome != 'return':
            continue
        v = noepoch(p.value)
        chk.must(harmless(v), 'C29.exit', f, '%s ends with %s: the exception of the block may get lost' % (f.short, show(v)[:60]), None, p,
                 '%s:%d (%s)' % (f.module.path, f.node.lineno, f.short))


def harmless(v):
    if isc(v):
        return not v[2]
    if v[0] in ('call', 'r', 'rec'):
        fn = v[1]
        n = fn[2] if isinstance(fn, tuple) and fn[0] == 'a' else fn[1] if isinstance(fn, tuple) and fn[0] == 'g' else fn
        return str(n).split('.')[-1] in ('__exit__', 'close', 'release', 'remove', 'chdir', 'unlink', 'exit', 'delete', 'flush')
    if v[0] == 'op' and v[1] == 'not':
        return False
    return False


SILENT = {'ignore_errors': True, 'missing_ok': True, 'onerror': None, 'onexc': None}


def silencing(chk, f):
    for n in ast.walk(f.node):
        if not isinstance(n, ast.Call):
            continue
        d = dotted(n.func) or (n.func.attr if isinstance(n.func, ast.Attribute) else '')
        last = d.split('.')[-1]
        where = '%s:%d (%s)' % (f.module.path, n.lineno, f.short)
        for k in n.keywords:
            if k.arg in ('ignore_errors', 'missing_ok') and not (isinstance(k.value, ast.Constant) and not k.value.value):
                chk.bad('C29.ignore', f, '%s is called with %s' % (d, k.arg), where=where)
        if d in ('os.walk', 'os.fwalk'):
            ok = any(k.arg == 'onerror' for k in n.keywords) or len(n.args) > 2
            chk.must(ok, 'C29.ignore', f, '%s passes over directories that cannot be listed' % d, where=where)
        if d in ('shutil.rmtree', 'rmtree'):
            ok = len(n.args) < 2 or isinstance(n.args[1], ast.Constant) and not n.args[1].value
            chk.must(ok, 'C29.ignore', f, '%s is told to ignore errors' % d, where=where)
            for k in n.keywords:
                if k.arg in ('onerror', 'onexc') and isinstance(k.value, ast.Lambda):
                    chk.bad('C29.ignore', f, '%s hands failures to a lambda' % d, where=where)
        if last == 'setLevel':
            continue


def module_code(chk, m):
    def walk(body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(st, ast.Try):
                for h in st.handlers:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
                    names = [(dotted(t) or '?').split('.')[-1] for t in ts]
                    wide = not names or any(n in BROAD | OSERR for n in names)
                    loads = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'load'
                                for b in st.body for n in ast.walk(b))
                    guard = any(isinstance(n, ast.Raise) for n in ast.walk(h))
                    chk.must(not wide or loads or guard, 'C29.module', m.name, 'module code absorbs %s' % (','.join(names) or 'everything'),
                             where='%s:%d' % (m.path, h.lineno))
                for x in (st.body, st.orelse, st.finalbody) + tuple(h.body for h in st.handlers):
                    walk(x)
            else:
                for fld in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(st, fld, None), list):
                        walk(getattr(st, fld))
    walk(m.tree.body)


# ------------------------------------------------------------------------------ C30

X, Y, FSYS, M = P('x'), P('y'), P('fs'), P('m')
ENV = {'x': X, 'y': Y, 'fs': FSYS, 'm': M, 'BODY': ('g', 'BODY'), 'MARK': ('g', 'MARK'), 'INNER': ('g', 'INNER')}


def failing(p, name):
    """the exception BODY raised, if it did"""
    for e in p.events:
        if e.kind == 'callraise' and e.name == name:
            return e
    return None


def calls(p, *names):
    out = []
    for e in p.events:
        if e.kind in ('call', 'mut'):
            t = noepoch(e.res) if e.res is not None else None
            n = t[1][1] if t is not None and t[0] == 'call' and t[1][0] == 'g' else e.name
            if n in names or e.name in names:
                out.append(e)
    return out


def failed_call(p, e):
    x = p.events[e.idx + 1:e.idx + 2]
    return bool(x) and x[0].kind == 'callraise' and x[0].node is e.node


def cm_client(chk, cname, src, **cfg):
    c = chk.repo.cls(cname)
    types = {X: 'BaseUri', Y: 'BaseUri', FSYS: 'MemoryFileSystem'}
    types.update(cfg.pop('types', {}))
    return client(chk, c.module, src, ENV, '%s: %s' % (cname, ' ; '.join(src.split('\n'))), types=types,
                  exc=cfg.pop('exc', 'all'), **cfg)


def at(chk, cname, m):
    f = chk.repo.method(cname, m)
    return '%s:%s (%s)' % (f.module.path, f.node.lineno, f.short) if f else None


@rules_for('C30', 'Client blocks below every context manager of the package are analysed with every call failing: what '
           'was changed on entering has to be undone on every way out, in the right order, and the exception of the '
           'block has to come out unchanged.')
def c30(chk):
    chk.rule('C30.cwd', 'the working directory is restored on every exit', 6)
    chk.rule('C30.enter', 'the block runs where, and with what, it is promised', 5)
    chk.rule('C30.temp', 'the temporary file is closed, then deleted, on every exit', 4)
    chk.rule('C30.excclass', 'the error class of the memory backend is put back on every exit', 6)
    chk.rule('C30.pass', 'the exception of the block comes out unchanged', 5)
    working_directory(chk)
    temp_file(chk)
    error_class(chk)
    every_manager(chk)


def passed_on(chk, p, cname, cleanup_failed):
    b = failing(p, 'BODY')
    if b is None:
        return
    ok = p.outcome == 'raise' and (p.value == b.args[0] or cleanup_failed)
    chk.must(ok, 'C30.pass', '%s.__exit__' % cname, 'the exception of the block ends as %s %s' % (p.outcome, show(p.value)[:60]), None, p,
             at(chk, cname, '__exit__'))


def working_directory(chk):
    W = 'WorkingDirectory'
    body = 0
    for src, depth in (('with WorkingDirectory(x):\n    BODY()', 1), ('w = WorkingDirectory(x)\nMARK()\nwith w:\n    BODY()', 1),
                       ('with WorkingDirectory(x):\n    with WorkingDirectory(y):\n        BODY()\n    INNER()', 2),
                       ('w = WorkingDirectory(x)\nwith w:\n    BODY()\nwith w:\n    INNER()', 3)):
        for p in cm_client(chk, W, src):
            # the directory as it is: a stack of what was current
            cds = calls(p, 'os.chdir', 'chdir', 'os.fchdir')
            b = calls(p, 'BODY')
            good = [e for e in cds if not failed_call(p, e)]
            asked = calls(p, 'os.getcwd', 'getcwd', 'os.getcwdb')
            for e in b:
                body += 1
                pre = [x for x in good if x.idx < e.idx]
                want = [X, Y][:2] if depth == 2 else [X]
                got = [noepoch(x.args[0]) if x.args else NONE for x in pre]
                chk.must(len(got) == len(want) and all(is_path_of(a, w) for a, w in zip(got, want)), 'C30.enter',
                         W + '.__enter__', 'the block runs in %s' % ', '.join(show(g) for g in got), e, p)
            if not good:
                continue
            broken = any(failed_call(p, x) for x in cds)
            # the current directory, as a symbol
            cur, known, here = ('base',), {}, {}
            for e in sorted(good + asked + calls(p, 'INNER'), key=lambda e: e.idx):
                if e in asked:
                    if not failed_call(p, e):
                        known[e.res] = cur
                elif e.name == 'INNER':
                    here[e.idx] = (e, cur)
                else:
                    a = e.args[0] if e.args else NONE
                    cur = known[a] if a in known else (X if is_path_of(a, X) else Y if is_path_of(a, Y) else noepoch(a))
            if not broken:
                chk.must(cur == ('base',), 'C30.cwd', W + '.__exit__', 'after the block the current directory is %s' % (
                    show(cur) if len(cur) > 1 else cur), good[-1], p)
            if depth == 2 and not broken:
                for e, c in here.values():
                    chk.must(c == X, 'C30.cwd', W + '.__exit__', 'after an inner block the current directory is %s' % (
                        show(c) if len(c) > 1 else 'the one before the outer'), e, p)
            if depth != 3:
                passed_on(chk, p, W, broken or any(failed_call(p, s) for s in asked))
    if not body:
        raise Broken('C30: no path reaches the block below WorkingDirectory')


def temp_file(chk):
    T = 'TempFileHandle'
    n = 0
    for src in ('with TempFileHandle(x) as h:\n    BODY(h)', 't = TempFileHandle(x)\nMARK()\nwith t as h:\n    BODY(h)',
                't = TempFileHandle(x)\nMARK()\nt.close()'):
        for p in cm_client(chk, T, src, types={X: None}):
            opened = [e for e in calls(p, 'open', 'io.open', 'builtins.open') if not failed_call(p, e)]
            ends = calls(p, 'os.unlink', 'os.remove', 'unlink', 'remove')
            b = calls(p, 'BODY') + calls(p, 'MARK')
            if not opened:
                chk.must(not ends, 'C30.temp', T, 'a file that was not opened is deleted', ends and ends[0] or None, p)
                continue
            h = opened[0].res
            cl = [e for e in p.events if (e.kind in ('call', 'mut') and e.name == 'close' or e.kind == 'exit') and e.recv is not None
                  and noepoch(e.recv) == noepoch(h)]
            if b and not failed_call(p, b[0]) or b and 'BODY' in src and b[0].name == 'BODY' or not b:
                n += 1
                chk.must(bool(cl), 'C30.temp', T + '.close', 'the file is not closed', None, p, at(chk, T, 'close'))
                if cl and not any(failed_call(p, e) for e in cl):
                    chk.must(len(ends) == 1 and noepoch(ends[0].args[0]) == X, 'C30.temp', T + '.close', 'the file is deleted %d times' % len(ends),
                             ends[0] if ends else None, p, at(chk, T, 'close'))
                if cl and ends:
                    chk.must(cl[0].idx < ends[0].idx, 'C30.temp', T + '.close', 'the file is deleted before it is closed', ends[0], p)
                for e in ends + cl:
                    chk.must(not b or e.idx > b[0].idx, 'C30.temp', T, 'the file is gone before the block runs', e, p)
            for e in calls(p, 'BODY'):
                v = e.args[0] if e.args else NONE
                chk.must(shape_of(v) == T or noepoch(v) == noepoch(h), 'C30.enter', T + '.__enter__', 'the block gets %s' % show(v), e, p)
            if 'BODY' in src:
                passed_on(chk, p, T, any(failed_call(p, e) for e in cl + ends))
    if not n:
        raise Broken('C30: no path reaches the block below TempFileHandle')


def shape_of(t):
    t = noepoch(t)
    if t[0] in ('new', 'obj') and len(t) > 1:
        c = t[1]
        return getattr(c, 'name', c)
    s = show(t)
    return s[1:-1] if s.startswith('<') else s


def error_class(chk):
    L = 'LookupExceptionClass'
    repo = chk.repo
    if repo.cls(L, required=False) is None:
        chk.rule('C30.excclass', 'the error class of the memory backend is put back on every exit', 0)
        chk.needs = [(n, 0 if n == 'C30.excclass' else k) for n, k in chk.needs]
        return
    attr = None
    for src, inner in (('with LookupExceptionClass(fs, x):\n    BODY()', [X]),
                       ('with LookupExceptionClass(fs, x):\n    with LookupExceptionClass(fs, y):\n        BODY()\n    INNER()', [X, Y]),
                       ('c = LookupExceptionClass(fs, x)\nwith c:\n    BODY()\nwith c:\n    INNER()', [X])):
        for p in cm_client(chk, L, src, types={X: None, Y: None}):
            sets = [e for e in p.events if e.kind == 'setattr' and noepoch(e.recv) == FSYS]
            if attr is None and sets:
                attr = sets[0].name
            b = calls(p, 'BODY')
            for e in b:
                pre = [s for s in sets if s.idx < e.idx]
                chk.must([noepoch(s.args[0]) for s in pre] == inner, 'C30.excclass', L + '.__enter__',
                         'the block runs with %s' % (', '.join(show(s.args[0]) for s in pre)), e, p)
            for e in calls(p, 'INNER'):
                pre = [s for s in sets if s.idx < e.idx]
                chk.must(bool(pre) and noepoch(pre[-1].args[0]) == X, 'C30.excclass', L + '.__exit__', 'after an inner block the class is %s' % (
                    pre and show(pre[-1].args[0])), e, p)
            if sets:
                chk.must(noepoch(sets[-1].args[0]) == ('a', FSYS, sets[-1].name), 'C30.excclass', L + '.__exit__',
                         'after the block the class is %s' % show(sets[-1].args[0]), sets[-1], p)
            if 'c = ' not in src:
                passed_on(chk, p, L, False)
    # and its use: the operations that switch the class put it back
    f = repo.cls('MemoryFileSystem')
    if attr is None:
        return
    for name, m in f.methods.items():
        if name == '_initialize' or name.startswith('__'):
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == attr:
                        ok = any(isinstance(x, ast.Try) and any(isinstance(y, ast.Attribute) and y.attr == attr and isinstance(y.ctx, ast.Store)
                                                               for st in x.finalbody for y in ast.walk(st)) for x in ast.walk(m.node))
                        chk.must(ok, 'C30.excclass', m, '%s sets the error class for good' % m.short,
                                 where='%s:%d (%s)' % (m.module.path, n.lineno, m.short))


PROMISE = {'WriteStatement': 'self', 'MemoryFileProxy': 'self', 'TempFileHandle': 'self'}


def every_manager(chk):
    repo = chk.repo
    n = 0
    for c in repo.classes():
        if c.method('__exit__') is None or c.method('__enter__') is None or c.isa('BaseUri'):
            continue
        n += 1
        ps = cm_client(chk, c.name, 'with m as h:\n    BODY(h)', types={M: c})
        for p in ps:
            b = failing(p, 'BODY')
            if b is not None:
                chk.must(p.outcome == 'raise', 'C30.pass', '%s.__exit__' % c.name, 'the exception of the block is swallowed', None, p,
                         at(chk, c.name, '__exit__'))
                later = [e for e in p.events[b.idx + 1:] if e.kind in ('callraise', 'raise')]
                chk.must(bool(later) or p.value == b.args[0], 'C30.pass', '%s.__exit__' % c.name, 'the block ends with %s' % show(p.value)[:60],
                         None, p, at(chk, c.name, '__exit__'))
            if c.name in PROMISE:
                for e in calls(p, 'BODY'):
                    chk.must(bool(e.args) and noepoch(e.args[0]) == M, 'C30.enter', '%s.__enter__' % c.name, 'the block gets %s' % (
                        show(e.args[0]) if e.args else None), e, p)
    if n < 4:
        raise Broken('C30: %d context managers found' % n)


# ------------------------------------------------------------------------------ C31

WHOLE = ('read', 'read1', 'readall', 'readinto', 'readline', 'readlines')


def empty_block(p, r, upto):
    """True if r is known to be empty, False if known not to be, None else"""
    got = None
    for e in p.events[:upto]:
        if e.kind != 'guard':
            continue
        t = e.recv
        if t == r:
            got = not e.res
        elif t[0] == 'op' and t[1] in ('==', '!=', '>', '<', '>=') and r in t[2:4] or t[0] == 'op' and any(
                x == ('op', 'len', r) for x in t[2:4] if isinstance(x, tuple)):
            other = [x for x in t[2:4] if x != r and x != ('op', 'len', r)]
            if other and isc(other[0]) and other[0][2] in (b'', 0, ''):
                if t[1] == '==':
                    got = e.res
                elif t[1] == '!=':
                    got = not e.res
                elif t[1] in ('>', '<'):
                    got = not e.res
        elif t == ('op', 'len', r):
            got = not e.res
    return got


@rules_for('C31', 'BaseUri.md5 is analysed as a typestate of the file and of the digest: how the file is opened, that '
           'reading goes on until a read came back empty, that every block read enters the digest once and in order, '
           'and that the file is closed on every way out.')
def c31(chk):
    chk.rule('C31.open', 'the file itself is opened in binary mode for reading', 1)
    chk.rule('C31.complete', 'the digest is taken when everything has been read', 1)
    chk.rule('C31.blocks', 'every block read enters the digest once, in order, and nothing else does', 1)
    chk.rule('C31.digest', 'the result is the hexadecimal md5 digest', 1)
    chk.rule('C31.close', 'the file is closed on every exit', 2)
    f = chk.repo.method('BaseUri', 'md5')
    where = '%s:%d (%s)' % (f.module.path, f.node.lineno, f.short)
    n = 0
    for p in chk.run(f, types={SELF: 'BaseUri'}, exc='all', unroll=3 if chk.thorough else 2):
        opens = [e for e in p.events if e.kind == 'op' and e.name == 'open' or e.kind == 'call' and e.recv is None and
                 e.name in ('open', 'io.open')]
        opens = [e for e in opens if not failed_call(p, e)]
        for e in opens:
            m = e.args[0] if e.kind == 'op' else (e.args[1] if len(e.args) > 1 else dict(e.kw).get('mode', C('r')))
            mode = m[2] if isc(m) else None
            chk.must(isinstance(mode, str) and 'b' in mode and 'r' in mode and '+' not in mode, 'C31.open', f, 'the file is opened with %s' % show(m), e, p)
            chk.must(e.kind == 'call' or noepoch(e.recv) == SELF, 'C31.open', f, 'something else is opened: %s' % show(e.recv), e, p)
            ends = [x for x in p.events[e.idx:] if (x.kind == 'exit' or x.kind in ('call', 'mut') and x.name == 'close')
                    and x.recv is not None and noepoch(x.recv) == noepoch(e.res)]
            chk.must(bool(ends), 'C31.close', f, 'the file stays open (%s)' % p.outcome, e, p)
        if p.outcome != 'return':
            continue
        n += 1
        digest(chk, f, p, opens, where)
    if not n:
        raise Broken('C31: no path of md5 ends normally')


def digest(chk, f, p, opens, where):
    v = p.value
    hd = v[0] == 'call' and v[1][0] == 'a' and v[1][2] == 'hexdigest'
    s = v[1][1] if hd else None
    if v[0] == 'call' and v[1][0] == 'a' and v[1][2] == 'hex' and v[1][1][0] == 'call' and v[1][1][1][0] == 'a' and v[1][1][1][2] == 'digest':
        hd, s = True, v[1][1][1][1]
    chk.must(hd, 'C31.digest', f, 'the result is %s' % show(v)[:80], None, p, where)
    if not hd:
        return
    k = noepoch(s)
    hs = [e.res for e in opens]
    if k[0] == 'call' and k[1] == ('g', 'hashlib.file_digest'):
        chk.must(any(noepoch(h) == k[2][0] for h in hs) and k[2][1] in (C('md5'), ('g', 'hashlib.md5')), 'C31.digest', f,
                 'the digest is %s' % show(k)[:80], None, p, where)
        chk.ok('C31.complete')
        chk.ok('C31.blocks')
        return
    md5 = k[0] == 'call' and (k[1] == ('g', 'hashlib.md5') or k[1] == ('g', 'hashlib.new') and k[2][:1] == (C('md5'),))
    chk.must(md5, 'C31.digest', f, 'the digest is %s' % show(k)[:80], None, p, where)
    if not md5:
        return
    reads = [e for e in p.events if e.kind in ('call', 'mut') and e.name in WHOLE and e.recv is not None
             and any(noepoch(e.recv) == noepoch(h) for h in hs) and not failed_call(p, e)]
    loops = [e for e in p.events if e.kind == 'loop' and e.name == 'begin' and any(noepoch(e.recv) == noepoch(h) for h in hs)]
    fed = []
    init = s[2] if s[0] == 'call' else ()
    if k[1] == ('g', 'hashlib.new'):
        init = init[1:]
    fed += [(None, a) for a in init if a != C(b'')]
    fed += [(e, e.args[0] if e.args else NONE) for e in p.events if e.kind in ('call', 'mut') and e.name == 'update'
            and e.recv is not None and noepoch(e.recv) == k]
    seeks = [e for e in p.events if e.kind in ('call', 'mut') and e.name in ('seek', 'truncate') and e.recv is not None
             and any(noepoch(e.recv) == noepoch(h) for h in hs)]
    for e in seeks:
        chk.must(e.args[:1] == (C(0),) and not [r for r in reads if r.idx < e.idx], 'C31.complete', f, 'the file is moved while it is read', e, p)
    if loops and not reads:
        chk.must(any(x.kind == 'loop' and x.name == 'end' and noepoch(x.recv) == noepoch(loops[-1].recv) for x in p.events[loops[-1].idx:]),
                 'C31.complete', f, 'reading stops before the end', loops[-1], p)
        vals = [a for _, a in fed]
        seen = []
        for a in vals:
            b = noepoch(a)
            ok = b[0] in ('each', 'elem', 'i') and any(contains(b, noepoch(h)) for h in hs) and a not in seen
            seen.append(a)
            chk.must(ok, 'C31.blocks', f, 'the digest is fed with %s' % show(a)[:80], None, p, where)
        chk.ok('C31.blocks')
        return
    chk.must(bool(reads), 'C31.complete', f, 'the file is not read', None, p, where)
    if not reads:
        return
    whole = [e for e in reads if e.name in ('read', 'readall') and (not e.args or e.args[0] in (C(-1), NONE)) and not e.kw]
    last = reads[-1]
    # whatever ends the reading has to be an empty block
    done = bool(whole) or empty_block(p, last.res, len(p.events)) is True
    chk.must(done, 'C31.complete', f, 'reading stops before a read came back empty', last, p)
    want = [e.res for e in reads if empty_block(p, e.res, len(p.events)) is not True]
    got = [a for _, a in fed if not (a in [e.res for e in reads] and empty_block(p, a, len(p.events)) is True)]
    got = [unbytes(a) for a in got]
    for w in want:
        c = got.count(w)
        chk.must(c == 1, 'C31.blocks', f, 'a block that was read enters the digest %d times' % c, None, p, where)
    for g in got:
        chk.must(g in want, 'C31.blocks', f, 'the digest is fed with %s' % show(g)[:80], None, p, where)
    chk.must([g for g in got if g in want] == want or len(got) != len(want), 'C31.blocks', f, 'the blocks enter the digest in another order', None, p, where)
    if not want:
        chk.ok('C31.blocks')


def unbytes(a):
    while a[0] == 'call' and a[1] in (('g', 'bytes'), ('g', 'memoryview'), ('g', 'bytearray')) and len(a[2]) == 1:
        a = a[2][0]
    return a
