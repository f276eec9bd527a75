"""C25-C26: metadata and symbolic links."""
import stat as _stat
from . import rules_for
from .common import *
from .memfiles import LOOKUPS, NODES

FS, PATH, X, Y, MODE = P('fs'), P('path'), P('x'), P('y'), P('m')
BACKENDS = (('MemoryFileSystem', 'MemoryFileSystemUri'), ('LocalFileSystem', 'LocalFileSystemUri'))
FIELDS = {0: 'mode', 6: 'size', 7: 'atime', 8: 'mtime', 9: 'ctime'}
OS_WRITES = {'chmod', 'lchmod', 'utime', 'copystat', 'copymode', 'unlink', 'remove', 'rename', 'replace', 'symlink',
             'link', 'mkdir', 'makedirs', 'rmdir', 'truncate', 'copyfile', 'copy', 'copy2', 'move', 'rmtree', 'chown',
             'write', 'touch', 'lchown', 'chflags', 'symlink_to', 'setxattr'}


def call_of(chk, be, src, exc='try', opaque=LOOKUPS, types=None, inline=(), **env):
    cls, uri = be
    fs = chk.repo.cls(cls)
    e = {'fs': FS, 'path': PATH, 'x': X, 'y': Y, 'm': MODE}
    e.update(env)
    ts = {FS: fs, PATH: uri, X: uri, Y: uri}
    ts.update(types or {})
    return client(chk, fs.module, src, e, 'client of %s: %s' % (cls, src), types=ts, opaque=opaque,
                  inline_ops=['info', 'set_exec', 'isexec', 'copystat', 'mtime'] + list(inline), exc=exc)


def node_of(t, subj):
    """is it a node found for subj: (True, whether links were followed)"""
    t = noepoch(t)
    return t[0] == 'r' and t[1] in NODES and subj in t[3]


def follow_arg(chk, cls, e):
    """whether a lookup follows a link at the end of the path"""
    f = chk.repo.cls(cls).method(e.name)
    if f is None:
        return None
    ps = params(f)
    for i, n in enumerate(ps):
        if 'follow' in n or 'resolve' in n:
            if i < len(e.args):
                return e.args[i]
            for k, v in e.kw:
                if k == n:
                    return v
            d = f.node.args.defaults
            j = i - (len(ps) - len(d))
            return C(d[j].value) if j >= 0 and isinstance(d[j], ast.Constant) else None
    return None


def os_calls(p, subj, names):
    """calls of functions of the operating system about the path of subj, with whether they follow links"""
    out = []
    for e in p.events:
        if e.kind not in ('call', 'mut') or e.name is None:
            continue
        n = e.name.split('.')[-1]
        if n not in names:
            continue
        a = list(e.args)
        on = a[0] if a else e.recv
        if e.recv is not None and is_path_of(e.recv, subj):
            on = e.recv
        if on is None or not is_path_of(on, subj) and on != subj:
            continue
        kw = dict(e.kw)
        fl = n not in ('lstat', 'lchmod', 'lchown')
        v = kw.get('follow_symlinks')
        if v is not None:
            fl = {TRUE: True, FALSE: False}.get(v, v)
        out.append((e, n, fl))
    return out


# ------------------------------------------------------------------------------ bits

BITVARS = 'om'


def bits(t, old, new):
    """{bit: table of (old bit, new bit) -> bit} of an integer term, or None"""
    t = noepoch(t)
    if t == new:
        return {b: (0, 1, 0, 1) for b in range(16)}
    if old(t):
        return {b: (0, 0, 1, 1) for b in range(16)}
    n = None
    if isc(t) and isinstance(t[2], int):
        n = t[2]
    elif t[0] == 'g' and t[1].startswith('stat.') and isinstance(getattr(_stat, t[1][5:], None), int):
        n = getattr(_stat, t[1][5:])
    if n is not None:
        return {b: ((n >> b) & 1,) * 4 for b in range(16)}
    if t[0] == 'call' and t[1] in (('g', 'stat.S_IMODE'), ('g', 'int')) and len(t[2]) == 1:
        r = bits(t[2][0], old, new)
        if r and t[1] == ('g', 'stat.S_IMODE'):
            r = {b: v if b < 12 else (0,) * 4 for b, v in r.items()}
        return r
    if t[0] == 'op' and len(t) == 4 and t[1] in ('&', '|', '^', '-', '+'):
        a, b = bits(t[2], old, new), bits(t[3], old, new)
        if a is None or b is None:
            return None
        out = {}
        for k in a:
            row = []
            for x, y in zip(a[k], b[k]):
                if t[1] == '&':
                    row.append(x & y)
                elif t[1] == '|':
                    row.append(x | y)
                elif t[1] == '^':
                    row.append(x ^ y)
                elif t[1] == '-':
                    if y and not x:
                        return None         # borrows
                    row.append(x ^ y)
                else:
                    if x and y:
                        return None         # carries
                    row.append(x | y)
            out[k] = tuple(row)
        return out
    if t[0] in ('op', 'not', 'un') and t[1] in ('~', 'inv'):
        a = bits(t[2], old, new)
        return None if a is None else {k: tuple(1 - x for x in v) for k, v in a.items()}
    return None


EXEC = (0, 3, 6)
ALL_OS = {'stat', 'lstat', 'getmtime', 'getsize', 'chmod', 'lchmod', 'utime'}


def stat_field(t):
    """(field, what it was read from) of a term read from a stat result or a node"""
    t = noepoch(t)
    if t[0] == 'i' and isc(t[2]) and t[2][2] in FIELDS:
        return FIELDS[t[2][2]], t[1]
    if t[0] == 'i' and t[2][0] == 'g' and t[2][1].startswith('stat.ST_'):
        return t[2][1][8:].lower(), t[1]
    if t[0] == 'i' and isc(t[2]) and isinstance(t[2][2], int) and 0 <= t[2][2] < 10:
        return ('mode', 'ino', 'dev', 'nlink', 'uid', 'gid', 'size', 'atime', 'mtime', 'ctime')[t[2][2]], t[1]
    if t[0] == 'a' and t[2].startswith('st_'):
        return t[2][3:], t[1]
    if t[0] == 'a':
        return t[2], t[1]
    if t[0] == 'call' and t[1][0] == 'a' and not t[2]:
        return t[1][2], t[1][1]
    return None, None


def reads_of(be, t, subj):
    """the field of the metadata of subj that a term is"""
    t = noepoch(t)
    if t[0] == 'a' and t[1][0] == 'call' and t[1][3]:
        # of a bunch of fields
        kw = dict(t[1][3])
        if t[2] in kw:
            return reads_of(be, kw[t[2]], subj)
    if t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] in ('S_IMODE', 'int', 'float') and len(t[2]) == 1:
        return reads_of(be, t[2][0], subj)
    f, src = stat_field(t)
    if f is None:
        return None
    if src[0] == 'call' and any(is_path_of(a, subj) for a in list(src[2]) + ([src[1][1]] if src[1][0] == 'a' else [])):
        return f
    if node_of(src, subj):
        return f
    if src[:2] == ('r', 'info') and src[2] == subj:
        return f
    return None


def writes(be, p, subj):
    """(event, field, value, follows) metadata writes on subj"""
    out = []
    for e, n, fl in os_calls(p, subj, {'chmod', 'lchmod', 'utime'}):
        a = [x for x in e.args if not is_path_of(x, subj)]
        v = a[0] if a else dict(e.kw).get('mode', dict(e.kw).get('times'))
        out.append((e, 'times' if n == 'utime' else 'mode', v, fl))
    for e in p.events:
        if e.kind == 'setattr' and node_of(e.recv, subj):
            out.append((e, e.name, e.args[0], None))
    return out


def others(p, subj):
    """whatever else may change something"""
    out = []
    for e in p.events:
        if e.kind == 'setattr' and noepoch(e.recv)[0] == 'r' and not node_of(e.recv, subj):
            out.append(e)
        elif e.kind == 'setattr' and noepoch(e.recv) == FS:
            pass
        elif e.kind in ('call', 'mut') and e.name and e.name.split('.')[-1] in OS_WRITES and not any(
                e is x[0] for x in writes(None, p, subj)):
            out.append(e)
        elif e.kind == 'op' and e.name not in READS and e.name not in ('info', 'size'):
            out.append(e)
    return out


@rules_for('C25', 'Clients that read and write metadata are analysed down to the functions of the operating system '
           'and the attributes of nodes: which object is meant, whether links are followed, and, bit by bit, what '
           'a mode becomes.')
def c25(chk):
    chk.rule('C25.bits', 'set_exec sets the execute bits asked for and keeps the others', 20)
    chk.rule('C25.exec', 'isexec tells whether one of the bits asked for is set', 2)
    chk.rule('C25.link', 'links are followed exactly if that is asked for', 6)
    chk.rule('C25.fields', 'what info tells is what the file has', 5)
    chk.rule('C25.set', 'info sets what it is given, no more', 6)
    chk.rule('C25.copy', 'copystat goes from source to destination', 2)
    chk.rule('C25.mtime', 'mtime is in seconds since the epoch', 4)
    chk.rule('C25.quiet', 'reading changes nothing', 8)
    chk.rule('C25.uri', 'the methods of a uri ask for just that', 6)
    for be in BACKENDS:
        set_exec(chk, be)
        isexec(chk, be)
        info(chk, be)
        copystat(chk, be)
        mtime(chk, be)
    times(chk)
    delegation(chk)


def at(chk, be, name):
    f = chk.repo.cls(be[0]).method(name)
    return '%s:%s (%s)' % (f.module.path, f.node.lineno, f.short) if f else None


def set_exec(chk, be):
    cons = be[0] + '.set_exec'
    done = 0
    for p in call_of(chk, be, 'fs.set_exec(path, m)'):
        if p.outcome != 'return':
            continue
        ws = writes(be, p, PATH)
        if not ws:
            if any(e.kind == 'guard' and contains(e.recv, MODE) or e.kind == 'guard' and 'platform' in show(e.recv)
                   for e in p.events):
                continue
        chk.must(bool(ws), 'C25.bits', cons, 'set_exec changes nothing', None, p, at(chk, be, 'set_exec'))
        bad = others(p, PATH)
        chk.must(not bad, 'C25.bits', cons, 'set_exec does something else: %s' % (bad and bad[0].name), bad and bad[0] or None, p)
        if not ws:
            continue
        follows(chk, be, p, True, 'set_exec', cons, ALL_OS)
        e, field, v, fl = ws[-1]
        chk.must(field == 'mode', 'C25.bits', cons, 'set_exec sets %s' % field, e, p)
        tab = bits(v, lambda t: reads_of(be, t, PATH) == 'mode', MODE)
        if tab is None:
            raise Broken('C25: cannot tell the bits of %s' % show(v))
        done += 1
        for b in range(12):
            o0m0, o0m1, o1m0, o1m1 = tab[b]
            if b in EXEC:
                chk.must((o0m0, o0m1, o1m0, o1m1) == (0, 1, 0, 1), 'C25.bits', cons,
                         'execute bit %o becomes %s' % (1 << b, describe(tab[b])), e, p)
            else:
                chk.must(o0m0 == 0 and o1m0 == 1, 'C25.bits', cons,
                         'bit %o becomes %s' % (1 << b, describe(tab[b])), e, p)
    chk.must(done > 0, 'C25.bits', cons, 'no path of set_exec sets the mode', where=at(chk, be, 'set_exec'))


def describe(row):
    return {(0, 0, 0, 0): 'always clear', (1, 1, 1, 1): 'always set', (0, 0, 1, 1): 'what it was',
            (0, 1, 0, 1): 'what is asked for', (0, 1, 1, 1): 'set if it was or is asked for',
            (0, 0, 0, 1): 'set if it was and is asked for'}.get(row, 'the table %s of (old, asked for)' % (row,))


def isexec(chk, be):
    cons = be[0] + '.isexec'
    for p in call_of(chk, be, 'return fs.isexec(path, m)'):
        if p.outcome != 'return':
            continue
        quiet(chk, cons, p)
        follows(chk, be, p, True, 'isexec', cons, ALL_OS)
        v = noepoch(p.value)
        neg = False
        facts = [e for e in p.events if e.kind == 'guard' and contains(noepoch(e.recv), MODE)]
        if isc(v) and facts:
            g = facts[-1]
            neg = (v == TRUE) != g.res
            v = noepoch(g.recv)
        while True:
            if v[:2] == ('op', 'not'):
                v, neg = v[2], not neg
            elif v[0] == 'call' and v[1] == ('g', 'bool') and len(v[2]) == 1:
                v = v[2][0]
            elif v[0] == 'op' and v[1] in ('==', '!=', '>', 'is', '<', 'isnot') and len(v) == 4 and C(0) in v[2:4]:
                if v[1] in ('==', 'is'):
                    neg = not neg
                v = v[2] if v[3] == C(0) else v[3]
            else:
                break
        if v[0] == 'op' and v[1] in ('==', '!=') and contains(v, MODE):
            chk.bad('C25.exec', cons, 'isexec compares with the bits asked for: %s' % show(v), None, p,
                    at(chk, be, 'isexec'))
            continue
        tab = bits(v, lambda t: reads_of(be, t, PATH) == 'mode', MODE)
        if tab is None:
            chk.must(contains(noepoch(p.value), MODE) or bool(facts), 'C25.exec', cons,
                     'isexec does not look at the bits asked for', None, p, at(chk, be, 'isexec'))
            if contains(noepoch(p.value), MODE):
                raise Broken('C25: cannot tell what %s is' % show(v))
            continue
        ok = not neg and all(tab[b] == (0, 0, 0, 1) for b in range(12))
        chk.must(ok, 'C25.exec', cons, 'isexec is %s%s' % ('not ' if neg else '', show(v)), None, p,
                 at(chk, be, 'isexec'))


def quiet(chk, cons, p):
    bad = others(p, PATH) + [x[0] for x in writes(None, p, PATH)]
    chk.must(not bad, 'C25.quiet', cons, 'reading changes something: %s' % (bad and bad[0].name), bad and bad[0] or None, p)


def linkstate(p):
    r = q(p, 'islink', PATH)
    for e in p.events:
        if e.kind == 'guard' and noepoch(e.recv)[0] == 'call' and noepoch(e.recv)[1] == ('g', 'os.path.islink') and \
                is_path_of(noepoch(e.recv)[2][0], PATH):
            r = e.res
        if e.kind == 'guard' and e.recv[:2] == ('q', 'os.path.islink') and is_path_of(e.recv[2], PATH):
            r = e.res
        if e.kind == 'guard' and e.recv[:2] == ('q', 'supports_symlinks') and not e.res:
            r = False
    return r


def follows(chk, be, p, want, what, cons, names):
    """the path concerns the link itself or its target, as wanted"""
    n = 0
    link = linkstate(p)
    for e, nm, fl in os_calls(p, PATH, names):
        n += 1
        chk.must(fl is want or link is False or fl not in (True, False), 'C25.link', cons,
                 'with followlinks=%s, %s uses %s%s' % (want, what, nm, '' if fl else ', which does not follow links'),
                 e, p)
    for e in p.events:
        if e.kind == 'icall' and e.name in NODES and PATH in e.args:
            fl = follow_arg(chk, be[0], e)
            if isc(fl) and any(x[0] is not e and node_of(noepoch(e.res), PATH) for x in [(None,)]):
                n += 1
                chk.must(bool(fl[2]) is want or link is False, 'C25.link', cons,
                         'with followlinks=%s, %s looks up the %s' % (want, what, 'target' if fl[2] else 'link'), e, p)
    return n


def info(chk, be):
    cons = be[0] + '.info'
    for want in (True, False):
        n = 0
        for p in call_of(chk, be, 'return fs.info(path, None, %s)' % want):
            if p.outcome != 'return':
                continue
            quiet(chk, cons, p)
            n += follows(chk, be, p, want, 'reading', cons, {'stat', 'lstat', 'getmtime', 'getsize'})
            v = p.value
            if v[0] == 'call' and v[3]:
                for k, t in v[3]:
                    fields(chk, be, cons, k, t, p)
            elif v == NONE:
                chk.bad('C25.fields', cons, 'info yields nothing', None, p, at(chk, be, 'info'))
        if not n:
            raise Broken('C25: %s looks at nothing' % cons)
    both = {'mode': True, 'mtime': True}
    for field in ('mode', 'mtime'):
        for val in (X, C(0)):
            for want in (True, False):
                n = done = 0
                for p in call_of(chk, be, 'return fs.info(path, {%r: x}, %s)' % (field, want), x=val):
                    if p.outcome != 'return':
                        continue
                    n += 1
                    ws = writes(be, p, PATH)
                    bad = others(p, PATH)
                    chk.must(not bad, 'C25.set', cons, 'setting %s also does %s' % (field, bad and bad[0].name),
                             bad and bad[0] or None, p)
                    for e, f, v, fl in ws:
                        good = f == field and noepoch(v) == noepoch(val) or field == 'mtime' and f == 'times' and \
                            v is not None and contains(noepoch(v), noepoch(val))
                        chk.must(good, 'C25.set', cons, 'setting %s to %s sets %s to %s' % (
                            field, show(val), f, show(v) if v else v), e, p)
                    done += bool(ws)
                    both[field] = both[field] and bool(ws)
                    if ws:
                        follows(chk, be, p, want, 'writing', cons, {'chmod', 'lchmod', 'utime'})
                    else:
                        chk.must(field != 'mode', 'C25.set', cons, 'the mode %s is not set' % show(val), None, p,
                                 at(chk, be, 'info'))
                if field == 'mode':
                    chk.must(done > 0, 'C25.set', cons, 'no path sets the mode', where=at(chk, be, 'info'))
    for src in ('mode=x, mtime=y', 'mtime=y, mode=x'):
        for want in (True, False):
            for p in call_of(chk, be, 'return fs.info(path, dict(%s), %s)' % (src, want), x=X, y=Y):
                if p.outcome != 'return':
                    continue
                ws = writes(be, p, PATH)
                for field, val in (('mode', X), ('mtime', Y)):
                    vs = [v for e, f, v, fl in ws if f == field or field == 'mtime' and f == 'times']
                    chk.must(bool(vs) or not both[field], 'C25.set', cons, 'the %s is not set along with the other' % field,
                             None, p, at(chk, be, 'info'))
                    for v in vs:
                        chk.must(v is not None and contains(noepoch(v), val), 'C25.set', cons, 'setting %s sets it to %s' % (
                            field, show(v) if v else v), None, p, at(chk, be, 'info'))


def fields(chk, be, cons, k, t, p):
    if k not in ('mode', 'mtime', 'atime', 'ctime', 'size'):
        return
    t = noepoch(t)
    while t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] in ('fromtimestamp', 'float', 'int', 'S_IMODE') \
            and t[2]:
        t = t[2][0]
    f = reads_of(be, t, PATH)
    if t[0] == 'op' and t[1] in ('+', '-', '*', '/', '//', '%', '&', '|', '^', '<<', '>>', '**') or \
            t[0] == 'call' and t[1][0] == 'g' and t[1][1] in ('min', 'max', 'round', 'abs', 'divmod'):
        whole = k == 'mode' and t[0] == 'op' and t[1] == '&' and any(
            isc(x) and isinstance(x[2], int) and x[2] & 0o7777 == 0o7777 for x in t[2:4])
        chk.must(whole, 'C25.fields', cons, '%s is reckoned: %s' % (k, show(t)), None, p, at(chk, be, 'info'))
        if whole:
            f = reads_of(be, [x for x in t[2:4] if not isc(x)][0], PATH)
    if f is None:
        if t[0] == 'call' and t[1][0] == 'g' and t[1][1] == 'len' or t[0] == 'call' and t[1][0] == 'a':
            f = k if k == 'size' else None
        if t[0] == 'call' and t[1] == ('g', 'os.path.get' + k):
            f = k
    chk.must(f is None or f == k, 'C25.fields', cons, '%s is taken from %s' % (k, f), None, p, at(chk, be, 'info'))
    if f is None:
        chk.must(contains(t, PATH), 'C25.fields', cons, '%s does not come from the file: %s' % (k, show(t)), None, p,
                 at(chk, be, 'info'))


def copystat(chk, be):
    cons = be[0] + '.copystat'
    done = 0
    for p in call_of(chk, be, 'fs.copystat(x, y)'):
        if p.outcome != 'return':
            continue
        ways = 0
        for e in p.events:
            n = (e.name or '').split('.')[-1]
            if e.kind in ('call', 'mut') and n in ('copystat', 'copymode') and e.args:
                ways += 1
                a = [x for x in e.args]
                kw = dict(e.kw)
                s = a[0] if a else kw.get('src')
                d = a[1] if len(a) > 1 else kw.get('dst')
                chk.must(is_path_of(s, X) and is_path_of(d, Y), 'C25.copy', cons, '%s copies from %s to %s' % (
                    n, show(s), show(d)), e, p)
                chk.must(n == 'copystat', 'C25.copy', cons, '%s does not copy the times' % n, e, p)
                chk.must(kw.get('follow_symlinks', TRUE) == TRUE, 'C25.copy', cons, 'links are not followed', e, p)
        chk.must(not writes(be, p, X), 'C25.copy', cons, 'copystat changes its source',
                 writes(be, p, X)[0][0] if writes(be, p, X) else None, p)
        ws = writes(be, p, Y)
        got = set()
        for e, f, v, fl in ws:
            ways += 1
            got.add(f)
            fs = {reads_of(be, t, X) for t in subterms(noepoch(v))}
            mixed = [t for t in subterms(noepoch(v)) if t[0] == 'op' and t[1] in ('|', '&', '^', '+', '-') and not (
                t[1] == '&' and any(isc(x) and isinstance(x[2], int) and x[2] & 0o7777 == 0o7777 for x in t[2:4]))]
            chk.must(not mixed, 'C25.copy', cons, '%s of the destination is set to %s' % (f, show(v)), e, p)
            chk.must(f in fs or f == 'times' and 'mtime' in fs or
                     f == 'mode' and 'mode' in fs, 'C25.copy', cons, '%s of the destination is set to %s' % (f, show(v)), e, p)
            chk.must(fl in (True, None), 'C25.copy', cons, 'links are not followed', e, p)
        if ws and ways == len(ws):
            chk.must('mode' in got, 'C25.copy', cons, 'the mode is not copied', ws[0][0], p)
            chk.must('mtime' in got or 'times' in got, 'C25.copy', cons, 'the time is not copied', ws[0][0], p)
        for e in p.events:
            if e.kind == 'icall' and e.name in NODES and (X in e.args or Y in e.args):
                fl = follow_arg(chk, be[0], e)
                chk.must(fl in (TRUE, None), 'C25.copy', cons, 'links are not followed', e, p)
        done += bool(ways)
    chk.must(done > 0, 'C25.copy', cons, 'copystat copies nothing', where=at(chk, be, 'copystat'))


def mtime(chk, be):
    cons = be[0] + '.mtime'
    for p in call_of(chk, be, 'return fs.mtime(path)'):
        if p.outcome != 'return':
            continue
        quiet(chk, cons, p)
        follows(chk, be, p, True, 'mtime', cons, {'stat', 'lstat', 'getmtime'})
        t = noepoch(p.value)
        while t[0] == 'call' and t[1] == ('g', 'float') and t[2]:
            t = t[2][0]
        bad = None
        for s in subterms(t):
            n = s[1][1] if s[0] == 'call' and s[1][0] == 'g' else s[2] if s[0] == 'a' else None
            if n and (n.split('.')[-1] in ('fromtimestamp', 'utcfromtimestamp', 'getctime', 'getatime', 'ctime', 'atime',
                                           'st_ctime', 'st_atime', 'st_mtime_ns', 'localtime', 'gmtime')):
                bad = n
        f = reads_of(be, t, PATH)
        chk.must(not bad and f in (None, 'mtime'), 'C25.mtime', cons, 'mtime is %s' % show(t), None, p, at(chk, be, 'mtime'))
        if f is None:
            chk.must(contains(t, PATH), 'C25.mtime', cons, 'mtime does not depend on the path', None, p,
                     at(chk, be, 'mtime'))


def times(chk):
    """what the memory backend takes for the time"""
    m = chk.repo.cls('MemoryFileSystem').module
    for f in chk.repo.functions():
        if f.module is not m:
            continue
        for st in ast.walk(f.node):
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ('mtime', 'ctime')
                                                  for t in st.targets) and isinstance(st.value, ast.Call):
                d = dotted(st.value.func) or ''
                r = chk.repo.resolve(f.module, d) if d else None
                full = r[1] if r and r[0] == 'ext' else d
                if full.split('.')[0] in ('time', 'datetime'):
                    chk.must(full == 'time.time' or full.endswith('.timestamp'), 'C25.mtime', f,
                             'the time of a file is taken from %s' % full)


def delegation(chk):
    b = chk.repo.cls('BaseUri')
    want = {'set_exec': (('mode',), 'set_exec'), 'isexec': (('mode',), 'isexec'), 'copystat': (('other',), 'copystat'),
            'symlink': (('link_name',), 'symlink'), 'mtime': ((), 'mtime'), 'islink': ((), 'islink'),
            'readlink': ((), 'readlink'), 'info': (('set_info', 'followlinks'), 'info')}
    for name, (_, op) in want.items():
        f = b.method(name)
        if f is None:
            raise Broken('C25: no %s' % name)
        args = tuple(P(x) for x in params(f))
        for p in chk.run(f, types={SELF: 'BaseUri'}):
            if p.outcome != 'return':
                continue
            es = [e for e in p.events if e.kind == 'op' and e.name == op]
            chk.must(bool(es), 'C25.uri', f, '%s does not ask the backend' % name, None, p)
            for e in es:
                got = tuple(e.args) + tuple(v for k, v in e.kw)
                chk.must(e.recv == SELF and got == args, 'C25.uri', f, '%s asks for %s(%s) of %s' % (
                    name, op, ', '.join(map(show, got)), show(e.recv)), e, p)
                if op not in ('set_exec', 'symlink', 'copystat'):
                    chk.must(p.value is not None and noepoch(p.value) == noepoch(e.res if e.res is not None else p.value),
                             'C25.uri', f, '%s returns %s' % (name, show(p.value)), e, p)
        if name == 'isexec':
            d = f.node.args.defaults
            if d:
                v = folded(chk.repo, f.module, d[-1])
                chk.must(v is None or v == 0o111, 'C25.uri', f, 'isexec looks at the bits %o by default' % (v or 0))


def folded(repo, m, e):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.BinOp):
        a, b = folded(repo, m, e.left), folded(repo, m, e.right)
        if a is None or b is None:
            return None
        return {'BitOr': a | b, 'BitAnd': a & b, 'Add': a + b, 'BitXor': a ^ b}.get(type(e.op).__name__)
    d = dotted(e)
    if d:
        r = repo.resolve(m, d)
        if r and r[0] == 'ext' and r[1].startswith('stat.'):
            return getattr(_stat, r[1][5:], None)
        if r and r[0] == 'expr':
            return folded(repo, r[3], r[1])
    return None


# ------------------------------------------------------------------------------ C26

LINK_OPS = {'islink': 'fs.islink(path)', 'readlink': 'fs.readlink(path)', 'symlink': 'fs.symlink(x, path)'}


def touched(p):
    """whatever looks at, or changes, something outside"""
    out = []
    for e in p.events:
        if e.kind == 'icall' and e.name in NODES | {'_steps', '_get_dir', '_get_node_prev'}:
            if e.name != '_steps':
                out.append(e)
        elif e.kind in ('call', 'mut') and e.name:
            n = str(e.name)
            full = show(e.recv) if e.recv is not None else ''
            if n.startswith('os.') and not n.startswith('os.path.join') or n == 'open' or n.split('.')[0] in ('shutil', 'io'):
                out.append(e)
            elif 'ziphandle' in full or n in ('open_zip', 'namelist'):
                out.append(e)
        elif e.kind == 'op' and e.name not in ('supports_symlinks',):
            out.append(e)
        elif e.kind == 'setattr' and e.recv is not None and noepoch(e.recv) == FS:
            out.append(e)
    return out


def support(p):
    """what the path knows about whether links are supported"""
    r = None
    for e in p.events:
        if e.kind == 'guard' and e.recv[:2] == ('q', 'supports_symlinks'):
            r = e.res
    return r


@rules_for('C26', 'The operations on links of every backend are analysed on the paths on which links are and are not '
           'supported: what is raised and touched there, what link is created where, and what is returned.')
def c26(chk):
    chk.rule('C26.offer', 'a backend says whether it supports links', 3)
    chk.rule('C26.off', 'without support, links are refused and nothing is touched', 9)
    chk.rule('C26.ask', 'no link is touched before support is known', 4)
    chk.rule('C26.create', 'the link is created at its name and leads to its target', 2)
    chk.rule('C26.stored', 'readlink returns the stored target', 2)
    chk.rule('C26.islink', 'islink tells links apart without following them', 3)
    repo = chk.repo
    for k in [repo.cls('FileSystem')] + [c for c in repo.subclasses('FileSystem') if c.name != 'FileSystem']:
        offered = offer(chk, k)
        uri = {'MemoryFileSystem': 'MemoryFileSystemUri', 'LocalFileSystem': 'LocalFileSystemUri'}.get(k.name, 'BaseUri')
        for name, src in LINK_OPS.items():
            link_op(chk, k, uri, name, src, offered)


def offer(chk, k):
    """True, False, or None if it depends"""
    f = k.method('supports_symlinks')
    vals = set()
    for p in chk.run(f, recv=SELF, types={SELF: k}):
        if p.outcome == 'return':
            v = noepoch(p.value)
            vals.add(v[2] if isc(v) else None)
        elif p.outcome == 'raise':
            vals.add(None)
    got = vals.pop() if len(vals) == 1 else None
    want = {'MemoryFileSystem': True, 'ZipFileSystem': False}.get(k.name, 'any')
    if k.name == 'LocalFileSystem':
        chk.must(got is None, 'C26.offer', f, 'links are %s on every platform' % ('supported' if got else 'refused'))
        for p in chk.run(f, recv=SELF, types={SELF: k}):
            if p.outcome != 'return':
                continue
            on = []
            v = noepoch(p.value)
            g = [(noepoch(e.recv), e.res) for e in p.events if e.kind == 'guard']
            if not isc(v):
                g.append((v, True))
                on.append(True)
            elif v[2]:
                on.append(True)
            for t, res in g if on else []:
                s = win(t)
                if s is not None:
                    chk.must(s is not res, 'C26.offer', f, 'links are supported where the platform is win32 only', None, p)
    elif want != 'any':
        chk.must(got is want, 'C26.offer', f, 'links are said to be %s' % ('supported' if got else 'unsupported'))
        return want
    return got


def win(t):
    """t tells that the platform is windows (True), is not (False), or something else"""
    neg = False
    while t[:2] == ('op', 'not'):
        t, neg = t[2], not neg
    if t[0] == 'op' and t[1] in ('==', '!=') and len(t) == 4 and C('win32') in t[2:4]:
        return (t[1] == '==') != neg
    if t[0] == 'op' and t[1] in ('==', '!=') and len(t) == 4 and C('nt') in t[2:4]:
        return (t[1] == '==') != neg
    return None


def link_op(chk, k, uri, name, src, offered):
    f = k.method(name)
    if f is None:
        return
    cons = f.short
    fn_where = '%s:%s (%s)' % (f.module.path, f.node.lineno, f.short)
    ps = client(chk, k.module, 'return ' + src, {'fs': FS, 'path': PATH, 'x': X}, 'client of %s: %s' % (k.name, src),
                types={FS: k, PATH: uri, X: uri}, opaque=LOOKUPS, inline_ops=[name])
    for p in ps:
        sup = support(p)
        if offered is not None and sup is not None and sup is not offered:
            continue            # cannot be
        known = sup if sup is not None else offered
        t = touched(p)
        raises = p.outcome == 'raise'
        if known is False:
            chk.must(not t, 'C26.off', cons, 'without support for links, %s touches something: %s' % (name, t and t[0].name),
                     t and t[0] or None, p)
            if name == 'islink':
                chk.must(not raises and noepoch(p.value) == FALSE, 'C26.off', cons,
                         'without support for links, islink ends with %s' % show(p.value), None, p, fn_where)
            else:
                chk.must(raises and 'OperationIsNotSupportedOnPlatform' in show(p.value), 'C26.off', cons,
                         'without support for links, %s ends with %s' % (name, show(p.value)), None, p, fn_where)
            continue
        if known is None:
            chk.must(not t, 'C26.ask', cons, '%s does not ask whether links are supported' % name, t and t[0] or None, p)
            if not t and not raises:
                chk.must(name == 'islink' and noepoch(p.value) == FALSE, 'C26.off', cons,
                         '%s does nothing, and reports nothing' % name, None, p, fn_where)
            continue
        if k.name in ('LocalFileSystem', 'MemoryFileSystem'):
            chk.ok('C26.ask')
            {'islink': on_islink, 'readlink': on_readlink, 'symlink': on_symlink}[name](chk, k, cons, fn_where, p)


def looked(chk, k, p):
    return [(e, follow_arg(chk, k.name, e)) for e in p.events if e.kind == 'icall' and e.name in NODES and PATH in e.args]


def not_followed(chk, k, rule, cons, p):
    for e, fl in looked(chk, k, p):
        chk.must(fl != TRUE, rule, cons, 'the link is followed', e, p)
    for e, n, fl in os_calls(p, PATH, {'stat', 'isfile', 'isdir', 'exists', 'realpath', 'resolve'}):
        chk.must(not fl, rule, cons, '%s follows the link' % n, e, p)


def is_link_test(t):
    """t tells whether the path is a link: True, or, negated, False; None if it tells something else"""
    neg = False
    t = noepoch(t)
    while t[:2] == ('op', 'not'):
        t, neg = t[2], not neg
    if t[0] == 'call' and t[1][0] == 'g' and t[1][1] in ('os.path.islink',) and is_path_of(t[2][0], PATH):
        return not neg
    if t[0] == 'q' and t[1] == 'os.path.islink' and is_path_of(t[2], PATH):
        return not neg
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('is_symlink',) and is_path_of(t[1][1], PATH):
        return not neg
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'islink':
        return not neg
    if t[0] == 'call' and t[1] == ('g', 'stat.S_ISLNK') and 'lstat' in show(t):
        return not neg
    if t[0] == 'op' and t[1] in ('==', 'is', '!=') and len(t) == 4:
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if a[0] == 'a' and a[2] == 'kind' and node_of(a[1], PATH) and isc(b):
                if b != C(2):
                    return 'wrong'
                return (t[1] != '!=') != neg
    if t[0] == 'call' and t[1] == ('g', 'isinstance') and node_of(t[2][0], PATH):
        return (not neg) if 'MemorySymlink' in show(t[2][1]) else 'wrong'
    return None


def on_islink(chk, k, cons, where, p):
    not_followed(chk, k, 'C26.islink', cons, p)
    if p.outcome == 'raise':
        v = p.value
        chk.must(v[0] != 'exc' or not is_exc(v, 'OSError'), 'C26.islink', cons, 'islink raises %s' % show(v), None, p, where)
        return
    v = noepoch(p.value)
    tests = [(is_link_test(e.recv), e.res) for e in p.events if e.kind == 'guard']
    tests = [(a, r) for a, r in tests if a is not None]
    if isc(v):
        yes = any(a != 'wrong' and a == r for a, r in tests)
        no = any(a != 'wrong' and a != r for a, r in tests)
        if v == TRUE:
            chk.must(yes, 'C26.islink', cons, 'islink answers True for what may be no link', None, p, where)
        else:
            chk.must(not yes, 'C26.islink', cons, 'islink answers False for a link', None, p, where)
            if not (no or yes) and looked(chk, k, p):
                # answered without looking at what was found
                got = [noepoch(e.res) for e, fl in looked(chk, k, p)]
                none = any(fact(p, ('op', 'is', g, NONE)) is True or fact(p, g) is False for g in got) or any(
                    e.kind in ('caught', 'handled', 'callraise') for e in p.events) or any(
                    e.kind == 'guard' and 'exc?' in show(e.recv) for e in p.events)
                chk.must(none, 'C26.islink', cons, 'islink answers False without looking at what was found', None, p, where)
        return
    t = is_link_test(v)
    chk.must(t is True, 'C26.islink', cons, 'islink is %s' % show(v), None, p, where)


def on_readlink(chk, k, cons, where, p):
    not_followed(chk, k, 'C26.stored', cons, p)
    if p.outcome == 'raise':
        return
    v = noepoch(p.value)
    src = [s for s in subterms(v) if s[0] == 'a' and s[2] == 'target' and node_of(s[1], PATH) or
           s[0] == 'call' and (s[1] == ('g', 'os.readlink') and is_path_of(s[2][0], PATH) or
                               s[1][0] == 'a' and s[1][2] == 'readlink')]
    chk.must(bool(src), 'C26.stored', cons, 'readlink returns %s' % show(v), None, p, where)
    if src and k.name == 'MemoryFileSystem':
        chk.must(v == src[0] or uri_like(v), 'C26.stored', cons, 'readlink returns %s' % show(v), None, p, where)
        node = src[0][1]
        link = [is_link_test(e.recv) == e.res for e in p.events if e.kind == 'guard' and is_link_test(e.recv) is not None]
        chk.must(True in link, 'C26.stored', cons, 'readlink returns the target of what may be no link', None, p, where)
    elif src:
        bad = [s for s in subterms(v) if s[0] == 'call' and s[1][0] == 'g' and s[1][1] in (
            'os.path.basename', 'os.path.dirname', 'os.path.realpath', 'os.path.abspath')]
        c = v
        while c not in src and c[0] == 'call' and c[2] and c[1][0] != 'a' or c[0] == 'call' and c[2] and contains(c[2][0], src[0]):
            c = c[2][0]
        chk.must(not bad and c in src, 'C26.stored', cons, 'readlink returns %s' % show(v), None, p, where)


def uri_like(v):
    return v[0] in ('new', 'newuri', 'u', 'obj')


def on_symlink(chk, k, cons, where, p):
    if p.outcome == 'raise':
        t = [e for e in p.events if e.kind in ('call', 'mut') and e.name in ('create', 'os.symlink')]
        return
    if k.name == 'LocalFileSystem':
        es = [e for e in p.events if e.kind in ('call', 'mut') and e.name and str(e.name).split('.')[-1] in (
            'symlink', 'symlink_to', 'link')]
        chk.must(bool(es), 'C26.create', cons, 'no link is created', None, p, where)
        for e in es:
            n = str(e.name).split('.')[-1]
            if n == 'symlink_to':
                continue
            chk.must(n == 'symlink', 'C26.create', cons, '%s is called' % e.name, e, p)
            a = list(e.args)
            kw = dict(e.kw)
            src = a[0] if a else kw.get('src')
            dst = a[1] if len(a) > 1 else kw.get('dst')
            chk.must(src is not None and is_path_of(src, X), 'C26.create', cons, 'the link leads to %s' % show(src), e, p)
            chk.must(dst is not None and is_path_of(dst, PATH), 'C26.create', cons, 'the link is created at %s' % show(dst), e, p)
        return
    made = [e for e in p.events if e.kind == 'new' and e.name == 'MemorySymlink']
    put = [e for e in p.events if e.kind in ('call', 'mut', 'icall') and e.name in ('create', '_create_child')]
    if not made and any(e.kind == 'guard' and not e.res and '_steps' in show(e.recv) for e in p.events):
        return                      # the root
    chk.must(bool(made) and bool(put), 'C26.create', cons, 'no link is created', None, p, where)
    for e in p.events:
        if e.kind == 'setattr' and e.name == 'target':
            v = noepoch(e.args[0])
            chk.must(v == X or uri_like(v) and contains(v, X), 'C26.create', cons, 'the link leads to %s' % show(v), e, p)
    for e in put:
        a = [noepoch(x) for x in e.args]
        chk.must(any(('r', '_steps') == x[:2] or 'path' in show(x) for x in a[:-1]) and 'x' not in [
            show(y) for z in a[:-1] for y in subterms(z)], 'C26.create', cons, 'the link is called %s' % show(a[0]), e, p)
        where_in = noepoch(e.recv) if e.kind != 'icall' else a[0]
        chk.must(PATH in list(subterms(where_in)), 'C26.create', cons, 'the link is created in %s' % show(where_in), e, p)
