"""C16-C18: move, walk, makedirs, glob and listings."""
from . import rules_for
from .common import *
from .copying import chain, base

MOVERS = {'shutil.move', 'os.rename', 'os.replace', 'os.renames'}
OS_RM = {'os.unlink', 'os.remove', 'os.rmdir', 'shutil.rmtree', 'os.removedirs'}


def failed(p, e):
    x = p.events[e.idx + 1:e.idx + 2]
    return bool(x) and x[0].kind == 'callraise' and x[0].node is e.node


def own_name(t, src):
    """a term for the last part of the path of src"""
    t = noepoch(t)
    if t[0] == 'u' and t[1] in ('last', 'basename') and t[2] == src:
        return True
    if t[0] == 'i' and t[2] == C(1) and t[1][:3] == ('u', 'split', src):
        return True
    return t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] == 'basename' and contains(t, ('a', src, 'path'))


@rules_for('C16', 'Path-sensitive effect-order analysis of move on every backend, on all paths including those on '
           'which any operation fails: what removes the source comes after a copy of it that succeeded.')
def c16(chk):
    chk.rule('C16.order', 'the source is only removed after its copy succeeded', 2)
    chk.rule('C16.whole', 'what is copied and removed is the source as a whole', 4)
    chk.rule('C16.done', 'a completed move leaves no source behind', 2)
    chk.rule('C16.into', 'an existing directory receives a moved directory under its own name', 1)
    chk.rule('C16.scheme', 'the operating system moves within the local file system only', 1)
    repo = chk.repo
    seen = set()
    for cls in repo.subclasses('FileSystem'):
        f = cls.method('move')
        if f is None or f in seen:
            continue
        seen.add(f)
        owner = f.cls
        ps = params(f)
        src, dst = P(ps[0]), P(ps[1])
        for p in chk.run(f, types={SELF: owner, src: 'BaseUri', dst: 'BaseUri'}, exc='all'):
            one_move(chk, f, p, src, dst)


def by_kind(t, src):
    """t is true for a tree and false for a file"""
    t = noepoch(t)
    want = 'isdir'
    while t[0] == 'op' and t[1] == 'not':
        t, want = t[2], {'isdir': 'isfile', 'isfile': 'isdir'}[want]
    return t[0] == 'q' and t[1] == want and t[2] == src


def one_move(chk, f, p, src, dst):
    site = f.short
    copies = [e for e in p.ops('copy') if noepoch(e.recv) == src]
    good = [e for e in copies if not failed(p, e)]
    rms = [e for e in p.ops('remove', 'removefile', 'removedir')]
    calls = [e for e in p.events if e.kind == 'call' and e.name in OS_RM]
    gone = []
    for e in rms + calls:
        subj = noepoch(e.recv) if e.kind == 'op' else noepoch(e.args[0]) if e.args else NONE
        if e.kind == 'call':
            subj = subj[1] if subj[0] == 'a' else subj
        if subj == dst:
            chk.bad('C16.whole', '%s:destination' % site, 'move removes the destination', e, p)
            continue
        chk.must(subj == src, 'C16.whole', '%s:remove' % site, 'move removes %s' % show(subj), e, p)
        done = [c for c in good if c.idx < e.idx]
        other = [c for c in p.events if c.kind == 'call' and c.name.startswith('shutil.copy') and not failed(p, c)
                 and c.idx < e.idx]
        chk.must(bool(done or other), 'C16.order', '%s:remove' % site,
                 'the source is removed though no copy of it succeeded before', e, p)
        isf, isd = q(p, 'isfile', src, e), q(p, 'isdir', src, e)
        if e.kind == 'op' and e.name == 'remove':
            r = e.args[0] if e.args else FALSE
            if isf is not True and isd is not False and not by_kind(r, src):
                chk.must(isc(r) and bool(r[2]) or q(p, 'islink', src, e) is True, 'C16.whole', '%s:remove' % site,
                         'a tree is removed with recursive=%s' % show(r), e, p)
        if not failed(p, e):
            gone.append(e)
    for e in copies:
        a = list(e.args) + [NONE] * 4
        isf, isd = q(p, 'isfile', src, e), q(p, 'isdir', src, e)
        r, root = a[1], noepoch(a[0])
        chk.must(chain(root)[0] == dst, 'C16.whole', '%s:copy' % site, 'the source is copied to %s' % show(root), e, p)
        if by_kind(r, src):
            pass
        elif isf is True:
            chk.must(isc(r) and not r[2], 'C16.whole', '%s:copy' % site, 'a file is copied with recursive=%s' % show(r), e, p)
        elif isd is not False:
            chk.must(isc(r) and bool(r[2]), 'C16.whole', '%s:copy' % site,
                     'what may be a tree is copied with recursive=%s' % show(r), e, p)
        chk.must(a[2] == NONE, 'C16.whole', '%s:copy' % site, 'a part of the source is left out of the copy', e, p)
    moves = [e for e in p.events if e.kind == 'call' and e.name in MOVERS]
    generic = [e for e in p.ops('move') if noepoch(e.recv) == src]
    for e in moves:
        a, b = (list(e.args) + [NONE, NONE])[:2]
        chk.must(noepoch(a) in (('a', src, 'path'), src), 'C16.whole', '%s:%s' % (site, e.name), 'what is moved is %s'
                 % show(a), e, p)
        d = noepoch(b)
        d = d[1] if d[0] == 'a' and d[2] in ('path', 'unipath') else d
        known = local_scheme(p, dst, e)
        chk.must(known, 'C16.scheme', '%s:%s' % (site, e.name), 'the operating system moves to a destination that may '
                 'belong to another file system', e, p)
        both = q(p, 'isdir', src, e) is True and q(p, 'isdir', dst, e) is True
        if both:
            r, names = chain(d)
            chk.must(r == dst and len(names) == 1 and own_name(names[0], src), 'C16.into', '%s:%s' % (site, e.name),
                     'a directory moved into an existing one becomes %s' % show(d), e, p)
        else:
            r, names = chain(d)
            ok = r == dst and (not names or len(names) == 1 and own_name(names[0], src) and q(p, 'isdir', dst, e) is True)
            chk.must(ok, 'C16.whole', '%s:%s' % (site, e.name), 'the source is moved to %s' % show(d), e, p)
            chk.must(names or q(p, 'isdir', src, e) is False or q(p, 'isdir', dst, e) is False
                     or q(p, 'isfile', src, e) is True, 'C16.into', '%s:%s' % (site, e.name),
                     'a directory may be moved onto an existing one', e, p)
    for e in generic:
        chk.must(e.args and noepoch(e.args[0]) == dst, 'C16.whole', '%s:move' % site, 'the source is moved to %s'
                 % show(e.args), e, p)
    if p.outcome == 'return':
        end = [e for e in gone if (not e.kind == 'op' or True)] + [e for e in moves + generic if not failed(p, e)]
        chk.must(len(end) == 1, 'C16.done', site, 'a completed move removed the source %d times' % len(end), None, p)
    else:
        chk.ok('C16.done')


def local_scheme(p, dst, e):
    for g in before(p, e):
        if g.kind == 'guard' and isinstance(g.recv, tuple):
            t = noepoch(g.recv)
            if t[0] == 'op' and t[1] in ('==', 'is', 'in') and any(
                    x == ('a', dst, 'scheme') or x[:3] == ('r', 'get_connection', dst) or x == ('a', dst, 'connection')
                    for x in t[2:] if isinstance(x, tuple)) and g.res:
                return True
            if t[0] == 'op' and t[1] == 'isinstance' and contains(t, dst) and g.res:
                return True
            if t[0] == 'call' and contains(t, dst) and 'share' in show(t[1]) and g.res:
                return True
    return False


# -- walk ---------------------------------------------------------------------

@rules_for('C17', 'Path-sensitive abstract interpretation of the generator walk, two rounds of every loop; what was '
           'yielded is replaced by an unknown list of the same identity (the caller may have changed it), the walk '
           'of a sub-directory is a summary.')
def c17(chk):
    chk.rule('C17.once', 'a directory is yielded exactly once', 10)
    chk.rule('C17.partition', 'every listed name is in exactly one of the two lists, as its kind tells', 20)
    chk.rule('C17.order', 'a directory is yielded before (top-down) or after (bottom-up) what is below it', 10)
    chk.rule('C17.prune', 'top-down the yielded list decides what is visited', 5)
    chk.rule('C17.descend', 'every sub-directory is visited, and its walk handed on completely', 20)
    chk.rule('C17.nofollow', 'without following links no link is descended into', 10)
    chk.rule('C17.options', 'both options hold below', 10)
    chk.rule('C17.sorted', 'the names are in sorted order', 2)
    chk.rule('C17.default', 'top-down, following links, is the default', 2)
    repo = chk.repo
    for f in (repo.method('FileSystem', 'walk'), repo.method('BaseUri', 'walk')):
        a = f.node.args
        names = [x.arg for x in a.args]
        for n in ('topdown', 'followlinks'):
            if n in names:
                i = names.index(n) - len(names) + len(a.defaults)
                d = a.defaults[i] if i >= 0 else None
                chk.must(d is None or getattr(d, 'value', None) is True, 'C17.default', f, '%s is not the default' % n)
    seen = set()
    for cls in repo.subclasses('FileSystem'):
        f = cls.method('walk')
        if f in seen:
            continue
        seen.add(f)
        ps = params(f)
        top = P(ps[0])
        td = P('topdown') if 'topdown' in ps else P(ps[1])
        fl = P('followlinks') if 'followlinks' in ps else P(ps[2])
        paths = chk.run(f, types={SELF: f.cls, top: 'BaseUri'}, exc='none', unroll=2)
        sub = 0
        for p in paths:
            sub += one_walk(chk, f, p, top, td, fl)
        chk.must(sub > 0, 'C17.descend', f, 'no sub-directory is ever visited')


def one_walk(chk, f, p, top, td, fl):
    site = f.short
    L = ('r', 'listdir', top)
    listing = lambda t: t[0] == 'elem' and noepoch(t[1])[:3] == L
    own = [e for e in p.of('yield') if e.args and e.args[0][0] == 'tuple' and len(e.args[0][1]) == 3
           and noepoch(e.args[0][1][0]) == top]
    if p.outcome == 'return':
        chk.must(len(own) == 1, 'C17.once', f, 'the directory is yielded %d times' % len(own), None, p)
    # sub walks
    subs = [e for e in p.events if e.kind in ('op', 'rec') and e.name == 'walk']
    for e in own:
        D, N = e.args[0][1][1], e.args[0][1][2]
        for x in p.events:
            if x.kind == 'loop' and x.name == 'begin':
                for lst in [y for y in subterms(x.recv) if noepoch(y)[:3] == L][:1]:
                    chk.must(not cut(x.recv, lst), 'C17.partition', f, 'only %s is gone through' % show(x.recv), x, p)
        names = set()
        for x in p.events:
            for y in (x.recv, x.args):
                if isinstance(y, tuple):
                    names |= {noepoch(t) for t in subterms(y) if listing(t)}
        Dn = noepoch(D[1]) if D[0] == 'list' else None
        Nn = noepoch(N[1]) if N[0] == 'list' else None
        if Dn is None or Nn is None:
            D, N = unwrap(D), unwrap(N)
            Dn = noepoch(D[1]) if D[0] == 'list' else None
            Nn = noepoch(N[1]) if N[0] == 'list' else None
        if Dn is None or Nn is None:
            continue
        for n in names:
            isd = q(p, 'isdir', ('u', 'join', top, (n,)), e)
            k = Dn.count(n) + Nn.count(n)
            chk.must(k == 1, 'C17.partition', f, 'a listed name is in the lists %d times' % k, e, p)
            if k == 1:
                chk.must(isd is not None and (n in Dn) == isd, 'C17.partition', f, 'a name that is %s directory is among '
                         'the %s' % ({True: 'a', False: 'no', None: 'perhaps a'}[isd], 'directories' if n in Dn else 'others'),
                         e, p)
        for x in Dn + Nn:
            chk.must(x in names, 'C17.partition', f, '%s is yielded, which is no listed name' % show(x), e, p)
        for X in (Dn, Nn):
            idx = [x[2] for x in X if x[0] == 'elem']
            chk.must(idx == sorted(idx), 'C17.sorted', f, 'the names are yielded in another order', e, p)
        # order against what is below
        t = fact(p, td)
        below = [y for y in p.of('yield') if y is not e and relayed(y)]
        if below:
            chk.must(t is not None, 'C17.order', f, 'the order does not depend on what was asked for', e, p)
        for y in below:
            chk.must(t is None or (e.idx < y.idx) == t, 'C17.order', f, '%s the directory is yielded %s what is below it'
                     % ('top-down' if t else 'bottom-up', 'after' if t else 'before'), y, p)
        # what is visited
        h = None
        if t is True and p.outcome == 'return':
            loops = [x for x in p.of('loop') if x.name == 'begin' and havoc_of(x.recv, D) and x.idx > e.idx]
            chk.must(bool(loops), 'C17.prune', f, 'the list that was yielded is not what is gone through afterwards', e, p)
            els = set()
            for x in p.events[e.idx:]:
                for y in (x.recv, x.args):
                    if isinstance(y, tuple):
                        els |= {noepoch(z) for z in subterms(y) if z[0] == 'elem' and havoc_of(z[1], D)}
            for s in subs:
                if s.idx > e.idx:
                    n = chain(noepoch(subject(s)))[1]
                    chk.must(len(n) == 1 and n[0] in els, 'C17.prune', f, 'what is visited is %s, not what the caller left '
                             'in the list' % show(subject(s)), s, p)
            visit = els
        elif t is False and p.outcome == 'return':
            visit = set(Dn)
        else:
            visit = set()
        for n in visit:
            s = ('u', 'join', top, (n,))
            went = [x for x in subs if noepoch(subject(x)) == s]
            skip = q(p, 'islink', s) is True and fact(p, fl) is False
            chk.must(len(went) == (0 if skip else 1), 'C17.descend', f, '%s is visited %d times' % (show(s), len(went)), e, p)
    mixed = [e for e in p.events if e.kind == 'loop' and e.name == 'unordered' and any(s.idx > e.idx for s in subs)]
    chk.must(not mixed, 'C17.order', f, 'the sub-directories are visited in no particular order', mixed[0] if mixed else None, p)
    for s in subs:
        u = noepoch(subject(s))
        chk.must(fact(p, fl, s) is True or q(p, 'islink', u, s) is False, 'C17.nofollow', f,
                 '%s is descended into, which may be a link that is not to be followed' % show(u), s, p)
        args = [a for a in s.args if a[0] != 'u'] if s.kind == 'rec' else list(s.args)
        args += [TRUE] * (2 - len(args))
        for a, o, what in ((args[0], td, 'topdown'), (args[1], fl, 'followlinks')):
            v = fact(p, o, s)
            chk.must(a == o or isc(a) and v is not None and bool(a[2]) == v, 'C17.options', f,
                     'below, %s is %s' % (what, show(a)), s, p)
        r = noepoch(s.res) if s.res is not None else None
        if r is None or p.outcome != 'return':
            continue
        loops = [x for x in p.of('loop') if x.name == 'begin' and noepoch(x.recv) == r and x.idx > s.idx]
        rel = [y for y in p.of('yield') if y.args and contains(noepoch(y.args[0]), r)]
        chk.must(bool(loops) or bool(rel), 'C17.descend', f, 'the walk of a sub-directory is not handed on', s, p)
        els = {noepoch(t) for x in p.events for y in (x.recv, x.args) if isinstance(y, tuple) for t in subterms(y)
               if t[0] == 'elem' and noepoch(t[1]) == r}
        for y in rel:
            v = noepoch(y.args[0])
            whole = v in els or v[0] == 'tuple' and v[1] == tuple(('i', x, C(i)) for x in els for i in range(3))[:3]
            chk.must(whole, 'C17.descend', f, 'what is handed on is changed to %s' % show(v), y, p)
        for el in els:
            k = [y for y in rel if contains(noepoch(y.args[0]), el)]
            chk.must(len(k) == 1, 'C17.descend', f, 'a directory below is handed on %d times' % len(k), s, p)
    for x in p.of('loop'):
        if x.name == 'begin' and contains(noepoch(x.recv), ('elem',)) is False and any(
                y[:3] == L for y in subterms(noepoch(x.recv))) and not any(
                y[0] == 'elem' for y in subterms(x.recv)):
            r = noepoch(x.recv)
            bad = any(y[0] == 'call' and y[1][0] == 'g' and (y[1][1].endswith('reversed') or y[1][1].endswith('sorted') and y[3])
                      for y in subterms(r)) or r[0] == 'slice'
            chk.must(not bad, 'C17.sorted', f, 'the names are gone through as %s' % show(r), x, p)
    for x in p.of('mut'):
        if x.name in ('reverse',) or x.name == 'sort' and x.kw:
            chk.bad('C17.sorted', f, 'the order of the names is changed', x, p)
    return len(subs)


def unwrap(t):
    while t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] in ('sorted', 'list') and len(t[2]) == 1 and not t[3]:
        t = t[2][0]
    return t


def subject(e):
    if e.kind == 'op':
        return e.recv
    us = [a for a in e.args if a[0] == 'u']
    return us[-1] if us else e.recv


def relayed(y):
    return y.args and any(t[0] == 'r' and t[1] == 'walk' or t[0] == 'call' and 'walk' in show(t[1]) for t in subterms(y.args[0]))


def havoc_of(t, D):
    """the unknown content of the list D after it was yielded"""
    while t[0] == 'slice' or t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] in ('list', 'tuple', 'iter') and t[2]:
        if t[0] == 'slice' and t[2:] != (NONE, NONE, NONE):
            return False
        t = t[1] if t[0] == 'slice' else t[2][0]
    return t[0] == 'havoc' and noepoch(t[1]) == noepoch(D)


# -- makedirs, glob, listings --------------------------------------------------

@rules_for('C18', 'Path-sensitive effect-order analysis of makedirs on all paths including failing ones; dataflow of '
           'the listed names into the results of glob and of the listing of every backend.')
def c18(chk):
    chk.rule('C18.parents', 'the directory above exists or was created before', 2)
    chk.rule('C18.creates', 'what is missing is created, what exists is left alone', 3)
    chk.rule('C18.report', 'what cannot be created is reported', 1)
    chk.rule('C18.glob', 'exactly the matching names are returned, joined to the directory', 4)
    chk.rule('C18.sorted', 'listings are sorted by name', 3)
    chk.rule('C18.all', 'listings are complete', 3)
    repo = chk.repo
    seen = set()
    for cls in repo.subclasses('FileSystem'):
        f = cls.method('makedirs')
        if f not in seen and f is not None:
            seen.add(f)
            makedirs(chk, f)
        f = cls.method('glob')
        if f not in seen and f is not None:
            seen.add(f)
            glob(chk, f)
        f = cls.methods.get('listdir')
        if f is not None and f.cls is cls and cls.name != 'FileSystem':
            listing(chk, cls, f)


def parent_of(t, path):
    t = noepoch(t)
    if t[0] == 'i' and t[2] == C(0) and t[1][:3] == ('u', 'split', path):
        return True
    return t[0] == 'u' and t[1] in ('directory', 'dirname') and t[2] == path


def makedirs(chk, f):
    path = P(params(f)[0])
    for p in chk.run(f, types={SELF: f.cls, path: 'BaseUri'}, exc='all'):
        made = [e for e in p.events if e.kind == 'op' and e.name == 'mkdir' or e.kind == 'call' and e.name in (
            'os.mkdir', 'os.makedirs')]
        for e in made:
            s = noepoch(e.recv) if e.kind == 'op' else noepoch(e.args[0])[1]
            if e.kind == 'call' and e.name == 'os.makedirs':
                chk.ok('C18.parents')
                continue
            chk.must(s == path, 'C18.creates', f, 'the directory created is %s' % show(s), e, p)
            chk.must(q(p, 'isdir', path, e) is not True, 'C18.creates', f, 'an existing directory is created', e, p)
            up = [x for x in before(p, e) if x.kind in ('op', 'rec') and x.name == 'makedirs' and not failed(p, x)
                  and parent_of(x.recv if x.kind == 'op' else x.args[-1], path)]
            there = any(g.kind == 'guard' and g.res and g.recv[0] == 'q' and g.recv[1] in ('isdir',) and parent_of(
                g.recv[2], path) for g in before(p, e))
            chk.must(bool(up) or there, 'C18.parents', f, 'a directory is created before the one above it exists', e, p)
        for e in p.events:
            if e.kind == 'callraise' and e.name in ('mkdir', 'makedirs', 'os.mkdir'):
                again = any(g.kind == 'guard' and g.res and g.recv[0] == 'q' and g.recv[1] == 'isdir' and g.idx > e.idx
                            for g in p.events)
                chk.must(p.outcome == 'raise' or again, 'C18.report', f, 'a failure to create is not reported', e, p)
        if p.outcome == 'return':
            isd = q(p, 'isdir', path)
            empty = any(g.kind == 'guard' and not g.res and contains(g.recv, ('u', 'split', path, ())) or
                        g.kind == 'guard' and not g.res and any(t[0] == 'u' and t[2] == path and t[1] in (
                            'split', 'basename', 'last') for t in subterms(noepoch(g.recv)))
                        and g.recv[0] != 'q' for g in p.events)
            chk.must(isd is True or bool(made) or empty, 'C18.creates', f, 'makedirs returns without the directory', None, p)
            if not isd and not made:
                # a path that ends in a separator: the part above is all there is
                up = [x for x in p.events if x.kind in ('op', 'rec') and x.name == 'makedirs']
                there = any(g.kind == 'guard' and g.res and g.recv[0] == 'q' and g.recv[1] == 'isdir' and parent_of(
                    g.recv[2], path) for g in p.events)
                chk.must(bool(up) or there, 'C18.creates', f, 'makedirs returns without the directory', None, p)


def glob(chk, f):
    ps = params(f)
    path, pat = P(ps[0]), P(ps[1])
    for p in chk.run(f, types={SELF: f.cls, path: 'BaseUri'}, exc='none', unroll=2):
        if p.outcome != 'return':
            continue
        v = noepoch(p.value)
        while v[0] == 'call' and v[1][0] == 'g' and v[1][1].endswith(('sorted', 'list')) and v[2]:
            v = v[2][0]
        lst = [e for e in p.ops('listdir')]
        chk.must(bool(lst), 'C18.glob', f, 'the answer is given without listing the directory', None, p)
        for e in lst:
            chk.must(noepoch(e.recv) == path, 'C18.glob', f, 'the names are listed from %s' % show(e.recv), e, p)
        els = set()
        for x in p.events:
            for y in (x.recv, x.args):
                if isinstance(y, tuple):
                    els |= {noepoch(t) for t in subterms(y) if t[0] == 'elem' and any(
                        z[0] == 'r' and z[1] == 'listdir' for z in subterms(t[1]))}
        if v[0] != 'list':
            continue
        els |= {t for t in subterms(v) if t[0] == 'elem' and any(z[0] == 'r' and z[1] == 'listdir' for z in subterms(t[1]))}
        for el in els:
            filt = any(z[0] == 'call' and z[1][0] == 'g' and z[1][1].endswith('fnmatch.filter') for z in subterms(el))
            if filt:
                z = [z for z in subterms(el) if z[0] == 'call' and z[1][0] == 'g' and z[1][1].endswith('fnmatch.filter')][0]
                chk.must(z[2][1] == pat and z[2][0][0] == 'r', 'C18.glob', f, 'the names are filtered by %s' % show(z), None, p)
                match = True
            else:
                match = None
                for g in p.of('guard'):
                    t = noepoch(g.recv)
                    if t[0] == 'call' and t[1][0] == 'g' and 'fnmatch' in t[1][1] and el in t[2]:
                        chk.must(t[2] == (el, pat), 'C18.glob', f, 'the name is matched by %s' % show(t), g, p)
                        match = g.res
            joined = ('u', 'join', path, (el,))
            chk.must(match is not None, 'C18.glob', f, 'a name is treated without having been matched', None, p)
            n = v[1].count(joined)
            if match is not None:
                chk.must(n == (1 if match else 0), 'C18.glob', f, 'a name that %s is returned %d times' % (
                    'matches' if match else 'does not match', n), None, p)
        for x in v[1]:
            chk.must(x[0] == 'u' and x[1] == 'join' and x[2] == path and len(x[3]) == 1 and x[3][0] in els, 'C18.glob', f,
                     'what is returned is %s' % show(x), None, p)


SOURCES = ('os.listdir', 'os.scandir', 'namelist', 'keys', 'infolist')


def names_of(t):
    """the terms that stand for all names there are"""
    for x in subterms(t):
        if x[0] == 'call' and (x[1][0] == 'g' and x[1][1] in SOURCES or x[1][0] == 'a' and x[1][2] in SOURCES):
            yield x


def in_order(t, p):
    """is the list sorted by name"""
    if t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] == 'sorted':
        kw = dict(t[3] or ())
        return not kw.get('reverse', FALSE)[2:] or kw.get('reverse', FALSE) == FALSE and 'key' not in kw
    if t[0] == 'call' and t[1][0] == 'g' and t[1][1].split('.')[-1] in ('list', 'tuple') and t[2]:
        return in_order(t[2][0], p)
    muts = [e for e in p.of('mut') if noepoch(e.recv) == noepoch(t)]
    if muts and muts[-1].name == 'sort' and not muts[-1].kw and any(True for _ in names_of(t)):
        return True
    if t[0] in ('list', 'tuple'):
        if not t[1]:
            return True
        els = [x for x in subterms(t) if x[0] == 'elem']
        srt = [e for e in p.of('mut') if e.name == 'sort' and not e.kw]
        rev = [e for e in p.of('mut') if e.name in ('reverse',) or e.name == 'sort' and e.kw]
        loops = [e for e in p.of('loop') if e.name == 'begin' and e.recv[0] == 'call' and in_order(e.recv, p)]
        return not rev and bool(srt or loops)
    return None


def listing(chk, cls, f):
    path = P(params(f)[0])
    opaque = {'content_item', '_ispart', 'open_zip', 'isdir', '_zip_file_path', '_get_dir', '_get_node_for_path',
              '_steps', '_get_node', '_get_node_prev'}
    op = {g.short for g in chk.repo.functions() if g.name in opaque} if hasattr(chk.repo, 'functions') else set()
    ps = chk.run(f, types={SELF: cls, path: 'BaseUri'}, exc='none', unroll=2, opaque=op, inline_self_ops=False)
    some = 0
    for p in ps:
        if p.outcome != 'return':
            continue
        v = p.value
        o = in_order(v, p)
        chk.must(o is not False and o is not None, 'C18.sorted', f, 'the listing is %s' % show(v), None, p)
        whole = v
        while whole[0] == 'call' and whole[1][0] == 'g' and whole[1][1].split('.')[-1] in ('sorted', 'list', 'set', 'tuple') and whole[2]:
            whole = whole[2][0]
        srcs = list(names_of(whole))
        if whole in srcs:
            some += 1
            if whole[1] == ('g', 'os.listdir'):
                chk.must(is_path_of(whole[2][0], path) if whole[2] else False, 'C18.all', f, 'what is listed is %s'
                         % show(whole), None, p)
            else:
                chk.ok('C18.all')
            continue
        els = set()
        for x in p.events:
            for y in (x.recv, x.args):
                if isinstance(y, tuple):
                    els |= {noepoch(t) for t in subterms(y) if t[0] == 'elem' and any(True for _ in names_of(t[1]))}
        for el in els:
            some += 1
            inside = contains(noepoch(v), el)
            empty = any(g.kind == 'guard' and not g.res and g.recv != el and contains(noepoch(g.recv), el)
                        and noepoch(g.recv)[0] in ('r', 'i') for g in p.events)
            # what is in the list already
            twice = any(g.kind == 'guard' and g.res and len(g.recv) == 4 and g.recv[0] == 'op' and (
                g.recv[1] == 'in' and contains(noepoch(g.recv[2]), el) and g.recv[3][0] in ('list', 'set', 'obj', 'tuple')
                or g.recv[1] == '==' and any(contains(noepoch(x), el) and contains(noepoch(v), noepoch(y)) and not isc(y)
                                             for x, y in (g.recv[2:4], g.recv[3:1:-1]))) for g in p.events)
            chk.must(inside or twice or empty and not cls.isa('LocalFileSystem'), 'C18.all', f, 'a name is left out', None, p)
        for x in p.of('loop'):
            if x.name == 'begin' and x.recv[0] == 'slice' and any(True for _ in names_of(x.recv)):
                chk.bad('C18.all', f, 'only a part of the names is gone through', x, p)
        if v[0] == 'slice' or whole[0] == 'slice':
            chk.bad('C18.all', f, 'only a part of the names is returned', None, p)
    chk.must(some > 0, 'C18.all', f, 'no listing is ever returned')
