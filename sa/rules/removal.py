"""C11, C12: what removal touches, in which order, and that it is complete."""
from . import rules_for
from .common import *

MUTATING = {'removefile', 'removedir', 'remove', 'mkdir', 'makedirs', 'open', 'copy', 'move', 'symlink',
            'copystat', 'set_exec', 'lock', 'sync', '_manipulate', 'info'}
RM = ('removefile', 'removedir', 'remove')


def remove_paths(chk, unroll):
    f = chk.repo.method('BaseUri', 'remove')
    return f, chk.run(f, types={SELF: 'BaseUri', ('p', 'recursive'): None} if False else {SELF: 'BaseUri'},
                      unroll=unroll, exc='none')


def destructive(p):
    return [e for e in p.events if e.kind == 'op' and e.name in MUTATING
            and not (e.name == 'open' and not _writes(e)) and not (
                e.name == 'info' and (not e.args or e.args[0] == NONE))]


def _writes(e):
    m = e.args[0] if e.args else NONE
    return not (m == NONE or isc(m) and isinstance(m[2], str) and not set(m[2]) & set('wax+'))


def completions(known, names):
    """all assignments of the atoms consistent with what is known"""
    free = [n for n in names if n not in known]
    for bits in range(1 << len(free)):
        a = dict(known)
        for i, n in enumerate(free):
            a[n] = bool(bits >> i & 1)
        if (a.get('isdir') or a.get('isfile')) and not a.get('exists'):
            continue
        if a.get('isdir') and a.get('isfile'):
            continue
        yield a


def listing_source(chk, p, e):
    """(kind, base) of a loop over names: walk component or listing"""
    out = []
    for t in subterms(e.recv):
        if t[0] == 'i' and t[1][0] == 'elem' and t[1][1][0] == 'r' and t[1][1][1] == 'walk' \
                and t[2] in (C(1), C(2)):
            out.append((t[1], t[2][2]))
        elif t[0] == 'r' and t[1] == 'listdir':
            out.append((t, 0))
    return out


def tree_obligations(chk, f, p, tag):
    """entries met while a tree is removed"""
    walks = p.ops('walk')
    lists = p.ops('listdir')
    for w in walks:
        top, fl = (w.args + (NONE, NONE))[:2]
        chk.must(fl == FALSE, 'C11.walk-nofollow', 'remove:walk',
                 'the tree to remove is walked with followlinks=%s: directories behind links would be '
                 'emptied' % show(fl), w, p)
        chk.must(isc(top), 'C12.order', 'remove:walk', 'the order of the walk (topdown=%s) is not fixed'
                 % show(top), w, p)
    # which names each removal stems from
    rms = [e for e in p.events if (e.kind == 'op' and e.name in RM) or e.kind == 'rec']
    def subject(e):
        if e.kind == 'op':
            return e.recv
        us = [a for a in e.args if a[0] == 'u']
        return us[-1] if us else (e.recv or NONE)
    for e in rms:
        t = noepoch(subject(e))
        if t == SELF:
            continue
        isl = q(p, 'islink', t, e)
        isd = q(p, 'isdir', t, e)
        elems = [x for x in subterms(t) if x[0] == 'elem']
        from_files = any(x[1][0] == 'i' and x[1][2] == C(2) for x in elems)
        if e.kind == 'rec' or e.name == 'removedir':
            chk.must(isl is False or (from_files and False), 'C11.link-before-dir',
                     'remove:%s' % (e.name if e.kind == 'op' else 'recursion'),
                     '%s is removed as a directory (or descended into) without having been found not to '
                     'be a link' % show(t), e, p)
            if e.kind == 'rec':
                chk.must(isd is True, 'C12.kind', 'remove:recursion',
                         'recursion into %s without knowing that it is a directory' % show(t), e, p)
            elif from_files:
                chk.bad('C12.kind', 'remove:removedir-of-file', 'a non-directory entry %s is removed as '
                        'a directory' % show(t), e, p)
        elif e.name == 'removefile':
            if not from_files:
                chk.must(isl is True or isd is False, 'C12.kind', 'remove:removefile-of-dir',
                         'the entry %s is deleted as a file though it may be a directory' % show(t), e, p)
            else:
                chk.ok('C12.kind')
    # every name that is listed is removed
    removed = [(noepoch(subject(e)), e) for e in rms]
    for w in walks:
        wt = noepoch(w.res)
        els = []
        for e in p.events:
            if e.kind == 'loop' and e.name == 'begin':
                pass
        n = 0
        roots = sorted({t for e in p.events for x in (e.recv, e.args) if x is not None
                        for t in subterms(x) if t[0] == 'elem' and noepoch(t[1]) == wt},
                       key=lambda t: t[2])
        loops = [e for e in p.events if e.kind == 'loop' and e.name == 'begin']
        outer = [e for e in loops if contains(noepoch(e.recv), wt) and not any(
            t[0] == 'elem' and noepoch(t[1]) == wt for t in subterms(e.recv))]
        chk.must(bool(outer), 'C12.complete', 'remove:walk', 'the walk over the tree is never iterated', w, p)
        for r in roots:
            nr = noepoch(r)
            for comp, what in ((1, 'sub-directories'), (2, 'files')):
                names = ('i', nr, C(comp))
                its = [e for e in loops if contains(noepoch(e.recv), names)]
                chk.must(bool(its), 'C12.complete', 'remove:%s' % what,
                         'the %s of a walked directory are never gone through' % what, w, p)
                if not its:
                    continue
                for e in its:
                    chk.must(not cut(noepoch(e.recv), names), 'C12.complete', 'remove:%s' % what,
                             'only %s of the %s of a walked directory are gone through' % (show(e.recv), what), e, p)
                elems = {t for e in p.events for x in (e.recv, e.args) if x is not None
                         for t in subterms(x) if t[0] == 'elem' and contains(noepoch(t[1]), names)}
                for el in elems:
                    tgt = ('u', 'join', ('i', nr, C(0)), (noepoch(el),))
                    hit = [e for s, e in removed if s == tgt]
                    chk.must(bool(hit), 'C12.complete', 'remove:%s' % what,
                             'an entry of the %s of a walked directory is not removed at its place (%s)'
                             % (what, show(tgt)), w, p)
        # children before their directory
        top = w.args[0] if w.args else NONE
        if isc(top):
            def removals(r, comps):
                return [e for s, e in removed if any(
                    t[0] == 'i' and t[1] == noepoch(r) and t[2] in comps for t in subterms(s))]
            for r in roots:
                dirs = [e for e in removals(r, (C(1),)) if e.name == 'removedir']
                below = [x for x in roots if (x[2] < r[2] if not top[2] else x[2] > r[2])]
                for b in below:
                    for e1 in removals(b, (C(1), C(2))):
                        for e2 in dirs:
                            chk.must(e1.idx < e2.idx, 'C12.order', 'remove:children-first',
                                     'a directory is removed before the entries below it are', e2, p)
    for l in lists:
        names = noepoch(l.res)
        loops = [e for e in p.events if e.kind == 'loop' and e.name == 'begin' and contains(noepoch(e.recv), names)]
        chk.must(bool(loops), 'C12.complete', 'remove:listing', 'the listing of a directory is not gone through', l, p)
        elems = {noepoch(t) for e in p.events for x in (e.recv, e.args) if x is not None
                 for t in subterms(x) if t[0] == 'elem' and contains(noepoch(t[1]), names)}
        for el in elems:
            tgt = ('u', 'join', noepoch(l.recv), (el,))
            chk.must(any(s == tgt for s, _ in removed), 'C12.complete', 'remove:listing',
                     'a listed entry is not removed (%s)' % show(tgt), l, p)
    # the directory itself goes last
    selfrm = [e for e in rms if noepoch(subject(e)) == SELF and e.kind == 'op']
    chk.must(len(selfrm) == 1, 'C12.complete', 'remove:top', 'the removed directory itself is deleted %d '
             'times' % len(selfrm), path=p, where=tag)
    for e in selfrm:
        others = [x for x in rms if x is not e]
        chk.must(all(x.idx < e.idx for x in others), 'C12.order', 'remove:top-last',
                 'the directory is removed before what it holds', e, p)
        if e.name == 'removefile':
            chk.must(q(p, 'islink', SELF, e) is True, 'C12.kind', 'remove:top',
                     'the directory itself is deleted as a file', e, p)


@rules_for('C11', 'Path-sensitive abstract interpretation of remove (decorator stripped, helpers analysed in '
           'line) and of the removal of each backend; per path the removal of a subject is compared with what '
           'the path knows about it being a link.')
def c11(chk):
    chk.rule('C11.subject-link', 'remove(): whatever else holds, a subject that may be a link is only passed to '
             'removefile', 3)
    chk.rule('C11.walk-nofollow', 'the walk that drives a recursive removal has followlinks=False', 1)
    chk.rule('C11.link-before-dir', 'removedir/descent only of entries found not to be links', 1)
    chk.rule('C11.backend', 'backend removals use only the operating system call (memory: the entry of the '
             'directory) for the named entry, never a recursive one', 4)
    f, ps = remove_paths(chk, 2)
    for p in ps:
        a = atoms(p, SELF, first_mutation(p))
        for e in destructive(p):
            if noepoch(e.recv) != SELF:
                continue
            isl = q(p, 'islink', SELF, e)
            if e.name == 'removefile':
                chk.ok('C11.subject-link')
            else:
                chk.must(isl is False, 'C11.subject-link', 'remove:%s' % e.name,
                         '%s is applied to a path that may be a link' % e.name, e, p)
        for e in p.ops('walk', 'listdir'):
            if noepoch(e.recv) == SELF:
                chk.must(q(p, 'islink', SELF, e) is False, 'C11.subject-link', 'remove:%s' % e.name,
                         'the content of a path that may be a link is listed for removal', e, p)
        if p.ops('walk', 'listdir'):
            sub = Sub(chk, 'C11.')
            tree_obligations(sub, f, p, 'remove')
    backends(Sub(chk, 'C11.'))


def first_mutation(p):
    d = destructive(p)
    return d[0] if d else None


@rules_for('C12', 'Decision table of remove over the answers of islink/exists/isdir and the recursive option, '
           'evaluated on every abstract path (two rounds of every loop); order and completeness of the removal '
           'of a tree from the effect trace; node-level effects of the backend removals.')
def c12(chk):
    chk.rule('C12.table', 'remove(): per combination of answers exactly the specified removal happens', 8)
    chk.rule('C12.complete', 'every listed entry is removed at its place, the directory itself once', 20)
    chk.rule('C12.order', 'entries before the directory holding them', 4)
    chk.rule('C12.kind', 'entries are removed by the removal of their kind', 4)
    chk.rule('C12.backend', 'backend removals delete the named entry, nothing else, and refuse the wrong kind', 4)
    f, ps = remove_paths(chk, 2)
    rec = ('p', 'recursive')
    for p in ps:
        a = atoms(p, SELF, first_mutation(p))
        known = {k: v for k, v in a.items() if k in ('islink', 'exists', 'isdir', 'isfile')}
        r = fact(p, rec)
        if r is not None:
            known['recursive'] = r
        ops = [e for e in destructive(p)]
        own = [e for e in ops if noepoch(e.recv) == SELF]
        if p.ops('walk', 'listdir') or any(e.kind == 'rec' for e in p.events):
            act = 'tree'
        elif p.outcome == 'raise':
            act = 'missing' if is_exc(p.value, 'FileDoesNotExistError') and not ops else \
                'raise %s' % show(p.value)
        elif [e.name for e in ops] == ['removefile'] and own:
            act = 'unlink'
        elif [e.name for e in ops] == ['removedir'] and own:
            act = 'rmdir'
        else:
            act = 'effects [%s]' % ', '.join(e.name for e in ops)
        for c in completions(derive(known), ('islink', 'exists', 'isdir', 'isfile', 'recursive')):
            if c['islink']:
                want = 'unlink'
            elif not c['exists']:
                want = 'missing'
            elif c['isdir']:
                want = 'tree' if c['recursive'] else 'rmdir'
            else:
                want = 'unlink'
            chk.must(act == want, 'C12.table', 'remove:%s' % ','.join(
                k for k in ('islink', 'exists', 'isdir', 'recursive') if c[k]) ,
                'for %s remove does %r, expected %r' % (
                    {k: c[k] for k in ('islink', 'exists', 'isdir', 'isfile', 'recursive')}, act, want),
                (ops or [None])[0], p, where=f.short)
        if act == 'tree':
            tree_obligations(Sub(chk, 'C12.'), f, p, f.short)
    backends(Sub(chk, 'C12.'))


def backends(chk):
    local(chk)
    from .memory_model import removal_rules
    removal_rules(chk)


OS_REMOVERS = {'os.unlink', 'os.remove', 'os.rmdir', 'shutil.rmtree', 'os.removedirs', 'shutil.move',
               'os.rename', 'os.replace', 'os.truncate', 'os.renames', 'unlink', 'rmdir', 'rmtree'}


def local(chk):
    for name, good in (('removefile', ('os.unlink', 'os.remove', 'unlink')),
                       ('removedir', ('os.rmdir', 'rmdir'))):
        f = chk.repo.method('LocalFileSystem', name)
        subj = ('p', [x for x in f.params() if x != 'self'][0])
        # the file removal is meant for links and files, the directory removal must refuse links:
        # the operating system's does
        for p in chk.run(f, types={SELF: 'LocalFileSystem', subj: 'BaseUri'}, exc='all', inline_self_ops=True):
            for e in p.events:
                if e.kind == 'call' and e.name in OS_REMOVERS:
                    chk.must(e.name in good, 'backend', 'local.%s:%s' % (name, e.name), '%s deletes by %s' % (name, e.name), e, p)
        ps = chk.run(f, types={SELF: 'LocalFileSystem', subj: 'BaseUri'}, exc='none', inline_self_ops=True)
        for p in ps:
            for e in p.of('call'):
                # where there are links, these change what the link leads to
                if e.name in ('os.chmod', 'os.chown', 'os.truncate', 'os.utime', 'chmod') and ('follow_symlinks', FALSE) not in e.kw:
                    named = e.args[0] if e.name.startswith('os.') and e.args else e.recv
                    chk.must(any(g.kind == 'guard' and g.idx < e.idx and 'win32' in show(g.recv) and g.res for g in p.events)
                             or any(g.kind == 'guard' and g.idx < e.idx and 'islink' in show(g.recv) and not g.res for g in p.events)
                             or q(p, 'islink', subj) is False,
                             'backend', 'local.%s:%s' % (name, e.name),
                             '%s by %s reaches what a link leads to' % (show(named) if named else name, e.name), e, p)
            rm = [e for e in p.events if e.kind == 'call' and e.name in OS_REMOVERS]
            ops = [e for e in p.events if e.kind == 'op' and e.name in RM + ('move', 'copy', 'open')]
            for e in rm:
                named = e.args[0] if e.name.startswith(('os.', 'shutil.')) and e.args else e.recv
                chk.must(e.name in good and len(e.args) <= 1 and not e.kw, 'backend', 'local.%s:%s' % (name, e.name),
                         '%s deletes by %s' % (name, e.name), e, p)
                chk.must(is_path_of(named, subj), 'backend', 'local.%s:subject' % name,
                         '%s deletes %s, not the path it was asked to delete' % (name, show(named)), e, p)
            for e in ops:
                chk.bad('backend', 'local.%s:%s' % (name, e.name), '%s performs %s' % (name, e.name), e, p)
            if p.outcome == 'return':
                chk.must(len(rm) == 1, 'backend', 'local.%s:effect' % name,
                         '%s returns after %d deletions' % (name, len(rm)), path=p, where=f.short)
            elif not rm:
                # refusing is fine if the subject is a link (directory removal) only
                ok = name == 'removedir' and q(p, 'islink', subj) is True
                chk.must(ok, 'backend', 'local.%s:refusal' % name,
                         '%s refuses what it should delete (%s)' % (name, show(p.value)), path=p, where=f.short)
        chk.ok('backend')
