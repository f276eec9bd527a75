"""
C06 plug-ins and the URI function, C07 derived URIs, C08 no side effects on
URIs, C09 equality, C10 parsing.
"""
import ast
import re

try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:     # before Python 3.11
    import sre_parse
    import sre_constants as sre

from . import rules_for
from .common import *
from ..interp import _pseudo, URI_PURE
from .conn import where, entry_args, sources, uri_ops

PR = ('a', SELF, 'parse_result')


def run_module(chk, module, **cfg):
    """the statements a module executes on import, definitions left out"""
    def plain(st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom)):
            return False
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            k = module.names.get(st.targets[0].id)
            return not (k and k[0] == 'expr' and k[2] == 1)
        return True
    stmts = [st for st in module.tree.body if plain(st)]
    return chk.run(lambda I: (I.block(stmts), NONE)[1], thunk=_pseudo(module),
                   name=module.name + ' (import)', **cfg)


# ------------------------------------------------------------------------------ C06

@rules_for('C06', 'The statements of the module that loads the plug-ins are interpreted with every load failing '
           'in turn, and URI() on a URI and on a text: where failures end up, what is stored under which '
           'scheme, and which class is built from what.')
def c06(chk):
    repo = chk.repo
    chk.rule('C06.group', 'the entry points of the group abl.vpath.plugins are loaded', 1)
    chk.rule('C06.contained', 'a plug-in that fails to load does not end the loop over the plug-ins', 1)
    chk.rule('C06.factory', 'every loaded plug-in is registered for connections under its own scheme', 2)
    chk.rule('C06.class', 'every loaded plug-in has its URI class registered under its own scheme', 2)
    chk.rule('C06.uri.key', 'the class is looked up by the scheme of what is given', 2)
    chk.rule('C06.uri.fallback', 'an unregistered scheme falls back to the generic class', 2)
    chk.rule('C06.uri.pass', 'text, separator and extra parameters are passed on', 2)
    chk.rule('C06.bundled', 'every bundled backend declares the scheme and the URI class it is registered by', 2)
    f = repo.func('URI')
    m = f.module
    table = ('g', m.name + '.SCHEME_REGISTRY')
    loader = None
    for mod in repo.modules.values():
        if any(isinstance(n, ast.Attribute) and n.attr == 'load' for st in mod.tree.body for n in ast.walk(st)):
            loader = mod
    if loader is None:
        raise Broken('nothing loads the plug-ins')
    reg = repo.method('ConnectionRegistry', 'register')
    cons = loader.name + ' (plug-ins)'
    ps = run_module(chk, loader, exc='all', unroll=2)

    def loads(p):
        return [e for e in p.of('call') if e.name == 'load' and e.recv is not None]

    for p in ps:
        for e in loads(p):
            src = show(e.recv)
            chk.must('abl.vpath.plugins' in src, 'C06.group', cons,
                     'what is loaded is %s' % src, e, p)
            nxt = p.events[e.idx + 1:]
            failed = nxt and nxt[0].kind == 'callraise' and nxt[0].node is e.node
            if failed:
                exc = nxt[0].args[0]
                got = [x for x in nxt if x.kind in ('caught', 'swallow') and x.args and x.args[0] == exc]
                end = [x for x in nxt if x.kind == 'loop' and x.name == 'end']
                ok = bool(got) and (bool(end) or p.outcome == 'raise' and p.value != exc)
                broad = got and (got[0].kind == 'swallow' or any(
                    t in (('g', 'Exception'), ('g', 'BaseException')) for t in got[0].raw or ()))
                chk.must(ok and bool(broad), 'C06.contained', cons,
                         'a plug-in that fails to load keeps the others from being registered', e, p)
                for x in nxt:
                    if x.kind == 'setitem' and contains(x.args[1], e.res):
                        chk.must(False, 'C06.contained', cons, 'a plug-in that failed to load is registered', x, p)
                for x in nxt:
                    if x.kind == 'loop' or x.kind == 'call' and x.name == 'load':
                        break
                    if x.kind == 'setitem' and (x.recv == table or x.recv[0] == 'a' and x.recv[2] == 'schemes'):
                        chk.must(False, 'C06.contained', cons, 'something is registered for a plug-in that failed to load', x, p)
            elif p.outcome == 'return':
                v = e.res
                if fact(p, ('op', 'is', v, NONE)) is True or fact(p, v) is False:
                    continue        # not a plug-in
                sch = ('a', v, 'scheme')
                conns = [x for x in nxt if x.kind == 'setitem' and x.recv[0] == 'a' and x.recv[2] == 'schemes']
                mine = [x for x in conns if x.args == (sch, v)]
                chk.must(len(mine) >= 1, 'C06.factory', cons,
                         'a loaded plug-in is not registered under its scheme', e, p)
                for x in conns:
                    if contains(x.args[0], v) or contains(x.args[1], v):
                        chk.must(x.args == (sch, v), 'C06.factory', cons,
                                 '%s is registered for %s' % (show(x.args[1]), show(x.args[0])), x, p)
                uris = [x for x in nxt if x.kind == 'setitem' and x.recv == table]
                want = (sch, ('a', v, 'uri'))
                chk.must(any(x.args == want for x in uris), 'C06.class', cons,
                         'the URI class of a loaded plug-in is not registered under its scheme', e, p)
                for x in uris:
                    if contains(x.args[0], v) or contains(x.args[1], v):
                        chk.must(x.args == want, 'C06.class', cons,
                                 '%s is the URI class of %s' % (show(x.args[1]), show(x.args[0])), x, p)
    two = [p for p in ps if len(loads(p)) > 1 and not p.of('callraise')]
    chk.must(bool(two), 'C06.contained', cons, 'a single plug-in is loaded', where=loader.path)
    # URI()
    uri = P(f.params()[0])
    sep = P('sep')
    extras = P(f.node.args.kwarg.arg) if f.node.args.kwarg else None
    base = repo.cls('BaseUri')
    for kind, types in (('text', {}), ('uri', {uri: 'BaseUri'})):
        for p in chk.run(f, recv=None, types=types, exc='none'):
            if kind == 'text' and any(e.kind == 'guard' and e.recv == ('op', 'isinstance', uri, ('cls', base)) and e.res
                                      for e in p.events):
                continue
            if p.outcome != 'return':
                chk.must(False, 'C06.uri.key', f, 'URI() of a %s ends in %s' % (kind, show(p.value)), None, p)
                continue
            made = [e for e in p.of('call', 'newuri') if e.res == p.value]
            if not chk.must(bool(made), 'C06.uri.pass', f, 'URI() yields %s' % show(p.value), None, p):
                continue
            e = made[-1]
            fn = e.recv if e.kind == 'newuri' else e.res[1]
            # what selects the class
            key = None
            fall = True
            if fn[0] == 'call' and fn[1] == ('a', table, 'get'):
                key = fn[2][0]
                fall = len(fn[2]) > 1 and fn[2][1] == ('cls', base)
            elif fn[0] == 'i' and fn[1] == table:
                key = fn[2]
                fall = fact(p, ('op', 'in', key, table)) is True
            elif fn == ('cls', base):
                ks = [g.recv for g in p.of('guard') if not g.res and g.recv[0] == 'op' and g.recv[1] == 'in'
                      and g.recv[3] == table] + [g.recv[2] for g in p.of('guard') if g.res and g.recv[0] == 'op'
                                                 and g.recv[1] == 'is' and contains(g.recv[2], table)]
                ks = [k[2] if k[0] == 'op' else k[2][0] if k[0] == 'call' else k for k in ks]
                key = ks[-1] if ks else None
                if key is None:
                    chk.must(False, 'C06.uri.key', f, 'the generic class is built without a look at the scheme', e, p)
                    continue
            chk.must(fall, 'C06.uri.fallback', f, 'an unregistered scheme has no class', e, p)
            if key is not None:
                if kind == 'uri':
                    good = key in (('a', uri, 'scheme'), ('a', ('a', uri, 'parse_result'), 'scheme'))
                else:
                    good = scheme_of_text(p, key, uri)
                    for x in subterms(key):
                        bad = misread(repo, m, x, uri)
                        if bad is not None:
                            chk.must(False, 'C06.uri.key', f, 'the scheme of %r is read as %r' % bad, e, p)
                chk.must(good, 'C06.uri.key', f, 'the class of a %s is looked up under %s' % (kind, show(key)), e, p)
            args = [a for a in e.args if a[0] != 'star']
            kws = dict(e.kw)
            first = args[0] if args else kws.get('uri')
            chk.must(first == uri, 'C06.uri.pass', f, 'the class gets %s, not what was given' % (
                show(first) if first else 'nothing'), e, p)
            s = args[1] if len(args) > 1 else kws.get('sep')
            chk.must(s == sep, 'C06.uri.pass', f, 'the separator is %s' % (show(s) if s else 'not passed on'), e, p)
            if extras:
                chk.must(any(k == '**' and v == extras for k, v in e.kw), 'C06.uri.pass', f,
                         'the extra parameters are not passed on', e, p)
    from .conn import bundled
    for c in bundled(repo):
        if any(x is not c and x.isa(c.name) for x in repo.subclasses('FileSystem')):
            continue
        I = Interp(repo, Cfg())
        I._reset([])
        sc = c.find('scheme')
        v = I.class_attr(sc, 'scheme') if sc and sc[0] == 'attr' else None
        u = c.find('uri')
        uv = I.class_attr(u, 'uri') if u and u[0] == 'attr' else None
        chk.must(v is not None and isc(v) and isinstance(v[2], str) and bool(v[2]), 'C06.bundled', c.name,
                 'the backend declares no scheme', where=c.module.path)
        chk.must(uv is not None and uv[0] == 'cls' and uv[1].isa('BaseUri'), 'C06.bundled', c.name,
                 'the backend declares no URI class', where=c.module.path)


SCHEMES = {'%s://h/p' % x: x for x in ('file', 'memory', 'zip', 'svn', 'svn+ssh', 'a-b', 'z', 'a+b-c')}
SCHEMES.update({'/a/http://h': None, './memory://h/p': None})


def pattern_of(repo, module, t):
    """the text of the pattern that a compiled pattern stands for"""
    if t[0] == 'g' and t[1].startswith(module.name + '.'):
        k = module.names.get(t[1][len(module.name) + 1:])
        n = k[1] if k and k[0] == 'expr' and k[2] == 1 else None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'compile' and len(n.args) == 1 \
                and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            return n.args[0].value
    if t[0] == 'call' and t[1] == ('g', 're.compile') and len(t[2]) == 1 and isc(t[2][0]):
        return t[2][0][2]
    return None


def misread(repo, module, t, uri):
    """(text, scheme) that a group of a pattern takes for the scheme of the text but is not"""
    if not (t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'group' and len(t[2]) == 1 and isc(t[2][0])):
        return None
    src = t[1][1]
    if src[0] != 'call' or src[1][0] not in 'ag' or not src[2] or src[2][-1] != uri:
        return None
    if src[1][0] == 'a':
        pat, how = pattern_of(repo, module, src[1][1]), src[1][2]
    else:
        pat, how = src[2][0][2] if len(src[2]) == 2 and isc(src[2][0]) else None, src[1][1][3:]
    if pat is None or how not in ('match', 'search', 'fullmatch'):
        return None
    for text, want in SCHEMES.items():
        try:
            got = getattr(re.compile(pat), how)(text)
            got = got.group(t[2][0][2]) if got else None
        except (re.error, IndexError) as e:
            got = str(e)
        if got != want:
            return text, got
    return None


def scheme_of_text(p, key, uri):
    """key is the scheme found in the text, or the default if there is none"""
    if isc(key):
        if key != C('file'):
            return False
        looks = [g for g in p.of('guard') if g.recv[0] == 'op' and g.recv[1] == 'is' and g.recv[3] == NONE
                 and contains(g.recv[2], uri) or g.recv[0] == 'call' and contains(g.recv, uri) and g.recv[1][0] == 'a'
                 and g.recv[1][2] in ('match', 'search', 'fullmatch')]
        there = [g.res != (g.recv[0] == 'op') for g in looks]
        if there:
            return not any(there)       # the text was found to tell a scheme, or not to
        for g in p.of('guard'):
            t = g.recv
            if contains(t, uri) and not g.res and t[0] in ('call', 'op', 'i'):
                return True
        return False
    return contains(key, uri) and not any(
        x[0] == 'i' and isc(x[2]) and x[2][2] not in (0, 1) for x in subterms(key)) and not any(
        x[0] == 'call' and x[1][0] == 'a' and x[1][2] == 'group' and x[2] not in ((C(1),),) and x[2] and isc(x[2][0])
        and isinstance(x[2][0][2], int) for x in subterms(key))


# ------------------------------------------------------------------------------ C07 / C08

def leaves(t):
    """the pieces a text is put together from, in order"""
    if t[0] == 'op' and t[1] == '+':
        return leaves(t[2]) + leaves(t[3])
    if t[0] == 'op' and t[1] == 'fmt' and isc(t[2]):
        parts = re.split(r'%[sdr]', t[2][2].replace('%%', '\0'))
        out = [C(parts[0].replace('\0', '%'))]
        for a, c in zip(t[3:], parts[1:]):
            out += leaves(a) + [C(c.replace('\0', '%'))]
        return [x for x in out if x != C('')]
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'join' and isc(t[1][1]) and t[2] and t[2][0][0] in ('list', 'tuple'):
        out = []
        for i, x in enumerate(t[2][0][1]):
            if i and t[1][1] != C(''):
                out.append(t[1][1])
            out += leaves(x)
        return out
    if t[0] == 'call' and t[1] == ('g', 'str') and len(t[2]) == 1:
        return leaves(t[2][0])
    return [t]


def attr_of(x, t):
    """name of the attribute of the URI x (or of its parse result) that t is"""
    if t[0] == 'a' and t[1] in (x, ('a', x, 'parse_result')):
        return t[2]
    return None


def mentions(t, x, *names):
    return any(attr_of(x, y) in names for y in subterms(t))


def falsy(p, t, ev=None):
    return fact(p, t, ev) is False or fact(p, ('op', 'is', t, NONE), ev) is True


def afact(p, x, name):
    """is the attribute of the URI known to be true or false"""
    for t in (('a', x, name), ('a', ('a', x, 'parse_result'), name)):
        r = fact(p, t)
        if r is not None:
            return r
        if fact(p, ('op', 'is', t, NONE)) is True or fact(p, ('op', '==', t, C(''))) is True:
            return False
    return None


DERIVE = ('join', '__add__', 'split', '__truediv__', '__div__')


def derivations(chk):
    repo = chk.repo
    base = repo.cls('BaseUri')
    for c in repo.subclasses('BaseUri'):
        for n in DERIVE:
            f = c.methods.get(n)
            if f is None or f.cls is not c:
                continue
            ps = chk.run(f, recv=SELF, types={SELF: c},
                         inline_uri=True, attr_types={('BaseUri', 'parse_result'): 'UriParse'},
                         opaque={base.method('__init__').short}, exc='none')
            yield c, n, f, ps


def final(p, obj, name):
    return p.heap.get((obj, name))


TRIMS = ('strip', 'lstrip', 'rstrip')
CHANGES = TRIMS + ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase', 'replace', 'removeprefix', 'removesuffix')


def changed(t, whole):
    """where a component of the address does not stay as it is; slashes around the path may go where it is joined"""
    for y in subterms(t):
        if y[0] == 'call' and y[1][0] == 'a' and y[1][2] in CHANGES:
            of = {attr_of(SELF, z) for z in subterms(y[1][1])} - {None}
            if of & {'scheme', 'authority', 'netloc', 'hostname', 'vpath_connector'}:
                return y
            if of & {'path', 'unipath'} and (whole or y[1][2] in TRIMS and y[2] != (C('/'),) or y[1][2] in (
                    'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase')):
                return y
    return None


@rules_for('C07', 'Every operation that derives a URI, and copying one, is interpreted down to the text and the '
           'attributes of the new URI: each component of the address is traced back to the same component '
           'of the original.')
def c07(chk):
    repo = chk.repo
    base = repo.cls('BaseUri')
    chk.rule('C07.class', 'the derived URI is built by the class of the original', 3)
    chk.rule('C07.text', 'scheme, archive or authority, and path of the original make up the text, in this order', 3)
    chk.rule('C07.identity', 'user name and password are those of the original, set or parsed', 6)
    chk.rule('C07.sep', 'the separator is kept', 3)
    chk.rule('C07.extras', 'the extra parameters are kept', 3)
    chk.rule('C07.query', 'all but splitting keep the query', 2)
    chk.rule('C07.rest', 'nothing else of the address is changed', 3)
    chk.rule('C07.directory', 'the directory is what repeated splitting yields', 2)
    chk.rule('C07.copy', 'a copy takes over every component', 5)
    for c, n, f, ps in derivations(chk):
        cons = f.short
        for p in ps:
            if p.outcome != 'return':
                continue
            v = p.value
            if n == 'split':
                v = v[1][0] if v[0] == 'tuple' and v[1] else v
            news = [e for e in p.of('new') if e.res == v]
            if not chk.must(bool(news) and v[1].isa('BaseUri'), 'C07.class', cons,
                            'the derived URI is %s' % show(v), None, p):
                continue
            e = news[0]
            chk.must(e.recv in (('a', SELF, '__class__'), ('cls', c)) and (
                e.recv[0] == 'a' or not [x for x in repo.subclasses(c.name) if x is not c]), 'C07.class', cons,
                'the derived URI is a %s, whatever the original is' % e.name, e, p)
            kws = dict(e.kw)
            text = e.args[0] if e.args and e.args[0][0] != 'star' else kws.get('uri')
            if not chk.must(text is not None, 'C07.text', cons, 'the derived URI has no text', e, p):
                continue
            pos = {}
            ls = leaves(text)
            for i, x in enumerate(ls):
                if contains(x, ('a', PR, 'query')) or x[0] == 'call' and x[1][0] == 'g':
                    continue
                for y in subterms(x):
                    a = attr_of(SELF, y)
                    if a:
                        pos.setdefault(a, i)
            for x in ls:
                bad = changed(x, n == '__add__')
                chk.must(not bad, 'C07.text', cons, 'the text of the derived URI has %s in it' % (show(bad) if bad else ''), e, p)
            if 'unipath' in pos:
                pos.setdefault('path', pos['unipath'])
            net = [pos[a] for a in ('authority', 'netloc', 'hostname') if a in pos]
            arch = afact(p, SELF, 'vpath_connector')
            chk.must('scheme' in pos, 'C07.text', cons, 'the text of the derived URI lacks the scheme', e, p)
            rooted = any(isc(x) and isinstance(x[2], str) and x[2] == '/' for x in ls) and any(
                g.kind == 'guard' and g.res is False and g.recv[0] in ('slice', 'i', 'call') and attr_of(
                    SELF, g.recv[1]) == 'path' for g in p.events)
            chk.must('path' in pos or rooted, 'C07.text', cons, 'the text of the derived URI lacks the path', e, p)
            if arch is not False:
                chk.must('vpath_connector' in pos, 'C07.text', cons,
                         'the text of the derived URI lacks the nested archive', e, p)
            if arch is not True:
                gone = all(afact(p, SELF, a) is False for a in ('authority', 'netloc')) or \
                    afact(p, SELF, 'hostname') is False
                chk.must(bool(net) or gone, 'C07.text', cons, 'the text of the derived URI lacks the host', e, p)
            middle = [pos['vpath_connector']] if arch is True and 'vpath_connector' in pos else net[:1]
            order = [pos.get('scheme')] + middle + [pos.get('path')]
            order = [x for x in order if x is not None]
            chk.must(order == sorted(order), 'C07.text', cons,
                     'scheme, host and path are not in this order', e, p)
            if arch is True and 'vpath_connector' in pos:
                i = pos['vpath_connector']
                ok = 0 < i < len(ls) - 1 and isc(ls[i - 1]) and ls[i - 1][2].endswith('((') and isc(ls[i + 1]) \
                    and ls[i + 1][2].startswith('))')
                chk.must(ok, 'C07.text', cons, 'the nested archive is not enclosed in (( ))', e, p)
            for a in ('username', 'password'):
                w = final(p, v, a)
                chk.must(w is not None and attr_of(SELF, w) == a or w is None and afact(p, SELF, a) is False,
                         'C07.identity', cons, 'the %s of the derived URI is %s' % (
                             a, show(w) if w else 'what the text tells'), e, p)
            w = final(p, v, 'scheme')
            chk.must(w is None or attr_of(SELF, w) == 'scheme', 'C07.identity', cons,
                     'the scheme of the derived URI is %s' % (show(w) if w else ''), e, p)
            s = final(p, v, 'sep') or (e.args[1] if len(e.args) > 1 and e.args[1][0] != 'star' else kws.get('sep'))
            chk.must(s == ('a', SELF, 'sep'), 'C07.sep', cons, 'the separator of the derived URI is %s' % (
                show(s) if s else 'the default'), e, p)
            x = final(p, v, 'extras') or kws.get('**')
            ok = x is not None and 'extras' in sources(p, x)
            chk.must(ok, 'C07.extras', cons, 'the extra parameters of the original are lost', e, p)
            w = final(p, ('a', v, 'parse_result'), 'query')
            kept = w is not None and mentions(w, SELF, 'query') or w is None and mentions(text, SELF, 'query')
            http = any(fact(p, ('op', '==', ('a', SELF, 'scheme'), C(k))) for k in ('http', 'https'))
            if ok and not kept and not http and afact(p, SELF, 'query') is not False:
                chk.must('query' in sources(p, x), 'C07.extras', cons,
                         'the parameters of the query are lost from what the connection is looked up with', e, p)
            if ok:
                for g in p.of('mut', 'delitem'):
                    if contains(x, g.recv) and g.name in ('clear', 'popitem', 'pop', None) and not (
                            (g.name == 'pop' or g.kind == 'delitem') and g.args and g.args[0] in (C('username'), C('password'))):
                        chk.must(False, 'C07.extras', cons, 'extra parameters are dropped', g, p)
            if n != 'split':
                w = final(p, ('a', v, 'parse_result'), 'query')
                kept = w is not None and mentions(w, SELF, 'query') or w is None and (
                    mentions(text, SELF, 'query') or afact(p, SELF, 'query') is False)
                chk.must(kept, 'C07.query', cons, 'the query of the original is lost', e, p)
            for g in p.of('setattr'):
                tgt = g.raw[0]
                if tgt not in (v, ('a', v, 'parse_result')) or g.name in (
                        'scheme', 'username', 'password', 'query', 'sep', 'extras', 'connection', '_scheme', 'path'):
                    continue
                if g.name in ('hostname', 'port', 'netloc', 'authority', 'vpath_connector'):
                    chk.must(attr_of(SELF, g.args[0]) == g.name, 'C07.rest', cons,
                             '%s of the derived URI is set to %s' % (g.name, show(g.args[0])), g, p)
            chk.ok('C07.rest')
    f = base.method('directory')
    if f is None:
        raise Broken('no directory')
    lv = params(f)
    for p in chk.run(f, recv=SELF, types={SELF: 'BaseUri'}, exc='none', unroll=2):
        if p.outcome != 'return':
            continue
        for g in p.of('setattr', 'delattr'):
            chk.must(contains(g.recv, SELF) is False and g.recv[0] != 'u' and not contains(p.value, g.recv), 'C07.directory', f,
                     '%s of the directory is changed' % g.name, g, p)
        t, n = p.value, 0
        while t[0] == 'i' and t[1][0] == 'u' and t[1][1] in ('split', 'directory', 'dirname') and t[2] == C(0):
            t, n = t[1][2], n + 1
        chk.must(t == SELF and n > 0, 'C07.directory', f, 'the directory of the URI is %s' % show(p.value), None, p)
    # copying
    init = base.method('__init__')
    src = P(params(init)[0])
    prs = ('a', src, 'parse_result')
    for p in chk.run(init, recv=SELF, types={SELF: 'BaseUri', src: 'BaseUri'}, inline_uri=True,
                     attr_types={('BaseUri', 'parse_result'): 'UriParse'},
                     opaque={repo.method('UriParse', '__init__').short}, exc='none'):
        if p.outcome != 'return':
            chk.must(False, 'C07.copy', init, 'copying a URI ends in %s' % show(p.value), None, p)
            continue
        pr = final(p, SELF, 'parse_result')
        text = None
        for e in p.of('new'):
            if e.res == pr:
                text = e.args[0] if e.args else None
        ok = pr is not None and (text is not None and (mentions(text, src, 'uri') or contains(text, src)) or
                                 text is None and contains(pr, prs))
        chk.must(ok, 'C07.copy', init, 'the parsed text of a copy is %s' % (show(text or pr) if pr else 'missing'), None, p)
        for a in ('sep', 'extras'):
            w = final(p, SELF, a)
            chk.must(w is not None and mentions(w, src, a), 'C07.copy', init, '%s of a copy is %s' % (
                a, show(w) if w else 'not set'), None, p)
        whole = text is None
        for a in ('scheme', 'username', 'password'):
            w = final(p, SELF, a)
            ok = w is not None and attr_of(src, w) == a
            if not ok and a != 'scheme':
                ok = afact(p, src, a) is False
            chk.must(ok, 'C07.copy', init, '%s of a copy is %s' % (a, show(w) if w else 'what the text tells'), None, p)
        w = final(p, pr, 'query') if pr is not None else None
        chk.must(w is not None and mentions(w, src, 'query') or w is None and whole, 'C07.copy', init,
                 'the query of a copy is %s' % (show(w) if w else 'what the text tells'), None, p)


ALIASING = {'get', 'setdefault', 'pop', 'items', 'values', 'keys', '__getitem__', '__iter__'}


def owner(t):
    """whose state a change of t changes: follows parts, not copies"""
    while True:
        if t[0] in ('a', 'i', 'elem', 'havoc', 'enter'):
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ALIASING:
            t = t[1][1]
        elif t[0] == 'call' and t[1] == ('g', 'iter') and t[2]:
            t = t[2][0]
        else:
            return t


@rules_for('C08', 'Every method of the URI classes, of the parse result and of the backends is interpreted and each '
           'store, deletion and call of a mutating method is traced to the object it changes; attributes '
           'given to new URIs are checked for tables shared with the original.')
def c08(chk):
    repo = chk.repo
    chk.rule('C08.receiver', 'no pure operation changes its receiver', 40)
    chk.rule('C08.argument', 'no operation changes its arguments', 60)
    chk.rule('C08.share', 'a derived or copied URI does not share query and extra parameters', 3)
    base = repo.cls('BaseUri')
    up = repo.cls('UriParse')

    def writes(p):
        for e in p.events:
            if e.kind in ('setattr', 'setitem', 'delitem', 'delattr') or e.kind == 'mut':
                yield e

    def scan(f, ps, own, only=None):
        cons = f.short
        for p in ps:
            bad = None
            for e in writes(p):
                t = e.raw[0] if isinstance(e.raw, tuple) and e.raw and isinstance(e.raw[0], tuple) else e.raw
                if t is None or not isinstance(t, tuple) or not t or not isinstance(t[0], str):
                    t = e.recv
                if t[0] == 'obj':
                    # a container made here; what it was made from is not changed
                    continue
                o = owner(t)
                if o == SELF and own:
                    if e.kind == 'setattr' and e.recv == SELF and e.name == 'connection':
                        continue
                    if e.kind == 'setattr' and e.recv == SELF and e.name == '_scheme' and \
                            attr_of(SELF, e.args[0]) in ('scheme', '_scheme'):
                        continue
                    chk.must(False, 'C08.receiver', cons, 'changes %s of its receiver' % (
                        show(t) + ('.' + e.name if e.kind in ('setattr', 'delattr') else '')), e, p)
                    bad = e
                elif o[0] == 'p' and o != SELF and (only is None or o in only):
                    if e.kind == 'setattr' and e.name in ('connection', 'last_used'):
                        continue
                    chk.must(False, 'C08.argument', cons, 'changes %s, which is the argument %s' % (
                        show(t) + ('.' + e.name if e.kind in ('setattr', 'delattr') else ''), o[1]), e, p)
                    bad = e
            if own:
                chk.ok('C08.receiver')
            chk.ok('C08.argument')

    iname = base.method('__init__').short
    for c in repo.subclasses('BaseUri') + [up]:
        fs = [f for f in c.methods.values() if f.cls is c]
        fs += [g for gs in c.props.values() for g in gs[:1] if g is not None and g.cls is c]
        seen = set()
        for f in fs:
            if f.name == '__init__' or id(f) in seen or f.name.startswith('_set') or f.name in (
                    '__setattr__', '__setitem__', '__delattr__'):
                continue
            if f.name.startswith('_') and not f.name.startswith('__') and (mutator(c, f) or constructing(repo, f.name)):
                continue
            seen.add(id(f))
            t = {SELF: c}
            for x in f.params():
                if x in ('other', 'link_name', 'dest', 'destination'):
                    t[P(x)] = 'BaseUri' if c is not up else 'UriParse'
            ps = chk.run(f, recv=SELF, types=t, inline_uri=f.name not in URI_OPS, exc='none',
                         attr_types={('BaseUri', 'parse_result'): 'UriParse'}, opaque={iname})
            scan(f, ps, True)
    for fn in ('uri_from_parts', 'parse_query_string', 'urisplit', 'uriunsplit', 'split_authority', 'join_authority',
               'remove_dir_recursively', 'URI', 'normalize_uri', 'denormalize_path', 'urljoin'):
        f = repo.func(fn, False)
        if f is None:
            continue
        ns = f.params()
        t = {}
        if fn == 'remove_dir_recursively':
            t = {P(ns[0]): 'FileSystem', P(ns[1]): 'BaseUri'}
        scan(f, chk.run(f, recv=None, types=t, exc='none', unroll=1, opaque_fn=lambda g, recv: True), False)
    for c in repo.subclasses('FileSystem'):
        for n, f in sorted(c.methods.items()):
            if n == '__init__' or f.cls is not c:
                continue
            t = {SELF: c}
            for x in params(f):
                if x in ('path', 'unc', 'source', 'dest', 'destination', 'other', 'link_name', 'top', 'target', 'src'):
                    t[P(x)] = 'BaseUri'
            try:
                ps = chk.run(f, recv=SELF, types=t, exc='none', unroll=1, opaque_fn=lambda g, recv: True)
            except Broken:
                continue
            scan(f, ps, False, None if n in BACKEND_OPS else set(t) - {SELF})
    # sharing
    for c, n, f, ps in derivations(chk):
        for p in ps:
            v = p.value
            if p.outcome != 'return':
                continue
            if n == 'split':
                v = v[1][0] if v[0] == 'tuple' and v[1] else v
            share(chk, f, p, v, SELF)
    init = base.method('__init__')
    src = P(params(init)[0])
    for p in chk.run(init, recv=SELF, types={SELF: 'BaseUri', src: 'BaseUri'}, inline_uri=True,
                     attr_types={('BaseUri', 'parse_result'): 'UriParse'},
                     opaque={up.method('__init__').short}, exc='none'):
        share(chk, init, p, SELF, src)


def mutator(c, f):
    """private helpers that set up a URI are judged where they are called"""
    return any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node))


def constructing(repo, name, seen=()):
    """is the private helper only used while an object is made"""
    users = [g for g in repo.functions() if any(
        isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(g.node))]
    return bool(users) and all(g.name == '__init__' or g.name in seen + (name,) or g.name.startswith('_') and
                               not g.name.startswith('__') and constructing(repo, g.name, seen + (name,))
                               for g in users)


def share(chk, f, p, new, old):
    holders = [new, ('a', new, 'parse_result')]
    pr = p.heap.get((new, 'parse_result'))
    if pr is not None:
        holders.append(pr)
        chk.must(owner(pr) != old, 'C08.share', f, 'the new URI shares the parse result of the original', None, p)
    for h in holders:
        for name in ('query', 'extras'):
            w = p.heap.get((h, name))
            if w is None:
                continue
            chk.must(owner(w) not in (old,), 'C08.share', f,
                     'the new URI shares %s of the original' % name, None, p)
    if pr is not None and pr[0] == 'call' and contains(pr, ('a', old, 'parse_result')) and \
            'deepcopy' not in show(pr) and p.heap.get((pr, 'query')) is None:
        chk.must(False, 'C08.share', f, 'the new URI shares the query of the original', None, p)


# ------------------------------------------------------------------------------ C09

LOCATION = {'scheme', 'vpath_connector', 'path', 'query'}
HOST = ('netloc', 'hostname', 'port', 'authority')


def pairs(t):
    """atomic comparisons of an equality"""
    if t[0] == 'op' and t[1] == '==' and t[2][0] == t[3][0] and t[2][0] in ('tuple', 'list') \
            and len(t[2][1]) == len(t[3][1]):
        out = []
        for a, b in zip(t[2][1], t[3][1]):
            if a != b:
                out += pairs(('op', '==', a, b))
        return out
    if t[0] == 'op' and t[1] == '==':
        return [(t[2], t[3])]
    return []


@rules_for('C09', 'Equality and inequality of URIs are interpreted on two symbolic URIs and on a URI and something '
           'else; along every path the comparisons that hold or fail are collected and compared with the '
           'components of the location.')
def c09(chk):
    repo = chk.repo
    chk.rule('C09.covers', 'URIs are only equal if all components of the location agree', 1)
    chk.rule('C09.only', 'URIs are unequal only because a component of the location differs', 1)
    chk.rule('C09.alien', 'a URI never equals what is not a URI', 1)
    chk.rule('C09.ne', '!= is the negation of ==', 2)
    for c in repo.subclasses('BaseUri'):
        for n in ('__eq__', '__ne__'):
            f = c.methods.get(n)
            if f is None or f.cls is not c:
                continue
            other = P(params(f)[0])
            ps = chk.run(f, recv=SELF, types={SELF: c, other: 'BaseUri'}, exc='none', inline_eq=True,
                         attr_types={('BaseUri', 'parse_result'): 'UriParse'}, inline_uri=True)
            judge(chk, f, ps, other, n == '__ne__')
            ps = chk.run(f, recv=SELF, types={SELF: c}, exc='none', inline_eq=True,
                         attr_types={('BaseUri', 'parse_result'): 'UriParse'}, inline_uri=True)
            rule = 'C09.alien' if n == '__eq__' else 'C09.ne'
            for p in ps:
                alien = [g for g in p.of('guard') if g.recv[0] == 'op' and g.recv[1] == 'isinstance'
                         and g.recv[2] == other and not g.res]
                isuri = [g for g in p.of('guard') if g.recv[0] == 'op' and g.recv[1] == 'isinstance'
                         and g.recv[2] == other and g.res]
                if isuri:
                    continue
                want = C(n == '__ne__')
                ok = p.outcome == 'return' and p.value in (want, ('g', 'NotImplemented'))
                chk.must(ok, rule, f, 'compared with something that is not a URI the result is %s' % (
                    show(p.value)), None, p)
    up = repo.cls('UriParse')
    host_text(chk, up)
    f = up.method('__eq__')
    if f is not None:
        other = P(params(f)[0])
        ps = chk.run(f, recv=SELF, types={SELF: up, other: up}, exc='none')
        judge(chk, f, ps, other, False)
    f = up.method('__ne__')
    if f is not None:
        other = P(params(f)[0])
        judge(chk, f, chk.run(f, recv=SELF, types={SELF: up, other: up}, exc='none', inline_eq=True), other, True)


def host_text(chk, up):
    """what netloc stands for: the host and the port, whichever of them is there"""
    f = up.method('__init__')
    if not any('netloc' in {x.attr for x in ast.walk(m.node) if isinstance(x, ast.Attribute)}
               for m in (up.method('__eq__'), chk.repo.cls('BaseUri').method('__eq__')) if m):
        return
    parts = {g.short for g in chk.repo.functions() if g.cls is None and g.module is not f.module or g.name == 'parse_query_string'}
    for p in chk.run(f, recv=SELF, types={SELF: up}, exc='none', opaque=parts):
        if p.outcome != 'return':
            continue
        net = final(p, SELF, 'netloc')
        for n in ('hostname', 'port'):
            v = final(p, SELF, n)
            if net is None or v is None:
                continue
            gone = not v[2] if isc(v) else fact(p, v) is False or any(
                x[0] == 'call' and x[1] == ('g', 'int') and fact(p, x[2][0]) is False for x in [v] if x[2])
            chk.must(gone or contains(net, v), 'C09.covers', f, 'netloc, which is compared, is %s and lacks the %s %s' % (
                show(net), n, show(v)), None, p)


def judge(chk, f, ps, other, neg):
    for p in ps:
        if p.outcome != 'return':
            chk.must(False, 'C09.only', f, 'the comparison ends in %s' % show(p.value), None, p)
            continue
        v = p.value
        if neg:
            v = Not(v)
        held_ = []
        failed = []
        for g in p.of('guard'):
            t = g.recv
            if t[0] == 'op' and t[1] == '==':
                (held_ if g.res else failed).extend([pairs(t)])
        # components found to be absent, or there, on either side
        known = {}
        for g in p.of('guard'):
            for s in (SELF, other):
                if attr_of(s, g.recv):
                    known[(s, attr_of(s, g.recv))] = g.res
        rule_c, rule_o = ('C09.ne', 'C09.ne') if neg else ('C09.covers', 'C09.only')

        def component(ab):
            """the component that two texts are: one may be what stands for its absence"""
            for x, y in (ab, ab[::-1]):
                for s, o in ((SELF, other), (other, SELF)):
                    n = attr_of(s, x)
                    if n and (attr_of(o, y) == n or isc(y) and not y[2] and known.get((o, n)) is False):
                        return n
            return None
        for maybe in (True, False):
            if v == C(not maybe):
                continue
            h = list(held_)
            fl = list(failed)
            if not isc(v):
                t, val = (v, maybe)
                while t[0] == 'op' and t[1] == 'not':
                    t, val = t[2], not val
                if t[0] == 'op' and t[1] == '==':
                    (h if val else fl).append(pairs(t))
                elif maybe:
                    chk.must(False, rule_c, f, 'the result is %s' % show(v), None, p)
            names = {n for s, n in known if known[(s, n)] is False and known.get((other if s == SELF else SELF, n)) is False}
            if any(isc(y) and not y[2] and known.get((s, attr_of(s, x))) is True for g in h for a, b in g
                   for x, y in ((a, b), (b, a)) for s in (SELF, other) if attr_of(s, x)):
                # what is there equals what stands for nothing
                continue
            for ab in [x for g in h for x in g]:
                names.add(component(ab))
            if maybe:
                missing = LOCATION - names
                if 'unipath' in names:
                    missing.discard('path')
                host = 'netloc' in names or {'hostname', 'port'} <= names or 'authority' in names
                chk.must(not missing and host, rule_c, f, 'URIs are equal though %s may differ' % (
                    ', '.join(sorted(missing) + ([] if host else ['host and port']))), None, p)
            else:
                bad = None
                ok = False
                for grp in fl:
                    ns = []
                    for ab in grp:
                        ns.append(component(ab))
                    if grp and all(x in LOCATION | {'netloc', 'hostname', 'port', 'unipath'} for x in ns):
                        ok = True
                    else:
                        bad = ', '.join(str(x) for x in ns)
                if bad and not ok:
                    chk.must(False, rule_o, f, 'URIs differ because of %s' % bad, None, p)
                else:
                    chk.must(ok, rule_o, f, 'URIs differ though no component was found to differ', None, p)


# ------------------------------------------------------------------------------ C10

SPLITS = ('split', 'rsplit')


def optional_groups(pattern):
    """(may the match fail, numbers of the groups that may be absent)"""
    tree = sre_parse.parse(pattern)
    opt = set()

    def walk(items, absent):
        for op, av in items:
            if op is sre.SUBPATTERN:
                if av[0] is not None and absent:
                    opt.add(av[0])
                walk(av[-1], absent)
            elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT) or str(op) == 'POSSESSIVE_REPEAT':
                walk(av[2], absent or av[0] == 0)
            elif op is sre.BRANCH:
                for b in av[1]:
                    walk(b, True)
            elif op in (sre.ASSERT, sre.ASSERT_NOT):
                walk(av[1], absent)
            elif op is sre.GROUPREF_EXISTS:
                for b in av[1:]:
                    if b is not None:
                        walk(b, True)
            elif str(op) == 'ATOMIC_GROUP':
                walk(av, absent)
    walk(tree, False)

    def must_match(items):
        """every item can match the empty text at the start"""
        for op, av in items:
            if op is sre.AT:
                if av not in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
                    return False
            elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
                if av[0] > 0 and not must_match(av[2]):
                    return False
            elif op is sre.SUBPATTERN:
                if not must_match(av[-1]):
                    return False
            else:
                return False
        return True
    return (not must_match(tree)), opt


class Nulls(object):
    """which terms may stand for an absent component"""

    def __init__(self, chk):
        self.chk = chk
        self.repo = chk.repo
        self.rets = {}          # function -> {index or None}
        self.attrs = set()      # attributes of UriParse that may be None
        self.patterns = {}

    def pattern(self, t):
        """(function name, pattern) of a match object term"""
        if t[0] == 'call' and t[1][0] == 'g' and t[1][1] in ('re.match', 're.search', 're.fullmatch') and t[2]:
            return t[1][1][3:], self.const(t[2][0])
        if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('match', 'search', 'fullmatch'):
            c = self.const(t[1][1])
            if c is not None:
                return t[1][2], c
        return None

    def const(self, t):
        if isc(t) and isinstance(t[2], str):
            return t[2]
        if t[0] == 'call' and t[1] == ('g', 're.compile') and t[2]:
            return self.const(t[2][0])
        if t[0] == 'g':
            r = self.repo.resolve_abs(t[1])
            if r and r[0] == 'expr' and isinstance(r[1], ast.Call) and r[1].args and \
                    isinstance(r[1].args[0], ast.Constant):
                return r[1].args[0].value
        return None

    def info(self, pat):
        if pat not in self.patterns:
            try:
                self.patterns[pat] = optional_groups(pat)
            except re.error:
                self.patterns[pat] = (True, set())
        return self.patterns[pat]

    def maybe(self, t):
        """may the term be None"""
        if t == NONE:
            return True
        m = self.pattern(t)
        if m is not None:
            return m[0] != 'match' or self.info(m[1])[0]
        if t[0] == 'i' and isc(t[2]) and isinstance(t[2][2], int):
            b = t[1]
            if b[0] == 'call' and b[1][0] == 'a' and b[1][2] == 'groups' and not b[2]:
                m = self.pattern(b[1][1])
                return m is not None and t[2][2] + 1 in self.info(m[1])[1]
            if b[0] == 'r' and b[1] in self.rets:
                return t[2][2] in self.rets[b[1]]
            m = self.pattern(b)
            if m is not None:
                return t[2][2] in self.info(m[1])[1]
        if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'group' and len(t[2]) == 1 and isc(t[2][0]):
            m = self.pattern(t[1][1])
            return m is not None and t[2][0][2] in self.info(m[1])[1]
        if t[0] == 'r' and t[1] in self.rets:
            return None in self.rets[t[1]]
        if t[0] == 'a' and t[1] == SELF and t[2] in self.attrs:
            return True
        if t[0] == 'p' and t in getattr(self, 'params', ()):
            return True
        if t[0] == 'i' and t[1] in getattr(self, 'params', ()):
            return True
        return False


def known_present(I, t):
    """the facts of the path say that t is there"""
    f = I.facts
    if f.get(t) is True or f.get(('op', 'is', t, NONE)) is False:
        return True
    if t in I.eqs and isc(I.eqs[t]) and I.eqs[t] != NONE:
        return True
    for k, v in f.items():
        if v and k[0] == 'op' and k[1] in ('in',) and len(k) == 4 and k[2] == t and k[3] != NONE:
            return True
        if v and k[0] == 'op' and k[1] == 'isinstance' and k[2] == t:
            return True
    return False


@rules_for('C10', 'Nullness analysis of the URI parsers: the optional groups of the regular expressions and the '
           'components that a splitting function may return as None are tracked through every path to each '
           'use that needs a text; splits are checked for the number of parts they are taken to yield; the '
           'query codec is compared with its inverse.')
def c10(chk):
    repo = chk.repo
    chk.rule('C10.absent', 'a component that may be absent is only used as a text where it is known to be there', 25)
    chk.rule('C10.parts', 'a split is only taken apart into parts it is known to have', 5)
    chk.rule('C10.number', 'only a text known to be non-empty is turned into a number', 1)
    chk.rule('C10.key', 'a key of the query is only read where it is known to be there', 0)
    chk.rule('C10.decode', 'keys and values are decoded after the query was split, each once', 2)
    chk.rule('C10.items', 'every item of the query is decoded, with or without a value', 2)
    chk.rule('C10.encode', 'wherever text is produced the query is encoded', 2)
    nulls = Nulls(chk)
    names = [n for n in ('urisplit', 'split_authority', 'join_authority', 'uriunsplit', 'parse_query_string', 'urljoin',
                         'uri_from_parts') if repo.func(n, False)]
    opaque = {repo.func(n).short for n in names}
    seen = {}

    def use_hook(cons):
        def hook(I, t, how, node):
            t = I.resolve(t) if t[0] == 'obj' else t
            if how in ('int', 'float'):
                if isc(t) or t[0] == 'r':
                    return
                isd = any(v and k[0] == 'call' and k[1] == ('a', t, 'isdigit') for k, v in I.facts.items())
                tries = any(n.split('.')[-1] in ('ValueError', 'Exception', '*', 'BaseException')
                            for hs in I.try_stack for h in hs for n in h)
                ok = I.facts.get(t) is True or isd or tries and not nulls.maybe(t)
                note('C10.number', ok, cons, node, I, 'int() of %s, which may be empty or absent' % show(t))
                return
            if not nulls.maybe(t):
                return
            ok = known_present(I, t)
            note('C10.absent', ok, cons, node, I, '%s of %s, which may be absent' % (how, show(t)))
        return hook

    def note(rule, ok, cons, node, I, msg):
        chk.obligations[rule] += 1
        if not ok:
            f = I.stack[-1].func
            chk.bad(rule, f.short, msg, where='%s:%s (%s)' % (f.module.path, getattr(node, 'lineno', '?'), f.short))

    def item_hook(cons):
        def hook(I, b, i, node):
            if b[0] == 'call' and b[1][0] == 'a' and b[1][2] in SPLITS and isc(i) and isinstance(i[2], int) \
                    and i[2] not in (0, -1) and node is not None:
                need = i[2] + 1 if i[2] > 0 else -i[2]
                ok = enough(I.facts, b, need)
                note('C10.parts', ok, cons, node, I, 'part %d of %s, which may have fewer' % (i[2], show(b)))
            if isc(i) and isinstance(i[2], str) and b[0] == 'a' and b[2] in ('query', 'extras'):
                ok = I.facts.get(('op', 'in', i, b)) is True or any(
                    n.split('.')[-1] in ('KeyError', 'LookupError', 'Exception') for hs in I.try_stack for h in hs for n in h)
                note('C10.key', ok, cons, node, I, '%r is read from %s without being known to be there' % (i[2], show(b)))
        return hook

    def analyse(f, recv=SELF, **kw):
        ps = chk.run(f, recv=recv, exc='none', use_hook=use_hook(f.short), item_hook=item_hook(f.short),
                     attr_hook=None, **kw)
        for p in ps:
            for e in p.of('unpack', 'badunpack'):
                t = e.recv
                n = int(e.name)
                if t[0] == 'call' and t[1][0] == 'a' and t[1][2] in SPLITS and not e.raw:
                    facts = {g.recv: g.res for g in before(p, e) if g.kind == 'guard'}
                    sep = t[2][0] if t[2] else None
                    most = t[2][1] if len(t[2]) > 1 else dict(t[3]).get('maxsplit')
                    exact = most is not None and isc(most) and most[2] == n - 1
                    ok = n == 1 and exact or n == 2 and exact and facts.get(('op', 'in', sep, t[1][1])) is True or \
                        facts.get(('op', '==', ('op', 'len', t), C(n))) is True or \
                        any(x.kind == 'callraise' and x.node is e.node for q_ in ps for x in q_.events)
                    chk.must(ok, 'C10.parts', f, '%s is taken apart into %d parts it may not have' % (show(t), n), e, p)
                elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('partition', 'rpartition'):
                    chk.must(n == 3 or e.raw, 'C10.parts', f, 'a partition is taken apart into %d parts' % n, e, p)
            for e in p.of('icall', 'call'):
                if e.name and e.name.split('.')[-1] in ('parse_query_string', 'urisplit') and e.args:
                    facts = {g.recv: g.res for g in before(p, e) if g.kind == 'guard'}
                    fv = FactView(p)
                    fv.facts = facts
                    for t in e.args[:1]:
                        chk.must(not nulls.maybe(t) or known_present(fv, t), 'C10.absent', f,
                                 '%s(%s) where the argument may be absent' % (e.name, show(t)), e, p)
            if p.outcome == 'raise' and not f.node.args.vararg:
                chk.must(not (p.value[0] == 'exc' and p.value[1] in ('AttributeError', 'IndexError', 'ValueError',
                                                                    'TypeError')),
                         'C10.absent', f, 'the path ends in %s' % excname(p.value), None, p)
        return ps

    def summary(name, ps):
        """which parts of the result may be absent"""
        out = set()
        for p in ps:
            if p.outcome != 'return':
                continue
            v = p.value
            facts = FactView(p)
            xs = enumerate(v[1]) if v[0] in ('tuple', 'list') else [(None, v)]
            for i, x in xs:
                if nulls.maybe(x) and not known_present(facts, x):
                    out.add(i)
        nulls.rets[name] = out

    for n in ('urisplit', 'split_authority'):
        f = repo.func(n)
        nulls.params = {P(f.params()[0])} if n == 'split_authority' else set()
        ps = analyse(f, recv=None, opaque=opaque - {f.short})
        summary(n, ps)
        nulls.params = set()
    chk.assume.append('urisplit is given a text; split_authority may be given None')
    for n in ('uriunsplit', 'join_authority'):
        f = repo.func(n, False)
        if f is None:
            continue
        nulls.params = {P(f.params()[0])}
        nulls.params = set()
        items = set()
        src = P(f.params()[0])
        orig = nulls.maybe
        nulls.maybe = lambda t, src=src, orig=orig: (t[0] == 'i' and t[1] == src and isc(t[2])) or orig(t)
        analyse(f, recv=None, opaque=opaque - {f.short})
        del nulls.maybe
    f = repo.func('parse_query_string')
    qs = analyse(f, recv=None, opaque=opaque - {f.short}, unroll=2)
    codec(chk, f, qs)
    # the parse result
    up = repo.cls('UriParse')
    init = up.method('__init__')
    ps = analyse(init, types={SELF: up}, opaque=opaque)
    attrs = {}
    for p in ps:
        if p.outcome != 'return':
            continue
        facts = FactView(p)
        for (b, a), v in list(p.heap.items()):
            if b == SELF and isinstance(a, str) and isinstance(v, tuple):
                attrs.setdefault(a, False)
                if nulls.maybe(v) and not known_present(facts, v):
                    attrs[a] = True
    nulls.attrs = {a for a, m in attrs.items() if m}
    chk.sample('components that may be absent after parsing: %s' % ', '.join(sorted(nulls.attrs)))
    for n, g in sorted(up.methods.items()):
        if n == '__init__' or g.cls is not up:
            continue
        ps = analyse(g, types={SELF: up, P('other'): up}, opaque=opaque)
        for p in ps:
            if p.outcome == 'return':
                encoded(chk, g, p, ('a', SELF, 'query'), n == '__str__')
    f = repo.func('uri_from_parts')
    for p in analyse(f, recv=None, opaque=opaque - {f.short}):
        encoded(chk, f, p, ('i', P(f.params()[0]), C(3)), True)
    # the URI built from a text
    base = repo.cls('BaseUri')
    attrs = nulls.attrs
    orig = Nulls.maybe
    for c in repo.subclasses('BaseUri'):
        g = c.methods.get('__init__')
        if g is None or g.cls is not c:
            continue
        if not params(g):
            continue
        text = P(params(g)[0])
        ps = analyse(g, types={SELF: c}, inline_uri=True, attr_types={('BaseUri', 'parse_result'): 'UriParse'},
                     opaque=opaque | {init.short}, facts={('op', 'isinstance', text, ('cls', base)): False})
    nulls.maybe = lambda t: orig(nulls, t) or (t[0] == 'a' and t[1] == PR and t[2] in attrs)
    for c in repo.subclasses('BaseUri'):
        for n in ('get_connection', '_key', '_extras', '__str__', '__repr__', 'split', 'join', '__add__', 'last', 'splitext',
                  'basename'):
            g = c.methods.get(n)
            if g is None or g.cls is not c:
                continue
            analyse(g, types={SELF: c}, inline_uri=True, attr_types={('BaseUri', 'parse_result'): 'UriParse'},
                    opaque=opaque | {base.method('__init__').short, up.method('as_list').short, up.method('__str__').short,
                                     repo.method('ConnectionRegistry', 'get_connection').short})
        for n, gs in sorted(c.props.items()):
            if gs[0] is not None and gs[0].cls is c:
                analyse(gs[0], types={SELF: c}, inline_uri=True,
                        attr_types={('BaseUri', 'parse_result'): 'UriParse'}, opaque=opaque)
    del nulls.maybe
    # the scheme specific parsers
    for c in repo.classes():
        if c.module.name.endswith('uriparse'):
            for n in ('parse', 'parse_for', 'parser_for', 'scheme_of', 'info_of'):
                g = c.methods.get(n)
                if g is not None and g.cls is c:
                    analyse(g, types={SELF: c}, opaque=opaque)
    f = repo.func('urljoin', False)
    if f is not None:
        analyse(f, recv=None, opaque=opaque - {f.short}, unroll=1)


class FactView(object):
    """the facts at the end of a path"""
    def __init__(self, p):
        self.facts = dict(p.facts)
        self.eqs = {}
        for g in p.of('guard'):
            self.facts[g.recv] = g.res


def enough(facts, t, need):
    """the facts say that the list t has so many elements"""
    s, sep = t[1][1], t[2][0] if t[2] else None
    if need <= 2 and sep is not None and facts.get(('op', 'in', sep, s)) is True:
        return True
    ln = ('op', 'len', t)
    for k, v in facts.items():
        if k[0] != 'op' or len(k) != 4:
            continue
        if k[1] == '<' and k[3] == ln and isc(k[2]) and v and k[2][2] + 1 >= need:
            return True
        if k[1] == '<' and k[2] == ln and isc(k[3]) and not v and k[3][2] >= need:
            return True
        if k[1] == '==' and k[2] == ln and isc(k[3]) and v and k[3][2] >= need:
            return True
    return False


UNQUOTE = ('urllib.parse.unquote_plus', 'urllib.parse.unquote', 'urllib.unquote_plus')


def is_unquote(t):
    return t[0] == 'call' and t[1][0] == 'g' and t[1][1] in UNQUOTE


def strip_of(t):
    while t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('strip', 'lstrip', 'rstrip') and not t[2]:
        t = t[1][1]
    return t


def split_part(t):
    """(item, which part) of an item taken apart at '='"""
    t = strip_of(t)
    if t[0] == 'i' and isc(t[2]) and t[1][0] == 'call' and t[1][1][0] == 'a' and t[1][1][2] in (
            'partition', 'rpartition') + SPLITS and t[1][2][:1] == (C('='),):
        how = t[1][1][2]
        i = t[2][2]
        if how == 'partition':
            return t[1][1][1], {0: 'key', 2: 'value', -1: 'value', -3: 'key'}.get(i, 'separator')
        if how == 'split':
            return t[1][1][1], {0: 'key', 1: 'value', -1: 'value'}.get(i, '?')
        return t[1][1][1], 'reversed'
    return None


def codec(chk, f, ps):
    """parse_query_string"""
    query = P(f.params()[0])
    for p in ps:
        if p.outcome != 'return':
            continue
        v = p.value
        lib = [x for x in subterms(v) if x[0] == 'call' and x[1][0] == 'g' and x[1][1] in (
            'urllib.parse.parse_qsl', 'urllib.parse.parse_qs')]
        if lib:
            keep = dict(lib[0][3]).get('keep_blank_values') or (lib[0][2][1] if len(lib[0][2]) > 1 else None)
            chk.must(lib[0][1][1].endswith('qsl') and lib[0][2][0] == query, 'C10.decode', f,
                     'the query is decoded by %s' % show(lib[0]), None, p)
            chk.must(keep is not None and isc(keep) and bool(keep[2]), 'C10.items', f,
                     'items without a value are dropped', None, p)
            chk.ok('C10.decode', 2)
            chk.ok('C10.items', 2)
            continue
        if v[0] != 'dict':
            continue
        done = set()
        for k, w in v[1]:
            if isinstance(k, tuple) and k and k[0] in ('**', '-'):
                continue
            parts = {}
            for what, t in (('key', k), ('value', w)):
                if isc(t) and what == 'value' and t == C(''):
                    continue
                outer = is_unquote(t)
                inner = t[2][0] if outer and t[2] else t
                nested = any(is_unquote(x) for x in subterms(inner))
                chk.must(outer and t[1][1].endswith('unquote_plus'), 'C10.decode', f,
                         'a %s is stored as %s, not as the decoded component' % (what, show(t)), None, p)
                chk.must(not nested, 'C10.decode', f, 'a %s is decoded before it is split off' % what, None, p)
                sp = split_part(inner)
                if sp is not None:
                    chk.must(sp[1] == what, 'C10.decode', f, 'what is stored as %s is the %s' % (what, sp[1]), None, p)
                    done.add(sp[0])
                for x in subterms(inner):
                    if x[0] == 'elem':
                        done.add(x)
        els = set()
        for e in p.events:
            for x in [e.recv] + list(e.args or ()):
                if isinstance(x, tuple):
                    els |= {y for y in subterms(x) if y[0] == 'elem' and contains(y[1], query)}
        for x in els | {y for y in subterms(v) if y[0] == 'elem'}:
            absent = fact(p, x) is False or fact(p, ('op', '==', x, C(''))) is True or any(
                g.kind == 'guard' and not g.res and strip_of(g.recv) == x for g in p.events)
            chk.must(x in done or absent, 'C10.items', f, 'an item of the query is skipped', None, p)
        for b in p.of('loop'):
            if b.name == 'begin' and b.recv[0] == 'call' and b.recv[1][0] == 'a' and b.recv[1][2] in SPLITS:
                chk.must(b.recv[2][:1] == (C('&'),) and len(b.recv[2]) == 1, 'C10.items', f,
                         'the query is split by %s' % show(b.recv), b, p)


def encoded(chk, f, p, query, must_appear):
    """the query appears in the text only encoded, and it does appear"""
    t = p.value
    if t[0] in ('list', 'tuple', 'dict') or contains(t, ('g', 'NotImplemented')):
        return
    texts = list(subterms(t))
    if not any(x[0] == 'c' and isinstance(x[2], str) for x in texts) and t[0] != 'call':
        return
    hidden = []

    def walk(x, under):
        if not isinstance(x, tuple) or not x:
            return
        if isinstance(x[0], str):
            if x == query:
                hidden.append(under)
                return
            if x[0] == 'call' and x[1][0] == 'g' and x[1][1].split('.')[-1] in ('urlencode', 'quote_plus', 'quote'):
                name = x[1][1].split('.')[-1]
                kws = [k for k, _ in x[3]]
                for y in x[2]:
                    walk(y, under or (name, tuple(k for k in kws if k in ('doseq', 'safe'))))
                return
            if x[0] == 'call' and x[1] == ('g', 'repr'):
                return
            if x[0] == 'op' and x[1] == 'fmt' and f.name == '__repr__':
                return
        for y in x[1:] if isinstance(x[0], str) else x:
            walk(y, under)
    walk(t, None)
    for u in hidden:
        chk.must(u is not None and not u[1], 'C10.encode', f, 'the query is part of the text %s' % (
            'without being encoded' if u is None else 'encoded with %s' % ', '.join(u[1])), None, p)
    if must_appear and p.outcome == 'return':
        there = fact(p, query)
        if there is not False:
            chk.must(bool(hidden), 'C10.encode', f, 'the query is missing from the text', None, p)
