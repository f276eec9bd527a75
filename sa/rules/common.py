import ast
import textwrap
from ..check import *      # noqa
from ..check import (P, SELF, q, atoms, fact, before, derive, is_exc, excname, join_of)
from ..interp import Interp, Cfg, Ev, Ret, _pseudo, QUERIES, READS, URI_OPS, BACKEND_OPS
from ..terms import C, NONE, TRUE, FALSE, Not, show, subterms, noepoch, contains, root, isc
from ..repo import Broken, Func, ClassInfo, dotted, _flat


class Sub(object):
    """obligations shared by two properties: count only those of one"""
    def __init__(self, chk, prefix):
        self.chk = chk
        self.prefix = prefix
        self.repo = chk.repo
        self.run = chk.run
        self.thorough = chk.thorough

    def _n(self, rule):
        return rule if '.' in rule else self.prefix + rule

    def ok(self, rule, n=1):
        if self._n(rule).startswith(self.prefix):
            self.chk.ok(self._n(rule), n)

    def must(self, cond, rule, *a, **k):
        if self._n(rule).startswith(self.prefix):
            self.chk.must(cond, self._n(rule), *a, **k)
        return cond

    def bad(self, rule, *a, **k):
        if self._n(rule).startswith(self.prefix):
            self.chk.obligations[self._n(rule)] += 1
            self.chk.bad(self._n(rule), *a, **k)


def is_path_of(t, subj):
    """the operating system path of subj: subj.path, self._path(subj), str/fspath of it, subj itself"""
    t = noepoch(t)
    while True:
        if t == subj or t == ('a', subj, 'path'):
            return True
        if t[0] == 'call' and t[1][0] == 'g' and t[1][1] in (
                'str', 'os.fspath', 'os.path.normpath', 'pathlib.Path', 'os.fsencode', 'os.fsdecode') and len(t[2]) == 1:
            t = t[2][0]
            continue
        return False


def params(f):
    return [x for x in f.params() if x not in ('self', 'cls')]


def client(chk, module, src, env, name, **cfg):
    """all abstract paths of a piece of client code in the scope of module"""
    stmts = ast.parse(textwrap.dedent(src)).body

    def go(I):
        I.stack[-1].env.update(env)
        try:
            I.block(stmts)
        except Ret as r:
            return r.val
        return NONE
    return chk.run(go, thunk=_pseudo(module), name=name, **cfg)


def cut(t, names):
    """a part that t takes of something made of names"""
    for x in subterms(t):
        if x[0] == 'slice' and x[2:] not in ((NONE, NONE, NONE), (NONE, NONE, C(-1)), (C(0), NONE, NONE)) and contains(
                x[1], names):
            return x
    return None


def marks(p, name):
    """where the client called one of its own markers"""
    return [e for e in p.events if e.kind == 'call' and e.name == name]
