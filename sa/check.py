"""What the rules share: obligations, findings, evidence, the command line."""
import collections
import json
import os
import sys
import time
import traceback
import warnings

from .repo import Repo, Broken, Func
from .interp import Interp, Cfg, QUERIES
from .terms import C, NONE, TRUE, FALSE, show, subterms, noepoch, contains, root, isc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SELF = ('p', 'self')


def P(n):
    return ('p', n)


class Finding(object):
    def __init__(self, rule, construct, where, msg, trace=''):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.msg = msg
        self.trace = trace

    @property
    def key(self):
        return '%s @ %s' % (self.rule, self.construct)


class Check(object):
    """one run of the rules of one property"""

    def __init__(self, prop, repo, tier='quick'):
        self.prop = prop
        self.repo = repo
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.findings = {}
        self.obligations = collections.Counter()
        self.failed = collections.Counter()
        self.rules = {}
        self.needs = []
        self.functions = set()
        self.entries = set()
        self.paths_n = 0
        self.dropped = 0
        self.sites = collections.Counter()
        self.samples = []
        self.assume = []

    # -- rule book keeping ---------------------------------------------------
    def rule(self, name, text, least=1):
        self.rules[name] = text
        self.needs.append((name, least))

    def ok(self, rule, n=1):
        self.obligations[rule] += n

    def must(self, cond, rule, construct, msg, ev=None, path=None, where=None):
        """an obligation; construct names what is at fault"""
        self.obligations[rule] += 1
        if not cond:
            self.bad(rule, construct, msg, ev, path, where)
        return cond

    def bad(self, rule, construct, msg, ev=None, path=None, where=None):
        self.failed[rule] += 1
        if isinstance(construct, Func):
            where = where or '%s:%s (%s)' % (construct.module.path, construct.node.lineno,
                                             construct.short)
            construct = construct.short
        if ev is not None and ev.fn is not None:
            where = ev.where
        if where is None and path is not None:
            where = next((e.where for e in path.events if e.fn is not None), None)
        f = Finding(rule, construct, where or '?', msg, repr(path) if path is not None else '')
        old = self.findings.get(f.key)
        if old is None or (path is not None and len(f.trace) < len(old.trace)):
            self.findings[f.key] = f

    # -- analysis --------------------------------------------------------------
    def run(self, func, recv=SELF, decorated=False, thunk=None, args=None, kwargs=None, name=None,
            drop_ok=True, **cfg):
        if callable(cfg.get('setup')):
            pass
        t0 = time.time()
        I = Interp(self.repo, Cfg(**cfg))
        ps = I.paths(func, args=args, kwargs=kwargs, recv=recv, decorated=decorated, thunk=thunk)
        if os.environ.get('SA_TRACE'):
            print('  . %-50s %6d paths %6.1fs' % (getattr(func, 'short', name), len(ps), time.time() - t0),
                  file=sys.stderr)
        self.functions |= {getattr(f, 'qual', str(f)) for f in I.stats['functions']}
        self.entries.add(name or getattr(func, 'short', '?'))
        self.paths_n += len(ps)
        self.dropped += I.stats['dropped']
        for p in ps:
            for e in p.events:
                if e.kind in ('op', 'call', 'icall', 'rec', 'mut', 'setattr', 'newuri'):
                    self.sites[(e.kind, e.fn.short if e.fn else '?', getattr(e.node, 'lineno', 0))] += 1
        if ps and len(self.samples) < 6:
            p = max(ps[:40], key=lambda q: len(q.events))
            self.samples.append('%s: %s' % (
                getattr(func, 'short', name), ' ; '.join(
                    repr(e)[:120] for e in p.events if e.kind in (
                        'op', 'call', 'mut', 'raise', 'setattr', 'guard'))[:600]))
        if not ps:
            raise Broken('no path of %s is analysable' % (func,))
        return ps

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def finish(self):
        for name, least in self.needs:
            if self.obligations[name] < least and not self.findings:
                raise Broken('rule %s: %d instances found, %d expected' % (
                    name, self.obligations[name], least))


# -- helpers on paths -----------------------------------------------------------

def before(path, ev):
    return path.events[:ev.idx] if ev is not None else path.events


def q(path, name, subj, ev=None, first=False, args=()):
    """what the path knows about the query before ev: True, False or None"""
    subj = noepoch(subj)
    res = {}
    for e in before(path, ev):
        if e.kind == 'guard' and e.recv[0] == 'q' and noepoch(e.recv[2]) == subj:
            if first and e.recv[1] in res:
                continue
            res[e.recv[1]] = e.res
        elif e.kind == 'op' and e.name in QUERIES:
            pass
    return derive(res).get(name)


def derive(res):
    res = dict(res)
    if res.get('isdir') or res.get('isfile'):
        res.setdefault('exists', True)
    if res.get('isdir'):
        res.setdefault('isfile', False)
    if res.get('isfile'):
        res.setdefault('isdir', False)
    if res.get('exists') is False:
        res.setdefault('isdir', False)
        res.setdefault('isfile', False)
    return res


def atoms(path, subj, until=None):
    """first answers of the queries about subj"""
    subj = noepoch(subj)
    res = {}
    for e in before(path, until):
        if e.kind == 'guard' and e.recv[0] == 'q' and noepoch(e.recv[2]) == subj:
            res.setdefault(e.recv[1], e.res)
    return res


def fact(path, term, ev=None):
    """truth of term as guarded before ev"""
    r = None
    t = noepoch(term)
    for e in before(path, ev):
        if e.kind == 'guard' and noepoch(e.recv) == t:
            r = e.res
    return r


def excname(v):
    if v is None:
        return None
    if v[0] == 'exc':
        return getattr(v[1], 'name', v[1])
    return None


def is_exc(v, name):
    """does the raised value belong to the (in-repo or builtin) class"""
    if v is None or v[0] != 'exc':
        return False
    c = v[1]
    if hasattr(c, 'mro'):
        return any(x.name == name for x in c.mro()) or name in c.ext_bases()
    from .interp import EXC_ALIASES, BUILTIN_EXC
    c = EXC_ALIASES.get(c, c)
    name = EXC_ALIASES.get(name, name)
    if c == name:
        return True
    if isinstance(c, str) and c in BUILTIN_EXC and name in BUILTIN_EXC:
        return issubclass(BUILTIN_EXC[c], BUILTIN_EXC[name])
    return False


def join_of(a, b):
    return ('u', 'join', a, (b,))


# -- known findings -----------------------------------------------------------------

def known_findings():
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property='):
                head, _, text = line[len('known: property='):].partition(' ')
                key, _, what = text.partition(' :: ')
                out.setdefault(head, {})[key.strip()] = what.strip()
    return out


# -- driver --------------------------------------------------------------------------

def registry():
    from . import rules
    return rules.REGISTRY


def analyse(prop, repo, tier='quick'):
    chk = Check(prop, repo, tier)
    broken = None
    for fn in registry()[prop][1]:
        try:
            fn(chk)
        except Broken as e:
            # what is found elsewhere is found all the same
            broken = broken or e
    known = known_findings().get(prop, {})
    if broken is not None and not [k for k in chk.findings if k not in known]:
        raise broken
    if broken is not None:
        chk.assume.append('not analysed further: %s' % broken)
        return chk
    chk.finish()
    return chk


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(60000)
    t0 = time.time()
    try:
        repo = Repo()
        chk = analyse(a.prop, repo, a.tier)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % a.prop)
        return 2
    known = known_findings().get(a.prop, {})
    new = [f for k, f in chk.findings.items() if k not in known]
    old = [f for k, f in chk.findings.items() if k in known]
    if not a.no_evidence:
        evidence(chk, a, repo, time.time() - t0, new, old)
    print('property=%s tier=%s: %d obligations of %d rules, %d entry points, %d functions, '
          '%d abstract paths, %d call sites, %.1fs' % (
              a.prop, a.tier, sum(chk.obligations.values()), len(chk.rules), len(chk.entries),
              len(chk.functions), chk.paths_n, len(chk.sites), time.time() - t0))
    for name in chk.rules:
        print('  rule %-28s %5d obligations, %d failed' % (name, chk.obligations[name],
                                                          chk.failed[name]))
    for f in old:
        print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, f.key, known[f.key]))
    for f in new:
        rp = write_replay(a.prop, f)
        print('%s: rule %s: %s' % (f.where, f.rule, f.msg))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
    return 1 if new else 0


def write_replay(prop, f):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    n = len([x for x in os.listdir(d) if x.startswith(prop + '-')])
    import hashlib
    rp = os.path.join(d, '%s-%s.txt' % (prop, hashlib.sha1(f.key.encode()).hexdigest()[:10]))
    with open(rp, 'w', encoding='utf-8') as out:
        out.write('property %s\nrule %s\nconstruct %s\nat %s\n%s\n\n%s\n' % (
            prop, f.rule, f.construct, f.where, f.msg, f.trace))
    return rp


def evidence(chk, a, repo, wall, new, old):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    data = {
        'property': chk.prop,
        'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': registry()[chk.prop][0] + ' Decided from the source read on this run; '
            'nothing of the package is imported or executed.',
            'rules': {n: {'rule': t, 'obligations': chk.obligations[n], 'failed': chk.failed[n]}
                      for n, t in chk.rules.items()},
            'obligations': sum(chk.obligations.values()),
            'discharged': sum(chk.obligations.values()) - sum(chk.failed.values()),
            'entry_points': sorted(chk.entries),
            'functions_analysed': sorted(chk.functions),
            'abstract_paths': chk.paths_n,
            'paths_beyond_unrolling': chk.dropped,
            'call_sites': len(chk.sites),
            'modules': {m.path: len(m.src.splitlines()) for m in repo.modules.values()},
            'source_digest': repo.digest.hexdigest(),
            'samples': chk.samples,
            'findings': [{'rule': f.rule, 'construct': f.construct, 'where': f.where, 'what': f.msg}
                         for f in new + old],
        },
        'assumptions': chk.assume,
        'wall_s': round(wall, 3),
        'violations': len(new),
    }
    tmp = os.path.join(d, '%s.json.%d' % (chk.prop, os.getpid()))
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(data, f, indent=1, sort_keys=True)
    os.replace(tmp, os.path.join(d, chk.prop + '.json'))
