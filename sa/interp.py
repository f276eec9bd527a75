"""
Path-sensitive abstract interpretation of functions of the analysed package.

The interpreter walks the syntax tree of a function (and, in line, of every
helper of the package it calls) over abstract terms.  Branch conditions that
the abstract facts do not settle split the analysis (trace partitioning); each
partition yields an ordered trace of effects (calls, stores, guards, enters,
exits, raises, yields).  Iterables are abstracted to `unroll` summary elements.
There is no solver and nothing is executed: a condition is either settled by a
fact collected on the way, or both branches are analysed.
"""
import ast
import builtins
import stat as _stat

from .repo import Func, ClassInfo, Module, Broken, dotted
from .terms import C, NONE, TRUE, FALSE, Not, isc, show, subterms

# operations of a URI / a backend that the rules treat as atoms
URI_OPS = {'copy', 'copystat', 'move', 'remove', 'open', 'makedirs', 'mkdir', 'exists',
           'isfile', 'isdir', 'isexec', 'set_exec', 'islink', 'readlink', 'symlink',
           'mtime', 'walk', 'listdir', 'info', 'sync', 'glob', 'md5', 'lock',
           '_manipulate', 'switch', 'update', 'log', 'log_by_time'}
BACKEND_OPS = (URI_OPS - {'remove', 'md5'}) | {'removefile', 'removedir', 'pre_call_hook',
                                              'close', 'supports_symlinks', 'dump'}
QUERIES = {'exists', 'isfile', 'isdir', 'isexec', 'islink', 'supports_symlinks'}
READS = QUERIES | {'readlink', 'mtime', 'walk', 'listdir', 'glob', 'md5', 'log',
                   'log_by_time', 'pre_call_hook', 'get_connection'}
URI_PURE = {'join', 'split', 'directory', 'dirname', 'basename', 'splitext', 'last',
            '_extras', '_key'}
URI_PROPS = {'path', 'unipath', 'scheme', 'port', 'is_absolute'}
PARSE_ATTRS = {'query', 'hostname', 'authority', 'netloc', 'fragment', 'vpath_connector'}

STR_METHODS = {'startswith', 'endswith', 'split', 'rsplit', 'partition', 'rpartition', 'strip',
               'lstrip', 'rstrip', 'replace', 'join', 'format', 'encode', 'decode', 'lower',
               'upper', 'find', 'rfind', 'index', 'rindex', 'count', 'splitlines', 'title',
               'isdigit', 'isalpha', 'removeprefix', 'removesuffix', 'casefold', 'zfill',
               'tell', 'getvalue', 'hexdigest', 'groups', 'group', 'start', 'end', 'span', 'namelist',
               'isalnum', 'swapcase', 'is_alive', 'total_seconds', 'fileno', 'union',
               'intersection', 'difference', 'issubset', 'issuperset'}
DICT_READS = {'get', 'items', 'keys', 'values', 'copy', '__contains__', '__len__', '__getitem__'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'add', 'discard',
            'setdefault', 'sort', 'reverse', 'popitem', '__setitem__', '__delitem__',
            'appendleft', 'popleft'}
PURE_CALLS = {'len', 'str', 'repr', 'int', 'float', 'sorted', 'list', 'tuple', 'set', 'dict',
              'frozenset', 'bool', 'isinstance', 'issubclass', 'getattr', 'hasattr', 'min', 'max',
              'sum', 'abs', 'ord', 'chr', 'bytes', 'callable', 'type', 'id', 'hash', 'range',
              'enumerate', 'zip', 'map', 'filter', 'reversed', 'format', 'divmod', 'round',
              'any', 'all', 'iter', 'vars', 'dir'}
PURE_PREFIXES = ('os.path.', 'posixpath.', 'ntpath.', 're.', 'fnmatch.', 'stat.', 'urllib.parse.',
                 'operator.', 'itertools.', 'functools.', 'datetime.', 'sys.getfilesystem',
                 'os.fspath', 'os.fsdecode', 'os.fsencode', 'copy.', 'mimetypes.', 'string.', 'math.')
OS_QUERIES = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'os.path.islink',
              'os.path.lexists', 'os.path.getmtime', 'os.path.getsize', 'os.access',
              'os.path.samefile', 'os.path.realpath', 'os.path.abspath', 'os.getcwd',
              'os.path.ismount'}
QUIET = ('logging.', 'print', 'traceback.', 'time.time', 'time.sleep', 'warnings.', 'sys.exc_info')
LOG_METHODS = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}

BUILTIN_EXC = {n: v for n, v in vars(builtins).items()
               if isinstance(v, type) and issubclass(v, BaseException)}
EXC_ALIASES = {'OSError': 'OSError', 'IOError': 'OSError', 'EnvironmentError': 'OSError',
               'os.error': 'OSError', 'WindowsError': 'OSError', 'shutil.SameFileError': 'OSError',
               'shutil.Error': 'OSError'}


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Rse(Exception):
    def __init__(self, exc):
        self.exc = exc


class GenClosed(Exception):
    """the consumer of an inlined generator stopped; carries what it did"""
    def __init__(self, cause):
        self.cause = cause


class Drop(BaseException):
    """the current path needs more loop iterations than are analysed"""


class Ev(object):
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'res', 'node', 'fn', 'stack',
                 'raw', 'idx', 'guarded')

    def __init__(self, kind, name=None, recv=None, args=(), kw=(), res=None, raw=None):
        self.kind = kind
        self.name = name
        self.recv = recv
        self.args = args
        self.kw = kw
        self.res = res
        self.raw = raw

    @property
    def where(self):
        f = self.fn
        return '%s:%s (%s)' % (f.module.path, getattr(self.node, 'lineno', '?'), f.short)

    def __repr__(self):
        r = '%s ' % show(self.recv) if self.recv else ''
        return '%s %s%s(%s)' % (self.kind, r, self.name, ', '.join(
            [show(a) for a in self.args] + ['%s=%s' % (k, show(v)) for k, v in self.kw]))


class Path(object):
    def __init__(self, events, outcome, value, facts, heap, interp):
        self.events = events
        self.outcome = outcome      # 'return' | 'raise'
        self.value = value
        self.facts = facts
        self.heap = heap
        self.exc_ev = None

    def of(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def ops(self, *names):
        return [e for e in self.events if e.kind == 'op' and (not names or e.name in names)]

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and (not names or e.name in names)]

    def guards(self, before=None):
        return [(e.recv, e.res) for e in self.events
                if e.kind == 'guard' and (before is None or e.idx < before.idx)]

    def __repr__(self):
        return '\n'.join('   %r%s' % (e, ' -> %s' % e.res if e.kind == 'guard' else '')
                         for e in self.events) + '\n => %s %s' % (
                             self.outcome, show(self.value) if self.value else '')


class Frame(object):
    def __init__(self, func, env, outer=None, recv=None):
        self.func = func
        self.env = env
        self.outer = outer
        self.recv = recv
        self.globals_ = set()
        self.nonlocals = set()
        self.yield_cb = None


class Cfg(object):
    def __init__(self, types=None, unroll=1, exc='try', inline_self_ops=False, opaque=(),
                 inline_uri=False, inline_props=False, max_paths=60000, facts=None, attr_types=None,
                 split_calls=(), new_types=None, opaque_fn=None,
                 type_hook=None, attr_hook=None, item_hook=None, rec_hook=None, truth_hook=None,
                 use_hook=None, inline_eq=False, inline_ops=(), recurse=0, count_hook=None, table_hook=None):
        self.types = dict(types or {})
        self.unroll = unroll
        self.exc = exc
        self.inline_self_ops = inline_self_ops
        self.inline_uri = inline_uri
        self.inline_props = inline_props
        self.opaque = set(opaque)
        self.max_paths = max_paths
        self.facts = dict(facts or {})
        self.attr_types = dict(attr_types or {})
        self.opaque_fn = opaque_fn
        self.type_hook = type_hook
        self.attr_hook = attr_hook
        self.item_hook = item_hook
        self.rec_hook = rec_hook
        self.truth_hook = truth_hook
        self.use_hook = use_hook
        self.inline_eq = inline_eq
        self.inline_ops = frozenset(inline_ops)
        self.table_hook = table_hook    # tables whose get() is a choice between an entry and the default
        self.count_hook = count_hook    # how many entries a list has
        self.recurse = recurse      # how many nested calls of one function are analysed in line


def mentions(t, container):
    """t depends on what container holds (an entry taken out of it does not)"""
    if t == container:
        return True
    if not isinstance(t, tuple) or (t and t[0] == 'elem' and t[1] == container):
        return False
    return any(mentions(x, container) for x in t)


def key_of(t):
    return show(t)


class Interp(object):

    def __init__(self, repo, cfg=None):
        self.repo = repo
        self.cfg = cfg or Cfg()
        self.uri = repo.cls('BaseUri')
        self.backend = repo.cls('FileSystem')
        self.stats = {'paths': 0, 'dropped': 0, 'functions': set(), 'calls': set()}

    # ------------------------------------------------------------------ driver
    def paths(self, func, args=None, kwargs=None, recv=None, decorated=False, thunk=None):
        """all abstract paths of a call of func"""
        out = []
        prefix = []
        runs = 0
        while True:
            self._reset(prefix)
            runs += 1
            if runs > self.cfg.max_paths:
                raise Broken('more than %d paths in %s' % (self.cfg.max_paths, func))
            try:
                p = self._one(func, args, kwargs, recv, decorated, thunk)
                out.append(p)
            except Drop:
                self.stats['dropped'] += 1
            except RecursionError:
                raise Broken('analysis of %s does not terminate' % (func,))
            tr = self.trail
            while tr and tr[-1][0] + 1 >= tr[-1][1]:
                tr.pop()
            if not tr:
                break
            tr[-1] = (tr[-1][0] + 1, tr[-1][1])
            prefix = [c for c, _ in tr]
        self.stats['paths'] += len(out)
        return out

    def _reset(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.events = []
        self.facts = dict(self.cfg.facts)
        self.eqs = {}
        self.asked = 0
        self.counts = {}
        self.kept = {}      # what is left in a list after it was changed
        self.heap = {}
        self.objs = {}
        self.clos = []
        self.gens = []
        self.seq = 0
        self.epoch = 0
        self.stack = []
        self.try_stack = []
        self.cur_exc = []
        self.cur_node = None
        self.havocs = 0
        self.aliases = {}
        self.depth = 0

    def _one(self, func, args, kwargs, recv, decorated, thunk):
        if thunk is not None:
            fr = Frame(thunk, {}, None)
            self.stack.append(fr)
        try:
            try:
                if thunk is not None:
                    v = func(self)
                elif decorated:
                    v = self.call_decorated(func, recv, args, kwargs)
                else:
                    v = self.call_func(func, args, kwargs or [], recv, entry=True)
                v = self._drive(v)
                out = ('return', v)
            except Rse as r:
                out = ('raise', r.exc)
        finally:
            self.stack = []
        for i, e in enumerate(self.events):
            e.idx = i
        p = Path(self.events, out[0], self.resolve(out[1]), dict(self.facts), dict(self.heap), self)
        p.rawvalue = out[1]
        return p

    def _drive(self, v):
        """an entry that returns a generator is exhausted by its caller"""
        if v is not None and v[0] == 'gen':
            self.run_gen(v, lambda x: self.on_yield(x))
            return NONE
        return v

    def choose(self, n):
        i = len(self.trail)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trail.append((c, n))
        return c

    def fresh(self):
        self.seq += 1
        return self.seq

    def emit(self, ev, node=None):
        ev.node = node if node is not None else self.cur_node
        ev.fn = self.stack[-1].func if self.stack else None
        ev.stack = tuple(f.func for f in self.stack)
        ev.idx = len(self.events)
        self.events.append(ev)
        return ev

    # ------------------------------------------------------------------ types
    def typeof(self, t):
        k = t[0]
        if t in self.cfg.types:
            c = self.cfg.types[t]
            return self.repo.cls(c) if isinstance(c, str) else c
        if k == 'new':
            return t[1]
        if k == 'newuri':
            return self.typeof(t[1]) or self.uri
        if k == 'u':
            if t[1] in ('join', 'directory', 'dirname', 'add'):
                return self.typeof(t[2])
            return None
        if k == 'i':
            b = t[1]
            if b[0] == 'u' and b[1] == 'split' and t[2] == C(0):
                return self.typeof(b[2])
            if b[0] == 'elem' and t[2] == C(0) and b[1][0] == 'r' and b[1][1] == 'walk':
                return self.uri
        if k == 'elem' and t[1][0] == 'r' and t[1][1] == 'glob':
            return self.uri
        if k == 'a':
            bt = self.typeof(t[1])
            if bt is not None and bt.isa('BaseUri') and t[2] == 'connection':
                return self.backend
            for c in (bt.mro() if bt else ()):
                x = self.cfg.attr_types.get((c.name, t[2]))
                if x:
                    return self.repo.cls(x)
        if k == 'r':
            if t[1] == 'get_connection':
                return self.backend
            if t[1] in ('readlink', 'makedirs'):
                return self.uri
        if k == 'g' and t[1].startswith('abl.vpath.'):
            r = self.repo.resolve_abs(t[1])
            if r and r[0] == 'expr' and isinstance(r[1], ast.Call):
                d = dotted(r[1].func)
                k2 = d and self.repo.resolve(r[3], d)
                if k2 and k2[0] == 'class':
                    return k2[1]
        if self.cfg.type_hook is not None:
            return self.cfg.type_hook(self, t)
        return None

    def is_uri(self, t):
        c = self.typeof(t)
        return c is not None and c.isa('BaseUri')

    def is_backend(self, t):
        c = self.typeof(t)
        return c is not None and c.isa('FileSystem')

    # ------------------------------------------------------------------ facts
    def resolve(self, t):
        """contents instead of identities, as of now"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'obj':
            o = self.objs[t[2]]
            if o['kind'] == 'dict':
                return ('dict', tuple((self.resolve(a), self.resolve(b)) for a, b in o['items'])) \
                    if o['items'] is not None else t
            if o['items'] is None:
                return o['base']
            return (o['kind'], tuple(self.resolve(x) for x in o['items']))
        if t[0] in ('c', 'p', 'g', 'fn', 'impl', 'cls', 'mod', 'new', 'clo', 'gen', 'exc?'):
            return t
        return tuple(self.resolve(x) if isinstance(x, tuple) else x for x in t)

    def static_truth(self, t):
        k = t[0]
        if k == 'c':
            return bool(t[2])
        if k in ('tuple', 'list', 'set', 'dict'):
            return bool(t[1])
        if k == 'obj':
            o = self.objs[t[2]]
            if o['items'] is not None:
                return bool(o['items'])
            return self.static_truth(o['base']) if o['base'] else None
        if k in ('fn', 'impl', 'bm', 'clo', 'cls', 'mod', 'partial', 'gen', 'exc', 'cm'):
            return True
        if k == 'op' and t[1] == 'fmt' and len(t) > 3 and isc(t[2]):
            return True if isinstance(t[2][2], str) and t[2][2].strip('%sdr{}') else None
        if k == 'new':
            return None if (t[1].find('__len__') or t[1].find('__bool__')) else True
        if k in ('newuri',):
            return True
        c = self.typeof(t)
        if c is not None and (c.isa('BaseUri') or c.isa('FileSystem')) and k != 'a':
            return True
        if t in self.counts:
            return self.counts[t] > 0
        b = self.base_iter(t)
        if b is not t and b in self.counts:
            return self.counts[b] > 0
        if k == 'call' and t[1][0] == 'a' and t[1][2] == 'acquire' and t[2] in ((), (TRUE,)) and (
                not t[3] or t[3] == (('blocking', TRUE),)):
            return True     # waiting for a lock ends with having it
        if self.cfg.truth_hook is not None:
            return self.cfg.truth_hook(self, t)
        return None

    def known(self, t):
        """truth of a positive atom, from facts"""
        if t in self.facts:
            return self.facts[t]
        k = t[0]
        if k == 'op' and t[1] == 'is' and t[3] == NONE:
            if self.facts.get(t[2]) is True:
                return False
            if t[2] in self.eqs:
                return self.eqs[t[2]] == NONE
        if k == 'op' and t[1] == '==' and (isc(t[3]) or t[3][0] == 'g') and t[2] in self.eqs:
            v = self.eqs[t[2]]
            if isc(v) and isc(t[3]) or v == t[3]:
                return v == t[3]
        if k == 'op' and t[1] == '==' and t[3] == C('') and self.facts.get(t[2]) is True:
            return False
        if k == 'op' and t[1] == '<' and isc(t[2]) and t[2][2] == 0 and self.facts.get(t[3]) is False:
            return False
        if t in self.eqs and isc(self.eqs[t]):
            return bool(self.eqs[t][2])
        if self.facts.get(('op', 'is', t, NONE)) is True:
            return False
        if k == 'q':
            f = self.facts
            def q(n):
                return f.get(('q', n) + t[2:])
            if t[1] == 'exists':
                if q('isdir') or q('isfile'):
                    return True
            elif t[1] == 'isdir':
                if q('isfile') or q('exists') is False:
                    return False
            elif t[1] == 'isfile':
                if q('isdir') or q('exists') is False:
                    return False
        return None

    def decide(self, t, node=None):
        neg = False
        while t[0] == 'op' and t[1] == 'not':
            t, neg = t[2], not neg
        v = self.static_truth(t)
        if v is None:
            t = self.resolve(t)
            v = self.static_truth(t)
        if v is None:
            self.asked += 1
            v = self.known(t)
            if v is None:
                v = self.choose(2) == 0
                self.learn(t, v)
            self.emit(Ev('guard', None, recv=t, res=v), node)
        return v != neg

    def learn(self, t, v):
        self.facts[t] = v
        if t[0] == 'op' and t[1] == '==' and v and (isc(t[3]) or t[3][0] == 'g'):
            self.eqs[t[2]] = t[3]
        if t[0] == 'op' and t[1] == 'is' and v and t[3] == NONE:
            self.eqs[t[2]] = NONE
            self.facts[t[2]] = False

    def bump(self):
        self.epoch += 1

    # ------------------------------------------------------------------ heap
    def new_obj(self, kind, items, base=None):
        i = self.fresh()
        self.objs[i] = {'kind': kind, 'items': items, 'base': base}
        return ('obj', kind, i)

    def obj(self, t):
        return self.objs[t[2]] if t[0] == 'obj' else None

    # ------------------------------------------------------------------ names
    def load_name(self, name, node):
        fr = self.stack[-1]
        f = fr
        while f is not None:
            if name in f.env and name not in f.globals_:
                return f.env[name]
            f = f.outer
        return self.global_name(fr.func.module, name)

    def global_name(self, module, name):
        gk = ('g', module.name + '.' + name)
        if gk in self.heap:
            return self.heap[gk]
        r = self.repo.resolve(module, name)
        return self.from_res(r, name)

    def from_res(self, r, name):
        if r is None:
            return ('g', '?' + name)
        if r[0] == 'func':
            return ('fn', r[1])
        if r[0] == 'class':
            return ('cls', r[1])
        if r[0] == 'module':
            return ('mod', r[1])
        if r[0] == 'expr':
            node, count, module, n = r[1:]
            if count == 1:
                v = self.const_expr(node, module)
                if v is not None:
                    return v
            return ('g', module.name + '.' + n)
        d = r[1]
        if d.startswith('__builtin__.'):
            d = d[12:]
        return self.ext(d)

    def ext(self, d):
        if d in ('True', 'False', 'None'):
            return C({'True': True, 'False': False, 'None': None}[d])
        if d.startswith('builtins.'):
            d = d[9:]
        if d.startswith('stat.') and isinstance(getattr(_stat, d[5:], None), int):
            return C(getattr(_stat, d[5:]))
        if d == 'io.open':
            d = 'open'
        if d in ('posixpath.join',):
            d = 'os.path.join'
        return ('g', d)

    def const_expr(self, node, module, cls=None):
        """value of a module or class level expression without effects"""
        for n in ast.walk(node):
            if not isinstance(n, (ast.Constant, ast.Name, ast.Attribute, ast.BinOp, ast.Tuple,
                                  ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context,
                                  ast.Lambda, ast.arguments, ast.arg)):
                if isinstance(n, (ast.Set, ast.List)) and all(
                        isinstance(x, (ast.Constant, ast.Attribute, ast.Name)) for x in n.elts):
                    continue
                if isinstance(n, ast.Call) and dotted(n.func) in ('frozenset', 'tuple'):
                    continue
                return None
        if isinstance(node, (ast.Set, ast.List)):
            return None
        fr = Frame(_pseudo(module), {}, None)
        if cls is not None:
            # class body scope: sibling attributes
            for n in ast.walk(node):
                if isinstance(n, ast.Name) and n.id in cls.attrs and cls.attrs[n.id] is not node:
                    v = self.const_expr(cls.attrs[n.id], module, cls)
                    if v is not None:
                        fr.env[n.id] = v
        self.stack.append(fr)
        save = self.cur_node
        try:
            return self.ev(node)
        except (Rse, Drop):
            return None
        finally:
            self.cur_node = save
            self.stack.pop()

    # ------------------------------------------------------------------ statements
    def block(self, stmts):
        for st in stmts:
            self.cur_node = st
            self.stmt(st)

    def stmt(self, st):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Broken('statement %s not supported (%s:%s)' % (
                type(st).__name__, self.stack[-1].func.module.path, st.lineno))
        return m(st)

    def s_Expr(self, st):
        self.ev(st.value)

    def s_Pass(self, st):
        pass

    def s_Import(self, st):
        for a in st.names:
            if a.asname:
                self.stack[-1].env[a.asname] = self.from_res(self.repo.resolve_abs(a.name), a.name)
            else:
                top = a.name.split('.')[0]
                self.stack[-1].env[top] = self.from_res(self.repo.resolve_abs(top), top)

    def s_ImportFrom(self, st):
        base = st.module or ''
        if st.level:
            parts = self.stack[-1].func.module.name.split('.')
            parts = parts[:-st.level] if not self.stack[-1].func.module.path.endswith('__init__.py') \
                else parts[:len(parts) - st.level + 1]
            base = '.'.join(parts + ([st.module] if st.module else []))
        for a in st.names:
            self.stack[-1].env[a.asname or a.name] = self.from_res(
                self.repo.resolve_abs(base + '.' + a.name), a.name)

    def s_Global(self, st):
        self.stack[-1].globals_.update(st.names)

    def s_Nonlocal(self, st):
        self.stack[-1].nonlocals.update(st.names)

    def s_FunctionDef(self, st):
        f = Func(st, self.stack[-1].func.module, None)
        f.qual = self.stack[-1].func.qual + '.' + st.name
        v = self.closure(f)
        for d in reversed(st.decorator_list):
            dv = self.ev(d)
            if dv[0] == 'g' and (dv[1].startswith('functools.') or dv[1].startswith('contextlib.')):
                continue    # wraps() keeps behaviour, contextmanager is looked at when entered
            if dv[0] == 'call' and dv[1][0] == 'g' and dv[1][1].startswith('functools.'):
                continue
            v = self.call(dv, [v], [], d)
        self.store_name(st.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, st):
        self.store_name(st.name, ('unk', 'class ' + st.name))

    def closure(self, f):
        self.clos.append((f, self.stack[-1]))
        return ('clo', len(self.clos) - 1)

    def s_Return(self, st):
        v = self.ev(st.value) if st.value is not None else NONE
        raise Ret(v)

    def s_Break(self, st):
        raise Brk()

    def s_Continue(self, st):
        raise Cnt()

    def s_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value))

    def s_AugAssign(self, st):
        load = ast.copy_location(_as_load(st.target), st.target)
        cur = self.ev(load)
        val = self.ev(st.value)
        o = self.obj(cur)
        if o is not None and isinstance(st.op, ast.Add) and o['kind'] == 'list':
            self.container_method(cur, 'extend', [val], [], st)
            return
        if o is not None and isinstance(st.op, ast.BitOr):
            self.container_method(cur, 'update', [val], [], st)
            return
        self.assign(st.target, self.binop(type(st.op).__name__, cur, val, st))

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.stack[-1].env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                i = self.ev_index(t.slice)
                self.delitem(b, i, t)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value)
                self.emit(Ev('delattr', t.attr, recv=self.resolve(b)), t)
                self.heap.pop((b, t.attr), None)

    def delitem(self, b, i, node):
        o = self.obj(b)
        if o is not None and o['items'] is not None:
            if o['kind'] == 'dict':
                o['items'] = [(k, v) for k, v in o['items'] if k != i]
            elif isc(i) and isinstance(i[2], int) and -len(o['items']) <= i[2] < len(o['items']):
                del o['items'][i[2]]
            elif i[0] == 'slice3' and i[1:] == (NONE, NONE, NONE):
                o['items'] = []
        if self.cfg.item_hook is not None and o is None:
            self.cfg.item_hook(self, self.resolve(b), self.resolve(i), node)
        self.emit(Ev('delitem', None, recv=self.resolve(b), args=(self.resolve(i),), raw=b), node)
        self.touch(b)
        self.maybe_raise('delitem', node, lookup=True)

    def touch(self, container):
        """facts about a container do not survive its modification"""
        for t in list(self.facts):
            if t[0] == 'op' and mentions(t, container):
                del self.facts[t]

    def s_If(self, st):
        if self.cond(st.test):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def cond(self, node):
        """truth of an expression, short-circuiting without building values"""
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            for v in node.values:
                if self.cond(v) != isand:
                    return not isand
            return isand
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.cond(node.operand)
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            return self.decide(self.ev(node), node)
        return self.decide(self.ev(node), node)

    def s_Assert(self, st):
        if not self.cond(st.test):
            self.raise_(('exc', 'AssertionError', (), self.fresh()), st)

    def s_Raise(self, st):
        if st.exc is None:
            if self.cur_exc:
                self.emit(Ev('raise', 'reraise', args=(self.cur_exc[-1],)), st)
                raise Rse(self.cur_exc[-1])
            raise Rse(('exc', 'RuntimeError', (), self.fresh()))
        e = self.ev(st.exc)
        if e[0] in ('exc', 'exc?'):
            self.raise_(e, st)
        if e[0] == 'cls' or e[0] == 'g':
            e = self.make_exc(e, [])
        elif e[0] not in ('exc', 'exc?'):
            c = self.typeof(e)
            e = ('exc', c if c else e, (), self.fresh())
        self.raise_(e, st)

    def raise_(self, e, node):
        self.emit(Ev('raise', 'raise', args=(self.resolve(e),)), node)
        raise Rse(self.resolve(e))

    def make_exc(self, cls, args):
        name = cls[1]
        if cls[0] == 'g':
            name = EXC_ALIASES.get(name, name)
        return ('exc', name, tuple(self.resolve(a) for a in args), self.fresh())

    # -- exceptions ------------------------------------------------------------
    def exc_matches(self, exc, handler):
        """True/False/None(unknown): is exc an instance of the handler type"""
        hn = handler[1] if handler[0] in ('g', 'cls') else None
        if hn is None:
            return None
        if isinstance(hn, str):
            hn = EXC_ALIASES.get(hn, hn)
        if exc[0] == 'exc?':
            if hn in ('BaseException', 'Exception'):
                return True
            for h, v in self.exc_facts(exc):
                if h == hn:
                    return v
            return None
        en = exc[1]
        if isinstance(en, ClassInfo):
            if isinstance(hn, ClassInfo):
                return hn in en.mro()
            ext = []
            for b in en.ext_bases():
                ext += [c.__name__ for c in BUILTIN_EXC[b].__mro__] if b in BUILTIN_EXC else [b]
            return hn in ext or hn in ('Exception', 'BaseException')
        if isinstance(en, str):
            if isinstance(hn, ClassInfo):
                return False
            if en in BUILTIN_EXC and hn in BUILTIN_EXC:
                return issubclass(BUILTIN_EXC[en], BUILTIN_EXC[hn])
            if en == hn:
                return True
            if hn in ('Exception', 'BaseException'):
                return True
            return False if en in BUILTIN_EXC or hn in BUILTIN_EXC else None
        if hn in ('Exception', 'BaseException'):
            return True
        return None     # class held in a variable

    def exc_facts(self, exc):
        return [(k[2], v) for k, v in self.facts.items()
                if k[0] == 'excis' and k[1] == exc]

    def handler_types(self, h):
        if h.type is None:
            return [('g', 'BaseException')]
        t = self.ev(h.type)
        if t[0] == 'tuple':
            return list(t[1])
        return [t]

    def s_Try(self, st):
        handler_names = []
        for h in st.handlers:
            handler_names.append(_names_of(h.type))
        def run():
            if st.handlers:
                self.try_stack.append(handler_names)
                pushed = True
                try:
                    try:
                        self.block(st.body)
                    finally:
                        self.try_stack.pop()
                except Rse as r:
                    self.handle(st, r.exc)
                    return
                self.block(st.orelse)
            else:
                self.block(st.body)
                self.block(st.orelse)
        if st.finalbody:
            self.try_stack.append([['finally']])
            sig = None
            try:
                run()
            except (Ret, Brk, Cnt, Rse, GenClosed) as s:
                sig = s
            finally:
                self.try_stack.pop()
            if isinstance(sig, Rse):
                self.cur_exc.append(sig.exc)
            try:
                self.block(st.finalbody)
            except (Ret, Brk, Cnt) as s2:
                if isinstance(sig, Rse):
                    self.emit(Ev('swallow', 'finally', args=(sig.exc,)), st.finalbody[0])
                raise
            finally:
                if isinstance(sig, Rse):
                    self.cur_exc.pop()
            if sig is not None:
                raise sig
        else:
            run()

    s_TryStar = s_Try

    def handle(self, st, exc):
        for h in st.handlers:
            types = self.handler_types(h)
            hit = False
            for t in types:
                m = self.exc_matches(exc, t)
                if m is None:
                    m = self.choose(2) == 0
                    hn = t[1] if t[0] in ('g', 'cls') else t
                    if isinstance(hn, str):
                        hn = EXC_ALIASES.get(hn, hn)
                    self.facts[('excis', exc, hn)] = m
                if m:
                    hit = True
                    break
            if not hit:
                continue
            self.emit(Ev('caught', ','.join(show(t) for t in types), args=(exc,), raw=types), h)
            if h.name:
                self.store_name(h.name, exc)
            self.cur_exc.append(exc)
            try:
                self.block(h.body)
            finally:
                self.cur_exc.pop()
            self.emit(Ev('handled', ','.join(show(t) for t in types), args=(exc,), raw=types), h)
            return
        raise Rse(exc)

    def maybe_raise(self, what, node, lookup=False, attr=False, value=False):
        """split off the path on which an opaque call raises"""
        mode = self.cfg.exc
        if mode in ('none', 'summary'):
            return
        if lookup or attr or value:
            want = ('KeyError', 'IndexError', 'LookupError') if lookup else (
                ('AttributeError',) if attr else ('ValueError', 'TypeError'))
            hot = any(n.split('.')[-1] in want for hs in self.try_stack for h in hs for n in h)
            if not hot and not (value and self.try_stack and any(
                    n in ('Exception', 'BaseException', '*', 'finally') for hs in self.try_stack for h in hs for n in h)):
                return
            if self.choose(2) == 1:
                e = ('exc', want[0] if lookup or attr else 'ValueError', (), self.fresh())
                self.emit(Ev('callraise', what, args=(e,)), node)
                raise Rse(e)
            return
        if mode == 'try' and not self.try_stack:
            return
        if self.choose(2) == 1:
            e = ('exc?', what, self.fresh())
            self.emit(Ev('callraise', what, args=(e,)), node)
            raise Rse(e)

    # -- with --------------------------------------------------------------------
    def s_With(self, st):
        self.with_items(list(st.items), st)

    def with_items(self, items, st):
        if not items:
            self.block(st.body)
            return
        it = items[0]
        ctx = self.ev(it.context_expr)
        def body(val):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, val)
            self.with_items(items[1:], st)
        self.with_ctx(ctx, body, it.context_expr)

    def with_ctx(self, ctx, body, node):
        if ctx[0] == 'gen':     # contextlib.contextmanager
            done = []
            def cb(v):
                if done:
                    return NONE
                done.append(1)
                body(v)
                return NONE
            self.run_gen(ctx, cb, is_cm=True)
            return
        if ctx[0] == 'call' and ctx[1] == ('g', 'contextlib.suppress'):
            names = [[dotted_name(t) for t in ctx[2]]]
            self.try_stack.append(names)
            try:
                try:
                    body(NONE)
                finally:
                    self.try_stack.pop()
            except Rse as r:
                for t in ctx[2]:
                    m = self.exc_matches(r.exc, t)
                    if m is None:
                        m = self.choose(2) == 0
                        hn = t[1]
                        self.facts[('excis', r.exc, EXC_ALIASES.get(hn, hn) if isinstance(hn, str) else hn)] = m
                    if m:
                        self.emit(Ev('caught', show(t), args=(r.exc,), raw=list(ctx[2])), node)
                        self.emit(Ev('handled', show(t), args=(r.exc,), raw=list(ctx[2])), node)
                        return
                raise
            return
        if ctx[0] == 'call' and ctx[1] == ('g', 'contextlib.closing'):
            self.try_stack.append([['finally']])
            sig = None
            try:
                body(ctx[2][0])
            except (Ret, Brk, Cnt, Rse, GenClosed) as s:
                sig = s
            finally:
                self.try_stack.pop()
            self.call_method(ctx[2][0], 'close', [], [], node)
            if sig is not None:
                raise sig
            return
        if ctx[0] == 'call' and ctx[1] in (('g', 'contextlib.ExitStack'),):
            stack = self.new_obj('list', [])
            self.try_stack.append([['finally']])
            self.heap[(ctx, '#exits')] = stack
            sig = None
            try:
                body(ctx)
            except (Ret, Brk, Cnt, Rse, GenClosed) as s:
                sig = s
            finally:
                self.try_stack.pop()
            for kind, x, args, kw in reversed(self.objs[stack[2]]['items']):
                if kind == 'cm':
                    self.emit(Ev('exit', None, recv=self.resolve(x), raw=x), node)
                else:
                    self.call(x, list(args), list(kw), node)
            if sig is not None:
                raise sig
            return
        c = self.typeof(ctx)
        if c is not None and c.method('__enter__') and not self.is_uri(ctx):
            val = self.call_func(c.method('__enter__'), [], [], ctx)
            self.emit(Ev('enter', c.name, recv=self.resolve(ctx), res=self.resolve(val), raw=ctx), node)
            self.try_stack.append([['finally']])
            sig = None
            try:
                body(val)
            except (Ret, Brk, Cnt, Rse, GenClosed) as s:
                sig = s
            finally:
                self.try_stack.pop()
            if isinstance(sig, Rse):
                a = [('exctype', sig.exc), sig.exc, ('exctb', sig.exc)]
            else:
                a = [NONE, NONE, NONE]
            ex = c.method('__exit__')
            r = self.call_func(ex, a, [], ctx) if ex else NONE
            self.emit(Ev('exit', c.name, recv=self.resolve(ctx), raw=ctx), node)
            if isinstance(sig, Rse):
                if self.decide(r, node):
                    self.emit(Ev('swallow', c.name + '.__exit__', args=(sig.exc,)), node)
                    return
            if sig is not None:
                raise sig
            return
        self.maybe_raise('enter', node) if not _openish(ctx) else None
        val = ctx if _openish(ctx) else ('enter', ctx)
        self.emit(Ev('enter', None, recv=self.resolve(ctx), res=val, raw=ctx), node)
        try:
            body(val)
        finally:
            import sys
            if not isinstance(sys.exc_info()[1], Drop):
                self.emit(Ev('exit', None, recv=self.resolve(ctx), raw=ctx), node)

    # -- loops ---------------------------------------------------------------------
    def s_For(self, st):
        it = self.ev(st.iter)
        broke = False
        try:
            self.iterate(it, lambda x: self.loop_body(st, x), st)
        except Brk:
            broke = True
        if not broke:
            self.block(st.orelse)

    s_AsyncFor = s_For

    def loop_body(self, st, x):
        self.assign(st.target, x)
        try:
            self.block(st.body)
        except Cnt:
            pass

    def base_iter(self, t):
        """the collection behind order-preserving or -changing wrappers"""
        while True:
            if t[0] == 'call' and t[1][0] == 'g' and t[1][1] in (
                    'list', 'tuple', 'sorted', 'set', 'frozenset', 'iter', 'reversed') and len(t[2]) >= 1 \
                    and (len(t[2]) == 1):
                t = t[2][0]
            elif t[0] == 'call' and t[1][0] == 'a' and t[1][2] in ('keys', 'copy', '__iter__') and not t[2]:
                t = t[1][1]
            elif t[0] == 'slice' and t[2:] == (NONE, NONE, NONE):
                t = t[1]
            else:
                return t

    def items_of(self, t, materialise=True):
        """concrete list of element terms, or None"""
        k = t[0]
        if t in self.kept:
            return list(self.kept[t])
        if k == 'tuple':
            return list(t[1])
        if k in ('list', 'set'):
            return list(t[1])
        if k == 'obj':
            o = self.objs[t[2]]
            if o['items'] is None:
                return self.items_of(o['base'], materialise)
            if o['kind'] == 'dict':
                return [a for a, _ in o['items']]
            return list(o['items'])
        if k == 'c' and isinstance(t[2], (str, bytes, tuple, list)):
            return [C(x) for x in t[2]][:16]
        if k == 'dict':
            return [a for a, _ in t[1]]
        if k == 'call' and t[1][0] == 'g':
            fn, args = t[1][1], t[2]
            if fn == 'enumerate':
                xs = self.items_of(args[0], materialise)
                start = args[1][2] if len(args) > 1 and isc(args[1]) else 0
                for kn, kv in t[3]:
                    if kn == 'start' and isc(kv):
                        start = kv[2]
                return None if xs is None else [('tuple', (C(i + start), x)) for i, x in enumerate(xs)]
            if fn == 'zip' and args:
                xss = [self.items_of(a, materialise) for a in args]
                if any(x is None for x in xss):
                    return None
                return [('tuple', tuple(z)) for z in zip(*xss)]
            if fn == 'range':
                if all(isc(a) for a in args):
                    try:
                        return [C(i) for i in range(*[a[2] for a in args])][:8]
                    except TypeError:
                        return None
                last = args[-1] if len(args) < 3 else None
                if last is not None and last[0] == 'op' and last[1] == 'len':
                    xs = self.items_of(last[2], materialise)
                    if xs is not None:
                        lo = args[0][2] if len(args) == 2 and isc(args[0]) else 0
                        return [C(i) for i in range(lo, len(xs))]
            if fn == 'reversed' and len(args) == 1:
                xs = self.items_of(args[0], materialise)
                return None if xs is None else xs[::-1]
            if fn in ('list', 'tuple', 'iter', 'sorted', 'set', 'frozenset') and len(args) == 1:
                return self.items_of(args[0], materialise)
        if k == 'call' and t[1][0] == 'a' and not t[2]:
            d = t[1][1]
            if t[1][2] == 'items':
                o = self.obj(d)
                if o is not None and o['items'] is not None:
                    return [('tuple', (a, b)) for a, b in o['items']]
                xs = self.items_of(d, materialise)
                return None if xs is None else [('tuple', (x, self.subscript(d, x, None))) for x in xs]
            if t[1][2] == 'values':
                o = self.obj(d)
                if o is not None and o['items'] is not None:
                    return [b for a, b in o['items']]
                xs = self.items_of(d, materialise)
                return None if xs is None else [self.subscript(d, x, None) for x in xs]
            if t[1][2] in ('keys', 'copy', '__iter__'):
                return self.items_of(d, materialise)
        if k == 'slice' and t[2:] == (NONE, NONE, NONE):
            return self.items_of(t[1], materialise)
        if k == 'slice' and all(isc(x) for x in t[2:]) and materialise:
            xs = self.items_of(t[1], materialise)
            if xs is not None:
                return xs[slice(*[x[2] for x in t[2:]])]
        if not materialise and t not in self.counts:
            return None
        if t not in self.counts and self.cfg.count_hook is not None:
            n = self.cfg.count_hook(self, t)
            if n is not None:
                self.counts[t] = n
        if t not in self.counts:
            lo = 0
            tr = self.known(t)
            if k == 'call' and t[1][0] == 'a' and t[1][2] in ('split', 'rsplit') and t[2]:
                lo = 1
            if k == 'call' and t[1] == ('g', 'range') and len(t[2]) == 1:
                tr = self.known(('op', '<', C(0), t[2][0]))
            if tr is True:
                lo = 1
            hi = 0 if tr is False else self.cfg.unroll
            hi = max(hi, lo)
            # descending: the fullest abstraction first
            n = hi - self.choose(hi - lo + 1) if hi > lo else hi
            self.counts[t] = n
        return [('elem', t, i) for i in range(self.counts[t])]

    def iterate(self, it, body, node):
        """drive body over the elements of it; Brk etc. pass through"""
        if it[0] == 'call' and it[1][0] == 'a' and it[1][2] in ('partition', 'rpartition') and len(it[2]) == 1:
            # always three parts
            it = ('tuple', tuple(('i', it, C(k)) for k in range(3)))
        if it[0] == 'gen':
            self.emit(Ev('loop', 'begin', recv=it, raw=it), node)
            self.run_gen(it, lambda v: (body(v), NONE)[1])
            self.emit(Ev('loop', 'end', recv=it, raw=it), node)
            return
        if it[0] == 'mapped':
            f, src = it[1], it[2]
            if it[3] == 'map':
                self.iterate(src, lambda x: body(self.call(f, [x], [], node)), node)
            else:
                def flt(x):
                    r = x if f == NONE else self.call(f, [x], [], node)
                    if self.decide(r, node):
                        body(x)
                self.iterate(src, flt, node)
            return
        if it[0] == 'calliter':
            for i in range(self.cfg.unroll + 2):
                v = self.call(it[1], [], [], node)
                if self.decide(self.compare('==', v, it[2]), node):
                    self.emit(Ev('loop', 'end', recv=('unk', 'iter'), raw=it), node)
                    return
                body(v)
            raise Drop()
        c = self.typeof(it)
        if c is not None and c.method('__iter__') and c.method('__next__') and not self.is_uri(it):
            src = self.call_func(c.method('__iter__'), [], [], it)
            c2 = self.typeof(src)
            if c2 is not None and c2.method('__next__'):
                for i in range(self.cfg.unroll + 1):
                    try:
                        v = self.call_func(c2.method('__next__'), [], [], src)
                    except Rse as r:
                        if r.exc[0] == 'exc' and r.exc[1] == 'StopIteration':
                            return
                        raise
                    body(v)
                raise Drop()
        rit = self.resolve(it) if it[0] != 'obj' else it
        live = self.obj(it)
        self.emit(Ev('loop', 'begin', recv=self.resolve(it), raw=it), node)
        if live is not None and (live['kind'] == 'set' or live.get('mixed')):
            self.emit(Ev('loop', 'unordered', recv=self.resolve(it), raw=it), node)
        if live is not None and live['items'] is not None and live['kind'] == 'list':
            # a list may grow or shrink below the loop
            i = 0
            while i < len(live['items']):
                if i > 8 + self.cfg.unroll:
                    raise Drop()
                body(live['items'][i])
                i += 1
        else:
            for x in self.items_of(rit):
                body(x)
        self.emit(Ev('loop', 'end', recv=self.resolve(it), raw=it), node)

    def s_While(self, st):
        n = m = 0
        while True:
            if n > self.cfg.unroll:
                # what is left to analyse is the exit
                if _const_true(st.test):
                    raise Drop()
                if self.cond(st.test):
                    raise Drop()
                break
            self.emit(Ev('while', 'test', raw=n), st)
            asked = self.asked
            if not self.cond(st.test):
                break
            m += 1
            if asked != self.asked or _const_true(st.test) or m > 24:
                n += 1          # a test on what is known exactly is not bounded
            try:
                self.block(st.body)
            except Cnt:
                pass
            except Brk:
                return
        self.block(st.orelse)

    def s_Match(self, st):
        subj = self.ev(st.subject)
        for case in st.cases:
            if self.match(case.pattern, subj) and (case.guard is None or self.cond(case.guard)):
                self.block(case.body)
                return

    def match(self, pat, subj):
        if isinstance(pat, ast.MatchAs) and pat.pattern is None:
            if pat.name:
                self.store_name(pat.name, subj)
            return True
        if isinstance(pat, ast.MatchAs):
            ok = self.match(pat.pattern, subj)
            if ok and pat.name:
                self.store_name(pat.name, subj)
            return ok
        if isinstance(pat, ast.MatchValue):
            return self.decide(self.compare('==', subj, self.ev(pat.value)), pat)
        if isinstance(pat, ast.MatchSingleton):
            return self.decide(self.compare('is', subj, C(pat.value)), pat)
        if isinstance(pat, ast.MatchOr):
            return any(self.match(p, subj) for p in pat.patterns)
        if isinstance(pat, ast.MatchSequence) and subj[0] == 'tuple' and len(subj[1]) == len(pat.patterns):
            return all(self.match(p, s) for p, s in zip(pat.patterns, subj[1]))
        return self.decide(('op', 'match', subj, C(ast.dump(pat))), pat)

    # ------------------------------------------------------------------ assignment
    def store_name(self, name, v):
        fr = self.stack[-1]
        if name in fr.globals_:
            gk = ('g', fr.func.module.name + '.' + name)
            self.emit(Ev('setglobal', name, args=(self.resolve(v),)))
            self.heap[gk] = v
            return
        if name in fr.nonlocals:
            f = fr.outer
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.outer
        fr.env[name] = v

    def assign(self, tgt, v):
        if isinstance(tgt, ast.Name):
            self.store_name(tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            self.unpack(tgt, v)
        elif isinstance(tgt, ast.Attribute):
            self.setattr(self.ev(tgt.value), tgt.attr, v, tgt)
        elif isinstance(tgt, ast.Subscript):
            b = self.ev(tgt.value)
            i = self.ev_index(tgt.slice)
            self.setitem(b, i, v, tgt)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v)

    def unpack(self, tgt, v):
        n = len(tgt.elts)
        star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
        xs = None
        if v[0] in ('tuple', 'list') or (v[0] == 'obj' and self.objs[v[2]]['items'] is not None):
            xs = self.items_of(v)
        elif v[0] == 'call' and v[1][0] == 'g' and v[1][1] in ('map', 'zip'):
            xs = None
        elif v[0] == 'gen':
            xs = []
            self.run_gen(v, lambda x: (xs.append(x), NONE)[1])
        if xs is not None:
            if star:
                i = star[0]
                tail = n - i - 1
                mid = self.new_obj('list', xs[i:len(xs) - tail])
                xs = xs[:i] + [mid] + xs[len(xs) - tail:]
            if len(xs) == n:
                for e, x in zip(tgt.elts, xs):
                    self.assign(e, x)
                return
            self.emit(Ev('badunpack', str(n), recv=self.resolve(v)), tgt)
            self.raise_(('exc', 'ValueError', (), self.fresh()), tgt)
        rv = self.resolve(v)
        self.emit(Ev('unpack', str(n), recv=rv, raw=bool(star)), tgt)
        self.maybe_raise('unpack', tgt, value=True)
        for i, e in enumerate(tgt.elts):
            if star and i == star[0]:
                self.assign(e, ('slice', rv, C(i), C(i - n + 1) if i < n - 1 else NONE, NONE))
            elif star and i > star[0]:
                self.assign(e, self.subscript(rv, C(i - n), e))
            else:
                self.assign(e, self.subscript(rv, C(i), e))

    def setattr(self, b, name, v, node):
        c = self.typeof(b)
        if c is not None and b[0] != 'cls':
            f = c.find(name)
            if f and f[0] == 'prop' and f[1][1] is not None and (
                    not self.is_uri(b) or self.cfg.inline_props):
                self.emit(Ev('setattr', name, recv=self.resolve(b), args=(self.resolve(v),), raw=(b, v)), node)
                self.call_func(f[1][1], [v], [], b)
                return
        if b[0] == 'a' and b[2] == 'parse_result' and name in PARSE_ATTRS:
            pass
        self.emit(Ev('setattr', name, recv=self.resolve(b), args=(self.resolve(v),), raw=(b, v)), node)
        self.heap[(b, name)] = v
        # facts about the old value are void
        old = ('a', self.resolve(b), name)
        for t in [t for t in self.facts if any(x == old for x in subterms(t))]:
            del self.facts[t]

    def setitem(self, b, i, v, node):
        o = self.obj(b)
        self.emit(Ev('setitem', None, recv=self.resolve(b), args=(self.resolve(i), self.resolve(v)),
                     raw=(b, v)), node)
        if o is not None and o['items'] is not None:
            if o['kind'] == 'dict':
                o['items'] = [(k, x) for k, x in o['items'] if k != i] + [(i, v)]
            elif o['kind'] == 'list':
                if isc(i) and isinstance(i[2], int) and -len(o['items']) <= i[2] < len(o['items']):
                    o['items'][i[2]] = v
                elif i == ('slice3', NONE, NONE, NONE):
                    xs = self.items_of(v)
                    o['items'] = xs
                else:
                    o['base'] = ('unk', self.fresh())
                    o['items'] = None
            return
        if i == ('slice3', NONE, NONE, NONE):
            xs = self.items_of(self.resolve(v) if v[0] != 'obj' else v, False)
            if xs is not None:
                self.kept[self.resolve(b)] = xs
            else:
                self.kept.pop(self.resolve(b), None)
        self.touch(self.resolve(b))
        self.heap[('item', self.resolve(b), self.resolve(i))] = v

    # ------------------------------------------------------------------ expressions
    def ev(self, node):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            return ('unk', type(node).__name__, self.fresh())
        return m(node)

    def e_Constant(self, n):
        return C(n.value)

    def e_Name(self, n):
        return self.load_name(n.id, n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v)
        return v

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), n.attr, n)

    def getattr(self, b, name, node):
        k = b[0]
        if k == 'mod':
            return self.global_name(b[1], name)
        if k == 'g' and not b[1].startswith('abl.vpath.') and not b[1].startswith('?'):
            r = self.ext(b[1] + '.' + name)
            return r
        if k == 'super':
            f = b[1] and self.typeof_cls(b[1]).find(name, after=b[2])
            if f is None:
                return ('a', b, name)
            if f[0] == 'method':
                return ('bm', b[1], f[1])
            if f[0] == 'prop':
                return self.call_func(f[1][0], [], [], b[1])
            return self.class_attr(f, name)
        if (b, name) in self.heap:
            return self.heap[(b, name)]
        rb = self.resolve(b) if k == 'obj' else b
        if k == 'cls':
            f = b[1].find(name)
            if f is None:
                return ('a', b, name)
            if f[0] == 'method':
                if f[1].has_decorator('staticmethod'):
                    return ('fn', f[1])
                if f[1].has_decorator('classmethod'):
                    return ('bm', b, f[1])
                return ('fn', f[1])
            if f[0] == 'attr':
                return self.class_attr(f, name)
            return ('a', b, name)
        if name == '__class__':
            c = self.typeof(b)
            if k == 'new':
                return ('cls', c)
            return ('a', b, '__class__')
        c = self.typeof(b)
        if c is not None:
            isuri = c.isa('BaseUri')
            f = c.find(name)
            if f is not None:
                if f[0] == 'method':
                    if f[1].has_decorator('staticmethod'):
                        return ('fn', f[1])
                    if f[1].has_decorator('classmethod'):
                        return ('bm', ('a', b, '__class__'), f[1])
                    return ('bm', b, f[1])
                if f[0] == 'prop':
                    if isuri and name in URI_PROPS and not self.cfg.inline_props:
                        got = self.cfg.attr_hook and self.cfg.attr_hook(self, b, name, node)
                        return got or ('a', b, name)
                    if f[1][0] is None:
                        return ('a', b, name)
                    return self.call_func(f[1][0], [], [], b)
                return self.class_attr(f, name)
            if isuri and name in PARSE_ATTRS:
                pr = self.heap.get((b, 'parse_result'), ('a', b, 'parse_result'))
                if (pr, name) in self.heap:
                    return self.heap[(pr, name)]
                return ('a', pr, name)
        if k == 'exc' and name == 'errno' and len(b[2]) >= 1:
            return b[2][0]
        if k == 'exc' and name == 'args':
            return ('tuple', b[2])
        if self.cfg.attr_hook is not None:
            got = self.cfg.attr_hook(self, b, name, node)
            if got is not None:
                return got
        self.maybe_raise('getattr', node, attr=True)
        return ('a', rb if rb[0] not in ('list', 'dict', 'set') else b, name)

    def typeof_cls(self, t):
        return self.typeof(t) or self.uri

    def class_attr(self, f, name):
        _, expr, cls = f
        v = self.const_expr(expr, cls.module, cls)
        if v is not None:
            return v
        return ('a', ('cls', cls), name)

    def e_Subscript(self, n):
        b = self.ev(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(b, *[self.ev(x) if x is not None else NONE
                                   for x in (n.slice.lower, n.slice.upper, n.slice.step)])
        return self.subscript(b, self.ev(n.slice), n)

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return ('slice3',) + tuple(self.ev(x) if x is not None else NONE
                                       for x in (s.lower, s.upper, s.step))
        return self.ev(s)

    def e_Slice(self, n):
        return self.ev_index(n)

    def used(self, t, how, node):
        """t is used in a way that None does not allow"""
        if self.cfg.use_hook is not None and t[0] != 'obj':
            self.cfg.use_hook(self, t, how, node)

    def slice(self, b, lo, hi, step):
        o = self.obj(b)
        self.used(b, 'slice', self.cur_node)
        if isc(b) and all(isc(x) for x in (lo, hi, step)):
            try:
                return C(b[2][lo[2]:hi[2]:step[2]])
            except Exception:
                pass
        if all(isc(x) for x in (lo, hi, step)):
            if o is not None and o['items'] is not None and o['kind'] == 'list':
                return self.new_obj('list', o['items'][lo[2]:hi[2]:step[2]])
            if b[0] == 'tuple':
                return ('tuple', b[1][lo[2]:hi[2]:step[2]])
            if self.splitty(b):
                xs = self.items_of(b)
                return self.new_obj('list', xs[lo[2]:hi[2]:step[2]])
            x = self.resolve(b)
            if x[0] == 'op' and x[1] == '+' and isc(x[3]) and isinstance(x[3][2], (str, bytes)) and lo == step == NONE \
                    and type(hi[2]) is int and 0 < -hi[2] <= len(x[3][2]):
                rest = x[3][2][:hi[2]]
                return self.binop('+', x[2], C(rest), None) if rest else x[2]
        if o is not None and lo == NONE and hi == NONE and step == NONE and o['kind'] == 'list':
            return self.new_obj('list', None if o['items'] is None else list(o['items']), o['base'])
        return ('slice', self.resolve(b), lo, hi, step)

    def splitty(self, b):
        """an opaque list whose elements are worth naming: s.split(..)"""
        return self.cfg.unroll > 1 and b[0] == 'call' and b[1][0] == 'a' and b[1][2] in ('split', 'rsplit') \
            and len(b[2]) == 1

    def subscript(self, b, i, node):
        o = self.obj(b)
        self.used(b, 'subscript', node)
        if b[0] == 'slice' and isc(i) and type(i[2]) is int and i[2] >= 0 and b[4] == NONE:
            lo = 0 if b[2] == NONE else b[2][2] if isc(b[2]) else None
            hi = None if b[3] == NONE else b[3][2] if isc(b[3]) else -1
            if type(lo) is int and lo >= 0 and (hi is None or type(hi) is int and lo + i[2] < hi):
                return self.subscript(b[1], C(lo + i[2]), node)
        if i[0] == 'op' and i[1] == '-' and i[2][0] == 'op' and i[2][1] == 'len' and i[2][2] == self.resolve(b) and isc(i[3]):
            i = C(-i[3][2])
        if o is not None and o['items'] is not None:
            if o['kind'] == 'dict':
                for k, v in o['items']:
                    if k == i:
                        return v
                if isc(i) and all(isc(k) for k, _ in o['items']):
                    self.raise_(('exc', 'KeyError', (), self.fresh()), node)
                self.maybe_raise('subscript', node, lookup=True)
                return ('i', self.resolve(b), self.resolve(i))
            if isc(i) and isinstance(i[2], int):
                if -len(o['items']) <= i[2] < len(o['items']):
                    return o['items'][i[2]]
                self.emit(Ev('badindex', None, recv=self.resolve(b), args=(i,)), node)
                self.raise_(('exc', 'IndexError', (), self.fresh()), node)
        if b[0] == 'tuple' and isc(i) and isinstance(i[2], int):
            if -len(b[1]) <= i[2] < len(b[1]):
                return b[1][i[2]]
            self.raise_(('exc', 'IndexError', (), self.fresh()), node)
        if b[0] == 'dict':
            for k, v in b[1]:
                if k == i:
                    return v
        if b[0] in ('list',) and isc(i) and isinstance(i[2], int) and -len(b[1]) <= i[2] < len(b[1]):
            return b[1][i[2]]
        if isc(b) and isc(i):
            try:
                return C(b[2][i[2]])
            except Exception:
                pass
        rb, ri = self.resolve(b), self.resolve(i)
        if ('item', rb, ri) in self.heap:
            return self.heap[('item', rb, ri)]
        if isc(i) and isinstance(i[2], int):
            if rb in self.counts or self.splitty(rb):
                xs = self.items_of(rb)
                if -len(xs) <= i[2] < len(xs):
                    return xs[i[2]]
        if self.cfg.item_hook is not None:
            self.cfg.item_hook(self, rb, ri, node)
        if node is not None:
            self.maybe_raise('subscript', node, lookup=True)
        return ('i', rb, ri)

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        for v in n.values[:-1]:
            t = self.ev(v)
            if self.decide(t, v) != isand:
                return self.truthval(t, not isand)
        return self.ev(n.values[-1])

    def truthval(self, t, v):
        """boolean atoms that have been decided are their truth value"""
        if t[0] == 'q' or (t[0] == 'op' and t[1] in ('not', '==', 'is', 'in', '<', 'isinstance')):
            return C(v)
        if t in self.eqs:
            return self.eqs[t]
        return t

    def e_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            return Not(self.boolish(self.ev(n.operand)))
        v = self.ev(n.operand)
        if isc(v):
            try:
                if isinstance(n.op, ast.USub):
                    return C(-v[2])
                if isinstance(n.op, ast.Invert):
                    return C(~v[2])
            except TypeError:
                pass
        return ('op', {'USub': 'neg', 'Invert': '~', 'UAdd': 'pos'}[type(n.op).__name__], self.resolve(v))

    def boolish(self, t):
        return C(bool(t[2])) if isc(t) else t

    BINOPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%',
              'Pow': '**', 'BitOr': '|', 'BitAnd': '&', 'BitXor': '^', 'LShift': '<<', 'RShift': '>>'}

    def e_BinOp(self, n):
        return self.binop(type(n.op).__name__, self.ev(n.left), self.ev(n.right), n)

    def binop(self, op, a, b, node):
        s = self.BINOPS.get(op, op)
        if s == '/' and self.is_uri(a) and not self.cfg.inline_uri:
            return ('u', 'join', a, (self.resolve(b),))
        if s == '+' and self.is_uri(a) and not self.cfg.inline_uri:
            return ('u', 'add', a, (self.resolve(b),))
        c = self.typeof(a)
        if c is not None:
            m = {'/': '__truediv__', '+': '__add__'}.get(s)
            f = m and c.method(m)
            if f:
                return self.call_func(f, [b], [], a)
        if isc(a) and isc(b) and s in ('+', '-', '|', '&', '^', '*'):
            try:
                return C({'+': lambda x, y: x + y, '-': lambda x, y: x - y, '|': lambda x, y: x | y,
                          '&': lambda x, y: x & y, '^': lambda x, y: x ^ y,
                          '*': lambda x, y: x * y}[s](a[2], b[2]))
            except Exception:
                pass
        if s == '+':
            self.used(a, '+', node)
            self.used(b, '+', node)
            if a[0] == 'tuple' and b[0] == 'tuple':
                return ('tuple', a[1] + b[1])
            oa, ob = self.obj(a), self.obj(b)
            if oa is not None and oa['kind'] == 'list' and oa['items'] is not None:
                xs = list(ob['items']) if ob is not None and ob['items'] is not None else None
                if xs is not None:
                    return self.new_obj('list', oa['items'] + xs)
        if s == '|' and a[0] == 'obj' and b[0] == 'obj':
            oa, ob = self.obj(a), self.obj(b)
            if oa['kind'] == ob['kind'] == 'dict' and oa['items'] is not None and ob['items'] is not None:
                d = [kv for kv in oa['items'] if kv[0] not in [x for x, _ in ob['items']]]
                return self.new_obj('dict', d + list(ob['items']))
        if s == '%' and isc(a) and isinstance(a[2], str):
            args = b[1] if b[0] == 'tuple' else (b,)
            return ('op', 'fmt', a) + tuple(self.resolve(x) for x in args)
        if s == '%' and a[0] == 'call':
            pass
        return ('op', s, self.resolve(a), self.resolve(b))

    def compare(self, op, a, b):
        if op == '!=':
            return Not(self.compare('==', a, b))
        if op == 'is not':
            return Not(self.compare('is', a, b))
        if op == 'not in':
            return Not(self.compare('in', a, b))
        if op == 'in' and b[0] == 'call' and b[1] == ('g', 'frozenset') and len(b[2]) == 1 and b[2][0][0] in ('tuple', 'list', 'set'):
            return self.compare('in', a, b[2][0])
        if op == '>':
            return self.compare('<', b, a)
        if op == '>=':
            return Not(self.compare('<', a, b))
        if op == '<=':
            return Not(self.compare('<', b, a))
        rawa, rawb = a, b
        if op == 'is' and (a[0] == 'obj' or b[0] == 'obj'):
            if a == b:
                return TRUE
            if b == NONE or a == NONE:
                return FALSE
        a, b = self.resolve(a), self.resolve(b)
        if op in ('==', 'is'):
            if isc(a) and isc(b):
                return C(type(a[2]) == type(b[2]) and a[2] == b[2] if op == 'is' else a[2] == b[2])
            if a == b and a[0] not in ('unk',):
                return TRUE
            if isc(a) and not isc(b) or (b[0] != 'c' and key_of(b) < key_of(a) and b[0] != 'g' or a[0] == 'g' and b[0] != 'g' and not isc(b)):
                a, b = b, a
            if b == NONE:
                op = 'is'
                if a[0] in ('tuple', 'list', 'dict', 'set', 'fn', 'cls', 'bm', 'clo', 'new', 'obj', 'gen',
                            'newuri', 'q', 'exc', 'partial', 'op', 'u', 'elem') or (
                                self.typeof(a) is not None and a[0] != 'a' and self.typeof(a).isa('BaseUri')):
                    return FALSE
                if a[0] == 'call' and a[1][0] == 'g' and a[1][1].split('.')[-1][:1].isupper() or \
                        a[:2] == ('r', 'open'):
                    return FALSE        # what a class makes
                if a in self.eqs and isc(self.eqs[a]):
                    return C(self.eqs[a] == NONE)
            if a[0] == 'cls' and b[0] == 'cls':
                return C(a[1] is b[1])
            if isc(b) and isinstance(b[2], bool) and (a[0] == 'q' or a[0] == 'op' and a[1] in (
                    'not', '==', 'is', 'in', '<', 'isinstance')):
                return a if b[2] else Not(a)
            # len(x) == 0
            if a[0] == 'op' and a[1] == 'len' and b == C(0):
                return Not(a[2])
            if op == 'is' and (b[0] == 'new' and a[0] == 'new'):
                return FALSE
            # unification with an object made from literals of other lengths
            if a[0] in ('list', 'tuple') and b[0] == a[0] and not a[1] != () and not b[1]:
                return TRUE
            return ('op', op, a, b)
        if op == 'in':
            self.used(b, 'in', self.cur_node)
            if b[0] in ('tuple', 'list', 'set') :
                xs = b[1]
                if not xs:
                    return FALSE
                if len(xs) == 1:
                    return self.compare('==', a, xs[0])
                if isc(a) and all(isc(x) for x in xs):
                    return C(any(a[2] == x[2] for x in xs))
                if a in xs:
                    return TRUE
                rest = []
                for x in xs:
                    e = self.compare('==', a, x)
                    if e == TRUE:
                        return TRUE
                    if e != FALSE:
                        rest.append(x)
                if not rest:
                    return FALSE
                return ('op', 'in', a, (b[0], tuple(rest)))
            if b[0] == 'dict':
                ks = [k for k, _ in b[1]]
                if not ks:
                    return FALSE
                return self.compare('in', a, ('tuple', tuple(ks)))
            if isc(a) and isc(b):
                try:
                    return C(a[2] in b[2])
                except TypeError:
                    pass
            if b[0] == 'call' and b[1][0] == 'a' and b[1][2] == 'keys':
                b = b[1][1]
            cb = self.typeof(rawb)
            if cb is not None and cb.method('__contains__'):
                return self.call_func(cb.method('__contains__'), [a], [], rawb)
            return ('op', 'in', a, b)
        if op == '<':
            if isc(a) and isc(b):
                try:
                    return C(a[2] < b[2])
                except TypeError:
                    pass
            if a == C(0) and b[0] == 'op' and b[1] == 'len':
                return b[2]
            if b == C(1) and a[0] == 'op' and a[1] == 'len':
                return Not(a[2])
        return ('op', op, a, b)

    CMPOPS = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=',
              'Is': 'is', 'IsNot': 'is not', 'In': 'in', 'NotIn': 'not in'}

    def e_Compare(self, n):
        left = self.ev(n.left)
        if len(n.ops) == 1:
            return self.cmp(self.CMPOPS[type(n.ops[0]).__name__], left, self.ev(n.comparators[0]), n)
        res = TRUE
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c)
            res = self.cmp(self.CMPOPS[type(op).__name__], left, r, n)
            if c is not n.comparators[-1]:
                if not self.decide(res, n):
                    return FALSE
            left = r
        return res

    def cmp(self, op, a, b, node):
        if self.cfg.inline_eq and op in ('==', '!='):
            c = self.typeof(a)
            f = c and c.method('__eq__')
            if f and not any(fr.func is f for fr in self.stack):
                t = self.call_func(f, [b], [], a)
                if t == ('g', 'NotImplemented'):
                    t = FALSE
                return Not(t) if op == '!=' else t
        t = self.compare(op, a, b)
        neg = t[0] == 'op' and t[1] == 'not'
        u = t[2] if neg else t
        if u[0] == 'op' and u[1] == 'in' and u[3][0] in ('tuple', 'list', 'set') and len(u[3][1]) <= 6:
            hit = False
            for x in u[3][1]:
                if self.decide(self.compare('==', u[2], x), node):
                    hit = True
                    break
            return C(hit != neg)
        # == with an in-repo __eq__
        return t

    def e_IfExp(self, n):
        return self.ev(n.body) if self.cond(n.test) else self.ev(n.orelse)

    def e_Tuple(self, n):
        return ('tuple', tuple(self.ev_elts(n.elts)))

    def ev_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value)
                xs = self.items_of(v) if v[0] in ('tuple', 'obj', 'list') else None
                if xs is None:
                    out.append(('star', self.resolve(v)))
                else:
                    out.extend(xs)
            else:
                out.append(self.ev(e))
        return out

    def e_List(self, n):
        return self.new_obj('list', self.ev_elts(n.elts))

    def e_Set(self, n):
        return self.new_obj('set', self.ev_elts(n.elts))

    def e_Dict(self, n):
        items = []
        opaque = None
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.ev(v)
                o = self.obj(d)
                if o is not None and o['kind'] == 'dict' and o['items'] is not None:
                    ks = [a for a, _ in o['items']]
                    items = [(a, b) for a, b in items if a not in ks] + list(o['items'])
                else:
                    items.append((('**', self.resolve(d)), self.resolve(d)))
            else:
                kk = self.ev(k)
                items = [(a, b) for a, b in items if a != kk] + [(kk, self.ev(v))]
        return self.new_obj('dict', items)

    def e_JoinedStr(self, n):
        parts = []
        fmt = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                fmt += str(v.value).replace('%', '%%')
            else:
                fmt += '%s'
                parts.append(self.resolve(self.ev(v.value)))
        if not parts:
            return C(fmt.replace('%%', '%'))
        if all(isc(p) for p in parts):
            return C(fmt % tuple(p[2] for p in parts))
        return ('op', 'fmt', C(fmt)) + tuple(parts)

    def e_FormattedValue(self, n):
        return self.ev(n.value)

    def e_Starred(self, n):
        return ('star', self.ev(n.value))

    def e_Lambda(self, n):
        f = Func(n, self.stack[-1].func.module, None)
        f.qual = self.stack[-1].func.qual + '.<lambda>'
        return self.closure(f)

    def e_Await(self, n):
        return self.ev(n.value)

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else NONE
        fr = self.stack[-1]
        return self.do_yield(fr, v, n)

    def do_yield(self, fr, v, n):
        cb = fr.yield_cb
        if cb is not None:
            # run the consumer in its own frame context
            saved = self.stack
            self.stack = fr.consumer_stack
            saved_try = self.try_stack
            saved_node = self.cur_node
            saved_exc = self.cur_exc
            try:
                try:
                    r = cb(v)
                except (Brk, Ret, Cnt) as s:
                    raise GenClosed(s)
            finally:
                self.stack = saved
                self.try_stack = saved_try
                self.cur_node = saved_node
                self.cur_exc = saved_exc
            return r if r is not None else NONE
        return self.on_yield(v, n)

    def on_yield(self, v, n=None):
        raw = v
        self.emit(Ev('yield', None, args=(self.resolve(v),), raw=raw), n)
        # the consumer may change what it was handed
        xs = v[1] if v[0] == 'tuple' else [v]
        for x in xs:
            o = self.obj(x)
            if o is not None and o['kind'] in ('list', 'dict', 'set'):
                h = ('havoc', self.resolve(x), x[2])
                o['items'] = None
                o['base'] = h
        return NONE

    def e_YieldFrom(self, n):
        it = self.ev(n.value)
        fr = self.stack[-1]
        if it[0] == 'obj' or it[0] in ('gen', 'mapped', 'tuple', 'call'):
            self.iterate(it, lambda x: self.do_yield(fr, x, n), n)
        else:
            self.iterate(it, lambda x: self.do_yield(fr, x, n), n)
        return NONE

    # -- comprehensions ------------------------------------------------------------
    def comp(self, gens, emit_elt, node):
        fr = self.stack[-1]
        sub = Frame(fr.func, {}, fr, fr.recv)
        sub.yield_cb = None
        first = self.ev(gens[0].iter)
        self.stack.append(sub)
        try:
            self._comp(gens, 0, emit_elt, first, sub, node)
        finally:
            self.stack.remove(sub) if sub in self.stack else None

    def _comp(self, gens, i, emit_elt, it, sub, node):
        if i == len(gens):
            emit_elt()
            return
        g = gens[i]
        if it is None:
            it = self.ev(g.iter)
        def body(x):
            self.assign(g.target, x)
            for c in g.ifs:
                if not self.cond(c):
                    return
            self._comp(gens, i + 1, emit_elt, None, sub, node)
        self.iterate(it, body, node)

    def e_ListComp(self, n):
        out = self.new_obj('list', [])
        items = self.objs[out[2]]['items']
        self.comp(n.generators, lambda: items.append(self.ev(n.elt)), n)
        return out

    def e_SetComp(self, n):
        out = self.new_obj('set', [])
        items = self.objs[out[2]]['items']
        self.comp(n.generators, lambda: items.append(self.ev(n.elt)), n)
        return out

    def e_DictComp(self, n):
        left = self.dict_without(n)
        if left is not None:
            return left
        out = self.new_obj('dict', [])
        items = self.objs[out[2]]['items']
        self.comp(n.generators, lambda: items.append((self.ev(n.key), self.ev(n.value))), n)
        return out

    def dict_without(self, n):
        """{k: v for k, v in D.items() if k not in CONSTANTS}: a copy of D without some keys"""
        g = n.generators[0]
        if len(n.generators) != 1 or not (isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2 and all(
                isinstance(x, ast.Name) for x in g.target.elts)):
            return None
        k, v = (x.id for x in g.target.elts)
        if not (isinstance(n.key, ast.Name) and n.key.id == k and isinstance(n.value, ast.Name) and n.value.id == v):
            return None
        it = g.iter
        if not (isinstance(it, ast.Call) and not it.args and not it.keywords and isinstance(it.func, ast.Attribute)
                and it.func.attr == 'items'):
            return None
        gone = []
        for c in g.ifs:
            if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.left, ast.Name) and c.left.id == k):
                return None
            try:
                val = ast.literal_eval(c.comparators[0])
            except ValueError:
                return None
            if isinstance(c.ops[0], ast.NotEq) and isinstance(val, str):
                gone.append(val)
            elif isinstance(c.ops[0], ast.NotIn) and isinstance(val, (tuple, list, set)):
                gone += sorted(val)
            else:
                return None
        d = self.ev(it.func.value)
        o = self.obj(d)
        if o is not None and o['kind'] == 'dict' and o['items'] is not None:
            out = self.new_obj('dict', list(o['items']))
        elif o is None and d[0] in ('a', 'p', 'i', 'call'):
            out = self.new_obj('dict', [(('**', self.resolve(d)), self.resolve(d))])
        else:
            return None
        for x in gone:
            self.call_method(out, 'pop', [C(x), NONE], [], n)
        return out

    def e_GeneratorExp(self, n):
        fr = self.stack[-1]
        first = self.ev(n.generators[0].iter)
        self.gens.append(('comp', n, fr, first))
        return ('gen', len(self.gens) - 1)

    def run_gen(self, g, cb, is_cm=False):
        kind = self.gens[g[1]]
        if kind[0] == 'comp':
            _, n, fr, first = kind
            saved = self.stack
            base = list(saved)
            sub = Frame(fr.func, {}, fr, fr.recv)
            def elt():
                v = self.ev(n.elt)
                cur = self.stack
                self.stack = saved
                try:
                    cb(v)
                finally:
                    self.stack = cur
            self.stack = base + [sub]
            try:
                self._comp(n.generators, 0, elt, first, sub, n)
            finally:
                self.stack = saved
            return NONE
        _, func, env, outer, recv = kind
        fr = Frame(func, env, outer, recv)
        fr.yield_cb = cb
        fr.consumer_stack = self.stack
        saved = self.stack
        self.stack = self.stack + [fr]
        try:
            try:
                self.block(func.node.body)
            finally:
                self.stack = saved
        except Ret as r:
            return r.val
        except GenClosed as g2:
            raise g2.cause
        return NONE

    # ------------------------------------------------------------------ calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            fr = self.stack[-1]
            f = fr
            while f.func.cls is None and f.outer is not None:
                f = f.outer
            if n.args:
                cls = self.ev(n.args[0])
                return ('super', self.ev(n.args[1]) if len(n.args) > 1 else f.recv,
                        cls[1] if cls[0] == 'cls' else f.func.cls)
            return ('super', f.recv, f.func.cls)
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals', 'vars') and not n.args:
            return ('unk', n.func.id, self.fresh())
        fn = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                xs = None
                if v[0] in ('tuple', 'list') or v[0] == 'obj' and self.objs[v[2]]['items'] is not None:
                    xs = self.items_of(v)
                if xs is None:
                    args.append(('star', v))
                else:
                    args.extend(xs)
            else:
                args.append(self.ev(a))
        kw = []
        for k in n.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                o = self.obj(v)
                if o is not None and o['kind'] == 'dict' and o['items'] is not None:
                    rest = []
                    for kk, vv in o['items']:
                        if isc(kk) and isinstance(kk[2], str):
                            kw.append((kk[2], vv))
                        else:
                            rest.append((kk, vv))
                    if len(rest) == 1:
                        kw.append(('**', rest[0][1]))
                    elif rest:
                        kw.append(('**', ('dict', tuple((self.resolve(x), self.resolve(y)) for x, y in rest))))
                elif v[0] == 'dict' and all(isc(kk) for kk, _ in v[1]):
                    kw.extend((kk[2], vv) for kk, vv in v[1])
                else:
                    kw.append(('**', v))
            else:
                kw.append((k.arg, v))
        return self.call(fn, args, kw, n)

    def call(self, fn, args, kw, node):
        self.cur_node = node if node is not None else self.cur_node
        k = fn[0]
        if k == 'fn':
            f = fn[1]
            if f.cls is not None and not f.has_decorator('staticmethod') and args and args[0][0] != 'star':
                # unbound call Class.method(obj, ...)
                return self.call_method_func(args[0], f, args[1:], kw, node)
            return self.call_inrepo(f, args, kw, None, node)
        if k == 'impl':
            return self.call_inrepo(fn[1], args[1:], kw, args[0], node)
        if k == 'bm':
            return self.call_method_func(fn[1], fn[2], args, kw, node)
        if k == 'clo':
            f, outer = self.clos[fn[1]]
            if sum(1 for fr in self.stack if fr.func.node is f.node) > self.cfg.recurse:
                return self.opaque_inrepo(f, args, kw, None, node, rec=True)
            return self.call_func(f, args, kw, None, outer=outer)
        if k == 'partial':
            return self.call(fn[1], list(fn[2]) + args, list(fn[3]) + kw, node)
        if k == 'cls':
            return self.construct(fn, args, kw, node)
        if k == 'a' and fn[2] == '__class__':
            return self.construct(fn, args, kw, node)
        if k == 'g':
            return self.call_ext(fn, args, kw, node)
        if k == 'a':
            return self.call_method(fn[1], fn[2], args, kw, node, fn)
        if k == 'unk' and len(fn) > 1 and fn[1] == 'deco':
            return self.opaque(fn, args, kw, node)
        return self.opaque(fn, args, kw, node)

    def construct(self, fn, args, kw, node):
        if fn[0] == 'a':    # x.__class__
            c = self.typeof(fn[1])
        else:
            c = fn[1]
        if c is None:
            return self.opaque(fn, args, kw, node)
        if any(b in BUILTIN_EXC or b == 'Exception' for b in c.ext_bases()) or \
                any(isinstance(b, str) and b.split('.')[-1].endswith(('Error', 'Exception')) for b in c.ext_bases()):
            return ('exc', c, tuple(self.resolve(a) for a in args), self.fresh())
        if c.isa('BaseUri') and not self.cfg.inline_uri:
            t = ('newuri', fn if fn[0] == 'a' else ('cls', c), self.fresh())
            self.cfg_type_of_new(t, c)
            self.emit(Ev('newuri', c.name, recv=fn, args=tuple(self.resolve(a) for a in args),
                         kw=tuple((a, self.resolve(b)) for a, b in kw), res=t,
                         raw=(tuple(args), tuple(kw))), node)
            return t
        t = ('new', c, self.fresh())
        self.emit(Ev('new', c.name, recv=fn, args=tuple(self.resolve(a) for a in args),
                     kw=tuple((a, self.resolve(b)) for a, b in kw), res=t, raw=(tuple(args), tuple(kw))), node)
        init = c.method('__init__')
        if init is not None and init.short in self.cfg.opaque:
            self.maybe_raise(init.short, node)
        elif init is not None:
            self.call_func(init, args, kw, t)
        return t

    def cfg_type_of_new(self, t, c):
        pass

    def call_method_func(self, recv, f, args, kw, node):
        """method f of the package, bound to recv"""
        name = f.name
        c = self.typeof(recv)
        if c is not None and recv[0] != 'cls':
            if c.isa('BaseUri'):
                if self.cfg.inline_uri and name in URI_PURE:
                    return self.call_inrepo(f, args, kw, recv, node)
                if name in URI_OPS or name == 'get_connection':
                    return self.op(name, recv, args, kw, 'uri', node, f)
                if name in URI_PURE and not self.cfg.inline_uri:
                    return self.uri_pure(name, recv, args, kw, f)
            if c.isa('FileSystem') and name in BACKEND_OPS:
                is_self = recv == ('p', 'self') or (self.stack and self.stack[-1].recv == recv)
                if not (is_self and self.cfg.inline_self_ops) and name not in self.cfg.inline_ops:
                    return self.backend_op(name, recv, args, kw, node)
        return self.call_inrepo(f, args, kw, recv, node)

    def uri_pure(self, name, recv, args, kw, f):
        a = tuple(self.resolve(x) for x in args) + tuple(
            ('kw', C(k), self.resolve(v)) for k, v in kw)
        if name == 'dirname':
            name = 'directory'
        if name == 'directory' and (not a or a == (C(1),)):
            return self.subscript(('u', 'split', recv, ()), C(0), None)
        if name == 'basename':
            return self.subscript(('u', 'split', recv, ()), C(1), None)
        if name == 'join' and len(a) > 1 and not kw:
            # a.join(b, c) denotes a/b/c
            t = recv
            for x in a:
                t = ('u', 'join', t, (x,))
            return t
        return ('u', name, recv, a)

    def bind_op(self, f, args, kw, skip_self=True):
        """positional, default-completed argument tuple"""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1 if skip_self else 0:]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) if a.defaults else {}
        vals = {}
        if len(args) > len(names) or any(x[0] == 'star' for x in args):
            return None
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kw:
            if k not in names or k in vals:
                return None
            vals[k] = v
        out = []
        for n in names:
            if n in vals:
                out.append(self.resolve(vals[n]))
            elif n in defaults:
                d = self.const_expr(defaults[n], f.module)
                out.append(d if d is not None else ('unk', 'default'))
            else:
                return None
        return tuple(out)

    def op(self, name, subj, args, kw, via, node, f=None):
        subj = self.resolve(subj)
        if f is None:
            f = self.uri.method(name)
        bound = self.bind_op(f, args, kw) if f is not None and not f.node.args.vararg else None
        if bound is None:
            bound = tuple(self.resolve(a) for a in args) + tuple(
                ('kw', C(k), self.resolve(v)) for k, v in kw)
        return self.do_op(name, subj, bound, via, node, tuple(args) + tuple(v for _, v in kw), shape_of(args, kw))

    def backend_op(self, name, recv, args, kw, node):
        f = self.backend.method(name)
        uf = self.uri.method(name)
        raw = tuple(args) + tuple(v for _, v in kw)
        bound = None
        if f is not None and not f.node.args.vararg:
            bound = self.bind_op(f, args, kw)
        if bound is None:
            bound = tuple(self.resolve(a) for a in args) + tuple(
                ('kw', C(k), self.resolve(v)) for k, v in kw)
        if name in ('close', 'supports_symlinks', 'dump') or not bound:
            return self.do_op(name, self.resolve(recv), bound, recv, node, raw, shape_of(args, kw))
        return self.do_op(name, bound[0], bound[1:], recv, node, raw, shape_of(args, kw))

    def do_op(self, name, subj, args, via, node, raw, shape=None):
        if name in QUERIES:
            t = ('q', name, subj, args, self.epoch)
        else:
            t = ('r', name, subj, args, self.fresh())
        self.emit(Ev('op', name, recv=subj, args=args, res=t,
                     raw=(via if via == 'uri' else self.resolve(via), raw, shape)), node)
        if name not in READS and not (name == 'info' and (not args or args[0] == NONE)) and not (
                name == 'open'):
            self.bump()
        if name == 'open':
            m = args[0] if args else NONE
            if not (m == NONE or isc(m) and isinstance(m[2], str) and 'r' in m[2]):
                self.bump()
        if name != 'get_connection' or self.cfg.exc == 'all':
            self.maybe_raise(name, node)
        return t

    def call_inrepo(self, f, args, kw, recv, node):
        if f.short in self.cfg.opaque or f.name in self.cfg.opaque or (
                self.cfg.opaque_fn and self.cfg.opaque_fn(f, recv)):
            return self.opaque_inrepo(f, args, kw, recv, node)
        if sum(1 for fr in self.stack if fr.func is f or fr.func.node is f.node) > self.cfg.recurse:
            return self.opaque_inrepo(f, args, kw, recv, node, rec=True)
        return self.call_func(f, args, kw, recv, node=node)

    def opaque_inrepo(self, f, args, kw, recv, node, rec=False):
        bound = self.bind_op(f, args, kw, skip_self=recv is not None)
        if bound is None:
            bound = tuple(self.resolve(a) for a in args) + tuple(
                ('kw', C(k), self.resolve(v)) for k, v in kw)
        t = ('r', f.name, self.resolve(recv) if recv else NONE, bound, self.fresh())
        e = self.emit(Ev('rec' if rec else 'icall', f.name, recv=self.resolve(recv) if recv else None,
                         args=bound, res=t, raw=f), node)
        if self.cfg.rec_hook is not None and self.cfg.rec_hook(self, e, f, recv, args, kw):
            return t
        self.maybe_raise(f.name, node)
        return t

    def call_func(self, f, args, kw, recv=None, outer=None, node=None, entry=False):
        if not f.is_gen:
            self.stats['functions'].add(f.qual)
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args or [])
        isstatic = f.has_decorator('staticmethod')
        if recv is not None and f.cls is not None and not isstatic:
            vals = [recv] + vals
        if entry and args is None:
            vals = [recv] if (recv is not None and not isstatic) else []
            for n in pos[len(vals):]:
                vals.append(('p', n))
            kw = [(x.arg, ('p', x.arg)) for x in a.kwonlyargs]
        kwd = {}
        extra_kw = []
        for k, v in kw:
            if k == '**':
                extra_kw.append(('**', v))
            elif k in pos or k in [x.arg for x in a.kwonlyargs]:
                kwd[k] = v
            else:
                extra_kw.append((k, v))
        star = [i for i, v in enumerate(vals) if v[0] == 'star']
        i = 0
        for n in pos:
            if i < len(vals) and vals[i][0] != 'star':
                env[n] = vals[i]
                i += 1
            elif n in kwd:
                env[n] = kwd.pop(n)
            elif i < len(vals) and vals[i][0] == 'star':
                env[n] = ('i', self.resolve(vals[i][1]), C(pos.index(n)))
            else:
                j = pos.index(n) - (len(pos) - len(a.defaults))
                if 0 <= j < len(a.defaults):
                    env[n] = self.default(f, a.defaults[j], outer)
                elif any(k == '**' for k, _ in extra_kw):
                    env[n] = ('i', self.resolve([v for k, v in extra_kw if k == '**'][0]), C(n))
                else:
                    self.emit(Ev('badcall', f.short, args=(C(n),)), node)
                    self.raise_(('exc', 'TypeError', (C('missing ' + n),), self.fresh()), node)
        rest = vals[i:]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwd:
                env[x.arg] = kwd.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.default(f, d, outer)
            else:
                env[x.arg] = ('unk', 'kwonly', self.fresh())
        if a.vararg:
            if entry and args is None:
                env[a.vararg.arg] = ('p', a.vararg.arg)
            elif len(rest) == 1 and rest[0][0] == 'star':
                env[a.vararg.arg] = rest[0][1]
            else:
                env[a.vararg.arg] = ('tuple', tuple(rest))
        elif [r for r in rest if r[0] != 'star'] or kwd:
            self.emit(Ev('badcall', f.short, args=tuple(self.resolve(r) for r in rest)), node)
            self.raise_(('exc', 'TypeError', (), self.fresh()), node)
        if a.kwarg:
            if entry and args is None:
                env[a.kwarg.arg] = ('p', a.kwarg.arg)
            elif len(extra_kw) == 1 and extra_kw[0][0] == '**':
                env[a.kwarg.arg] = extra_kw[0][1]
            else:
                env[a.kwarg.arg] = self.new_obj('dict', [
                    (C(k) if k != '**' else ('**', self.resolve(v)), v) for k, v in extra_kw])
        elif [1 for k, _ in extra_kw if k != '**']:
            self.emit(Ev('badcall', f.short, args=tuple(C(k) for k, _ in extra_kw)), node)
            self.raise_(('exc', 'TypeError', (), self.fresh()), node)
        if f.is_gen:
            self.stats['functions'].add(f.qual)
            self.gens.append(('func', f, env, outer, recv))
            g = ('gen', len(self.gens) - 1)
            return g
        fr = Frame(f, env, outer, recv)
        if isinstance(f.node, ast.Lambda):
            self.stack = self.stack + [fr]
            saved = self.stack[:-1]
            try:
                return self.ev(f.node.body)
            finally:
                self.stack = saved
        if len(self.stack) > 40 + 6 * self.cfg.recurse:
            raise Broken('call depth exceeded in %s' % f)
        saved = self.stack
        saved_node = self.cur_node
        self.stack = self.stack + [fr]
        try:
            self.block(f.node.body)
        except Ret as r:
            return r.val
        finally:
            self.stack = saved
            self.cur_node = saved_node
        return NONE

    def default(self, f, node, outer):
        v = self.const_expr(node, f.module, f.cls)
        if v is not None:
            return v
        if outer is not None:
            saved = self.stack
            self.stack = saved + [outer]
            try:
                return self.ev(node)
            finally:
                self.stack = saved
        if isinstance(node, (ast.Dict, ast.List, ast.Set)) and not getattr(node, 'elts', getattr(node, 'keys', [])):
            return ('a', ('fn', f), 'default%d' % node.col_offset)
        return ('unk', 'default', self.fresh())

    def call_decorated(self, f, recv, args, kw):
        """call method f through its decorators"""
        v = ('bmraw', recv, f)
        decos = f.decorators
        if not decos:
            return self.call_func(f, args, kw or [], recv)
        def make(level):
            if level == len(decos):
                return ('impl', f)
            d = decos[level]
            fr = Frame(_pseudo(f.module), {}, None)
            self.stack = self.stack + [fr]
            dv = self.ev(d)
            self.stack = self.stack[:-1]
            inner = make(level + 1)
            if dv[0] == 'fn' and dv[1].has_decorator('decorator'):
                return ('partial', dv, (inner,), ())
            if dv[0] == 'fn':
                self.stack = self.stack + [fr]
                try:
                    return self.call_func(dv[1], [inner], [], None)
                finally:
                    self.stack = self.stack[:-1]
            return inner
        fr = Frame(_pseudo(f.module), {}, None)
        self.stack = [fr]
        wrapper = make(0)
        self.stack = [fr]
        return self.call(wrapper, [recv] + list(args), list(kw or []), f.node)

    def opaque(self, fn, args, kw, node, pure=False, name=None, raises=True):
        rargs = tuple(self.resolve(a) for a in args)
        rkw = tuple(sorted(((k, self.resolve(v)) for k, v in kw), key=lambda x: x[0]))
        rfn = self.resolve(fn)
        t = ('call', rfn, rargs, rkw, None if pure else self.fresh())
        if not pure:
            self.emit(Ev('call', name or callname(rfn), recv=rfn[1] if rfn[0] == 'a' else None,
                         args=rargs, kw=rkw, res=t, raw=(fn, tuple(args), tuple(kw))), node)
            if raises:
                self.maybe_raise(name or callname(rfn), node)
        return t

    # -- methods of opaque values and tracked containers ------------------------------
    def call_method(self, b, name, args, kw, node, fn=None):
        o = self.obj(b)
        self.used(b, '.' + name, node)
        if b[0] == 'super':
            return self.opaque(('a', b[1], name), args, kw, node)
        if o is not None:
            r = self.container_method(b, name, args, kw, node)
            if r is not None:
                return r
        c = self.typeof(b)
        if c is not None:
            f = c.method(name)
            if f is not None:
                return self.call_method_func(b, f, args, kw, node)
            if c.isa('FileSystem') and name in BACKEND_OPS:
                return self.backend_op(name, b, args, kw, node)
            if c.isa('BaseUri') and name in URI_OPS:
                return self.op(name, b, args, kw, 'uri', node)
            ga = c.method('__getattr__')
            if ga is not None and not c.isa('BaseUri'):
                v = self.call_func(ga, [C(name)], [], b)
                return self.call(v, args, kw, node)
        if b[0] == 'call' and b[1] == ('g', 'contextlib.ExitStack') and (b, '#exits') in self.heap:
            ex = self.objs[self.heap[(b, '#exits')][2]]['items']
            if name == 'enter_context':
                ctx = args[0]
                c2 = self.typeof(ctx)
                if c2 is not None and c2.method('__enter__') and c2.method('__exit__') and not self.is_uri(ctx):
                    val = self.call_func(c2.method('__enter__'), [], [], ctx)
                    ex.append(('cb', ('bm', ctx, c2.method('__exit__')), (NONE, NONE, NONE), ()))
                    return val
                val = ctx if _openish(ctx) else ('enter', ctx)
                self.emit(Ev('enter', None, recv=self.resolve(ctx), res=val, raw=ctx), node)
                ex.append(('cm', ctx, (), ()))
                return val
            if name == 'callback':
                ex.append(('cb', args[0], tuple(args[1:]), tuple(kw)))
                return args[0]
            if name == 'close':
                return NONE
        if isc(b) and isinstance(b[2], (str, bytes)) and all(isc(a) for a in args) and not kw \
                and name in STR_METHODS and name not in ('format',):
            try:
                v = getattr(b[2], name)(*[a[2] for a in args])
                if isinstance(v, list):
                    return self.new_obj('list', [C(x) for x in v])
                if isinstance(v, tuple):
                    return ('tuple', tuple(C(x) for x in v))
                return C(v)
            except Exception:
                pass
        if name in ('startswith', 'endswith') and len(args) == 1 and isc(args[0]) and not kw:
            # the constant end of a sum
            x, want = self.resolve(b), args[0][2]
            if x[0] == 'op' and x[1] == '+':
                while name == 'startswith' and x[0] == 'op' and x[1] == '+':
                    x = x[2]
                x = x[3] if name == 'endswith' else x
                if isc(x) and type(x[2]) is type(want) and isinstance(want, (str, bytes)) and len(x[2]) >= len(want):
                    return C(getattr(x[2], name)(want))
        if name == 'format' and isc(b) and isinstance(b[2], str):
            return ('op', 'fmt', C(b[2].replace('{}', '%s'))) + tuple(
                self.resolve(a) for a in args) + tuple(self.resolve(v) for _, v in kw)
        if name == 'join' and isc(b) and len(args) == 1:
            v = args[0]
            if v[0] in ('gen', 'mapped'):
                v = self.to_list(v, node)
            if self.cfg.use_hook is not None:
                rv = self.resolve(v)
                for x in (rv[1] if rv[0] in ('list', 'tuple') else ()):
                    self.used(x, 'join', node)
            rv = self.resolve(v)
            if rv[0] in ('list', 'tuple') and isinstance(b[2], (str, bytes)) and all(
                    isc(x) and type(x[2]) is type(b[2]) for x in rv[1]):
                return C(b[2].join(x[2] for x in rv[1]))
            return ('call', ('a', b, 'join'), (rv,), (), None)
        if name in STR_METHODS and name not in ('tell', 'getvalue', 'is_alive', 'namelist', 'hexdigest', 'fileno'):
            if kw:
                kw = sorted(kw)
            return ('call', ('a', self.resolve(b), name), tuple(self.resolve(a) for a in args),
                    tuple((k, self.resolve(v)) for k, v in kw), None)
        if name in ('tell', 'getvalue', 'is_alive', 'namelist', 'hexdigest', 'fileno'):
            t = ('call', ('a', self.resolve(b), name), tuple(self.resolve(a) for a in args), (), self.epoch_seq())
            self.emit(Ev('call', name, recv=self.resolve(b), args=t[2], res=t, raw=(('a', b, name), tuple(args), tuple(kw))), node)
            self.maybe_raise(name, node)
            return t
        if name in DICT_READS:
            rb = self.resolve(b)
            if name == 'get' and args and self.cfg.table_hook is not None and self.cfg.table_hook(self, rb):
                if self.decide(self.compare('in', args[0], b), node):
                    return self.subscript(b, args[0], node)
                return args[1] if len(args) > 1 else NONE
            if name == 'get' and args:
                key = ('item', rb, self.resolve(args[0]))
                if key in self.heap:
                    return self.heap[key]
            if name == '__getitem__':
                return self.subscript(b, args[0], node)
            if name == '__contains__':
                return self.compare('in', args[0], b)
            if name == 'items' and False:
                pass
            seq = self.fresh() if name == 'copy' else None
            if name == 'get':
                self.emit(Ev('dictget', name, recv=rb, args=tuple(self.resolve(a) for a in args)), node)
                seq = self.getseq(rb)
            t = ('call', ('a', rb, name), tuple(self.resolve(a) for a in args),
                    tuple((k, self.resolve(v)) for k, v in kw), seq)
            return t
        if name in MUTATORS and not (c is not None):
            rb = self.resolve(b)
            t = ('call', ('a', rb, name), tuple(self.resolve(a) for a in args),
                 tuple((k, self.resolve(v)) for k, v in kw), self.fresh())
            self.emit(Ev('mut', name, recv=rb, args=t[2], kw=t[3], res=t, raw=(b, tuple(args), tuple(kw))), node)
            self.touch(rb)
            if name == 'remove' and len(args) == 1 and (rb in self.kept or rb in self.counts):
                xs = self.items_of(rb, False)
                x = self.resolve(args[0])
                if x in xs:
                    xs.remove(x)
                    self.kept[rb] = xs
            elif name == 'clear':
                self.kept[rb] = []
            elif name in ('append', 'extend', 'insert', 'pop'):
                self.kept.pop(rb, None)
            for k in [k for k in self.heap if k[0] == 'item' and k[1] == rb]:
                if name in ('pop', 'remove', 'clear', 'popitem', 'update'):
                    del self.heap[k]
            self.maybe_raise(name, node, lookup=name in ('pop', 'remove', 'popitem'))
            if name not in ('pop', 'remove', 'popitem') :
                pass
            return t
        if name in LOG_METHODS and _is_logger(b):
            return NONE
        if name == '__exit__' and args:
            self.emit(Ev('exit', None, recv=self.resolve(b), raw=b), node)
            return ('unk', 'exitresult')
        if name == '__enter__' and not args:
            val = b if _openish(b) else ('enter', b)
            self.emit(Ev('enter', None, recv=self.resolve(b), res=val, raw=b), node)
            return val
        return self.opaque(fn or ('a', b, name), args, kw, node, name=name)

    def epoch_seq(self):
        return self.fresh()

    def getseq(self, rb):
        """reads of a shared table are distinct: another thread may act in between"""
        return self.fresh()

    def container_method(self, b, name, args, kw, node):
        o = self.obj(b)
        items = o['items']
        kind = o['kind']
        if name in MUTATORS:
            self.emit(Ev('mut', name, recv=self.resolve(b), args=tuple(self.resolve(a) for a in args),
                         kw=tuple((k, self.resolve(v)) for k, v in kw), raw=(b, tuple(args), tuple(kw))), node)
        if items is None:
            if name in MUTATORS:
                return NONE
            if name == 'copy':
                return self.new_obj(kind, None, o['base'])
            return None
        if kind == 'list':
            if name == 'append':
                items.append(args[0])
                return NONE
            if name == 'extend':
                a = args[0]
                if a[0] in ('gen', 'mapped'):
                    a = self.to_list(a, node)
                xs = self.items_of(a)
                items.extend(xs)
                return NONE
            if name == 'insert' and isc(args[0]):
                items.insert(args[0][2], args[1])
                return NONE
            if name == 'remove':
                x = self.resolve(args[0])
                for i, y in enumerate(items):
                    if self.resolve(y) == x:
                        del items[i]
                        return NONE
                return NONE
            if name == 'pop':
                i = args[0][2] if args and isc(args[0]) else -1
                if -len(items) <= i < len(items):
                    return items.pop(i)
                self.raise_(('exc', 'IndexError', (), self.fresh()), node)
            if name == 'popleft':
                if items:
                    return items.pop(0)
                self.raise_(('exc', 'IndexError', (), self.fresh()), node)
            if name == 'reverse':
                items.reverse()
                return NONE
            if name == 'sort':
                o['sorted'] = not kw
                return NONE
            if name == 'clear':
                del items[:]
                return NONE
            if name == 'copy':
                return self.new_obj('list', list(items))
            if name in ('index', 'count'):
                return ('call', ('a', self.resolve(b), name), tuple(self.resolve(a) for a in args), (), None)
            return None
        if kind == 'set':
            if name == 'add':
                if args[0] not in items:
                    items.append(args[0])
                return NONE
            if name in ('discard', 'remove'):
                if args[0] in items:
                    items.remove(args[0])
                return NONE
            if name == 'update':
                for a in args:
                    if a[0] in ('gen', 'mapped'):
                        a = self.to_list(a, node)
                    for x in self.items_of(a):
                        if x not in items:
                            items.append(x)
                return NONE
            if name == 'copy':
                return self.new_obj('set', list(items))
            return None
        if kind == 'dict':
            if name == 'get':
                for k, v in items:
                    if k == args[0]:
                        return v
                if isc(args[0]) and all(isc(k) for k, _ in items):
                    return args[1] if len(args) > 1 else NONE
                return ('call', ('a', self.resolve(b), 'get'), tuple(self.resolve(a) for a in args), (), None)
            if name == 'copy':
                return self.new_obj('dict', list(items))
            if name == 'update':
                new = []
                for a in args:
                    oa = self.obj(a)
                    if oa is not None and oa['items'] is not None and oa['kind'] == 'dict':
                        new += oa['items']
                    else:
                        new.append((('**', self.resolve(a)), self.resolve(a)))
                new += [(C(k), v) if k != '**' else (('**', self.resolve(v)), v) for k, v in kw]
                ks = [k for k, _ in new]
                o['items'] = [kv for kv in items if kv[0] not in ks] + new
                return NONE
            if name == 'pop':
                for k, v in items:
                    if k == args[0]:
                        o['items'] = [kv for kv in items if kv[0] != k]
                        return v
                o.setdefault('popped', []).append(args[0])
                if len(args) > 1 and all(isc(k) for k, _ in items):
                    return args[1]
                o['items'] = items + [(('-', args[0]), NONE)] if not all(isc(k) for k, _ in items) else items
                return ('call', ('a', self.resolve(b), 'pop'), tuple(self.resolve(a) for a in args), (), self.fresh())
            if name == 'setdefault':
                for k, v in items:
                    if k == args[0]:
                        return v
                v = args[1] if len(args) > 1 else NONE
                o['items'] = items + [(args[0], v)]
                return v
            if name in ('keys',):
                return self.new_obj('list', [k for k, _ in items])
            if name == 'values':
                return self.new_obj('list', [v for _, v in items])
            if name == 'items':
                return self.new_obj('list', [('tuple', (k, v)) for k, v in items])
            if name == 'clear':
                o['items'] = []
                return NONE
        return None

    def to_list(self, it, node):
        out = self.new_obj('list', [])
        items = self.objs[out[2]]['items']
        self.iterate(it, lambda x: items.append(x), node)
        return out

    # -- builtins and external functions -----------------------------------------------
    def call_ext(self, fn, args, kw, node):
        name = fn[1]
        if name in ('int', 'len', 'float') and args:
            self.used(args[0], name, node)
        h = getattr(self, 'b_' + name.replace('.', '_'), None)
        if h is not None:
            r = h(args, kw, node)
            if r is not None:
                return r
        if name in BUILTIN_EXC or name in EXC_ALIASES or (
                name.split('.')[-1].endswith(('Error', 'Exception')) and name.split('.')[-1][:1].isupper()):
            return self.make_exc(fn, args)
        if name in OS_QUERIES:
            t = ('q', name, self.resolve(args[0]) if args else NONE,
                 tuple(self.resolve(a) for a in args[1:]), self.epoch)
            self.emit(Ev('call', name, args=tuple(self.resolve(a) for a in args), res=t,
                         raw=(fn, tuple(args), tuple(kw))), node)
            return t
        if name == 'len' and args:
            return self.length(args[0])
        if name in PURE_CALLS or name.startswith(PURE_PREFIXES):
            if name in ('int', 'float'):
                self.maybe_raise(name, node, value=True)
            return self.opaque(fn, args, kw, node, pure=True)
        if name.startswith(QUIET):
            if name == 'time.time':
                t = ('call', fn, (), (), self.fresh())
                self.emit(Ev('call', name, res=t, raw=(fn, (), ())), node)
                return t
            self.emit(Ev('call', name, args=tuple(self.resolve(a) for a in args), kw=(), res=NONE,
                         raw=(fn, tuple(args), tuple(kw))), node)
            if name == 'time.sleep':
                self.maybe_raise(name, node)
            return NONE
        r = self.opaque(fn, args, kw, node)
        if name.startswith(('os.', 'shutil.')):
            self.bump()
        return r

    def length(self, x):
        o = self.obj(x)
        if o is not None and o['items'] is not None:
            return C(len(o['items']))
        if x[0] in ('tuple', 'list', 'set', 'dict'):
            return C(len(x[1]))
        if isc(x):
            try:
                return C(len(x[2]))
            except TypeError:
                pass
        rx = self.resolve(x)
        if rx in self.counts:
            return C(self.counts[rx])
        c = self.typeof(x)
        if c is not None and c.method('__len__'):
            return self.call_func(c.method('__len__'), [], [], x)
        return ('op', 'len', rx)

    def b_bytes(self, args, kw, node):
        c = self.typeof(args[0]) if len(args) == 1 else None
        if c is not None and c.method('__bytes__'):
            return self.call_func(c.method('__bytes__'), [], [], args[0])
        return None

    def b_bool(self, args, kw, node):
        if not args:
            return FALSE
        x = args[0]
        if x[0] == 'q' or x[0] == 'op' and x[1] in ('not', '==', 'is', 'in', '<', 'isinstance') or isc(x):
            return self.boolish(x)
        return C(self.decide(x, node))

    def b_list(self, args, kw, node):
        return self._mk('list', args, node)

    def b_set(self, args, kw, node):
        return self._mk('set', args, node)

    def b_frozenset(self, args, kw, node):
        if not args or args[0][0] not in ('gen', 'mapped'):
            return None
        return ('call', ('g', 'frozenset'), (self.resolve(self.to_list(args[0], node)),), (), None)

    def _mk(self, kind, args, node):
        if not args:
            return self.new_obj(kind, [])
        x = args[0]
        if x[0] in ('gen', 'mapped'):
            l = self.to_list(x, node)
            if kind == 'set':
                return self.new_obj('set', self.objs[l[2]]['items'])
            return l
        o = self.obj(x)
        if o is not None:
            if o['items'] is None:
                return self.new_obj(kind, None, o['base'])
            xs = [k for k, _ in o['items']] if o['kind'] == 'dict' else o['items']
            r = self.new_obj(kind, list(xs))
            self.objs[r[2]]['mixed'] = o['kind'] == 'set' or o.get('mixed', False)
            return r
        if x[0] in ('tuple', 'list', 'set'):
            return self.new_obj(kind, list(x[1]))
        if kind == 'list':
            r = self.resolve(x)
            if r[0] == 'call' and r[1][0] == 'g' and r[1][1] in ('list', 'sorted'):
                return r
        return ('call', ('g', kind), (self.resolve(x),), (), None)

    def b_tuple(self, args, kw, node):
        if not args:
            return ('tuple', ())
        x = args[0]
        if x[0] in ('gen', 'mapped'):
            x = self.to_list(x, node)
        o = self.obj(x)
        if o is not None and o['items'] is not None:
            return ('tuple', tuple(o['items']) if o['kind'] != 'dict' else tuple(k for k, _ in o['items']))
        if x[0] in ('tuple', 'list'):
            return ('tuple', tuple(x[1]))
        return None

    def b_sorted(self, args, kw, node):
        x = args[0]
        if x[0] in ('gen', 'mapped'):
            x = self.to_list(x, node)
        return ('call', ('g', 'sorted'), (self.resolve(x),),
                tuple(sorted((k, self.resolve(v)) for k, v in kw)), None)

    def b_dict(self, args, kw, node):
        d = self.new_obj('dict', [])
        for a in args:
            x = self.resolve(a)
            while x[0] == 'call' and x[1][0] == 'g' and x[1][1] in ('frozenset', 'set', 'tuple', 'list', 'sorted') \
                    and len(x[2]) == 1:
                x = x[2][0]
            if x[0] == 'call' and x[1][0] == 'a' and x[1][2] == 'items' and not x[2] and x != a:
                a = x[1][1]     # the items of a table, as they were put in
            o = self.obj(a)
            if o is not None and o['kind'] == 'dict' and o['items'] is not None:
                self.objs[d[2]]['items'] = list(o['items'])
            elif a[0] in ('list', 'obj', 'gen', 'mapped'):
                xs = self.to_list(a, node) if a[0] in ('gen', 'mapped') else a
                self.objs[d[2]]['items'] = [
                    (self.subscript(x, C(0), None), self.subscript(x, C(1), None)) for x in self.items_of(xs)]
            else:
                self.objs[d[2]]['items'] = [(('**', self.resolve(a)), self.resolve(a))]
        for k, v in kw:
            kk = C(k) if k != '**' else ('**', self.resolve(v))
            o = self.objs[d[2]]
            o['items'] = [x for x in o['items'] if x[0] != kk] + [(kk, v)]
        return d

    def b_getattr(self, args, kw, node):
        if len(args) >= 2 and isc(args[1]) and isinstance(args[1][2], str):
            if len(args) == 3:
                c = self.typeof(args[0])
                if (args[0], args[1][2]) in self.heap or (c is not None and c.find(args[1][2])):
                    return self.getattr(args[0], args[1][2], node)
                h = ('op', 'hasattr', self.resolve(args[0]), args[1])
                return self.getattr(args[0], args[1][2], node) if self.decide(h, node) else args[2]
            return self.getattr(args[0], args[1][2], node)
        return None

    def b_hasattr(self, args, kw, node):
        if isc(args[1]):
            c = self.typeof(args[0])
            if args[0][0] == 'new' and c is not None and c.find(args[1][2]):
                return TRUE
        return ('op', 'hasattr', self.resolve(args[0]), self.resolve(args[1]))

    def b_setattr(self, args, kw, node):
        if isc(args[1]):
            self.setattr(args[0], args[1][2], args[2], node)
            return NONE
        return None

    def b_isinstance(self, args, kw, node):
        x, cls = args[0], args[1]
        if cls[0] == 'tuple' and len(cls[1]) >= 1:
            for c in cls[1]:
                r = self.b_isinstance([x, c], kw, node)
                if self.decide(r, node):
                    return TRUE
            return FALSE
        c = self.typeof(x)
        if cls[0] == 'a' and cls[2] == '__class__':
            k = self.typeof(cls[1])
            if k is not None and len(self.repo.subclasses(k.name)) == 1:
                cls = ('cls', k)
        if cls[0] == 'cls' and c is not None:
            if cls[1] in c.mro():
                return TRUE
            if x[0] == 'new':
                return FALSE
        if cls[0] == 'g' and isc(x) and hasattr(builtins, cls[1]):
            return C(isinstance(x[2], getattr(builtins, cls[1])))
        if cls[0] == 'cls' and (isc(x) or x[0] in ('tuple', 'obj', 'op') or x[0] == 'call' and x[1][0] == 'a'
                                and x[1][2] in STR_METHODS):
            return FALSE
        return ('op', 'isinstance', self.resolve(x), cls)

    def b_type(self, args, kw, node):
        if len(args) == 1:
            return self.getattr(args[0], '__class__', node)
        return None

    def b_any(self, args, kw, node):
        return self._anyall(args[0], True, node)

    def b_all(self, args, kw, node):
        return self._anyall(args[0], False, node)

    def _anyall(self, it, want, node):
        found = []
        def body(x):
            if self.decide(x, node) == want:
                found.append(1)
                raise Brk()
        try:
            self.iterate(it, body, node)
        except Brk:
            pass
        return C(bool(found) == want)

    def b_map(self, args, kw, node):
        if len(args) == 2:
            return ('mapped', args[0], args[1], 'map')
        return None

    def b_filter(self, args, kw, node):
        return ('mapped', args[0], args[1], 'filter')

    def b_iter(self, args, kw, node):
        if len(args) == 2:
            return ('calliter', args[0], args[1])
        c = self.typeof(args[0])
        if c is not None and c.method('__iter__'):
            return self.call_func(c.method('__iter__'), [], [], args[0])
        return None

    def b_next(self, args, kw, node):
        c = self.typeof(args[0])
        if c is not None and c.method('__next__'):
            return self.call_func(c.method('__next__'), [], [], args[0])
        x = args[0]
        if x[0] in ('gen', 'mapped'):
            got = []
            def body(v):
                got.append(v)
                raise Brk()
            try:
                self.iterate(x, body, node)
            except Brk:
                pass
            if got:
                return got[0]
            if len(args) > 1:
                return args[1]
            self.raise_(('exc', 'StopIteration', (), self.fresh()), node)
        return self.opaque(('g', 'next'), args, kw, node)

    def b_functools_partial(self, args, kw, node):
        return ('partial', args[0], tuple(args[1:]), tuple(kw))

    def b_partial(self, args, kw, node):
        return None

    def b_functools_wraps(self, args, kw, node):
        return ('call', ('g', 'functools.wraps'), (), (), None)

    def b_operator_attrgetter(self, args, kw, node):
        return None

    def b_str(self, args, kw, node):
        if len(args) == 1 and isc(args[0]):
            return C(str(args[0][2]))
        if len(args) == 2:
            return ('call', ('a', self.resolve(args[0]), 'decode'), (self.resolve(args[1]),), (), None)
        return None

    def b_int(self, args, kw, node):
        if len(args) == 1 and isc(args[0]):
            try:
                return C(int(args[0][2]))
            except Exception:
                pass
        return None

    def b_copy_copy(self, args, kw, node):
        o = self.obj(args[0])
        if o is not None and o['items'] is not None:
            return self.new_obj(o['kind'], list(o['items']))
        return ('call', ('a', self.resolve(args[0]), 'copy'), (), (), self.fresh())

    def b_open(self, args, kw, node):
        return self.opaque(('g', 'open'), args, kw, node, name='open')

    def b_enumerate(self, args, kw, node):
        if args[0][0] in ('gen', 'mapped'):
            args = [self.to_list(args[0], node)] + args[1:]
        return ('call', ('g', 'enumerate'), tuple(self.resolve(a) for a in args),
                tuple((k, self.resolve(v)) for k, v in kw), None)

    def b_callable(self, args, kw, node):
        return None


def shape_of(args, kw):
    """how a call passes its arguments: positions, names, unknown rest"""
    star = any(a[0] == 'star' for a in args) or any(k == '**' for k, _ in kw)
    return len([a for a in args if a[0] != 'star']), tuple(k for k, _ in kw if k != '**'), star


def callname(fn):
    if fn[0] == 'g':
        return fn[1]
    if fn[0] == 'a':
        return fn[2]
    return fn[0]


def dotted_name(t):
    return t[1] if t[0] == 'g' else getattr(t[1], 'name', '?')


def _names_of(typ):
    if typ is None:
        return ['*']
    if isinstance(typ, ast.Tuple):
        return [dotted(e) or '?' for e in typ.elts]
    return [dotted(typ) or '?']


def _as_load(node):
    import copy
    n = copy.deepcopy(node)
    for x in ast.walk(n):
        if hasattr(x, 'ctx'):
            x.ctx = ast.Load()
    return n


def _openish(t):
    if t[0] == 'r' and t[1] == 'open':
        return True
    if t[0] == 'call' and t[1][0] == 'g' and t[1][1] in ('open', 'io.BytesIO', 'io.StringIO', 'os.fdopen',
                                                         'zipfile.ZipFile'):
        return True
    if t[0] == 'call' and t[1][0] == 'a' and t[1][2] == 'open':
        return True
    return False


def _is_logger(b):
    return b[0] == 'g' and 'log' in b[1].lower() or (b[0] == 'call' and b[1] == ('g', 'logging.getLogger'))


def _const_true(n):
    return isinstance(n, ast.Constant) and bool(n.value)


class _Pseudo(object):
    def __init__(self, module):
        self.module = module
        self.cls = None
        self.name = '<module>'
        self.qual = module.name
        self.short = module.name.split('.')[-1]
        self.node = None
        self.is_gen = False


_pcache = {}


def _pseudo(module):
    if id(module) not in _pcache:
        _pcache[id(module)] = _Pseudo(module)
    return _pcache[id(module)]
