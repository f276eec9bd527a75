"""Abstract terms: hash-consed by structure, plain tuples with a string tag."""

NONE = ('c', 'NoneType', None)


def C(v):
    return ('c', type(v).__name__, v)


TRUE, FALSE = C(True), C(False)


def isc(t):
    return t[0] == 'c'


def Not(t):
    if isc(t):
        return C(not t[2])
    if t[0] == 'op' and t[1] == 'not':
        return t[2]
    return ('op', 'not', t)


def subterms(t):
    """every subterm, t first"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                stack.extend(reversed(x[1:]))
            else:
                stack.extend(reversed(x))


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def root(t):
    """what an access path starts from"""
    while t[0] in ('a', 'i', 'slice', 'elem', 'havoc') or (
            t[0] == 'call' and t[1][0] == 'a'):
        t = t[1][1] if t[0] == 'call' else t[1]
    return t


def noepoch(t):
    """forget when a query was asked and which occurrence a call is"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'q':
        return ('q', t[1], noepoch(t[2]), noepoch(t[3]), 0)
    return tuple(noepoch(x) for x in t)


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if not isinstance(t[0], str):
        return ', '.join(show(x, depth) for x in t)
    if depth > 7:
        return '...'
    d = depth + 1
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k in ('p', 'g'):
        return t[1].replace('builtins.', '').replace('abl.vpath.base.', '')
    if k in ('fn', 'impl'):
        return t[1].name
    if k == 'cls':
        return t[1].name
    if k == 'mod':
        return t[1].name
    if k == 'a':
        return '%s.%s' % (show(t[1], d), t[2])
    if k == 'i':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if k == 'slice':
        return '%s[%s]' % (show(t[1], d), ':'.join(
            '' if x == NONE else show(x, d) for x in t[2:]))
    if k == 'elem':
        return 'each(%s)' % show(t[1], d) if t[2] == 0 else 'each%d(%s)' % (t[2], show(t[1], d))
    if k in ('q', 'r', 'u'):
        return '%s.%s(%s)' % (show(t[2], d), t[1], show(t[3], d))
    if k == 'call':
        a = [show(x, d) for x in t[2]] + ['%s=%s' % (n, show(v, d)) for n, v in t[3]]
        return '%s(%s)' % (show(t[1], d), ', '.join(a))
    if k in ('tuple', 'list', 'set'):
        return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1]))
    if k == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (show(a, d), show(b, d)) for a, b in t[1])
    if k == 'new':
        return '<%s>' % t[1].name
    if k == 'op':
        if t[1] == 'not':
            return 'not %s' % show(t[2], d)
        if len(t) == 4 and not t[1].isalpha() or t[1] in ('is', 'in'):
            return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
        return '%s(%s)' % (t[1], ', '.join(show(x, d) for x in t[2:]))
    if k == 'exc':
        return '%s(%s)' % (getattr(t[1], 'name', t[1]), show(t[2], d))
    if k == 'bm':
        return '%s.%s' % (show(t[1], d), t[2].name)
    return '%s(%s)' % (k, ', '.join(show(x, d) if isinstance(x, tuple) else str(x) for x in t[1:]))
