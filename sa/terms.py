"""Herbrand terms with linear integer normal form and concatenation normal form."""
TRUE = ('B', 1)
FALSE = ('B', 0)
NULL = ('nullp',)


def num(c):
    return ('n', c, ())


def isnum(v):
    return v[0] == 'n' and not v[2]


def B(x):
    return TRUE if x else FALSE


def T(op, *a):
    return ('t', op) + a


def S(text):
    return ('s', text)


_k = {}


def skey(t):
    r = _k.get(t)
    if r is None:
        r = repr(t)
        if len(_k) < 2000000:
            _k[t] = r
    return r


def lin(v):
    """coerce any value to a linear form ('n', c, ((term,coef),...))"""
    k = v[0]
    if k == 'n':
        return v
    if k == 'B':
        return num(v[1])
    return ('n', 0, ((v, 1),))


def mklin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: skey(x[0])))
    return ('n', c, items)


def unlin(v):
    """a linear form that is a single term with coefficient 1 is that term"""
    if v[0] == 'n' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
        t = v[2][0][0]
        return t
    return v


def add(a, b, kb=1):
    a, b = lin(a), lin(b)
    d = dict(a[2])
    for t, k in b[2]:
        d[t] = d.get(t, 0) + kb * k
    return mklin(a[1] + kb * b[1], d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    a = lin(a)
    return mklin(a[1] * k, {t: c * k for t, c in a[2]})


def mul(a, b):
    a, b = lin(a), lin(b)
    if not a[2]:
        return scale(b, a[1])
    if not b[2]:
        return scale(a, b[1])
    x, y = sorted((unlin(a), unlin(b)), key=skey)
    return lin(T('*', x, y))


def cat(*parts):
    out = []
    for p in parts:
        ps = p[1] if p[0] == 'cat' else (p,)
        for q in ps:
            if q == ('s', ''):
                continue
            if out and q[0] == 's' and out[-1][0] == 's':
                out[-1] = ('s', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('s', '')
    if len(out) == 1:
        return out[0]
    return ('cat', tuple(out))


def catparts(v):
    return v[1] if v[0] == 'cat' else ((v,) if v != ('s', '') else ())


def strlen(v):
    if v[0] == 's':
        return num(len(v[1]))
    if v[0] == 'cat':
        r = num(0)
        for p in v[1]:
            r = add(r, strlen(p))
        return r
    if v[0] == 't' and v[1] == 'substr':
        return lin(v[4])
    if v[0] == 't' and v[1] == 'chr':
        return num(1)
    return lin(T('len', v))


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, pred):
    if not isinstance(t, tuple):
        return False
    if pred(t):
        return True
    return any(contains(x, pred) for x in t if isinstance(x, tuple))


def subst(t, m):
    """replace whole sub-terms by mapping m (keeps normal forms)"""
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'n' and len(t) == 3 and isinstance(t[2], tuple):
        r = num(t[1])
        for x, k in t[2]:
            r = add(r, scale(lin(subst(x, m)), k))
        return r
    if t[0] == 'cat':
        return cat(*[subst(x, m) for x in t[1]])
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def show(t, depth=0):
    """readable rendering of terms for reports"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if depth > 7:
        return '..'
    d = depth + 1
    if k == 'n' and len(t) == 3 and isinstance(t[2], tuple):
        s = []
        for x, c in t[2]:
            s.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + show(x, d))
        if t[1] or not s:
            s.append(str(t[1]))
        return ' + '.join(s).replace('+ -', '- ')
    if k == 'B':
        return 'true' if t[1] else 'false'
    if k == 's':
        return repr(t[1])
    if k == 'cat':
        return ' ++ '.join(show(x, d) for x in t[1])
    if k == 'nullp':
        return 'null'
    if k == 'p':
        return '&' + show(t[1], d)
    if k == 'b':
        return ('' if t[2] else 'not ') + show(t[1], d)
    if k == 't':
        if t[1] == 'init':
            return show(t[2], d)
        if t[1] in ('ret', 'phi', 'fresh'):
            return '%s<%s>' % (t[1], ','.join(show(x, d) for x in t[2:])[:60])
        return '%s(%s)' % (t[1], ', '.join(show(x, d) for x in t[2:]))
    if k == 'v':
        return str(t[3]) if len(t) > 3 else 'v%s' % (t[2],)
    if k == 'f':
        return show(t[1], d) + '.' + str(t[2]).split('::')[-1]
    if k == 'e':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if k == 'd':
        return '*' + show(t[1], d)
    if k == 'g':
        return str(t[1]).split('::')[-1]
    if k == 'h':
        return 'heap@%s' % (t[-1],) if len(t) > 1 else 'heap'
    if k in ('eq', 'null', 'le', 'eq0', 'isa', 'true', 'flt', 'fle', 'feq', 'ne'):
        return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))
    return '(' + ' '.join(show(x, d) for x in t) + ')'
