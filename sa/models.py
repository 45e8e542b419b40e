"""Semantics of the library functions the code uses, on value numbers."""
from .state import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


DTOR_CLASSES = ('std::unique_ptr', 'std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream', 'std::shared_ptr', 'std::auto_ptr',
                'std::lock_guard', 'std::unique_lock')


def short(cls):
    from .engine import plain
    return plain(cls or '')


def has_dtor(cls):
    return short(cls) in DTOR_CLASSES


def destroy(E, st, loc, cls, fr, line):
    sc = short(cls)
    if sc in ('std::unique_ptr', 'std::shared_ptr', 'std::auto_ptr'):
        p = E.load(st, loc)
        st.emit('updtor', loc, p, line)
        return up_delete(E, st, p, cls, fr, line)
    if sc in ('std::basic_ofstream', 'std::basic_ifstream', 'std::basic_fstream'):
        st.emit('close', loc, sc, line)
        return [st]
    return [st]


def up_delete(E, st, p, cls, fr, line):
    """the pointee of a unique_ptr is destroyed"""
    if st.decide_null(p) == 1:
        return [st]
    inner = (cls or '')
    inner = inner[inner.find('<') + 1:inner.rfind('>')]
    arr = inner.split(',')[0].strip().endswith('[]')
    parts = inner.split(', ')
    if len(parts) > 1 and not parts[1].startswith('std::default_delete'):
        st.emit('customdel', p, cls, line)
        loc = p[1] if p[0] == 'p' else ('d', p)
        base = loc[1] if loc[0] == 'e' else loc
        st.mem.pop(('alive', base), None)
        return [st]
    return E.delete(st, p, arr, parts[0].replace('[]', '').strip(), fr, line)


def default_content(E, st, loc, f):
    t = f.get('t', '')
    s = short(t)
    if s == 'std::basic_string':
        st.mem[loc] = S('')
    elif s in ('std::list', 'std::vector', 'std::deque'):
        st.mem[loc] = EMPTY
    elif s in ('std::unique_ptr', 'std::shared_ptr'):
        st.mem[loc] = NULL
    elif f.get('c') and not t.endswith('*') and f['c'] in E.p.classes:
        ctor = [m for m in E.p.classes[f['c']].get('methods', []) if m['n'] == f['c'].split('::')[-1] and not m['params']]
        if ctor and ctor[0]['f'] in E.p.functions:
            E.run(E.p.functions[ctor[0]['f']], st, loc, [], None, None, f.get('line'))


def init_list_model(E, e, dest, st, fr):
    return None


# ------------------------------------------------------------------ helpers
EMPTY = ('L', (), None, ())


def ok(st, v=('void',)):
    return [(st, v)]


def strval(E, st, a):
    """content of a string argument: std::string reference, char pointer or literal"""
    if a[0] == 'l' or a[0] == 'o':
        return content(E, st, a[1])
    return cstr(E, st, a)


def content(E, st, loc):
    v = E.load(st, loc)
    if v[0] == 'p':
        # a reference to a pointer/char array passed as string view
        return cstr(E, st, v)
    return v


def cstr(E, st, p):
    if p[0] == 's':
        return p
    if p[0] == 't' and p[1] == 'cstr':
        if p[2][0] in ('cat', 't') and p[2][:2] != ('t', 'cs'):
            st.emit('ntbs', p[2])       # ends at the first zero byte
        return p[2]
    if p[0] == 'p':
        l = p[1]
        if l[0] == 'c' and isnum(l[2]) and l[2][1] == 0:
            b = l[1]
            return b[1] if b[0] == 'lit' else E.load(st, b)
        if l[0] == 'c':
            b = l[1]
            s = b[1] if b[0] == 'lit' else E.load(st, b)
            return T('substr', s, st.norm(l[2]), sub(strlen(s), st.norm(l[2])))
        v = st.mem.get(('str', l))
        base = l[1] if l[0] == 'e' and isnum(l[2]) and l[2][1] == 0 else None
        if base is not None and ('str', base) in st.mem:
            return st.mem[('str', base)]
        if base is not None and base[0] == 'lit':
            return base[1]
        hv = st.mem.get(('hav', base)) if base is not None else None
        if base is not None and hv is None:
            undefined(E, st, l)
        return T('cs', p, hv) if hv is not None else T('cs', p, ('g', st.gen))
    return T('cs', p)


def undefined(E, st, loc):
    """a library function reads the place: notes it if it has no value"""
    v = E.load(st, loc)
    if v[:2] == ('t', 'undef') and getattr(E, 'at', None):
        E.uninit.append((st, E.at[0], E.at[1], loc))


def mkstr(t):
    """pointer to the characters of content t"""
    if t[0] == 't' and t[1] == 'cs' and len(t) == 3:
        return t[2]
    if t[0] == 's':
        return t
    return T('cstr', t)


def setobj(E, st, loc, v):
    E.drop_under(st, loc)
    E.store(st, loc, v)


# ------------------------------------------------------------------ std::string
@model('std::basic_string::basic_string')
def string_ctor(E, st, fr, c):
    a = c.args
    n = len([x for x in c.e.get('a', []) if not (x.get('c') or '').startswith('std::allocator')])
    ks = c.e.get('pr', [])
    if not a or (len(a) == 1 and 'allocator' in str(c.e['a'][0].get('t'))):
        v = S('')
    elif a[0][0] in ('l', 'o'):
        s = content(E, st, a[0][1])
        if len(a) >= 2 and a[1][0] == 'n':
            # string(const string&, pos[, n])
            ln = a[2] if len(a) > 2 and a[2][0] in ('n', 'B') else num(NPOS)
            return [(s2, store_ret(E, s2, c.obj, v2)) for s2, v2 in substr(E, st, s, a[1], ln, fr, c.line)]
        v = s
    elif len(a) >= 2 and ks[0] in ('q', 'p') and ks[1] == 'v' and a[1][0] in ('n', 'B'):
        # (const char*, n)
        v = bytes_of(E, st, a[0], st.norm(a[1]))
    elif len(a) >= 2 and ks[0] == 'v' and ks[1] == 'v' and a[0][0] in ('n', 'B'):
        v = fill(st, a[0], a[1])
    elif len(a) >= 2 and a[1][0] in ('p', 't', 's') and ks[1] in ('q', 'p') or len(a) >= 2 and a[1][0] == 'o':
        b, en = a[0], a[1]
        if b[0] == 'o':
            b, en = E.load(st, b[1]), E.load(st, en[1])
        v = range_str(E, st, b, en)
    else:
        d = st.decide_null(a[0])
        if d == 1:
            E.abort(st, 'null-string', fr, c.line)
            return []
        if d is None:
            E.null_derefs.append((st.fork(), fr, c.line, a[0]))
            st.emit('mayderef', a[0], c.line, fr.fn['qual'])
        v = cstr(E, st, a[0])
    return [(st, store_ret(E, st, c.obj, v))]


def store_ret(E, st, loc, v):
    setobj(E, st, loc, v)
    return ('o', loc)


def bytes_of(E, st, p, n):
    s = None
    if p[0] == 's':
        s = p
    elif p[0] == 't' and p[1] == 'cstr':
        s = p[2]
    elif p[0] == 'p' and p[1][0] == 'c':
        b = p[1][1]
        s = b[1] if b[0] == 'lit' else E.load(st, b)
        i = st.norm(p[1][2])
        if isnum(i) and i[1] == 0 and n == st.norm(strlen(s)):
            return s
        return T('substr', s, i, n)
    if s is not None:
        if s[0] == 's' and isnum(n) and n[1] <= len(s[1]):
            return S(s[1][:n[1]])
        if n == st.norm(strlen(s)):
            return s
        return T('substr', s, num(0), n)
    if isnum(n) and n[1] == 0:
        return S('')
    l = p[1] if p[0] == 'p' else ('d', p)
    base = l[1] if l[0] == 'e' else l
    mc = st.mem.get(('bytes', base))
    if mc is not None and mc[0] == 'cpy' and (l[0] != 'e' or l[2] == num(0)) and st.norm(mc[2]) == n:
        if mc[1][0] == 't' and mc[1][1] == 'cstr' and mc[1][2][:2] == ('t', 'bytes') and mc[1][2][3] == n:
            return mc[1][2]
        return bytes_of(E, st, mc[1], n) if mc[1][0] != 't' or mc[1][1] != 'bytes' else mc[1]
    return T('bytes', p, n)


def range_str(E, st, b, en):
    """characters of the iterator range [b, en)"""
    if b[0] == 'p' and en[0] == 'p' and b[1][0] == 'c' and en[1][0] == 'c' and b[1][1] == en[1][1]:
        s = b[1][1][1] if b[1][1][0] == 'lit' else E.load(st, b[1][1])
        return mk_substr(st, s, b[1][2], sub(en[1][2], b[1][2]))
    lb = b[1] if b[0] == 'p' else ('d', b)
    le = en[1] if en[0] == 'p' else ('d', en)
    (ob, ib), (oe, ie) = [(l[1], l[2]) if l[0] == 'e' else (l, num(0)) for l in (lb, le)]
    if ob == oe and ob[0] != 'c' and ib[0] == 'n' and ie[0] == 'n':
        return bytes_of(E, st, b, st.norm(sub(ie, ib)))
    return T('range', b, en)


def fill(st, n, ch):
    n, ch = st.norm(n), st.norm(ch)
    if isnum(n) and n[1] == 1:
        return chr_str(ch)
    if isnum(n) and n[1] == 0:
        return S('')
    if isnum(n) and n[1] <= 64 and isnum(ch):
        return S(chr(ch[1] & 255) * n[1])
    return T('fill', n, ch)


def chr_str(ch):
    if isnum(ch):
        return S(chr(ch[1] & 255))
    return T('chr', unlin(ch))


def mk_substr(st, s, p, n):
    p, n = st.norm(p), st.norm(n)
    ln = st.norm(strlen(s))
    if isnum(p) and p[1] == 0 and n == ln:
        return s
    if isnum(n) and n[1] == 0:
        return S('')
    if s[0] == 's' and isnum(p) and isnum(n):
        return S(s[1][p[1]:p[1] + n[1]])
    if s[0] == 't' and s[1] == 'substr':
        return mk_substr(st, s[2], add(lin(s[3]), p), n)
    if isnum(n) and n[1] == 1:
        return T('chr', T('at', s, p))
    return T('substr', s, p, n)


def substr(E, st, s, pos, n, fr, line):
    """[(state, term)]; throws out_of_range if the position may lie behind the end"""
    ln = strlen(s)
    pos, n = st.norm(pos), st.norm(n)
    bad = mk_le(add(sub(ln, pos), num(1)))      # len < pos
    d = st.decide(bad)
    if d == 1:
        E.throw(st, 'std::out_of_range', None, fr, line)
        return []
    if d is None:
        s2 = st.fork()
        if s2.assume(bad, 1):
            s2.emit('substr-range', s, pos, line)
            E.throw(s2, 'std::out_of_range', None, fr, line)
        st.assume(bad, 0)
    rest = sub(ln, pos)
    over = mk_le(sub(rest, n))                  # rest <= n
    out = []
    for s3, d in E.fork_bool(st, over):
        m = rest if d else n
        out.append((s3, mk_substr(s3, s, pos, m)))
    return out


@model('std::basic_string::substr')
def string_substr(E, st, fr, c):
    s = content(E, st, c.obj)
    pos = c.args[0] if c.args else num(0)
    n = c.args[1] if len(c.args) > 1 else num(NPOS)
    return [(s2, store_ret(E, s2, c.dest, v)) for s2, v in substr(E, st, s, lin(pos), lin(n), fr, c.line)]


@model('std::basic_string::operator=', 'std::basic_string::assign')
def string_assign(E, st, fr, c):
    a = c.args
    if len(a) == 1:
        if a[0][0] in ('l', 'o'):
            v = content(E, st, a[0][1])
        elif a[0][0] in ('n', 'B'):
            v = chr_str(st.norm(a[0]))
        else:
            v = cstr(E, st, a[0])
        setobj(E, st, c.obj, v)
        return [(st, ('l', c.obj))]
    ks = c.e.get('pr', [])
    if ks and ks[0] in ('c', 'r') and a[1][0] in ('n',):
        n = a[2] if len(a) > 2 else num(NPOS)
        return [(s2, (setobj(E, s2, c.obj, v), ('l', c.obj))[1]) for s2, v in substr(E, st, content(E, st, a[0][1]), a[1], n, fr, c.line)]
    if len(a) == 2 and ks[0] in ('q', 'p') and a[1][0] in ('n', 'B'):
        setobj(E, st, c.obj, bytes_of(E, st, a[0], st.norm(a[1])))
        return [(st, ('l', c.obj))]
    if len(a) == 2 and a[0][0] in ('n', 'B'):
        setobj(E, st, c.obj, fill(st, a[0], a[1]))
        return [(st, ('l', c.obj))]
    b, en = [E.load(st, x[1]) if x[0] in ('o', 'l') else x for x in a[:2]]
    setobj(E, st, c.obj, range_str(E, st, b, en))
    return [(st, ('l', c.obj))]


@model('std::basic_string::append', 'std::basic_string::operator+=')
def string_append(E, st, fr, c):
    a = c.args
    old = content(E, st, c.obj)
    ks = c.e.get('pr', [])
    if len(a) == 1:
        if a[0][0] in ('l', 'o'):
            add_ = content(E, st, a[0][1])
        elif a[0][0] in ('n', 'B') or (ks and ks[0] == 'v' and a[0][0] != 's'):
            add_ = chr_str(st.norm(a[0]))
        else:
            add_ = cstr(E, st, a[0])
        setobj(E, st, c.obj, cat(old, add_))
        return [(st, ('l', c.obj))]
    if ks and ks[0] in ('c', 'r') and a[1][0] in ('n', 'B'):
        n = a[2] if len(a) > 2 else num(NPOS)
        out = []
        for s2, v in substr(E, st, content(E, st, a[0][1]), a[1], n, fr, c.line):
            setobj(E, s2, c.obj, cat(old, v))
            out.append((s2, ('l', c.obj)))
        return out
    if ks and ks[0] in ('q', 'p') and a[1][0] in ('n', 'B'):
        setobj(E, st, c.obj, cat(old, bytes_of(E, st, a[0], st.norm(a[1]))))
        return [(st, ('l', c.obj))]
    if a[0][0] in ('n', 'B'):
        setobj(E, st, c.obj, cat(old, fill(st, a[0], a[1])))
        return [(st, ('l', c.obj))]
    b, en = [E.load(st, x[1]) if x[0] in ('o', 'l') else x for x in a[:2]]
    setobj(E, st, c.obj, cat(old, range_str(E, st, b, en)))
    return [(st, ('l', c.obj))]


@model('std::basic_string::push_back')
def string_push(E, st, fr, c):
    setobj(E, st, c.obj, cat(content(E, st, c.obj), chr_str(st.norm(c.args[0]))))
    return ok(st)


@model('std::basic_string::clear')
def string_clear(E, st, fr, c):
    setobj(E, st, c.obj, S(''))
    return ok(st)


@model('std::basic_string::resize')
def string_resize(E, st, fr, c):
    n = st.norm(c.args[0])
    old = content(E, st, c.obj)
    ln = st.norm(strlen(old))
    if isnum(n) and n[1] == 0:
        v = S('')
    elif n == ln:
        v = old
    elif st.prove_le(sub(n, ln)):
        v = mk_substr(st, old, num(0), n)
    else:
        v = T('resized', old, n)
    setobj(E, st, c.obj, v)
    return ok(st)


@model('std::basic_string::reserve', 'std::basic_string::shrink_to_fit')
def string_reserve(E, st, fr, c):
    return ok(st)


@model('std::basic_string::length', 'std::basic_string::size')
def string_length(E, st, fr, c):
    return ok(st, strlen(content(E, st, c.obj)))


@model('std::basic_string::empty')
def string_empty(E, st, fr, c):
    return ok(st, mk_eq0(strlen(content(E, st, c.obj))))


@model('std::basic_string::c_str', 'std::basic_string::data')
def string_cstr(E, st, fr, c):
    return ok(st, mkstr(content(E, st, c.obj)))


@model('std::basic_string::operator[]')
def string_index(E, st, fr, c):
    i = lin(c.args[0])
    s = content(E, st, c.obj)
    n = strlen(s)
    okhi = st.prove_le(sub(i, n))
    oklo = st.prove_le(scale(i, -1))
    st.emit('sindex', c.obj, s, i, oklo, okhi, c.line, fr.fn['qual'])
    if not (oklo and okhi):
        E.oob.append((st.fork(), fr, c.line, c.obj, i, n, oklo, okhi))
    return [(st, ('l', ('c', c.obj, i)))]


@model('std::basic_string::at')
def string_at(E, st, fr, c):
    i = lin(c.args[0])
    n = strlen(content(E, st, c.obj))
    out = []
    for s, d in E.fork_bool(st, mk_le(add(sub(i, n), num(1)))):
        if d:
            out.append((s, ('l', ('c', c.obj, i))))
        else:
            E.throw(s, 'std::out_of_range', None, fr, c.line)
    return out


@model('std::basic_string::front')
def string_front(E, st, fr, c):
    return [(st, ('l', ('c', c.obj, num(0))))]


@model('std::basic_string::back')
def string_back(E, st, fr, c):
    return [(st, ('l', ('c', c.obj, sub(strlen(content(E, st, c.obj)), num(1)))))]


@model('std::basic_string::begin', 'std::basic_string::cbegin')
def string_begin(E, st, fr, c):
    return it_ret(E, st, c, ('p', ('c', c.obj, num(0))))


@model('std::basic_string::end', 'std::basic_string::cend')
def string_end(E, st, fr, c):
    return it_ret(E, st, c, ('p', ('c', c.obj, strlen(content(E, st, c.obj)))))


def it_ret(E, st, c, v):
    if c.dest is not None:
        st.mem[c.dest] = v
        return [(st, ('o', c.dest))]
    return [(st, v)]


@model('std::basic_string::pop_back')
def string_pop(E, st, fr, c):
    s = content(E, st, c.obj)
    setobj(E, st, c.obj, mk_substr(st, s, num(0), sub(strlen(s), num(1))))
    return ok(st)


@model('std::basic_string::erase')
def string_erase(E, st, fr, c):
    s = content(E, st, c.obj)
    if c.args and c.args[0][0] in ('o', 'l'):
        st.unknown('erase(iterator)')
        setobj(E, st, c.obj, T('erased', s, st.fresh()))
        return it_ret(E, st, c, T('it', st.fresh()))
    pos = lin(c.args[0]) if c.args else num(0)
    n = lin(c.args[1]) if len(c.args) > 1 else num(NPOS)
    ln = strlen(s)
    bad = mk_le(add(sub(ln, pos), num(1)))
    d = st.decide(bad)
    if d == 1:
        E.throw(st, 'std::out_of_range', None, fr, c.line)
        return []
    if d is None:
        s2 = st.fork()
        if s2.assume(bad, 1):
            E.throw(s2, 'std::out_of_range', None, fr, c.line)
        st.assume(bad, 0)
    out = []
    for s3, d in E.fork_bool(st, mk_le(sub(sub(ln, pos), n))):
        if d:
            v = mk_substr(s3, s, num(0), pos)
        else:
            v = cat(mk_substr(s3, s, num(0), pos), mk_substr(s3, s, add(pos, n), sub(sub(ln, pos), n)))
        setobj(E, s3, c.obj, v)
        out.append((s3, ('l', c.obj)))
    return out


def needle(E, st, a):
    if a[0] in ('l', 'o'):
        return content(E, st, a[1])
    if a[0] in ('n', 'B'):
        return chr_str(st.norm(a))
    if a[0] == 't' and a[1] in ('at', 'uchar', 'par', 'phi'):
        return T('chr', a)
    return cstr(E, st, a)


def finder(kind):
    def f(E, st, fr, c):
        s = content(E, st, c.obj)
        x = needle(E, st, c.args[0])
        back = kind in ('rfind', 'find_last_of', 'find_last_not_of')
        pos = st.norm(c.args[1]) if len(c.args) > 1 and c.args[1][0] in ('n', 'B', 't') else num(NPOS if back else 0)
        ln = strlen(s)
        if back and st.prove_le(sub(sub(ln, num(1)), pos)):
            pos = num(NPOS)
        if s[0] == 's' and x[0] == 's' and isnum(pos):
            py = s[1].find(x[1], pos[1]) if kind == 'find' else s[1].rfind(x[1]) if kind == 'rfind' and pos[1] == NPOS else None
            if py is not None:
                return ok(st, num(py if py >= 0 else NPOS))
        r = T('find', kind, s, x, pos)
        a = ('found', kind, s, x, pos)
        out = []
        for s2, d in E.fork_bool(st, ('b', a, 1)):
            if not d:
                out.append((s2, num(NPOS)))
                continue
            good = s2.add_le(scale(lin(r), -1))
            m = strlen(x) if kind in ('find', 'rfind') else num(1)
            good = good and s2.add_le(sub(add(lin(r), m), ln))
            if not back:
                good = good and s2.add_le(sub(pos, lin(r)))
            elif pos != num(NPOS):
                good = good and s2.add_le(sub(lin(r), pos))
            if not good:
                continue
            if x[0] == 's' and (kind in ('find_first_of', 'find_last_of') or len(x[1]) == 1 and kind in ('find', 'rfind')):
                t = T('at', s, s2.norm(lin(r)))
                cs = frozenset(ord(ch) if ord(ch) < 128 else ord(ch) - 256 for ch in x[1])
                s2.cset[t] = cs
                if len(cs) == 1:
                    s2.bind[t] = num(next(iter(cs)))
            if x[0] == 's' and len(x[1]) == 1 and kind in ('find_first_not_of', 'find_last_not_of'):
                if not s2.assume(mk_eq0(sub(lin(T('at', s, s2.norm(lin(r)))), num(ord(x[1]) if ord(x[1]) < 128 else ord(x[1]) - 256))), 0):
                    continue
            out.append((s2, lin(r)))
        return out
    return f


for _k in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
    MODELS['std::basic_string::' + _k] = finder(_k)


@model('std::basic_string::compare')
def string_compare(E, st, fr, c):
    s = content(E, st, c.obj)
    if len(c.args) == 1:
        x = strval(E, st, c.args[0])
        b = mk_eq(s, x)
        out = []
        for s2, d in E.fork_bool(st, b):
            if d:
                out.append((s2, num(0)))
            else:
                r = T('cmp', s, x)
                s2.iv[r] = (-2**31, 2**31 - 1)
                s2.assume(mk_eq0(lin(r)), 0)
                out.append((s2, lin(r)))
        return out
    if len(c.args) == 3 and c.args[2][0] in ('l', 'o', 's', 't'):
        out = []
        for s2, v in substr(E, st, s, lin(c.args[0]), lin(c.args[1]), fr, c.line):
            x = strval(E, s2, c.args[2])
            for s3, d in E.fork_bool(s2, mk_eq(v, x)):
                if d:
                    out.append((s3, num(0)))
                else:
                    r = T('cmp', v, x)
                    s3.iv[r] = (-2**31, 2**31 - 1)
                    s3.assume(mk_eq0(lin(r)), 0)
                    out.append((s3, lin(r)))
        return out
    st.unknown('compare/%d' % len(c.args))
    r = T('ret', 'compare', st.fresh())
    st.iv[r] = (-2**31, 2**31 - 1)
    return ok(st, lin(r))


@model('std::basic_string::swap')
def string_swap(E, st, fr, c):
    a, b = content(E, st, c.obj), content(E, st, c.args[0][1])
    setobj(E, st, c.obj, b)
    setobj(E, st, c.args[0][1], a)
    return ok(st)


@model('std::basic_string::insert')
def string_insert(E, st, fr, c):
    s = content(E, st, c.obj)
    if len(c.args) == 2 and c.args[0][0] == 'n':
        p = st.norm(c.args[0])
        x = strval(E, st, c.args[1])
        if p == num(0):
            v = cat(x, s)
        else:
            v = cat(mk_substr(st, s, num(0), p), x, mk_substr(st, s, p, sub(strlen(s), p)))
        setobj(E, st, c.obj, v)
        return [(st, ('l', c.obj))]
    if len(c.args) == 3 and c.args[0] == num(0) and c.args[1][0] in ('p', 's', 't') and c.args[2][0] == 'n':
        setobj(E, st, c.obj, cat(bytes_of(E, st, c.args[1], st.norm(c.args[2])), s))
        return [(st, ('l', c.obj))]
    st.unknown("insert")
    setobj(E, st, c.obj, T('inserted', s, st.fresh()))
    return [(st, ('l', c.obj))]


@model('std::basic_string::replace')
def string_replace(E, st, fr, c):
    st.unknown('replace')
    setobj(E, st, c.obj, T('replaced', content(E, st, c.obj), st.fresh()))
    return [(st, ('l', c.obj))]


@model('std::operator+')
def op_plus(E, st, fr, c):
    a, b = c.args[0], c.args[1]
    if c.dest is None:
        return None
    va = needle(E, st, a) if a[0] in ('n', 'B') else strval(E, st, a)
    vb = needle(E, st, b) if b[0] in ('n', 'B') else strval(E, st, b)
    return [(st, store_ret(E, st, c.dest, cat(va, vb)))]


def is_strarg(c, i):
    t = (c.e['a'][i].get('t') or '') + (c.e['a'][i].get('c') or '')
    return True


@model('std::operator==', 'std::operator!=', 'std::__cxx11::operator==', '__gnu_cxx::operator==', '__gnu_cxx::operator!=', 'std::operator<', 'std::operator>')
def op_eq(E, st, fr, c):
    op = c.e.get('op') or ('!=' if c.name.endswith('!=') else '==')
    a, b = c.args[0], c.args[1]
    va = E.load(st, a[1]) if a[0] in ('l', 'o') else cstr(E, st, a) if a[0] != 'nullp' else NULL
    vb = E.load(st, b[1]) if b[0] in ('l', 'o') else cstr(E, st, b) if b[0] != 'nullp' else NULL
    if a[0] not in ('l', 'o') and not E_is_char(c, 0):
        va = a
    if b[0] not in ('l', 'o') and not E_is_char(c, 1):
        vb = b
    if op in ('<', '>'):
        return ok(st, ('b', ('slt', va, vb) if op == '<' else ('slt', vb, va), 1))
    if va[0] == 'L' or vb[0] == 'L':
        r = mk_true(T('listeq', va, vb))
    else:
        va, vb = E.ptrnorm(st, va), E.ptrnorm(st, vb)
        r = iteq(E, st, va, vb)
    return ok(st, r if op == '==' else mk_not(r))


def E_is_char(c, i):
    t = c.e['a'][i].get('t') or ''
    return 'char' in t or c.e['a'][i]['k'] == 'str' or not t


# ------------------------------------------------------------------ streams
COUT = ('g', 'std::cout')


def is_stream_arg(c):
    return True


def osloc(c):
    return c.obj if c.obj is not None else c.args[0][1]


CERR = ('g', 'std::cerr')


def emit_out(E, st, loc, part, line, fr):
    if loc == CERR and 'cerr' not in E.flags:
        return      # diagnostics
    st.emit('out', loc, part, line, fr.fn['qual'] if fr else None)
    if 'writes' in E.flags:
        bump_stream(st, loc)
        st.emit('state', loc, st.mem[('sst', loc)], False)
    old = st.mem.get(loc)
    if old is None:
        old = T('init', loc) if loc_base(loc)[0] not in ('v', 'h', 't') else S('')
    st.mem[loc] = cat(old, part)


@model('std::operator<<')
def op_shl(E, st, fr, c):
    if len(c.args) != 2:
        return None
    loc = c.args[0][1]
    a = c.args[1]
    t = (c.e['a'][1].get('t') or '').replace('const ', '')
    if a[0] in ('l', 'o'):
        v = E.load(st, a[1])
        part = v
    elif t in ('char', 'signed char', 'unsigned char'):
        part = chr_str(st.norm(a))
    elif c.e['a'][1].get('k') == 'int':
        part = chr_str(a)
    else:
        d = st.decide_null(a)
        if d is None and a[0] == 't' and a[1] in ('ret', 'cell'):
            pass
        part = cstr(E, st, a)
    if a[0] in ('l', 'o') and t not in ('', ) and 'basic_string' not in t and v[0] not in ('s', 'cat', 't'):
        part = T('obj', v)
    emit_out(E, st, loc, part, c.line, fr)
    return [(st, ('l', loc))]


@model('std::basic_ostream::operator<<')
def ostream_shl(E, st, fr, c):
    loc = c.obj
    a = c.args[0]
    if a[0] == 'fnp':
        n = a[2]
        if n.endswith('endl'):
            emit_out(E, st, loc, S('\n'), c.line, fr)
            if loc != CERR:
                st.emit('flush', loc, c.line)
                if 'writes' in E.flags:
                    bump_stream(st, loc)
                    st.emit('state', loc, st.mem[('sst', loc)], True)
        elif n.endswith('flush'):
            if loc != CERR:
                st.emit('flush', loc, c.line)
                if 'writes' in E.flags:
                    bump_stream(st, loc)
                    st.emit('state', loc, st.mem[('sst', loc)], True)
        else:
            st.emit('manip', loc, n, c.line)
            st.mem[('fmt', loc)] = S(n)
        return [(st, ('l', loc))]
    t = (c.e['a'][0].get('t') or '')
    rt = c.e.get('pr')
    prec = st.mem.get(('prec', loc))
    fm = st.mem.get(('fmt', loc))
    if isinstance(a, tuple) and a[0] in ('n', 'B', 'b') and a[0] != 't':
        v = st.norm(a) if a[0] == 'n' else a
        if v[0] == 'n' and not v[2]:
            part = S(str(v[1]))
        elif v[0] == 'B':
            part = S(str(v[1]))
        else:
            part = T('fmt', v if v[0] != 'n' else unlin(v))
    else:
        part = T('fmt', a, prec, t) if prec is not None else T('fmt', a, ('none',), t) if is_float(t) else T('fmt', a)
    if fm is not None:
        part = T('fmtmod', part, fm)
    emit_out(E, st, loc, part, c.line, fr)
    return [(st, ('l', loc))]


@model('std::to_string')
def to_string(E, st, fr, c):
    t = (c.e['a'][0].get('t') or '').replace('const ', '')
    a = c.args[0]
    if is_float(t) or not isinstance(a, tuple) or a[0] != 'n':
        return E.external(c.e, c.name, st, fr, c.obj, c.args, c.dest)
    v = st.norm(a)
    return [(st, store_ret(E, st, c.dest, S(str(v[1])) if not v[2] else T('fmt', unlin(v))))]


@model('std::endl', 'std::flush', 'std::basic_ostream::flush')
def flush(E, st, fr, c):
    loc = osloc(c)
    if c.name.endswith('endl'):
        emit_out(E, st, loc, S('\n'), c.line, fr)
    if loc != CERR or 'cerr' in E.flags:
        st.emit('flush', loc, c.line)
        bump_stream(st, loc)
        if 'writes' in E.flags:
            st.emit('state', loc, st.mem[('sst', loc)], True)
    return [(st, ('l', loc))]


@model('std::basic_ostream::put')
def ostream_put(E, st, fr, c):
    emit_out(E, st, c.obj, chr_str(st.norm(c.args[0])), c.line, fr)
    return [(st, ('l', c.obj))]


@model('std::basic_ostream::write')
def ostream_write(E, st, fr, c):
    emit_out(E, st, c.obj, bytes_of(E, st, c.args[0], st.norm(c.args[1])), c.line, fr)
    return [(st, ('l', c.obj))]


@model('std::ios_base::precision')
def precision(E, st, fr, c):
    if c.args:
        st.mem[('prec', c.obj)] = c.args[0]
    return ok(st, T('ret', 'precision', st.fresh()))


@model('std::basic_ostringstream::basic_ostringstream', 'std::basic_stringstream::basic_stringstream')
def oss_ctor(E, st, fr, c):
    E.drop_under(st, c.obj)
    st.mem[c.obj] = S('')
    st.mem.pop(('prec', c.obj), None)
    st.mem.pop(('fmt', c.obj), None)
    if c.args and c.args[0][0] in ('l', 'o'):
        st.mem[c.obj] = content(E, st, c.args[0][1])
        st.mem[('in', c.obj)] = st.mem[c.obj]
    return [(st, ('o', c.obj))]


@model('std::basic_ostringstream::str', 'std::basic_stringstream::str', 'std::basic_istringstream::str')
def oss_str(E, st, fr, c):
    if c.args:
        st.mem[c.obj] = content(E, st, c.args[0][1])
        st.mem[('in', c.obj)] = st.mem[c.obj]
        return ok(st)
    return [(st, store_ret(E, st, c.dest, E.load(st, c.obj)))]


@model('std::basic_istringstream::basic_istringstream')
def iss_ctor(E, st, fr, c):
    E.drop_under(st, c.obj)
    s = content(E, st, c.args[0][1]) if c.args and c.args[0][0] in ('l', 'o') else S('')
    st.mem[c.obj] = T('isrc', s)
    st.mem[('sst', c.obj)] = T('sopen', c.obj, st.fresh())
    st.facts[('true', T('fail', st.mem[('sst', c.obj)]))] = False
    return [(st, ('o', c.obj))]


def sstate(st, loc):
    v = st.mem.get(('sst', loc))
    if v is None:
        v = T('sst0', loc, st.gen)
        st.mem[('sst', loc)] = v
    return v


def bump_stream(st, loc, why='op'):
    v = T('sst', loc, st.fresh())
    st.mem[('sst', loc)] = v
    return v


@model('std::basic_istream::operator>>', 'std::operator>>')
def extract(E, st, fr, c):
    if c.obj is None:
        loc, tgt = c.args[0][1], c.args[1]
    else:
        loc, tgt = c.obj, c.args[0]
    if tgt[0] not in ('l',):
        st.emit('manip', loc, 'extract', c.line)
        return [(st, ('l', loc))]
    src = E.load(st, loc)
    t = c.e['a'][-1].get('t', '')
    old = sstate(st, loc)
    bump = bump_stream(st, loc)
    val = T('parse', src, t)
    out = []
    f = mk_true(T('fail', bump))
    parsed = mk_true(T('parses', src, t))
    for s2, d in E.fork_bool(st, parsed):
        s2.emit('extract', loc, tgt[1], bool(d), c.line)
        s2.facts[('true', T('fail', bump))] = not d
        if not d:
            s2.facts[('true', T('bad', bump))] = False
        if d:
            if t == 'bool':
                E.store(s2, tgt[1], mk_true(val))
            elif int_range(t):
                s2.iv.setdefault(val, int_range(t))
                E.store(s2, tgt[1], lin(val))
            elif 'basic_string' in t:
                setobj(E, s2, tgt[1], val)
            else:
                E.store(s2, tgt[1], val)
            s2.mem[loc] = T('rest', src, t)
        else:
            # a failed extraction leaves 0 or the closest representable value
            z = T('badparse', src, t)
            if t == 'bool':
                E.store(s2, tgt[1], mk_true(z))
            elif int_range(t):
                s2.iv.setdefault(z, int_range(t))
                E.store(s2, tgt[1], lin(z))
            elif 'basic_string' in t:
                pass
            else:
                E.store(s2, tgt[1], z)
        out.append((s2, ('l', loc)))
    return out


@model('std::basic_ofstream::basic_ofstream', 'std::basic_ifstream::basic_ifstream', 'std::basic_fstream::basic_fstream')
def fstream_ctor(E, st, fr, c):
    E.drop_under(st, c.obj)
    st.mem.pop(('sst', c.obj), None)
    kind = c.name.split('::')[1]
    fname = None
    if c.args:
        fname = strval(E, st, c.args[0])
        mode = c.args[1] if len(c.args) > 1 else None
        st.emit('open', c.obj, kind, fname, c.line, fr.fn['qual'], mode)
        st.mem[('sst', c.obj)] = T('opened', c.obj, fname, st.fresh())
    else:
        st.mem[('sst', c.obj)] = T('closed', c.obj, st.fresh())
    if kind == 'basic_ofstream':
        st.mem[c.obj] = S('')
    else:
        st.mem[c.obj] = T('file', fname or S(''))
    st.mem[('fname', c.obj)] = fname or S('')
    return [(st, ('o', c.obj))]


@model('std::basic_ofstream::open', 'std::basic_ifstream::open')
def fstream_open(E, st, fr, c):
    fname = strval(E, st, c.args[0])
    kind = c.name.split('::')[1]
    st.emit('open', c.obj, kind, fname, c.line, fr.fn['qual'], c.args[1] if len(c.args) > 1 else None)
    st.mem[('sst', c.obj)] = T('opened', c.obj, fname, st.fresh())
    if kind == 'basic_ifstream':
        st.mem[c.obj] = T('file', fname)
    st.mem[('fname', c.obj)] = fname
    return ok(st)


@model('std::basic_ofstream::is_open', 'std::basic_ifstream::is_open')
def fstream_isopen(E, st, fr, c):
    return ok(st, mk_not(mk_true(T('fail', sstate(st, c.obj)))))


@model('std::basic_ofstream::close', 'std::basic_ifstream::close')
def fstream_close(E, st, fr, c):
    st.emit('fclose', c.obj, c.line)
    bump_stream(st, c.obj)
    return ok(st)


def sflag(op):
    def f(E, st, fr, c):
        v = sstate(st, c.obj)
        if op == 'bool':
            return ok(st, mk_not(mk_true(T('fail', v))))
        if op == 'not':
            return ok(st, mk_true(T('fail', v)))
        if op == 'good':
            out = []
            for s, d in E.fork_bool(st, mk_true(T('fail', v))):
                if d:
                    out.append((s, FALSE))
                else:
                    out.append((s, mk_not(mk_true(T('eof', v)))))
            return out
        return ok(st, mk_true(T(op, v)))
    return f


for _n in ('std::basic_ios::',):
    MODELS[_n + 'operator!'] = sflag('not')
    MODELS[_n + 'operator bool'] = sflag('bool')
    MODELS[_n + 'operator void *'] = sflag('bool')
    MODELS[_n + 'fail'] = sflag('fail')
    MODELS[_n + 'bad'] = sflag('bad')
    MODELS[_n + 'eof'] = sflag('eof')
    MODELS[_n + 'good'] = sflag('good')


@model('std::basic_ios::clear', 'std::basic_ios::setstate', 'std::basic_istream::seekg', 'std::basic_istream::ignore', 'std::basic_istream::unget',
       'std::basic_istream::putback')
def sclear(E, st, fr, c):
    st.emit('sop', c.name, c.obj, c.line)
    bump_stream(st, c.obj)
    return [(st, ('l', c.obj))]


@model('std::basic_ios::exceptions', 'std::basic_ios::rdstate', 'std::basic_istream::tellg', 'std::basic_istream::peek', 'std::basic_ostream::tellp',
       'std::ios_base::setf', 'std::ios_base::flags', 'std::ios_base::width', 'std::basic_ios::fill', 'std::basic_ios::rdbuf', 'std::ios_base::unsetf')
def sopaque(E, st, fr, c):
    st.emit('sop', c.name, c.obj, c.line)
    r = T('ret', c.name, st.fresh())
    if c.dest is not None:
        st.mem[c.dest] = r
        return [(st, ('o', c.dest))]
    if int_range(c.t):
        st.iv[r] = int_range(c.t)
        return ok(st, lin(r))
    return ok(st, r)


@model('std::basic_istream::read')
def istream_read(E, st, fr, c):
    n = st.norm(c.args[1])
    v = bump_stream(st, c.obj)
    k = T('gcount', v)
    st.iv[k] = (0, 2**62)
    p = c.args[0]
    l = p[1] if p[0] == 'p' else ('d', p)
    base = l[1] if l[0] == 'e' else l
    if base[0] != 'd':
        E.havoc(st, base)
    st.mem[('bytes', base)] = T('readbytes', v)
    st.mem[('cnt', c.obj)] = lin(k)
    st.emit('read', c.obj, p, n, v, c.line, fr.fn['qual'])
    out = []
    # all bytes came, the end was reached, or the stream failed
    for how in ('full', 'eof', 'error'):
        s = st.fork()
        if how == 'full':
            if not s.add_eq0(sub(lin(k), n)):
                continue
        elif not s.add_le(add(sub(lin(k), n), num(1))):
            continue
        s.facts[('true', T('fail', v))] = how != 'full'
        s.facts[('true', T('eof', v))] = how == 'eof'
        if how != 'error':
            s.facts[('true', T('bad', v))] = False
        out.append((s, ('l', c.obj)))
    return out


@model('std::basic_istream::gcount')
def istream_gcount(E, st, fr, c):
    return ok(st, st.mem.get(('cnt', c.obj), lin(T('gcount0', c.obj))))


@model('std::basic_istream::get')
def istream_get(E, st, fr, c):
    src = E.load(st, c.obj)
    v = bump_stream(st, c.obj)
    ch = T('nextchar', v)
    st.iv[ch] = (-128, 127)
    if c.args and c.args[0][0] == 'l':
        out = []
        for s, d in E.fork_bool(st, mk_not(mk_true(T('fail', v)))):
            if d:
                E.store(s, c.args[0][1], lin(ch))
                s.mem[c.obj] = T('rest', src, v)
                s.facts[('true', T('eof', v))] = False
                s.facts[('true', T('bad', v))] = False
            s.emit('get', c.obj, lin(ch), bool(d), c.line)
            out.append((s, ('l', c.obj)))
        return out
    if not c.args:
        r = T('getint', v)
        st.iv[r] = (-1, 255)
        out = []
        for s, d in E.fork_bool(st, mk_true(T('fail', v))):
            if d:
                out.append((s, num(-1)))
            else:
                s.iv[r] = (0, 255)
                s.facts[('true', T('eof', v))] = False
                s.facts[('true', T('bad', v))] = False
                s.mem[c.obj] = T('rest', src, v)
                s.emit('get', c.obj, lin(r), True, c.line)
                out.append((s, lin(r)))
        return out
    st.unknown('istream::get/%d' % len(c.args))
    return [(st, ('l', c.obj))]


@model('std::getline')
def getline(E, st, fr, c):
    loc = c.args[0][1]
    v = bump_stream(st, loc)
    st.emit('getline', loc, v, c.line)
    setobj(E, st, c.args[1][1], T('line', v))
    return [(st, ('l', loc))]


# ------------------------------------------------------------------ containers
def listval(E, st, loc):
    v = E.load(st, loc)
    if v[0] == 'L':
        return v
    return ('L', (), v, ())


def item_of(E, st, a, c):
    """value stored in the container for an argument"""
    if a[0] in ('l', 'o'):
        loc = a[1]
        cls = None
        cs = st.typ.get(loc)
        if cs and len(cs) == 1:
            cls = next(iter(cs))
        fields = tuple(sorted(((l, v) for l, v in st.mem.items() if under(l, loc) and l != loc), key=lambda x: skey(x[0])))
        from .engine import rebase
        if fields:
            root = ('root',)
            return ('obj', cls, tuple((rebase(l, loc, root), v) for l, v in fields))
        return E.load(st, loc)
    return a


def under(l, base):
    from .engine import under as u
    return u(l, base)


def elem_loc(E, st, v):
    """location to access a stored item"""
    if v[0] == 'obj':
        from .engine import rebase
        loc = ('t', 'elem', st.fresh())
        for l, x in v[2]:
            st.mem[rebase(l, ('root',), loc)] = x
        if v[1]:
            st.typ[loc] = frozenset([v[1]])
        return loc
    loc = ('t', 'elem', st.fresh())
    st.mem[loc] = v
    return loc


def op_elem(c, term):
    """location of an element that exists only symbolically"""
    t = c.e.get('t') or ''
    return ('d', term)


def lm(*names):
    ns = []
    for n in names:
        for k in ('list', 'vector', 'deque'):
            ns.append('std::%s::%s' % (k, n))
    return model(*ns)


@lm('push_back', 'emplace_back')
def l_push_back(E, st, fr, c):
    L = listval(E, st, c.obj)
    it = item_of(E, st, c.args[0], c)
    E.store(st, c.obj, ('L', L[1], L[2], L[3] + (it,)) if L[2] is not None else ('L', L[1] + (it,), None, ()))
    st.emit('push_back', c.obj, it, c.line)
    return ok(st)


@lm('push_front', 'emplace_front')
def l_push_front(E, st, fr, c):
    L = listval(E, st, c.obj)
    it = item_of(E, st, c.args[0], c)
    E.store(st, c.obj, ('L', (it,) + L[1], L[2], L[3]))
    st.emit('push_front', c.obj, it, c.line)
    return ok(st)


def lempty(L):
    if L[1] or L[3]:
        return FALSE
    if L[2] is None:
        return TRUE
    return mk_eq0(lin(T('lsize', L[2])))


@lm('empty')
def l_empty(E, st, fr, c):
    return ok(st, lempty(listval(E, st, c.obj)))


@lm('size')
def l_size(E, st, fr, c):
    L = listval(E, st, c.obj)
    n = num(len(L[1]) + len(L[3]))
    if L[2] is not None:
        n = add(n, lin(T('lsize', L[2])))
    return ok(st, n)


@lm('front')
def l_front(E, st, fr, c):
    L = listval(E, st, c.obj)
    if L[1]:
        return [(st, ('l', elem_loc(E, st, L[1][0])))]
    if L[2] is None:
        if L[3]:
            return [(st, ('l', elem_loc(E, st, L[3][0])))]
        E.abort(st, 'front-of-empty', fr, c.line, c.obj)
        return []
    if st.decide(lempty(L)) != 0:
        st.emit('front-maybe-empty', c.obj, c.line)
        if st.decide(lempty(L)) == 1:
            E.abort(st, 'front-of-empty', fr, c.line, c.obj)
            return []
    t = c.e.get('t') or ''
    v = T('front', L[2])
    if t.endswith('*'):
        loc = ('t', 'elem', st.fresh())
        st.mem[loc] = v
        st.facts.setdefault(('null', v), False)
        return [(st, ('l', loc))]
    return [(st, ('l', ('d', v)))]


@lm('back')
def l_back(E, st, fr, c):
    L = listval(E, st, c.obj)
    if L[3]:
        return [(st, ('l', elem_loc(E, st, L[3][-1])))]
    if L[2] is None and L[1]:
        return [(st, ('l', elem_loc(E, st, L[1][-1])))]
    v = T('back', L[2] or num(0))
    return [(st, ('l', ('d', v)))]


@lm('pop_front')
def l_pop_front(E, st, fr, c):
    L = listval(E, st, c.obj)
    if L[1]:
        n = ('L', L[1][1:], L[2], L[3])
    elif L[2] is None:
        n = ('L', (), None, L[3][1:])
        if not L[3]:
            E.abort(st, 'pop-of-empty', fr, c.line, c.obj)
            return []
    else:
        d = st.decide(lempty(L))
        if d == 1:
            E.abort(st, 'pop-of-empty', fr, c.line, c.obj)
            return []
        if d is None:
            st.emit('front-maybe-empty', c.obj, c.line)
        n = ('L', (), T('tail', L[2]), L[3])
    E.store(st, c.obj, n)
    st.emit('pop_front', c.obj, c.line)
    return ok(st)


@lm('pop_back')
def l_pop_back(E, st, fr, c):
    L = listval(E, st, c.obj)
    if L[3]:
        n = ('L', L[1], L[2], L[3][:-1])
    elif L[2] is None and L[1]:
        n = ('L', L[1][:-1], None, ())
    else:
        n = ('L', L[1], T('init_of', L[2] or num(0)), ())
    E.store(st, c.obj, n)
    st.emit('pop_back', c.obj, c.line)
    return ok(st)


@lm('clear')
def l_clear(E, st, fr, c):
    st.emit('clear', c.obj, listval(E, st, c.obj), c.line)
    E.store(st, c.obj, EMPTY)
    return ok(st)


@lm('resize')
def l_resize(E, st, fr, c):
    n = st.norm(c.args[0])
    if isnum(n) and n[1] == 0:
        st.emit('clear', c.obj, listval(E, st, c.obj), c.line)
        E.store(st, c.obj, EMPTY)
    else:
        L = listval(E, st, c.obj)
        E.store(st, c.obj, ('L', (), T('resized', L, n), ()))
        st.unknown('list resize')
    return ok(st)


@model('std::list::list', 'std::vector::vector', 'std::deque::deque')
def l_ctor(E, st, fr, c):
    E.drop_under(st, c.obj)
    if c.args and c.args[0][0] in ('l', 'o') and (c.e.get('copy') or len(c.args) == 1):
        src = c.args[0][1]
        v = E.load(st, src)
        if c.e.get('pr', ['c'])[0] == 'm':
            st.mem[c.obj] = v
            E.store(st, src, EMPTY)
        else:
            st.mem[c.obj] = v
    elif not c.args or (c.args[0][0] in ('l', 'o') and len(c.args) == 1):
        st.mem[c.obj] = EMPTY
    elif len(c.args) >= 2 and all(a[0] in ('p', 't') for a in c.args[:2]):
        st.mem[c.obj] = ('L', (), T('range', c.args[0], c.args[1]), ())
    else:
        n = st.norm(c.args[0]) if c.args[0][0] == 'n' else None
        st.mem[c.obj] = ('L', (), T('lfill', n or num(0), tuple(x if x[0] != 'l' else E.load(st, x[1]) for x in c.args[1:])), ())
        if n is not None:
            st.add_eq0(sub(lin(T('lsize', st.mem[c.obj][2])), n))
    return [(st, ('o', c.obj))]


@lm('operator=')
def l_assign(E, st, fr, c):
    v = E.load(st, c.args[0][1])
    E.store(st, c.obj, v)
    st.emit('lassign', c.obj, v, c.line)
    return [(st, ('l', c.obj))]


@lm('assign')
def l_assign2(E, st, fr, c):
    a = [E.load(st, x[1]) if x[0] in ('o', 'l') else x for x in c.args]
    v = ('L', (), T('range', *a), ())
    E.store(st, c.obj, v)
    st.emit('lassign', c.obj, v, c.line, tuple(a))
    return ok(st)


@lm('swap')
def l_swap(E, st, fr, c):
    a, b = E.load(st, c.obj), E.load(st, c.args[0][1])
    E.store(st, c.obj, b)
    E.store(st, c.args[0][1], a)
    st.emit('swap', c.obj, c.args[0][1], c.line)
    return ok(st)


@model('std::swap')
def std_swap(E, st, fr, c):
    la, lb = c.args[0][1], c.args[1][1]
    va, vb = E.load(st, la), E.load(st, lb)
    E.store(st, la, vb)
    E.store(st, lb, va)
    st.emit('swap', la, lb, c.line)
    return ok(st)


@model('std::list::splice')
def l_splice(E, st, fr, c):
    other = c.args[1][1] if c.args[1][0] == 'l' else None
    it = c.args[0]
    itv = E.load(st, it[1]) if it[0] in ('o', 'l') else it
    A, Bv = listval(E, st, c.obj), listval(E, st, other)
    if len(c.args) == 2 and itv[0] == 't' and itv[1] == 'lend' and itv[2] == c.obj or len(c.args) == 2 and itv == T('lend', c.obj):
        E.store(st, c.obj, lcat(A, Bv))
    elif len(c.args) == 2 and (itv[0] == 't' and itv[1] == 'lbegin' or itv[:4] == T('it', c.obj, num(0))[:4]):
        E.store(st, c.obj, lcat(Bv, A))
    else:
        st.unknown('splice')
        E.store(st, c.obj, ('L', (), T('spliced', st.fresh()), ()))
    E.store(st, other, EMPTY)
    st.emit('splice', c.obj, other, Bv, c.line)
    return ok(st)


def lcat(A, B_):
    if B_[2] is None and not B_[1] and not B_[3]:
        return A
    if A[2] is None and not A[1] and not A[3]:
        return B_
    if A[2] is None:
        return ('L', A[1] + A[3] + B_[1], B_[2], B_[3]) if B_[2] is not None else ('L', A[1] + A[3] + B_[1] + B_[3], None, ())
    if B_[2] is None:
        return ('L', A[1], A[2], A[3] + B_[1] + B_[3])
    return ('L', A[1], T('lcat', A[2], A[3] + B_[1], B_[2]), B_[3])


@lm('begin', 'cbegin')
def l_begin(E, st, fr, c):
    return it_ret(E, st, c, T('it', c.obj, num(0)))


@lm('end', 'cend')
def l_end(E, st, fr, c):
    return it_ret(E, st, c, T('lend', c.obj))


@lm('rbegin', 'crbegin', 'rend', 'crend')
def l_rbegin(E, st, fr, c):
    return it_ret(E, st, c, T('lrev', S(c.name.split('::')[-1]), c.obj))


@lm('insert')
def l_insert(E, st, fr, c):
    L = listval(E, st, c.obj)
    it = c.args[0]
    itv = E.load(st, it[1]) if it[0] in ('o', 'l') else it
    if len(c.args) == 2:
        x = item_of(E, st, c.args[1], c)
        if itv == T('lend', c.obj):
            c2 = c
            E.store(st, c.obj, ('L', L[1], L[2], L[3] + (x,)) if L[2] is not None else ('L', L[1] + (x,), None, ()))
            st.emit('push_back', c.obj, x, c.line)
            return it_ret(E, st, c, T('it', 'ins', st.fresh()))
        if itv == T('it', c.obj, num(0)):
            E.store(st, c.obj, ('L', (x,) + L[1], L[2], L[3]))
            st.emit('push_front', c.obj, x, c.line)
            return it_ret(E, st, c, T('it', 'ins', st.fresh()))
    st.unknown('list insert')
    E.store(st, c.obj, ('L', (), T('linserted', L, st.fresh()), ()))
    return it_ret(E, st, c, T('it', 'ins', st.fresh()))


@lm('erase')
def l_erase(E, st, fr, c):
    L = listval(E, st, c.obj)
    it = c.args[0]
    itv = E.load(st, it[1]) if it[0] in ('o', 'l') else it
    if len(c.args) == 1 and itv == T('it', c.obj, num(0)):
        l_pop_front(E, st, fr, c)
        return it_ret(E, st, c, T('it', c.obj, num(0)))
    st.unknown('list erase')
    E.store(st, c.obj, ('L', (), T('lerased', L, st.fresh()), ()))
    return it_ret(E, st, c, T('it', 'er', st.fresh()))


@model('std::vector::operator[]', 'std::deque::operator[]', 'std::vector::at')
def v_index(E, st, fr, c):
    L = listval(E, st, c.obj)
    i = st.norm(c.args[0])
    st.emit('vindex', c.obj, L, i, c.line, fr.fn['qual'])
    if L[2] is None and isnum(i) and 0 <= i[1] < len(L[1]):
        return [(st, ('l', elem_loc(E, st, L[1][i[1]])))]
    return [(st, ('l', ('e', ('vec', c.obj), i)))]


@model('std::vector::data')
def v_data(E, st, fr, c):
    return ok(st, ('p', ('e', ('vec', c.obj), num(0))))


def itermethod(name):
    return ['std::%s::%s' % (k, name) for k in ('_List_iterator', '_List_const_iterator', '_Deque_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', 'reverse_iterator')] + ['__gnu_cxx::__normal_iterator::%s' % name]


def it_next(it, k=1):
    if it[0] == 'p':
        return None
    if it[0] == 't' and it[1] == 'it' and len(it) == 4 and isinstance(it[3], tuple) and it[3][0] == 'n':
        return T('it', it[2], add(it[3], num(k)))
    if it[0] == 't' and it[1] == 'itn':
        n = it[3] + k
        return it[2] if n == 0 else T('itn', it[2], n)
    return T('itn', it, k)


@model(*itermethod('operator++'))
def it_inc(E, st, fr, c):
    it = E.load(st, c.obj)
    if it[0] == 'p':
        nv = E.ptradd(st, it, num(1))
    else:
        nv = it_next(it)
    E.store(st, c.obj, nv)
    if c.args or c.dest is not None and not c.e.get('lv'):
        return it_ret(E, st, c, it)
    return [(st, ('l', c.obj))]


@model(*itermethod('operator--'))
def it_dec(E, st, fr, c):
    it = E.load(st, c.obj)
    nv = E.ptradd(st, it, num(-1)) if it[0] == 'p' else it_next(it, -1)
    E.store(st, c.obj, nv)
    if c.args or c.dest is not None and not c.e.get('lv'):
        return it_ret(E, st, c, it)
    return [(st, ('l', c.obj))]


@model(*(itermethod('operator+') + itermethod('operator-')))
def it_plus(E, st, fr, c):
    it = E.load(st, c.obj)
    if c.args and c.args[0][0] == 'n':
        k = c.args[0] if c.name.endswith('+') else scale(c.args[0], -1)
        if it[0] == 'p':
            return it_ret(E, st, c, E.ptradd(st, it, k))
        if isnum(st.norm(k)):
            return it_ret(E, st, c, it_next(it, st.norm(k)[1]))
    return it_ret(E, st, c, T('itplus', it, st.fresh()))


@model(*(itermethod('operator+=') + itermethod('operator-=')))
def it_pluseq(E, st, fr, c):
    it = E.load(st, c.obj)
    k = c.args[0] if c.name.endswith('+=') else scale(c.args[0], -1)
    if it[0] == 'p':
        E.store(st, c.obj, E.ptradd(st, it, k))
    elif isnum(st.norm(k)):
        E.store(st, c.obj, it_next(it, st.norm(k)[1]))
    else:
        E.store(st, c.obj, T('itplus', it, st.fresh()))
    return [(st, ('l', c.obj))]


def it_target(E, st, it, c):
    if it[0] == 'p':
        return it[1]
    if it[0] == 't' and it[1] == 'it' and len(it) == 4:
        L = listval(E, st, it[2])
        k = it[3]
        if isnum(k) and 0 <= k[1] < len(L[1]):
            return elem_loc(E, st, L[1][k[1]])
        if L[2] is not None and not L[1]:
            if k == num(0):
                # the first element, as front() names it
                v = T('front', L[2])
                st.facts.setdefault(('null', v), False)
                if (c.e.get('t') or '').endswith('*') and not c.name.endswith('->'):
                    loc = ('t', 'elem', st.fresh())
                    st.mem[loc] = v
                    return loc
                return ('d', v)
            return ('d', T('elem', it, L[2]))
    return ('d', T('elem', it))


@model(*(itermethod('operator*') + itermethod('operator->')))
def it_deref(E, st, fr, c):
    it = E.load(st, c.obj)
    loc = it_target(E, st, it, c)
    if c.name.endswith('->'):
        return ok(st, mkptr(loc))
    t = c.e.get('t') or ''
    if t.endswith('*') and loc[0] == 'd':
        v = T('val', loc[1])
        if loc not in st.mem:
            st.mem[loc] = v
            st.facts.setdefault(('null', v), False)
    return [(st, ('l', loc))]


@model(*(itermethod('operator==') + itermethod('operator!=')))
def it_eq(E, st, fr, c):
    a = E.load(st, c.obj)
    b = E.load(st, c.args[0][1]) if c.args[0][0] in ('l', 'o') else c.args[0]
    r = iteq(E, st, a, b)
    return ok(st, mk_not(r) if c.name.endswith('!=') else r)


@model('std::_List_const_iterator::_List_const_iterator', 'std::_List_iterator::_List_iterator', '__gnu_cxx::__normal_iterator::__normal_iterator',
       'std::_Rb_tree_iterator::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator::_Rb_tree_const_iterator')
def it_ctor(E, st, fr, c):
    if c.args:
        st.mem[c.obj] = E.load(st, c.args[0][1]) if c.args[0][0] in ('l', 'o') else c.args[0]
    else:
        st.mem[c.obj] = T('itnone')
    return [(st, ('o', c.obj))]


@model(*itermethod('operator='))
def it_asg(E, st, fr, c):
    E.store(st, c.obj, E.load(st, c.args[0][1]))
    return [(st, ('l', c.obj))]


def iteq(E, st, a, b):
    """equality of two iterators (or other scalar like objects)"""
    for x, y in ((a, b), (b, a)):
        if y[0] == 't' and y[1] == 'lend' and len(y) == 3:
            if x == y:
                return TRUE
            if x[0] == 't' and x[1] == 'it' and len(x) == 4 and x[2] == y[2]:
                L = listval(E, st, y[2])
                k = x[3]
                n = num(len(L[1]) + len(L[3]))
                if L[2] is not None:
                    n = add(n, lin(T('lsize', L[2])))
                return mk_eq0(sub(n, k))
    if a[0] == 'p' and b[0] == 'p' and a[1][0] in ('c', 'e') and b[1][0] == a[1][0] and a[1][1] == b[1][1]:
        return mk_eq0(sub(a[1][2], b[1][2]))
    if a[0] in ('n', 'B') or b[0] in ('n', 'B'):
        return mk_eq0(sub(lin(a), lin(b)))
    return mk_eq(a, b)


# ------------------------------------------------------------------ smart pointers
@model('std::unique_ptr::unique_ptr', 'std::shared_ptr::shared_ptr', 'std::auto_ptr::auto_ptr')
def up_ctor(E, st, fr, c):
    if not c.args:
        st.mem[c.obj] = NULL
    elif c.args[0][0] in ('l', 'o'):
        src = c.args[0][1]
        st.mem[c.obj] = E.load(st, src)
        st.mem[src] = NULL
    else:
        st.mem[c.obj] = c.args[0]
    st.emit('upown', c.obj, st.mem[c.obj], c.line)
    return [(st, ('o', c.obj))]


@model('std::unique_ptr::get', 'std::unique_ptr::operator->', 'std::shared_ptr::get', 'std::shared_ptr::operator->', 'std::auto_ptr::get', 'std::auto_ptr::operator->',
       'std::__shared_ptr::get', 'std::__shared_ptr_access::operator->')
def up_get(E, st, fr, c):
    return ok(st, E.load(st, c.obj))


@model('std::unique_ptr::operator*', 'std::shared_ptr::operator*', 'std::auto_ptr::operator*', 'std::__shared_ptr_access::operator*')
def up_deref(E, st, fr, c):
    l = E.deref(st, E.load(st, c.obj), fr, c.line)
    return [(st, ('l', l))] if l is not None else []


@model('std::unique_ptr::operator bool', 'std::shared_ptr::operator bool', 'std::__shared_ptr::operator bool')
def up_bool(E, st, fr, c):
    return ok(st, mk_not(mk_null(E.load(st, c.obj))))


@model('std::unique_ptr::operator[]')
def up_index(E, st, fr, c):
    p = E.ptradd(st, E.load(st, c.obj), lin(c.args[0]))
    l = E.deref(st, p, fr, c.line)
    if l is None:
        return []
    E.note_index(st, l, fr, c.e)
    return [(st, ('l', l))]


@model('std::unique_ptr::release', 'std::auto_ptr::release')
def up_release(E, st, fr, c):
    v = E.load(st, c.obj)
    st.mem[c.obj] = NULL
    st.emit('uprelease', c.obj, v, c.line)
    return ok(st, v)


@model('std::unique_ptr::reset', 'std::unique_ptr::operator=')
def up_reset(E, st, fr, c):
    old = E.load(st, c.obj)
    a = c.args[0] if c.args else NULL
    if a[0] in ('l', 'o'):
        src = a[1]
        a = E.load(st, src)
        st.mem[src] = NULL
    st.mem[c.obj] = a
    cls = c.e.get('oc') or c.e.get('mc')
    return [(s, ('l', c.obj)) for s in up_delete(E, st, old, cls, fr, c.line)]


@model('std::make_unique')
def make_unique(E, st, fr, c):
    return None


# ------------------------------------------------------------------ C library
@model('malloc', 'std::malloc')
def c_malloc(E, st, fr, c):
    loc = ('h', 'malloc', st.fresh(), c.line)
    s2 = st.fork()
    st.mem[('alive', loc)] = S('malloc')
    st.mem[('count', loc)] = st.norm(c.args[0])
    st.emit('new', loc, 'malloc', True, c.line, fr.fn['qual'], c.args[0])
    out = [(st, ('p', loc))]
    if 'malloc_null' in E.flags:
        s2.emit('malloc-null', c.line)
        out.append((s2, NULL))
    return out


@model('free', 'std::free')
def c_free(E, st, fr, c):
    v = c.args[0]
    out = []
    for s, d in E.fork_bool(st, mk_null(v)):
        if d:
            out.append((s, ('void',)))
            continue
        loc = v[1] if v[0] == 'p' else ('d', v)
        base = loc[1] if loc[0] == 'e' else loc
        s.emit('del', base, 'free', c.line, fr.fn['qual'], v)
        E.release(s, base, 'free', fr, c.line)
        out.append((s, ('void',)))
    return out


@model('memcpy', 'std::memcpy', 'memmove', 'std::memmove')
def c_memcpy(E, st, fr, c):
    d, s, n = c.args
    l = d[1] if d[0] == 'p' else ('d', d)
    base = l[1] if l[0] == 'e' else l
    if base in E.arrays:
        return arr_move(E, st, c, d, s, st.norm(lin(n)), 8)
    st.mem[('bytes', base)] = ('cpy', s, st.norm(n))
    st.emit('memcpy', d, s, st.norm(n), c.line)
    return ok(st, d)


def arr_move(E, st, c, d, s, n, size, ret=None):
    """move n/size elements of an array that is held as one value"""
    base, to = d[1][1], lin(d[1][2])
    ok_ = s[0] == 'p' and s[1][0] == 'e' and s[1][1] == base
    if ok_ and n[1] % size == 0 and all(k % size == 0 for t, k in n[2]):
        cnt = ('n', n[1] // size, tuple((t, k // size) for t, k in n[2]))
        st.mem[('f', base, '[]')] = T('move', E.arrval(st, base), to, lin(s[1][2]), cnt)
    else:
        E.store(st, ('f', base, '[]'), T('hav', base, st.fresh()))
    st.emit('memcpy', d, s, n, c.line)
    return ok(st, ret or d)


@model('std::copy', 'std::move')
def c_copy(E, st, fr, c):
    if len(c.args) == 3 and c.args[2][0] == 'p' and c.args[2][1][0] == 'e' and c.args[2][1][1] in E.arrays \
            and all(a[0] == 'p' and a[1][0] == 'e' and a[1][1] == c.args[2][1][1] for a in c.args[:2]):
        a, b, d = c.args
        n = st.norm(sub(lin(b[1][2]), lin(a[1][2])))
        return arr_move(E, st, c, d, a, n, 1, ('p', ('e', d[1][1], add(lin(d[1][2]), n))))
    return None


@model('strncmp', 'std::strncmp')
def c_strncmp(E, st, fr, c):
    a, b, n = cstr(E, st, c.args[0]), cstr(E, st, c.args[1]), st.norm(lin(c.args[2]))
    if a[0] != 's':
        a, b = b, a
    if a[0] == 's' and isnum(n):
        if n[1] <= len(a[1]):
            a, b = S(a[1][:n[1]]), T('prefix', b, n)
    else:
        a, b = T('prefix', a, n), T('prefix', b, n)
    out = []
    for s, d in E.fork_bool(st, mk_eq(a, b)):
        if d:
            out.append((s, num(0)))
        else:
            r = T('cmp', a, b)
            s.iv[r] = (-2**31, 2**31 - 1)
            s.assume(mk_eq0(lin(r)), 0)
            out.append((s, lin(r)))
    return out


@model('memcmp', 'std::memcmp')
def c_memcmp(E, st, fr, c):
    a, b, n = c.args
    n = st.norm(n)
    st.emit('memcmp', a, b, n, c.line)
    x, y = sorted((a, b), key=skey)
    out = []
    for s, d in E.fork_bool(st, ('b', ('memeq', x, y, n), 1)):
        if d:
            out.append((s, num(0)))
        else:
            r = T('memcmp', a, b, n)
            s.iv[r] = (-2**31, 2**31 - 1)
            s.assume(mk_eq0(lin(r)), 0)
            out.append((s, lin(r)))
    return out


@model('strcmp', 'std::strcmp')
def c_strcmp(E, st, fr, c):
    out = []
    for a in c.args:
        if st.decide_null(a) is None:
            E.null_derefs.append((st.fork(), fr, c.line, a))
    a, b = cstr(E, st, c.args[0]), cstr(E, st, c.args[1])
    for s, d in E.fork_bool(st, mk_eq(a, b)):
        if d:
            out.append((s, num(0)))
        else:
            r = T('cmp', a, b)
            s.iv[r] = (-2**31, 2**31 - 1)
            s.assume(mk_eq0(lin(r)), 0)
            out.append((s, lin(r)))
    return out


@model('strlen', 'std::strlen')
def c_strlen(E, st, fr, c):
    return ok(st, strlen(cstr(E, st, c.args[0])))


@model('strnlen')
def c_strnlen(E, st, fr, c):
    n = lin(c.args[1])
    t = T('strnlen', c.args[0], st.norm(n))
    st.iv.setdefault(t, (0, 2**31 - 1))
    st.assume(mk_le(sub(lin(t), n)))
    return ok(st, lin(t))


@model('strcpy', 'std::strcpy')
def c_strcpy(E, st, fr, c):
    d = c.args[0]
    l = d[1] if d[0] == 'p' else ('d', d)
    base = l[1] if l[0] == 'e' else l
    E.havoc(st, base)
    st.mem[('str', base)] = cstr(E, st, c.args[1])
    st.emit('strcpy', base, c.line)
    return ok(st, d)


@model('strtol', 'std::strtol', 'atoi', 'std::atoi', 'atol')
def c_strtol(E, st, fr, c):
    s = cstr(E, st, c.args[0])
    r = T('strtol', s, *c.args[2:])
    t = c.t
    st.iv.setdefault(r, int_range(t) or (-2**63, 2**63 - 1))
    return ok(st, lin(r))


@model('getenv', 'std::getenv')
def c_getenv(E, st, fr, c):
    r = T('getenv', cstr(E, st, c.args[0]))
    out = []
    for s, d in E.fork_bool(st, mk_null(r)):
        out.append((s, NULL if d else r))
    return out


@model('std::abs', 'abs', 'fabs', 'std::fabs', 'labs', 'std::labs')
def c_abs(E, st, fr, c):
    a = c.args[0]
    t = c.t
    if is_float(t) or is_float(c.e.get('rt')):
        if a[0] == 'fl':
            return ok(st, ('fl', repr(abs(float(a[1])))))
        return ok(st, T('fabs', a))
    a = st.norm(a)
    if isnum(a):
        return ok(st, num(abs(a[1])))
    r = T('abs', unlin(a))
    return ok(st, lin(r))


@model('std::numeric_limits::epsilon', 'std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest')
def c_limits(E, st, fr, c):
    t = c.e.get('mc') or ''
    t = t[t.find('<') + 1:t.rfind('>')]
    r = int_range(t)
    k = c.name.split('::')[-1]
    if r:
        return ok(st, num({'epsilon': 0, 'max': r[1], 'min': r[0], 'lowest': r[0]}[k]))
    return ok(st, T('limit', S(k), S(t)))


@model('time', 'std::time', 'gethostname', 'getcwd', 'stat', 'access', 'chdir', 'fopen', 'lstat')
def c_sys(E, st, fr, c):
    """system calls that report failure by their result; buffers are written on success only"""
    n = c.name.replace('std::', '')
    r = T('sys', n, st.fresh())
    args = tuple(cstr(E, st, a) if (c.e['a'][i].get('t') or '').endswith('char *') and n in ('stat', 'access', 'chdir', 'lstat', 'fopen') else a for i, a in enumerate(c.args))
    okv, failv = (r, NULL) if n in ('getcwd', 'fopen') else (num(0), num(-1))
    if n == 'time':
        s = st
        s.emit('sys', n, args, True, c.line, r)
        for a in c.args:
            if a[0] == 'p':
                s.mem[a[1]] = lin(T('now', s.fresh()))
        return ok(s, lin(r))
    out = []
    key = ('sysok', n) + tuple(args) if n in ('access',) else ('sysok', n, st.fresh())
    if n in ('stat', 'lstat'):
        key = ('sysok', n, args[0], st.gen)
    for s, d in E.fork_bool(st, ('b', key, 1)):
        s.emit('sys', n, args, bool(d), c.line, r)
        if d:
            for i, a in enumerate(c.args):
                if a[0] != 'p':
                    continue
                l = a[1]
                base = l[1] if l[0] == 'e' else l
                if n == 'getcwd' or n == 'gethostname':
                    E.havoc(s, base)
                    s.mem[('str', base)] = T(n, s.fresh())
                elif n in ('stat', 'lstat') and i == 1:
                    E.havoc(s, base)
                    s.mem[('statof', base)] = args[0]
                    s.mem[('f', base, 'stat::st_mode')] = lin(T('st_mode', args[0], ('g', s.gen)))
                    s.iv[T('st_mode', args[0], ('g', s.gen))] = (0, 2**32 - 1)
            if okv == r:
                s.facts[('null', r)] = False
        out.append((s, args[0] if d and n == 'getcwd' and args[0][0] == 'p' else okv if d else failv))
    return out


@model('ctime', 'std::ctime')
def c_ctime(E, st, fr, c):
    if c.args and c.args[0][0] == 'p':
        undefined(E, st, c.args[0][1])
    r = T('ctime', st.fresh())
    st.facts[('null', r)] = False
    st.emit('sys', 'ctime', tuple(c.args), True, c.line, r)
    return ok(st, r)


@model('opendir')
def c_opendir(E, st, fr, c):
    loc = ('h', 'opendir', st.fresh(), c.line)
    name = cstr(E, st, c.args[0])
    s2 = st.fork()
    st.mem[('alive', loc)] = S('ext')
    st.emit('new', loc, 'opendir', False, c.line, fr.fn['qual'], name)
    s2.emit('sys', 'opendir', (name,), False, c.line, NULL)
    return [(st, ('p', loc)), (s2, NULL)]


@model('closedir')
def c_closedir(E, st, fr, c):
    v = c.args[0]
    if st.decide_null(v) == 1:
        E.abort(st, 'null-deref', fr, c.line, v)
        return []
    loc = v[1] if v[0] == 'p' else ('d', v)
    st.emit('del', loc, 'closedir', c.line, fr.fn['qual'], v)
    E.release(st, loc, 'closedir', fr, c.line)
    return ok(st, num(0))


@model('readdir')
def c_readdir(E, st, fr, c):
    v = c.args[0]
    if st.decide_null(v) == 1:
        E.abort(st, 'null-deref', fr, c.line, v)
        return []
    loc = v[1] if v[0] == 'p' else ('d', v)
    if ('dead', loc) in st.mem:
        E.abort(st.fork(), 'use-after-release', fr, c.line, loc)
    r = T('dirent', loc, st.fresh())
    s2 = st.fork()
    st.facts[('null', r)] = False
    st.emit('readdir', loc, r, c.line)
    return [(st, r), (s2, NULL)]


@model('__assert_fail')
def c_assert(E, st, fr, c):
    E.abort(st, 'assert', fr, c.line, c.args[0])
    return []


@model('abort', 'std::abort', 'std::terminate', 'exit', 'std::exit', '_exit', 'quick_exit')
def c_abort(E, st, fr, c):
    st.emit('exit', c.name, tuple(c.args), c.line)
    E.abort(st, 'exit:' + c.name, fr, c.line)
    return []


@model('std::set_unexpected', 'std::set_terminate')
def c_set(E, st, fr, c):
    return ok(st, T('ret', c.name, st.fresh()))


@model('std::move', 'std::forward', 'std::as_const')
def c_move(E, st, fr, c):
    return [(st, ('l', c.args[0][1]))]


@model('std::min', 'std::max')
def c_minmax(E, st, fr, c):
    la, lb = c.args[0][1], c.args[1][1]
    a, b = E.load(st, la), E.load(st, lb)
    if a[0] not in ('n',) or b[0] not in ('n',):
        return [(st, ('l', ('d', T(c.name, a, b))))]
    out = []
    for s, d in E.fork_bool(st, mk_le(add(sub(b, a), num(1)))):      # b < a
        if c.name.endswith('min'):
            out.append((s, ('l', lb if d else la)))
        else:
            out.append((s, ('l', la if d else lb)))
    return out


@model('std::advance')
def c_advance(E, st, fr, c):
    return None


def exc_ctor(E, st, fr, c):
    st.mem[c.obj] = strval(E, st, c.args[0]) if c.args else S(c.name)
    return [(st, ('o', c.obj))]


for _n in ('runtime_error', 'logic_error', 'bad_alloc', 'exception', 'invalid_argument', 'out_of_range', 'length_error', 'domain_error', 'range_error',
           'overflow_error', 'underflow_error', 'bad_cast', 'bad_exception'):
    MODELS['std::%s::%s' % (_n, _n)] = exc_ctor


@model('std::exception::what', 'std::runtime_error::what', 'std::logic_error::what', 'std::bad_alloc::what', 'std::bad_cast::what')
def exc_what(E, st, fr, c):
    r = T('what', st.fresh())
    st.facts[('null', r)] = False
    return ok(st, r)


@model('std::operator|', 'std::operator&', 'std::operator|=', 'std::operator&=', 'std::operator~', 'std::operator^')
def flags_op(E, st, fr, c):
    op = c.e.get('op')
    if op and op.endswith('=') and c.args[0][0] == 'l':
        l = c.args[0][1]
        old = E.load(st, l)
        b = c.args[1]
        v = num(lin(old)[1] | lin(b)[1]) if op == '|=' and isnum(lin(old)) and isnum(lin(b)) else T('flags' + op, old, b)
        E.store(st, l, v)
        return [(st, ('l', l))]
    a = [lin(x) for x in c.args]
    if len(a) == 2 and all(isnum(x) for x in a) and op in ('|', '&'):
        return ok(st, num(a[0][1] | a[1][1] if op == '|' else a[0][1] & a[1][1]))
    return ok(st, lin(T('flags' + str(op), *c.args)))


@model('std::allocator::allocator')
def alloc_ctor(E, st, fr, c):
    return [(st, ('o', c.obj))]
